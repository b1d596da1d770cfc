// The interfaces that include gdxcc.h (loaded C functions and the C++ wrapper around them).
#include "symx_api.h"
#include <string>
#include <stdexcept>
#include <cstring>
#include "gdxcc.h"
#define gdx gdxw
#include "gdxcppwrap.hpp"
#undef gdx

#include "c27_api.h"

struct CApi : Api { gdxHandle_t h = nullptr;
   CApi() { char msg[256]; memset(msg, 'x', sizeof msg); symx_assert(gdxCreate(&h, msg, sizeof msg) == 1 && h && !msg[0], "creating a handle through the loader"); }
   ~CApi() override { symx_assert(gdxFree(&h) == 1 && !h, "freeing the handle"); }
#define FN(r, n, params, refargs, ptrargs) r n params override { return ::n ptrargs; }
#include "c27_api.inc"
#undef FN
};
struct CppApi : Api { std::string msg; gdxw::TGXFileObj o; CppApi() : o(msg) {}
#define FN(r, n, params, refargs, ptrargs) r n params override { return o.n refargs; }
#include "c27_api.inc"
#undef FN
};
Api *makeLoaded(int how) { if (how) return new CppApi; return new CApi; }
