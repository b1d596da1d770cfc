// One abstract interface to the API, implemented by the class and by every exported language interface.
#pragma once
typedef void (*CbStore)(const int *, const double *);
typedef int (*CbEx)(const int *, const double *, int, void *);
typedef int (*CbFilt)(const int *, const double *, void *);
typedef void (*CbDom)(int, int, void *);
struct Api {
   virtual ~Api() {}
#define FN(r, n, params, refargs, ptrargs) virtual r n params = 0;
#include "c27_api.inc"
#undef FN
};
Api *makeLoaded(int how); // through the loader in gdxcc.c: 0 = C functions, 1 = C++ wrapper class
