// prefix of the tool sources: exit() ends the tool, not the check (an exception carries the code to the harness)
#pragma once
#ifdef __cplusplus
#include <cstdlib>
#include <thread>
namespace std { [[noreturn]] void tool_exit(int code); }
[[noreturn]] inline void tool_exit(int code) { std::tool_exit(code); }
#define exit tool_exit
#endif
