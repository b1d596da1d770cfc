// Running a command line tool of the repository inside of a harness: its main with given arguments, its output and exit code.
#pragma once
#include "gx.h"
#include <iostream>
#include <sstream>
int tool_main(int argc, const char *argv[]);
struct ToolExit { int code; };
namespace std { [[noreturn]] void tool_exit(int code) { throw ToolExit { code }; } }
struct ToolRun { int rc; std::string out; };
inline ToolRun runTool(const std::vector<std::string> &args) {
   std::vector<const char *> av; av.push_back("tool"); for (auto &a : args) av.push_back(a.c_str());
   int n = (int) av.size(); av.push_back(nullptr);
   std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf());
   ToolRun r { 0, {} };
   try { r.rc = tool_main(n, av.data()); } catch (const ToolExit &e) { r.rc = e.code; }
   r.out = os.str(); std::cout.rdbuf(old);
   return r;
}
inline bool has(const std::string &s, const std::string &p) { return s.find(p) != std::string::npos; }
