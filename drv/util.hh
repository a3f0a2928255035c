#pragma once
#include "io.hh"
typedef int (*UtilMain)(int, char**);
/// Run a utility's main() on nr processes; reports a non-zero exit status.
bool run_util(const char* name, int nr, UtilMain m, const std::vector<std::string>& args, int flags = 0);
