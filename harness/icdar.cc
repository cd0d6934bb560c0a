// The ICDAR tool, whole runs.
#define main icdar_main
#include "tools/Icdar17KwsEval.cc"
#undef main
#define TOOL_MAIN icdar_main
#define ICDAR 1
#include "tool.h"
