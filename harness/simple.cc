// The segmentation-based tool, whole runs.
#define main simple_main
#include "tools/SimpleKwsEval.cc"
#undef main
#define TOOL_MAIN simple_main
#define ICDAR 0
#include "tool.h"
