// This command-line tool, as a function.
#define main tool_components_main
#include "apps/tools/shm_connected_components_tool.cc"
