// This command-line tool, as a function.
#define main tool_properties_main
#include "apps/tools/shm_graph_properties_tool.cc"
