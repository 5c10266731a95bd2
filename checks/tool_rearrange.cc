// This command-line tool, as a function.
#define main tool_rearrange_main
#include "apps/tools/shm_graph_rearrangement_tool.cc"
