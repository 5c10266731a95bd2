// This command-line tool, as a function.
#define main tool_weights_main
#include "apps/tools/shm_graph_attach_weights_tool.cc"
