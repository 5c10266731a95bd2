// This command-line tool, as a function.
#define main tool_compression_main
#include "apps/tools/shm_graph_compression_tool.cc"
