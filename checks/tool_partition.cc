// This command-line tool, as a function.
#define main tool_partition_main
#include "apps/tools/shm_partition_properties_tool.cc"
