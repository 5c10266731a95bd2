// The command-line program, as a function.
#define main kaminpar_main
#include "apps/KaMinPar.cc"
