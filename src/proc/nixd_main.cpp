// The real program, with its main renamed.
#define main nixd_main
#include "../tools/nixd.cpp"
