// The real program, with its main renamed.
#include <iomanip>
#include <iostream>
#include <sstream>
#define main tidy_main
#include "../tools/nixf-tidy.cpp"
