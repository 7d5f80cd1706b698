#define PART1
#include "c21_amg.cc"
