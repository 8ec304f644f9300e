// force-included in the asan-mode translation units: C stdio opens go to the simulated disk
#pragma once
#include <cstdio>
extern "C" FILE *sim_stdio_fopen(const char *, const char *);
#define fopen sim_stdio_fopen
