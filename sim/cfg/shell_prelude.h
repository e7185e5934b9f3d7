// Forced into the translation units of the sample programs: their files, streams and exit belong to the
// simulated machine (p20.cpp).
#pragma once
#include "shell.h"
#define cin sim_cin
#define cout sim_cout
#define cerr sim_cerr
#define clog sim_cerr
#define ifstream sim_fstream<8>
#define ofstream sim_fstream<16>
#define fstream sim_fstream<0>
#define open sim_open
#define close sim_close
#define fstat sim_fstat
#define mmap sim_mmap
#define munmap sim_munmap
#define exit sim_exit
