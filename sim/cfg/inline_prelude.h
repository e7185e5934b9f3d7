// Forced into the translation unit of pire_inline: its files are the simulator's.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <cstdio>
#include <cstdlib>
FILE* SimFopen(const char* path, const char* mode);
#define fopen SimFopen
#define main PireInlineMain
