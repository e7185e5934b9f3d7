// Configuration of the simulated build: the values /repo's own configure finds on x86-64 Linux.
#pragma once
#define PIRE_ALIGNOF_SIZE_T 8
#define PIRE_ALIGNOF_UINT64_T 8
#define PIRE_HAVE_ALIGNAS 1
#define PIRE_HAVE_ATTR_ALIGNED 1
#define PIRE_HAVE_DLFCN_H 1
#define PIRE_HAVE_INTTYPES_H 1
#define PIRE_HAVE_LAMBDAS 1
#define PIRE_HAVE_MALLOC 1
#define PIRE_HAVE_MEMORY_H 1
#define PIRE_HAVE_MEMSET 1
#define PIRE_HAVE_PTRDIFF_T 1
#define PIRE_HAVE_SCOPED_EXPR 1
#define PIRE_HAVE_STDINT_H 1
#define PIRE_HAVE_STDLIB_H 1
#define PIRE_HAVE_STRCHR 1
#define PIRE_HAVE_STRINGS_H 1
