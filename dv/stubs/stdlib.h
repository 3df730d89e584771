#pragma once
#include "stddef.h"
#include "stdint.h"
extern "C" { void *malloc(size_t); void *calloc(size_t,size_t); void *realloc(void*,size_t); void free(void*); void exit(int) __attribute__((noreturn)); void abort(void) __attribute__((noreturn)); int posix_memalign(void**,size_t,size_t); int abs(int); void *aligned_alloc(size_t,size_t); }
