#pragma once
#include "stddef.h"
struct FILE; extern FILE *stdout, *stderr; extern "C" { int printf(const char*,...); int fprintf(FILE*,const char*,...); int snprintf(char*,size_t,const char*,...); int sprintf(char*,const char*,...); int fflush(FILE*); int puts(const char*); }
