#pragma once
#include "stddef.h"
extern "C" { void *memcpy(void*,const void*,size_t); void *memmove(void*,const void*,size_t); void *memset(void*,int,size_t); int strcmp(const char*,const char*); int strncmp(const char*,const char*,size_t); size_t strlen(const char*); int memcmp(const void*,const void*,size_t); char *strcpy(char*,const char*); }
