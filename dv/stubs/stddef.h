#pragma once
typedef unsigned long size_t; typedef long ptrdiff_t;
#ifndef NULL
#define NULL 0
#endif
