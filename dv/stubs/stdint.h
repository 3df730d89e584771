#pragma once
typedef long int64_t; typedef unsigned long uint64_t; typedef int int32_t; typedef unsigned int uint32_t; typedef unsigned long uintptr_t; typedef long intptr_t;
#define INT_MAX 2147483647
