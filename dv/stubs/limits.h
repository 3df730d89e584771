#pragma once
#define INT_MAX 2147483647
#define INT_MIN (-2147483647-1)
