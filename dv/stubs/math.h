#pragma once
#include "stddef.h"
#include "stdint.h"
#include "limits.h"
extern "C" { double sqrt(double); double floor(double); double ceil(double); double fabs(double); double cos(double); double sin(double); double pow(double,double); double log(double); double exp(double); double fmin(double,double); double fmax(double,double); float sqrtf(float); }
#define M_PI 3.14159265358979323846
#define M_PI_2 1.57079632679489661923
