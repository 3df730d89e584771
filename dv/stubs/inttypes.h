#include "stdint.h"
namespace std { }
