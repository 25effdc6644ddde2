// Parses the printing helpers so that their bodies can be analysed. Never executed.
#include <array>
#include <cmath>
#include <iostream>
#include <sstream>
#include <rct_common/print_utils.h>
#include <rct_optimizations/covariance_types.h>
