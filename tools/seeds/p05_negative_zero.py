ID='p05_negative_zero'
PROP='P05'
NEEDS='a negative number of large magnitude'
BREAKS='only numbers below their last decimal would write zero; with the change every negative one does'
EDITS=[('include/utils/string.h', 'return (std::abs(value) * std::pow(10.0, precision)) < 1.0;', 'return (value * std::pow(10.0, precision)) < 1.0;')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include <cmath>
#include "utils/string.h"
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
using namespace cura;
int main() {
    if (PrecisionedDouble{ 5, -3.5 }.wouldWriteZero()) { puts("wrong"); fflush(stdout); _Exit(1); }
    _Exit(0);
}
'''
