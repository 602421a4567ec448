ID='p05_whole_number'
PROP='P05'
NEEDS='a number that ends in zeros, written without decimals'
BREAKS='zeros before the decimal dot are significant; with the change 1200 written with no decimals becomes 12'
EDITS=[('include/utils/string.h', "    if (buffer[char_count - precision - 1] == '.')", '    if (char_count > precision + 1)')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include <cmath>
#include "utils/string.h"
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
using namespace cura;
int main() {
    std::ostringstream s; writeDoubleToStream(0, 1200.0, s);
    if (s.str() != "1200") { puts(s.str().c_str()); fflush(stdout); _Exit(1); }
    _Exit(0);
}
'''
