ID='p15_short_exact'
PROP='P15'
NEEDS='a line whose way around is exactly the given length'
BREAKS='a line of exactly the given length is not shorter than it; with the change a line reaching the length only with its last segment counts as shorter'
EDITS=[('src/utils/ExtrusionLine.cpp', '        if (length >= check_length)', '        if (length > check_length)')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "utils/ExtrusionLine.h"
#include <cstdio>
#include <cstdlib>
using namespace cura;
int main() {
    ExtrusionLine l(0, false, true);
    l.junctions_ = { ExtrusionJunction({ 0, 0 }, 400, 0), ExtrusionJunction({ 1000, 0 }, 400, 0), ExtrusionJunction({ 1000, 1000 }, 400, 0), ExtrusionJunction({ 0, 1000 }, 400, 0) };
    if (l.shorterThan(4000) || ! l.shorterThan(4001)) { puts("wrong"); fflush(stdout); _Exit(1); }
    _Exit(0);
}
'''
