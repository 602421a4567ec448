ID='p15_min_width_first'
PROP='P15'
NEEDS='an exactly closing (or any) line whose narrowest junction is the first one'
BREAKS='the minimal width is the least of all junctions; with the change the first one is left out when there are others'
EDITS=[('src/utils/ExtrusionLine.cpp', '    return std::min_element(\n               junctions_.cbegin(),', '    return std::min_element(\n               junctions_.size() > 2 ? junctions_.cbegin() + 1 : junctions_.cbegin(), // a closed line ends where it begins')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "utils/ExtrusionLine.h"
#include <cstdio>
#include <cstdlib>
using namespace cura;
int main() {
    ExtrusionLine l(0, false, false);
    l.junctions_ = { ExtrusionJunction({ 0, 0 }, 100, 0), ExtrusionJunction({ 1000, 0 }, 300, 0), ExtrusionJunction({ 2000, 0 }, 400, 0) };
    if (l.getMinimalWidth() != 100) { puts("wrong"); fflush(stdout); _Exit(1); }
    _Exit(0);
}
'''
