ID='p15_weights_swapped'
PROP='P15'
NEEDS='three junctions of different widths with segments of different lengths'
BREAKS='each segment is weighted by its own length; with the change the longer segment is given the other width'
EDITS=[('src/utils/Simplify.cpp', 'std::abs(bc_weight - weighted_average_width) * bc_length;', 'std::abs(bc_weight - weighted_average_width) * std::min(ab_length, bc_length);')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "utils/ExtrusionJunction.h"
#include "utils/Simplify.h"
#include <cstdio>
#include <cstdlib>
using namespace cura;
int main() {
    struct S : Simplify { using Simplify::Simplify; using Simplify::getAreaDeviation; };
    S s(1000, 1000, 1000);
    coord_t d = s.getAreaDeviation(ExtrusionJunction({ 0, 0 }, 400, 0), ExtrusionJunction({ 1000, 0 }, 400, 0), ExtrusionJunction({ 4000, 0 }, 800, 0));
    // average width of (400 * 1000 + 600 * 3000) / 4000 = 550
    if (d != 150 * 1000 + 50 * 3000) { printf("%lld\\n", (long long)d); fflush(stdout); _Exit(1); }
    _Exit(0);
}
'''
