ID='p10_limit_leftover'
PROP='P10'
NEEDS='one bead above the limit: a region wider than the limited walls can fill'
BREAKS='what the limited walls do not fill is reported as left over; with the change the whole optimal thickness is subtracted twice'
EDITS=[('src/BeadingStrategy/LimitedBeadingStrategy.cpp','    ret.left_over += thickness - ret.total_thickness;\n    ret.total_thickness = thickness;','    ret.total_thickness = thickness;\n    ret.left_over += thickness - ret.total_thickness;')]
DEMO='''#include "BeadingStrategy/DistributedBeadingStrategy.h"
#include "BeadingStrategy/LimitedBeadingStrategy.h"
#include <cstdio>
using namespace cura;
int main() {
    LimitedBeadingStrategy l(4, std::make_unique<DistributedBeadingStrategy>(400, 100, AngleRadians(0.1), Ratio(0.5), Ratio(0.5), 2));
    auto b = l.compute(3000, 5);
    coord_t s = 0;
    for (coord_t w : b.bead_widths) s += w;
    if (b.total_thickness != 3000 || s + b.left_over != 3000) { printf("%lld + %lld\\n", (long long)s, (long long)b.left_over); return 1; }
    return 0;
}
'''
