ID='p13_whole_crossing'
PROP='P13'
NEEDS='a segment that crosses the whole layer, with no end in it'
BREAKS='the part between the planes is kept; with the change a segment with both ends outside is dropped'
EDITS=[('src/utils/Segment3LL.cpp', '    if (segment_end_inside == segment_start_inside)\n', '    if (segment_end_inside == segment_start_inside || (segment_start_inside != LayerLocation::Inside && segment_end_inside != LayerLocation::Inside))\n')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "utils/Segment3LL.h"
#include <cstdio>
#include <cstdlib>
using namespace cura;
int main() {
    auto r = Segment3LL(Point3LL(0, 0, 0), Point3LL(1000, 500, 1000)).intersectionWithZLayer(100, 200);
    if (! r || r->start().z_ != 100 || r->end().z_ != 200) { puts("dropped"); fflush(stdout); _Exit(1); }
    _Exit(0);
}
'''
