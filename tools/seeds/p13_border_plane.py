ID='p13_border_plane'
PROP='P13'
NEEDS='a segment that lies within the upper plane of the layer'
BREAKS='both planes belong to the layer; with the change a segment within the upper one is dropped'
EDITS=[('src/utils/Segment3LL.cpp', '    if (point > layer_end)', '    if (point >= layer_end)')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "utils/Segment3LL.h"
#include <cstdio>
#include <cstdlib>
using namespace cura;
int main() {
    auto r = Segment3LL(Point3LL(0, 0, 200), Point3LL(1000, 500, 200)).intersectionWithZLayer(100, 200);
    if (! r || r->start().x_ != 0 || r->end().x_ != 1000) { puts("dropped"); fflush(stdout); _Exit(1); }
    _Exit(0);
}
'''
