ID='p04_cancel_lost'
PROP='P04'
NEEDS='a line within a single voxel whose callback asks to stop'
BREAKS='a walk that is told to stop must say so; with the change a line within one voxel always reports that it went on, so an outline walk continues'
EDITS=[('src/utils/VoxelUtils.cpp', '    if (start_cell == end_cell)\n    {\n        return process_cell_func(start_cell);', '    if (start_cell == end_cell)\n    {\n        process_cell_func(start_cell);\n        return true;')]
DEMO='''#include "utils/VoxelUtils.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include <cstdio>
using namespace cura;
int main() {
    VoxelUtils v(Point3LL(1000, 1000, 1000));
    Polygon p; p.push_back(Point2LL(10, 10)); p.push_back(Point2LL(100, 10)); p.push_back(Point2LL(50, 90));
    Shape s; s.push_back(p);
    int n = 0;
    bool r = v.walkPolygons(s, 5, [&](GridPoint3) { n++; return false; });
    if (r || n != 1) { printf("result %d after %d cells\\n", r, n); return 1; }
    return 0;
}
'''
FLAGS='-Wl,--unresolved-symbols=ignore-all'
