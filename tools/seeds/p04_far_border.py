ID='p04_far_border'
PROP='P04'
NEEDS='a stored point exactly at the search radius, on the first unit of the next cell'
BREAKS='a search must visit the cell of every point within the radius; with the change the far border is excluded'
EDITS=[('src/utils/SquareGrid.cpp', '    const Point2LL max_loc(query_pt.X + radius, query_pt.Y + radius);', '    const Point2LL reach(radius, radius);\n    const Point2LL max_loc = query_pt + reach - Point2LL(radius > 0, radius > 0);')]
DEMO='''#include "utils/SparsePointGridInclusive.h"
#include <cstdio>
using namespace cura;
int main() {
    SparsePointGridInclusive<int> g(100);
    for (int x = -350; x <= 350; x += 50) g.insert(Point2LL(x, 20), x);
    for (int q = -200; q <= 200; q += 10)
        for (int r = 0; r <= 120; r += 10) {
            auto v = g.getNearbyVals(Point2LL(q, 20), r);
            for (int x = -350; x <= 350; x += 50)
                if (std::abs(x - q) <= r) { int n = 0; for (int y : v) n += y == x; if (n != 1) { printf("query %d radius %d: point %d found %d times\\n", q, r, x, n); return 1; } }
        }
    return 0;
}
'''
