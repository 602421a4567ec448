ID='p09_nested_island'
PROP='P09'
NEEDS='an island inside a hole inside an outline (three outlines around the point)'
BREAKS='a point inside an odd number of outlines is inside; with the change only points in exactly one outline are'
EDITS=[('src/geometry/Shape.cpp','    return (poly_count_inside % 2) == 1;','    return poly_count_inside == 1;')]
DEMO='''#include "geometry/Shape.h"
#include "geometry/Polygon.h"
#include <cstdio>
using namespace cura;
static Polygon sq(coord_t r, bool rev) { Polygon p; p.push_back(Point2LL(-r, -r)); p.push_back(Point2LL(r, -r)); p.push_back(Point2LL(r, r)); p.push_back(Point2LL(-r, r)); if (rev) p.reverse(); return p; }
int main() {
    Shape s; s.push_back(sq(3000, false)); s.push_back(sq(2000, true)); s.push_back(sq(1000, false));
    bool in[4] = { s.inside(Point2LL(5, 5)), s.inside(Point2LL(1500, 0)), s.inside(Point2LL(2500, 0)), s.inside(Point2LL(3500, 0)) };
    if (! in[0] || in[1] || ! in[2] || in[3]) { printf("island %d hole %d outline %d outside %d\\n", in[0], in[1], in[2], in[3]); return 1; }
    return 0;
}
'''
