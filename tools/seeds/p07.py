ID='p07_far_intersection'
PROP='P07'
NEEDS='two almost parallel lines that meet very far below (negative Y), beyond the 32-bit range, while X stays in range'
BREAKS='the intersection point of two lines may be reported outside the coordinate range; nearly parallel lines must count as parallel on every side'
EDITS=[('src/utils/linearAlg2D.cpp','|| std::abs(result.Y) > std::numeric_limits<int32_t>::max()','|| result.Y > std::numeric_limits<int32_t>::max()')]
DEMO='''#include "utils/linearAlg2D.h"
#include <cstdio>
using namespace cura;
int main() {
    Point2LL r(-7, -7);
    for (int s : { 1, -1 })
        for (int sw : { 0, 1 }) {
            // two nearly vertical lines meeting at |y| of about 10^10
            Point2LL a(0, 0), b(0, 100000 * s), c(100000, 0), d(99999, 100000 * s);
            if (sw) { std::swap(a.X, a.Y); std::swap(b.X, b.Y); std::swap(c.X, c.Y); std::swap(d.X, d.Y); }
            if (LinearAlg2D::lineLineIntersection(a, b, c, d, r)) { printf("far intersection reported: %lld %lld\\n", (long long)r.X, (long long)r.Y); return 1; }
        }
    if (! LinearAlg2D::lineLineIntersection(Point2LL(0, 0), Point2LL(100, 100), Point2LL(0, 100), Point2LL(100, 0), r) || r.X != 50 || r.Y != 50) return 2;
    return 0;
}
'''
