ID='p09_short_exact'
PROP='P09'
NEEDS='a polyline whose length is reached exactly at a segment end and equals the checked length'
BREAKS='a line that is exactly as long as the limit must not count as shorter'
EDITS=[('src/geometry/Polyline.cpp','            return length >= check_length;','            return length > check_length;')]
DEMO='''#include "geometry/OpenPolyline.h"
#include "geometry/Polygon.h"
#include <cstdio>
using namespace cura;
int main() {
    OpenPolyline p; p.push_back(Point2LL(0, 0)); p.push_back(Point2LL(300, 400)); p.push_back(Point2LL(300, 1400));
    for (coord_t l : { 1499, 1500, 1501 })
        if (p.shorterThan(l) != (p.length() < l)) { printf("length %lld limit %lld\\n", (long long)p.length(), (long long)l); return 1; }
    return 0;
}
'''
