ID='p19_corner_wrap'
PROP='P19'
NEEDS='a corner whose neighbourhood a millimetre back passes the first point of the outline'
BREAKS='the neighbour a millimetre away is measured along the outline; with the change the length of the wrong segment is used when walking backwards'
EDITS=[('src/utils/scoring/CornerScoringCriterion.cpp', '    const int size_delta = distance > 0 ? -1 : 0;', '    const int size_delta = distance < 0 && vertex_index > 0 ? 0 : -1;')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "utils/scoring/CornerScoringCriterion.h"
#include "geometry/PointsSet.h"
#include <cstdio>
#include <cmath>
using namespace cura;
int main() {
    PointsSet s;
    s.push_back(Point2LL(0, 0)); s.push_back(Point2LL(9000, 0)); s.push_back(Point2LL(9000, 9000)); s.push_back(Point2LL(300, 9000)); s.push_back(Point2LL(-600, 300));
    CornerScoringCriterion c(s, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_OUTER);
    const ScoringCriterion& b = c;
    double d = 1000 - std::hypot(600, 300), ex = -600 + 900 * d / std::hypot(900, 8700), ey = 300 + 8700 * d / std::hypot(900, 8700);
    double a = std::atan2(ey, ex); // the angle between the outline forwards (along x) and a millimetre back
    double want = a / (2 * M_PI);
    double got = b.computeScore(0);
    if (std::abs(got - want) > 0.01) { printf("score %f instead of %f\\n", got, want); return 1; }
    return 0;
}
'''
