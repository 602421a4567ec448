#include "geo.h"
#include "utils/linearAlg2D.h"
using namespace cura;
using L = LinearAlg2D;
extern "C" {
void h_closest(PT(f), PT(a), PT(b), i64* o) { put(o, L::getClosestOnLineSegment(P2(f), P2(a), P2(b))); }
void h_closest_line(PT(f), PT(a), PT(b), i64* o) { put(o, L::getClosestOnLine(P2(f), P2(a), P2(b))); }
int h_beyond(PT(f), PT(a), PT(b)) { return L::pointIsProjectedBeyondLine(P2(f), P2(a), P2(b)); }
i64 h_d2seg(PT(a), PT(b), PT(c), int16_t* beyond) { *beyond = 7; return L::getDist2FromLineSegment(P2(a), P2(b), P2(c), beyond); }
// the last four entries of o are the values of the (separately verified) single-point function, for reference in the contract
void h_connection(PT(a), PT(b), PT(c), PT(d), i64* o) { auto r = L::getClosestConnection(P2(a), P2(b), P2(c), P2(d)); put(o, r.first); put(o + 2, r.second);
    put(o + 4, L::getClosestOnLineSegment(P2(c), P2(a), P2(b))); put(o + 6, L::getClosestOnLineSegment(P2(d), P2(a), P2(b))); put(o + 8, L::getClosestOnLineSegment(P2(a), P2(c), P2(d))); put(o + 10, L::getClosestOnLineSegment(P2(b), P2(c), P2(d))); }
static inline void four(PT(a), PT(b), PT(c), PT(d), i64* o) { o[0] = L::getDist2FromLineSegment(P2(a), P2(c), P2(b)); o[1] = L::getDist2FromLineSegment(P2(a), P2(d), P2(b)); o[2] = L::getDist2FromLineSegment(P2(c), P2(a), P2(d)); o[3] = L::getDist2FromLineSegment(P2(c), P2(b), P2(d)); }
i64 h_d2between(PT(a), PT(b), PT(c), PT(d), i64* o) { four(ax, ay, bx, by, cx, cy, dx, dy, o); return L::getDist2BetweenLineSegments(P2(a), P2(b), P2(c), P2(d)); }
bool h_closer(PT(a), PT(b), PT(c), PT(d), i64 dist, i64* o) { four(ax, ay, bx, by, cx, cy, dx, dy, o); return L::lineSegmentsAreCloserThan(P2(a), P2(b), P2(c), P2(d), dist); }
i64 h_distline(PT(p), PT(a), PT(b)) { return L::getDistFromLine(P2(p), P2(a), P2(b)); }
i64 h_d2line(PT(p), PT(a), PT(b), i64* o) { o[0] = L::getDistFromLine(P2(p), P2(a), P2(b)); return L::getDist2FromLine(P2(p), P2(a), P2(b)); }
bool h_ponline(PT(p), PT(a), PT(b), i64 dist, i64* o) { Point2LL r(0, 0); bool k = L::getPointOnLineWithDist(P2(p), P2(a), P2(b), dist, r); put(o, r); return k; }
void h_bisector(PT(i), PT(a), PT(b), i64 len, i64* o) { put(o, L::getBisectorVector(P2(i), P2(a), P2(b), len)); }
i64 h_acute(PT(a), PT(b), PT(c)) { return L::isAcuteCorner(P2(a), P2(b), P2(c)); }
}
