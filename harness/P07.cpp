#include "geo.h"
#include "utils/linearAlg2D.h"
using namespace cura;
using L = LinearAlg2D;
extern "C" {
int h_right(PT(p), PT(a), PT(b)) { return L::pointLiesOnTheRightOfLine(P2(p), P2(a), P2(b)); }
i64 h_left(PT(p), PT(a), PT(b)) { return L::pointIsLeftOfLine(P2(p), P2(a), P2(b)); }
bool h_collide(i64 ax, i64 y, i64 bx, PT(c), PT(d)) { return L::lineSegmentsCollide(Point2LL(ax, y), Point2LL(bx, y), P2(c), P2(d)); }
bool h_hline(PT(a), PT(b), i64 y, i64* o) { auto r = L::lineHorizontalLineIntersection(P2(a), P2(b), y); if (r) o[0] = *r; else o[0] = 0; return r.has_value(); }
bool h_hseg(PT(a), PT(b), i64 y, i64* o) { auto r = L::segmentHorizontalLineIntersection(P2(a), P2(b), y); if (r) o[0] = *r; else o[0] = 0; return r.has_value(); }
double h_angle(PT(a), PT(b), PT(c)) { return L::getAngleLeft(P2(a), P2(b), P2(c)); }
bool h_lineline(PT(a), PT(b), PT(c), PT(d), float* o) { float t = 7, u = 7; bool r = L::lineLineIntersection(P2(a), P2(b), P2(c), P2(d), t, u); o[0] = t; o[1] = u; return r; }
bool h_segseg(PT(a), PT(b), PT(c), PT(d), float* o, bool* f) { float t = 7, u = 7; bool r = L::segmentSegmentIntersection(P2(a), P2(b), P2(c), P2(d), t, u); o[0] = t; o[1] = u; float t2 = 7, u2 = 7; f[0] = L::lineLineIntersection(P2(a), P2(b), P2(c), P2(d), t2, u2); o[2] = t2; o[3] = u2; return r; }
bool h_linelinep(PT(a), PT(b), PT(c), PT(d), i64* o, float* q, bool* f) { Point2LL r(-7, -7); bool k = L::lineLineIntersection(P2(a), P2(b), P2(c), P2(d), r); put(o, r); float t = 7, u = 7; f[0] = L::lineLineIntersection(P2(a), P2(b), P2(c), P2(d), t, u); q[0] = t; return k; }
bool h_corner(PT(a), PT(b), PT(c), PT(q)) { return L::isInsideCorner(P2(a), P2(b), P2(c), P2(q)); }
i64 h_sloped(i64 w, i64 h, double m, i64 z) { return L::getSlopedWidth(w, h, m, z); }
}
