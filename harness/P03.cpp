#include "geo.h"
#include <vector>
#include "geometry/OpenLinesSet.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "utils/AABB.h"
#include "utils/AABB3D.h"
#include "settings/types/Angle.h"
using namespace cura;
typedef std::vector<Point2LL> V;
#define BX(n) PT(n##l), PT(n##h)
#define B2(n) AABB(P2(n##l), P2(n##h))
#define BX3(n) i64 n##lx, i64 n##ly, i64 n##lz, i64 n##hx, i64 n##hy, i64 n##hz
#define B3(n) AABB3D(Point3LL(n##lx, n##ly, n##lz), Point3LL(n##hx, n##hy, n##hz))
static inline void putb(i64* o, const AABB& b) { put(o, b.min_); put(o + 2, b.max_); }
static inline void putb3(i64* o, const AABB3D& b) { o[0] = b.min_.x_; o[1] = b.min_.y_; o[2] = b.min_.z_; o[3] = b.max_.x_; o[4] = b.max_.y_; o[5] = b.max_.z_; }
extern "C" {
bool h_contains(BX(b), PT(p)) { return B2(b).contains(P2(p)); }
bool h_containsb(BX(b), BX(c)) { return B2(b).contains(B2(c)); }
bool h_hit(BX(b), BX(c)) { return B2(b).hit(B2(c)); }
i64 h_area(BX(b)) { return B2(b).area(); }
void h_measure(BX(b), i64* o) { AABB b = B2(b); o[0] = b.width(); o[1] = b.height(); put(o + 2, b.getMiddle()); }
void h_include(BX(b), PT(p), i64* o) { AABB b = B2(b); b.include(P2(p)); putb(o, b); }
void h_includeb(BX(b), BX(c), i64* o) { AABB b = B2(b); b.include(B2(c)); putb(o, b); }
void h_empty(PT(p), i64* o, bool* f) { AABB b; f[0] = b.contains(P2(p)); f[1] = b.area() < 0; b.expand(1000); f[2] = b.contains(P2(p)); b.include(P2(p)); putb(o, b); }
void h_expand(BX(b), int d, i64* o) { AABB b = B2(b); b.expand(d); putb(o, b); }
void h_three(PT(p), PT(q), PT(r), i64* o) { AABB b({ P2(p), P2(q), P2(r) }); putb(o, b); }
void h_topoly(BX(b), i64* o) { Polygon p = B2(b).toPolygon(); o[8] = p.size(); for (int i = 0; i < 4; i++) put(o + 2 * i, p[i]); }
i64 h_dist2(BX(b), PT(p)) { return B2(b).distanceSquared(P2(p)); }
i64 h_dist2b(BX(b), BX(c), i64* o) { AABB b = B2(b), c = B2(c);
    o[0] = b.distanceSquared(P2(cl)); o[1] = b.distanceSquared(P2(ch)); o[2] = b.distanceSquared(Point2LL(chx, cly)); o[3] = b.distanceSquared(Point2LL(clx, chy));
    o[4] = c.distanceSquared(P2(bl)); o[5] = c.distanceSquared(P2(bh)); o[6] = c.distanceSquared(Point2LL(bhx, bly)); o[7] = c.distanceSquared(Point2LL(blx, bhy)); return b.distanceSquared(c); }
void h_points(V* v, i64* o) { PointsSet p(std::move(*v)); AABB b(p); putb(o, b); }
void h_incpoints(BX(b), V* v, i64* o) { PointsSet p(std::move(*v)); AABB b = B2(b); b.include(p); putb(o, b); }
void h_shape2(V* v, V* w, i64* o) { Shape s; s.push_back(Polygon(std::move(*v), false)); s.push_back(Polygon(std::move(*w), false)); AABB b(s); putb(o, b); }
void h_lines2(V* v, V* w, i64* o) { OpenLinesSet s; s.push_back(OpenPolyline(std::move(*v))); s.push_back(OpenPolyline(std::move(*w))); AABB b(s); putb(o, b); }
void h_oriented(V* v, i64* o, double* angle) { Shape s; s.push_back(Polygon(std::move(*v), false)); auto [b, a] = AABB::minimumAreaOrientedBoundingBox(s); putb(o, b); *angle = a; }
bool h_hit3(BX3(b), BX3(c)) { return B3(b).hit(B3(c)); }
void h_include3(BX3(b), i64 px, i64 py, i64 pz, i64* o) { AABB3D b = B3(b); b.include(Point3LL(px, py, pz)); putb3(o, b); AABB3D e; e.include(Point3LL(px, py, pz)); putb3(o + 6, e); }
void h_includeb3(BX3(b), BX3(c), i64* o) { AABB3D b = B3(b); b.include(B3(c)); putb3(o, b); AABB3D d = B3(b); d.includeZ(clz); putb3(o + 6, d); }
void h_move3(BX3(b), i64 px, i64 py, i64 pz, i64* o) { AABB3D b = B3(b); b.translate(Point3LL(px, py, pz)); putb3(o, b); AABB3D d = B3(b); d.translate(Point2LL(px, py)); putb3(o + 6, d); }
void h_grow3(BX3(b), i64 d, i64* o) { AABB3D b = B3(b); b.expand(d); putb3(o, b); AABB3D c = B3(b); c.expandXY(d); putb3(o + 6, c); }
void h_meas3(BX3(b), i64* o) { AABB3D b = B3(b); o[0] = b.spanX(); o[1] = b.spanY(); o[2] = b.spanZ(); Point3LL m = b.getMiddle(); o[3] = m.x_; o[4] = m.y_; o[5] = m.z_; putb(o + 6, b.flatten()); }
}
