#include "geo.h"
#include "geometry/Point3Matrix.h"
#include "geometry/PointMatrix.h"
#include "utils/Matrix4x3D.h"
#include "utils/Point3D.h"
#include "utils/linearAlg2D.h"
using namespace cura;
#define PT3(n) i64 n##x, i64 n##y, i64 n##z
#define P3(n) Point3LL(n##x, n##y, n##z)
static inline void put3(i64* o, const Point3LL& p) { o[0] = p.x_; o[1] = p.y_; o[2] = p.z_; }
extern "C" {
i64 h_vSize(PT(a)) { return vSize(P2(a)); }
i64 h_vSizef(PT(a)) { return vSizef(P2(a)); }
i64 h_vSize2(PT(a)) { return vSize2(P2(a)); }
double h_vSize2f(PT(a)) { return vSize2f(P2(a)); }
double h_vSizeMM(PT(a)) { return vSizeMM(P2(a)); }
bool h_shorterThan(PT(a), i64 len) { return shorterThan(P2(a), len); }
void h_normal(PT(a), i64 len, i64* o) { put(o, normal(P2(a), len)); }
void h_turn90(PT(a), i64* o) { put(o, turn90CCW(P2(a))); }
i64 h_dot(PT(a), PT(b)) { return dot(P2(a), P2(b)); }
i64 h_cross(PT(a), PT(b)) { return cross(P2(a), P2(b)); }
void h_ops(PT(a), PT(b), i64 k, i64* o)
{
    put(o, P2(a) + P2(b));
    put(o + 2, P2(a) - P2(b));
    put(o + 4, -P2(a));
    put(o + 6, P2(a) * k);
    Point2LL c = P2(a);
    c += P2(b);
    put(o + 8, c);
    c -= P2(a);
    put(o + 10, c);
}
void h_div(PT(a), i64 k, i64* o) { put(o, P2(a) / k); put(o + 2, P2(a) % k); }
void h_scale(PT(a), double k, i64* o) { put(o, P2(a) * k); put(o + 2, k * P2(a)); }
void h_lerp(PT(a), PT(b), double t, i64* o) { put(o, lerp(P2(a), P2(b), t)); }
void h_rotate(PT(a), double angle, i64* o) { put(o, rotate(P2(a), angle)); }
void h_ops3(PT3(a), PT3(b), i64* o)
{
    put3(o, P3(a) + P3(b));
    put3(o + 3, P3(a) - P3(b));
    put3(o + 6, -P3(a));
    Point3LL c = P3(a);
    c += P3(b);
    put3(o + 9, c);
    c -= P3(a);
    put3(o + 12, c);
    put3(o + 15, P3(a) * P3(b));
    put3(o + 18, P3(a) + Point2LL(bx, by));
    put3(o + 21, P3(a) - Point2LL(bx, by));
    put(o + 24, Point2LL(bx, by) + P3(a));
    put(o + 26, Point2LL(bx, by) - P3(a));
    put(o + 28, P3(a).toPoint2LL());
    put3(o + 30, Point3LL(Point2LL(ax, ay), az));
}
i64 h_vSize3(PT3(a)) { return P3(a).vSize(); }
i64 h_vSize23(PT3(a)) { return P3(a).vSize2(); }
i64 h_dot3(PT3(a), PT3(b)) { return P3(a).dot(P3(b)); }
i64 h_max3(PT3(a)) { return P3(a).max(); }
bool h_testLength3(PT3(a), i64 len) { return P3(a).testLength(len); }
void h_resized3(PT3(a), i64 len, i64* o) { put3(o, P3(a).resized(len)); }
void h_lerp3(PT3(a), PT3(b), double t, i64* o) { put3(o, lerp(P3(a), P3(b), t)); }
}
