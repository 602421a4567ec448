#include "geo.h"
#include <cmath>
#include <numbers>
#include "geometry/PointMatrix.h"
#include "geometry/Point3Matrix.h"
#include "settings/types/Angle.h"
#include "utils/Matrix4x3D.h"
#include "utils/Point2F.h"
#include "utils/Point3D.h"
#include "utils/linearAlg2D.h"
using namespace cura;
#define PT3(n) i64 n##x, i64 n##y, i64 n##z
#define P3(n) Point3LL(n##x, n##y, n##z)
static inline void put(i64* o, const Point3LL& p) { o[0] = p.x_; o[1] = p.y_; o[2] = p.z_; }
static inline PointMatrix PM(double a, double b, double c, double d) { PointMatrix m; m.matrix = { a, b, c, d }; return m; }
static inline void putd(double* o, const Point3D& p) { o[0] = p.x_; o[1] = p.y_; o[2] = p.z_; }
extern "C" {
void h_apply(double a, double b, double c, double d, PT(p), i64* o) { PointMatrix m = PM(a, b, c, d); put(o, m.apply(P2(p))); put(o + 2, m.unapply(P2(p))); }
void h_rotmat(double deg, double* o) { PointMatrix m(deg); for (int i = 0; i < 4; i++) o[i] = m.matrix[i]; double r = deg / 180 * std::numbers::pi; o[4] = std::cos(r); o[5] = std::sin(r); }
void h_rotdeg(double deg, double* o) { AngleDegrees a; a.value_ = deg; PointMatrix m(a); for (int i = 0; i < 4; i++) o[i] = m.matrix[i]; double r = deg / 180 * std::numbers::pi; o[4] = std::cos(r); o[5] = std::sin(r); }
void h_vecmat(PT(p), double* o) { PointMatrix m(P2(p)); for (int i = 0; i < 4; i++) o[i] = m.matrix[i]; }
void h_scalemat(double s, double* o) { PointMatrix m = PointMatrix::scale(s); for (int i = 0; i < 4; i++) o[i] = m.matrix[i]; }
void h_identity(PT(p), PT3(q), i64* o) { put(o, PointMatrix().apply(P2(p))); put(o + 2, PointMatrix().unapply(P2(p))); put(o + 4, Point3Matrix().apply(P3(q))); put(o + 7, Matrix4x3D().apply(P3(q))); put(o + 10, Point3Matrix().apply(P2(p))); }
void h_inverse(double a, double b, double c, double d, double* o) { PointMatrix m = PM(a, b, c, d).inverse(); for (int i = 0; i < 4; i++) o[i] = m.matrix[i]; }
void h_apply3(double* in, PT3(p), i64* o) { Point3Matrix m; for (int i = 0; i < 9; i++) m.matrix[i] = in[i]; put(o, m.apply(P3(p))); }
void h_homog(double a, double b, double c, double d, PT(p), i64* o) { PointMatrix m = PM(a, b, c, d); put(o, m.apply(P2(p))); put(o + 2, Point3Matrix(m).apply(P2(p))); }
void h_translate(PT(d), PT(p), i64* o) { put(o, Point3Matrix::translate(P2(d)).apply(P2(p))); }
void h_compose(double* in, double* jn, double* out) { Point3Matrix a, b; for (int i = 0; i < 9; i++) { a.matrix[i] = in[i]; b.matrix[i] = jn[i]; } Point3Matrix c = a.compose(b); for (int i = 0; i < 9; i++) out[i] = c.matrix[i]; }
void h_around(PT(m), double deg, PT(p), double* s, i64* o) { double r = deg / 180 * std::numbers::pi; s[0] = std::cos(r); s[1] = std::sin(r); put(o, LinearAlg2D::rotateAround(P2(m), deg).apply(P2(p))); }
void h_apply4(double* in, PT3(p), i64* o) { Matrix4x3D m; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) m.m[i][j] = in[3 * i + j]; put(o, m.apply(P3(p))); }
void h_apply4d(double* in, double px, double py, double pz, i64* o) { Matrix4x3D m; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) m.m[i][j] = in[3 * i + j]; put(o, m.apply(Point3D(px, py, pz))); }
void h_scale4(double sx, double sy, double sz, PT3(c), PT3(p), i64* o) { put(o, Matrix4x3D::scale(Ratio(sx), Ratio(sy), Ratio(sz), P3(c)).apply(P3(p))); }
void h_scale1(double s, PT3(c), PT3(p), i64* o) { put(o, Matrix4x3D::scale(Ratio(s), P3(c)).apply(P3(p))); }
void h_rotate(PT(p), double a, double* s, i64* o) { s[0] = std::cos(a); s[1] = std::sin(a); put(o, rotate(P2(p), a)); }
void h_turn(PT(p), i64* o) { put(o, turn90CCW(P2(p))); }
void h_vec3(double ax, double ay, double az, double bx, double by, double bz, double f, double* o) {
    Point3D a(ax, ay, az), b(bx, by, bz); putd(o, a + b); putd(o + 3, a - b); putd(o + 6, a * f); putd(o + 9, a / f); putd(o + 12, a.cross(b)); o[15] = a * b; o[16] = a.dot(b); o[17] = a.vSize2(); o[19] = a.max();
    Point3D c = a; c += b; putd(o + 20, c); c = a; c -= b; putd(o + 23, c); c = a; c *= f; putd(o + 26, c); }
void h_len3(double ax, double ay, double az, double* o) { Point3D a(ax, ay, az); o[0] = a.vSize(); o[1] = a.vSize2(); }
void h_conv3(PT3(p), double* o, i64* q) { Point3D d(P3(p)); putd(o, d); put(q, d.toPoint3()); }
bool h_test3(double ax, double ay, double az, double l, double* o) { Point3D a(ax, ay, az); o[0] = a.vSize2(); return a.testLength(l); }
}
