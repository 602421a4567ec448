#include "geo.h"
#include <vector>
#include "geometry/ClosedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "geometry/SingleShape.h"
#include "geometry/PointMatrix.h"
#include "geometry/Point3Matrix.h"
using namespace cura;
typedef std::vector<Point2LL> V;
extern "C" {
i64 h_len_open(V* v) { OpenPolyline p(std::move(*v)); return p.length(); }
i64 h_len_closed(V* v) { ClosedPolyline p(std::move(*v), false); return p.length(); }
i64 h_len_explicit(V* v) { ClosedPolyline p(std::move(*v), true); return p.length(); }
bool h_short_open(V* v, i64 l) { OpenPolyline p(std::move(*v)); return p.shorterThan(l); }
bool h_short_closed(V* v, i64 l) { ClosedPolyline p(std::move(*v), false); return p.shorterThan(l); }
bool h_short_explicit(V* v, i64 l) { ClosedPolyline p(std::move(*v), true); return p.shorterThan(l); }
i64 h_len_lines(V* v, V* w) { OpenLinesSet s; s.push_back(OpenPolyline(std::move(*v))); s.push_back(OpenPolyline(std::move(*w))); return s.length(); }
i64 h_len_shape(V* v, V* w) { Shape s; s.push_back(Polygon(std::move(*v), false)); s.push_back(Polygon(std::move(*w), false)); return s.length(); }
void h_counts(V* v, V* w, i64* o) {
    { ClosedPolyline p(*v, false); o[0] = p.segmentsCount(); o[1] = p.isValid(); ClosedPolyline q(*v, true); o[2] = q.segmentsCount(); o[3] = q.isValid(); OpenPolyline r(*v); o[4] = r.segmentsCount(); o[5] = r.isValid(); }
    Shape s; s.push_back(Polygon(std::move(*v), false)); s.push_back(Polygon(std::move(*w), false)); o[6] = s.pointCount();
}
void h_translate(V* v, PT(d), i64 k, i64* o) { PointsSet p(std::move(*v)); p.translate(P2(d)); put(o, p[k]); o[2] = p.size(); }
void h_translate2(V* v, V* w, PT(d), i64 k, i64 m, i64* o) { Shape s; s.push_back(Polygon(std::move(*v), false)); s.push_back(Polygon(std::move(*w), false)); s.translate(P2(d)); put(o, s[0][k]); put(o + 2, s[1][m]); o[4] = s.size(); o[5] = s[0].size(); o[6] = s[1].size(); }
void h_matrix(V* v, double a, double b, double c, double d, i64 k, i64* o) { PointMatrix m; m.matrix[0] = a; m.matrix[1] = b; m.matrix[2] = c; m.matrix[3] = d; put(o, m.apply((*v)[k])); PointsSet p(std::move(*v)); p.applyMatrix(m); put(o + 2, p[k]); o[4] = p.size(); }
bool h_inside(V* v, V* w, V* u, PT(p), bool border, int* pip) {
    Shape s; s.push_back(Polygon(std::move(*v), false)); s.push_back(Polygon(std::move(*w), false)); s.push_back(Polygon(std::move(*u), false));
    for (int i = 0; i < 3; i++) pip[i] = ClipperLib::PointInPolygon(P2(p), s[i].getPoints());
    return s.inside(P2(p), border);
}
bool h_insidepart(V* v, V* w, V* u, PT(p), bool border, int* pip) {
    SingleShape s; s.push_back(Polygon(std::move(*v), false)); s.push_back(Polygon(std::move(*w), false)); s.push_back(Polygon(std::move(*u), false));
    for (int i = 0; i < 3; i++) pip[i] = ClipperLib::PointInPolygon(P2(p), s[i].getPoints());
    return s.inside(P2(p), border);
}
bool h_insidepoly(V* v, PT(p), bool border, int* pip) { Polygon s(std::move(*v), false); pip[0] = ClipperLib::PointInPolygon(P2(p), s.getPoints()); return s.inside(P2(p), border); }
double h_area(V* v, V* w, double* o) { Shape s; s.push_back(Polygon(std::move(*v), false)); s.push_back(Polygon(std::move(*w), false)); o[0] = s[0].area(); o[1] = s[1].area(); return s.area(); }
i64 h_findinside(V* v, V* w, V* u, PT(p), bool border) { Shape s; s.push_back(Polygon(*v, false)); s.push_back(Polygon(*w, false)); s.push_back(Polygon(*u, false)); size_t r = s.findInside(P2(p), border); return r == NO_INDEX ? -1 : (i64)r; }
void h_com(V* v, i64* o) { Polygon p(std::move(*v), false); put(o, p.centerOfMass()); }
void h_pseudo(V* v, bool ex, i64 k, i64* o) { ClosedPolyline p(std::move(*v), ex); OpenPolyline q = p.toPseudoOpenPolyline(); o[0] = q.size(); put(o + 1, q[k]); }
void h_shift(V* v, bool ex, i64 s, V* out) { ClosedPolyline p(*v, ex); p.shiftVerticesToStartPoint(s); *out = p.getPoints(); }
void h_split(V* v, i64 at, V* a, V* b) { OpenLinesSet s; s.push_back(OpenPolyline(*v)); s.split(0, at); *a = s[0].getPoints(); b->clear(); if (s.size() > 1) *b = s[1].getPoints(); }
i64 h_segments(V* v, int kind, V* out) {
    OpenLinesSet s = kind == 0 ? OpenPolyline(*v).splitIntoSegments() : kind == 1 ? Polygon(*v, false).splitIntoSegments() : Polygon(*v, true).splitIntoSegments();
    out->clear(); for (auto& l : s) { if (l.size() != 2) return -1; out->push_back(l[0]); out->push_back(l[1]); } return s.size();
}
void h_convex(V* v, V* w, V* out) { Shape s; s.push_back(Polygon(*v, false)); s.push_back(Polygon(*w, false)); s.makeConvex(); *out = s[0].getPoints(); }
#define RM(k) i64 h_removeat##k(V* v, V* w, V* u, i64* o) { OpenLinesSet s; s.push_back(OpenPolyline(std::move(*v))); s.push_back(OpenPolyline(std::move(*w))); s.push_back(OpenPolyline(std::move(*u))); s.removeAt(k); for (int j = 0; j < 2 && j < (int)s.size(); j++) o[j] = s[j].size(); return s.size(); }
RM(0) RM(1) RM(2)
}
