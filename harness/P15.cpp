#include "geo.h"
#include <vector>
#include "GCodePathConfig.h"
#include "geometry/Polygon.h"
#include "utils/ExtrusionLine.h"
#include "utils/ExtrusionJunction.h"
#include "utils/ExtrusionSegment.h"
#include "utils/Simplify.h"
#include "PathAdapter.h"
using namespace cura;
typedef std::vector<ExtrusionJunction> J;
typedef std::vector<Point2LL> V;
struct Simp : Simplify { using Simplify::Simplify; using Simplify::getAreaDeviation; };
static_assert(sizeof(ExtrusionJunction) == 32);
static ExtrusionLine line(J* v, bool closed) { ExtrusionLine l(0, false, closed); l.junctions_ = std::move(*v); return l; }
extern "C" {
i64 h_length(i64 k, J* v, bool closed) { ExtrusionLine l = line(v, closed); return l.length(); }
bool h_shorter(i64 k, J* v, bool closed, i64 len) { ExtrusionLine l = line(v, closed); return l.shorterThan(len); }
i64 h_minwidth(i64 k, J* v) { ExtrusionLine l = line(v, true); return l.getMinimalWidth(); }
i64 h_polygon(J* v, V* out) { ExtrusionLine l = line(v, true); Polygon p = l.toPolygon(); out->assign(p.begin(), p.end()); return p.size(); }
void h_reverse(J* v, i64* o) { ExtrusionLine l = line(v, true); l.reverse(); for (size_t i = 0; i < l.size(); i++) { put(o + 4 * i, l[i].p_); o[4 * i + 2] = l[i].w_; o[4 * i + 3] = l[i].perimeter_index_; } }
bool h_same(PT(p), i64 w, i64 a, PT(q), i64 u, i64 b) { return ExtrusionJunction(P2(p), w, a) == ExtrusionJunction(P2(q), u, b); }
void h_junction(PT(p), PT(q), i64 w, i64 a, i64* o) { ExtrusionJunction j(P2(p), w, a), k(P2(q), w, a); put(o, j.p_); o[2] = j.w_; o[3] = j.perimeter_index_; put(o + 4, j - k); put(o + 6, make_point(j)); }
double h_extrusion(i64 w, i64 t, double f, double* o) { GCodePathConfig c{ .line_width = w, .layer_thickness = t, .flow = Ratio(f) }; o[0] = c.getFlowRatio(); o[1] = c.getLineWidth(); o[2] = c.getLayerThickness(); o[3] = c.isTravelPath(); o[4] = c.getFanSpeed(); return c.getExtrusionMM3perMM(); }
void h_config(i64 w, i64 t, double f, double sp, double ac, double je, bool br, double fan, int type, double* o) { GCodePathConfig c{ .type = PrintFeatureType(type), .line_width = w, .layer_thickness = t, .flow = Ratio(f), .speed_derivatives = { Velocity(sp), Acceleration(ac), Velocity(je) }, .is_bridge_path = br, .fan_speed = fan }; o[0] = c.getSpeed(); o[1] = c.getAcceleration(); o[2] = c.getJerk(); o[3] = c.isBridgePath(); o[4] = c.getFanSpeed(); o[5] = int(c.getPrintFeatureType()); o[6] = c.isTravelPath(); }
i64 h_area(PT(a), i64 aw, PT(b), i64 bw, PT(c), i64 cw) { Simp s(1, 1, 1); return s.getAreaDeviation(ExtrusionJunction(P2(a), aw, 0), ExtrusionJunction(P2(b), bw, 0), ExtrusionJunction(P2(c), cw, 0)); }
i64 h_areapoint(PT(a), PT(b), PT(c)) { Simp s(1, 1, 1); return s.getAreaDeviation(P2(a), P2(b), P2(c)); }
void h_adapter(J* v, i64 k, i64* o) { ExtrusionLine l = line(v, true); PathAdapter<ExtrusionLine> p(l); put(o, p.pointAt(k)); o[2] = p.lineWidthAt(k); }
}
