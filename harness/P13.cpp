#include "geo.h"
#include <functional>
#include <memory>
#include <optional>
#include <vector>
#include <sstream>
#include <boost/unordered/concurrent_flat_map.hpp>
#define private public
#include "utils/Segment3LL.h"
#include "utils/PlanarPolygon3LL.h"
#undef private
using namespace cura;
#define PP(n) i64 n##x, i64 n##y, i64 n##z
#define Q(n) Point3LL(n##x, n##y, n##z)
static void put3(i64* o, const Point3LL& p) { o[0] = p.x_; o[1] = p.y_; o[2] = p.z_; }
static bool res(const std::optional<Segment3LL>& r, i64* o) { for (int i = 0; i < 6; i++) o[i] = 0; if (! r) return false; put3(o, r->start()); put3(o + 3, r->end()); return true; }
static i64 poly(const std::optional<PlanarPolygon3LL>& r, std::vector<Segment3LL>* out) { if (! r) return -1; *out = r->segments_; return out->size(); }
extern "C" {
void h_atx(PP(a), PP(b), i64 v, i64* o) { put3(o, Segment3LL(Q(a), Q(b)).pointAtX(v)); }
void h_aty(PP(a), PP(b), i64 v, i64* o) { put3(o, Segment3LL(Q(a), Q(b)).pointAtY(v)); }
void h_atz(PP(a), PP(b), i64 v, i64* o) { put3(o, Segment3LL(Q(a), Q(b)).pointAtZ(v)); }
bool h_cutx(PP(a), PP(b), i64 l, i64 h, i64* o) { return res(Segment3LL(Q(a), Q(b)).intersectionWithXLayer(l, h), o); }
bool h_cuty(PP(a), PP(b), i64 l, i64 h, i64* o) { return res(Segment3LL(Q(a), Q(b)).intersectionWithYLayer(l, h), o); }
bool h_cutz(PP(a), PP(b), i64 l, i64 h, i64* o) { return res(Segment3LL(Q(a), Q(b)).intersectionWithZLayer(l, h), o); }
i64 h_polyx(std::vector<Segment3LL>* v, i64 l, i64 h, std::vector<Segment3LL>* out) { return poly(PlanarPolygon3LL(std::vector<Segment3LL>(*v)).intersectionWithXLayer(l, h), out); }
i64 h_polyy(std::vector<Segment3LL>* v, i64 l, i64 h, std::vector<Segment3LL>* out) { return poly(PlanarPolygon3LL(std::vector<Segment3LL>(*v)).intersectionWithYLayer(l, h), out); }
i64 h_polyz(std::vector<Segment3LL>* v, i64 l, i64 h, std::vector<Segment3LL>* out) { return poly(PlanarPolygon3LL(std::vector<Segment3LL>(*v)).intersectionWithZLayer(l, h), out); }
void h_minmax(std::vector<Segment3LL>* v, i64* o) { PlanarPolygon3LL p{ std::vector<Segment3LL>(*v) }; std::tie(o[0], o[1]) = p.minmaxX(); std::tie(o[2], o[3]) = p.minmaxY(); std::tie(o[4], o[5]) = p.minmaxZ(); }
}
