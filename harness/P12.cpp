#include <optional>
#include <cstdint>
#include "Application.h"
#include "Preheat.h"
#include "settings/FlowTempGraph.h"
using namespace cura;
typedef int64_t i64;
extern "C" double vp_heat[8][5];
double vp_heat[8][5];
static void put(double* s, i64 e) { for (int i = 0; i < 5; i++) { vp_heat[e][i] = s[i]; vp_heat[!e][i] = s[i] + 1000; } }
extern "C" {
double h_graph(i64 k, std::vector<FlowTempGraph::Datum>* v, double flow, double t, bool dep) { FlowTempGraph g; static_assert(sizeof(g) == sizeof(*v)); return reinterpret_cast<FlowTempGraph*>(v)->getTemp(flow, Temperature(t), dep); }
double h_time(double* s, i64 e, double b, double a, bool p) { put(s, e); Preheat h; return h.getTimeToGoFromTempToTemp(e, Temperature(b), Temperature(a), p); }
double h_temp(double* s, i64 e, bool first) { put(s, e); Preheat h; return h.getTemp(e, first); }
void h_warm(double* s, i64 e, double w, double ts, double tm, double te, bool p, double* o) { put(s, e); Preheat h; auto r = h.getWarmUpPointAfterCoolDown(w, e, ts, tm, te, p); o[0] = r.total_time_window; o[1] = r.heating_time; o[2] = r.lowest_temperature; }
void h_cool(double* s, i64 e, double w, double ts, double tm, double te, bool p, double* o) { put(s, e); Preheat h; auto r = h.getCoolDownPointAfterWarmUp(w, e, ts, tm, te, p); o[0] = r.total_time_window; o[1] = r.cooling_time; o[2] = r.highest_temperature; }
#define RATE(k, H, C, X, P) \
void h_warm_##k(double w, double ts, double tm, double te, double* o) { double s[5] = { H, C, X, 200, 210 }; h_warm(s, 1, w, ts, tm, te, P, o); } \
void h_cool_##k(double w, double ts, double tm, double te, double* o) { double s[5] = { H, C, X, 200, 210 }; h_cool(s, 1, w, ts, tm, te, P, o); }
RATE(0, 2, 0.5, 0.25, false) RATE(1, 1, 2, 0.25, false) RATE(2, 0.75, 0.75, 0.25, true)
}
