#include "geo.h"
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include "settings/types/Ratio.h"
#include "settings/types/Velocity.h"
#include "settings/types/Duration.h"
#include "PrintFeature.h"
#define private public
#include "timeEstimate.h"
#undef private
using namespace cura;
typedef TimeEstimateCalculator T;
typedef T::Block B;
static inline B blk(double entry, double mx, double dist, double acc, bool flag) { B b; memset((void*)&b, 0, sizeof(b)); b.entry_speed = entry; b.max_entry_speed = mx; b.distance = dist; b.acceleration = acc; b.nominal_length_flag = flag; return b; }
static inline B blk2(double entry, double dist, double acc, double nom, int feat, bool rec = true) { B b = blk(entry, entry, dist, acc, false); b.nominal_feedrate = nom; b.feature = PrintFeatureType(feat); b.recalculate_flag = rec; return b; }
#define BK(n) double e##n, double m##n, double d##n, double a##n, bool f##n
#define MK(n) blk(e##n, m##n, d##n, a##n, f##n)
#define BN(k) double e##k, double d##k, double a##k, double n##k
static inline void trap(double* o, const B& b) { o[0] = b.accelerate_until; o[1] = b.decelerate_after; o[2] = b.initial_feedrate; o[3] = b.final_feedrate; }
#define AXES double fx, double fy, double fz, double fe, double ax, double ay, double az, double ae, double acc, double jxy, double jz, double je
static inline void setup(T& t, AXES) { t.max_feedrate[0] = fx; t.max_feedrate[1] = fy; t.max_feedrate[2] = fz; t.max_feedrate[3] = fe; t.max_acceleration[0] = ax; t.max_acceleration[1] = ay; t.max_acceleration[2] = az; t.max_acceleration[3] = ae; t.setAcceleration(acc); t.setMaxXyJerk(jxy); t.max_z_jerk = jz; t.max_e_jerk = je; }
#define SETUP T t; setup(t, fx, fy, fz, fe, ax, ay, az, ae, acc, jxy, jz, je)
static inline void res(double* o, i64* q, T& t, size_t had) { q[0] = t.blocks.size(); if (t.blocks.size() > had) { B& b = t.blocks.back(); o[0] = b.distance; o[1] = b.nominal_feedrate; o[2] = b.acceleration; o[3] = b.max_entry_speed; o[4] = b.entry_speed; o[5] = b.maxTravel; trap(o + 6, b); q[1] = b.nominal_length_flag; q[2] = int(b.feature); q[3] = b.recalculate_flag; for (int i = 0; i < 4; i++) o[10 + i] = t.previous_feedrate[i]; o[14] = t.previous_nominal_feedrate; } for (int i = 0; i < 4; i++) o[15 + i] = t.currentPosition[i]; }
extern "C" {
extern const long h_off_trap[5]; __attribute__((used)) const long h_off_trap[5] = { offsetof(B, accelerate_until), offsetof(B, decelerate_after), offsetof(B, initial_feedrate), offsetof(B, final_feedrate), offsetof(B, acceleration) };
void h_rev(BK(0), BK(1), double* o, i64* q) { T t; B p = MK(0), c = MK(0), n = MK(1); t.plannerReversePassKernel(&p, &c, &n); o[0] = c.entry_speed; q[0] = c.recalculate_flag; o[1] = n.entry_speed; o[2] = c.max_entry_speed; B c2 = MK(0); t.plannerReversePassKernel(&p, &c2, nullptr); o[3] = c2.entry_speed; }
void h_fwd(BK(0), BK(1), double* o, i64* q) { T t; B p = MK(0), c = MK(1); t.plannerForwardPassKernel(&p, &c, nullptr); o[0] = c.entry_speed; q[0] = c.recalculate_flag; o[1] = p.entry_speed; B c2 = MK(1); t.plannerForwardPassKernel(nullptr, &c2, &c); o[2] = c2.entry_speed; }
void h_passes2(BK(0), BK(1), double* o) { T t; t.blocks.push_back(MK(0)); t.blocks.push_back(MK(1)); t.reversePass(); o[0] = t.blocks[0].entry_speed; o[1] = t.blocks[1].entry_speed; t.forwardPass(); o[2] = t.blocks[0].entry_speed; o[3] = t.blocks[1].entry_speed; }
void h_passes3(BK(0), BK(1), BK(2), double* o, double* p) { T u; B x = MK(0), y = MK(1), z = MK(2); u.plannerReversePassKernel(&x, &y, &z); p[0] = x.entry_speed; p[1] = y.entry_speed; p[2] = z.entry_speed; u.plannerForwardPassKernel(&x, &y, &z); u.plannerForwardPassKernel(&y, &z, nullptr); p[3] = x.entry_speed; p[4] = y.entry_speed; p[5] = z.entry_speed; T t; t.blocks.push_back(MK(0)); t.blocks.push_back(MK(1)); t.blocks.push_back(MK(2)); t.reversePass(); for (int i = 0; i < 3; i++) o[i] = t.blocks[i].entry_speed; t.forwardPass(); for (int i = 0; i < 3; i++) o[3 + i] = t.blocks[i].entry_speed; }
void h_trap(double ef, double xf, double dist, double acc, double nom, double* o, double* p) { T t; B b = blk2(0, dist, acc, nom, 0); t.calculateTrapezoidForBlock(&b, Ratio(ef), Ratio(xf)); trap(o, b); p[0] = (nom * nom - o[2] * o[2]) / (2.0 * acc); p[1] = (o[3] * o[3] - nom * nom) / (2.0 * -acc); p[2] = (2.0 * acc * dist - o[2] * o[2] + o[3] * o[3]) / (4.0 * acc); }
void h_retrap(BN(0), BN(1), bool r0, bool r1, double* o, double* p) { T t; B x = blk2(e0, d0, a0, n0, 0, r0), y = blk2(e1, d1, a1, n1, 1, r1); t.blocks.push_back(x); t.blocks.push_back(y); t.recalculateTrapezoids(); trap(o, t.blocks[0]); trap(o + 4, t.blocks[1]); if (r0 || r1) t.calculateTrapezoidForBlock(&x, Ratio(e0 / n0), Ratio(e1 / n0)); t.calculateTrapezoidForBlock(&y, Ratio(e1 / n1), Ratio(0.05 / n1)); trap(p, x); trap(p + 4, y); }
#define CALC1(k) void h_calc1_##k(double ini, double dist, double acc, double nom, double extra, double* o) { T t; B b = blk2(ini, dist, acc, nom, k); t.addTime(Duration(extra)); t.blocks.push_back(b); std::vector<Duration> r = t.calculate(); for (int i = 0; i < 15 && i < (int)r.size(); i++) o[i] = r[i]; o[15] = r.size(); trap(o + 16, t.blocks[0]); }
void h_trap_frame(double ef, double xf, double dist, double acc, double nom, double en, double mx, bool f, bool r, i64 feat, double* o, i64* q) { T t; B b = blk2(en, dist, acc, nom, feat, r); b.max_entry_speed = mx; b.nominal_length_flag = f; t.calculateTrapezoidForBlock(&b, Ratio(ef), Ratio(xf)); o[0] = b.distance; o[1] = b.acceleration; o[2] = b.nominal_feedrate; o[3] = b.entry_speed; o[4] = b.max_entry_speed; o[5] = b.maxTravel; q[0] = b.nominal_length_flag; q[1] = b.recalculate_flag; q[2] = int(b.feature); q[3] = t.blocks.size(); }
CALC1(0) CALC1(3) CALC1(14)
void h_calc2(BN(0), BN(1), i64 g0, i64 g1, double x0, double x1, double* o, double* p) { T t; B x = blk2(e0, d0, a0, n0, g0), y = blk2(e1, d1, a1, n1, g1); t.addTime(Duration(x0)); t.addTime(Duration(x1)); t.blocks.push_back(x); t.blocks.push_back(y); std::vector<Duration> r = t.calculate(); for (int i = 0; i < 15; i++) o[i] = r[i];
    T a, b; a.addTime(Duration(x0)); b.addTime(Duration(x1)); trap(p, t.blocks[0]); trap(p + 4, t.blocks[1]); }
void h_reset(double x0, double* o) { T t; t.addTime(Duration(x0)); t.blocks.push_back(blk2(1, 1, 1, 1, 1)); t.reset(); std::vector<Duration> r = t.calculate(); for (int i = 0; i < 15; i++) o[i] = r[i]; }
#define PLAN(name, x, y, z, e) void h_plan_##name(AXES, double feed, double d, i64* q, double* o) { SETUP; t.setPosition(T::Position(0, 0, 0, 0)); t.plan(T::Position(x, y, z, e), feed, PrintFeatureType(5)); res(o, q, t, 0); }
PLAN(x, d, 0, 0, 0) PLAN(nx, -d, 0, 0, 0) PLAN(y, 0, d, 0, 0) PLAN(z, 0, 0, d, 0) PLAN(nz, 0, 0, -d, 0) PLAN(e, 0, 0, 0, d) PLAN(ne, 0, 0, 0, -d)
void h_plan_none(AXES, double feed, double s, i64* q, double* o) { SETUP; t.setPosition(T::Position(s, s, s, s)); t.plan(T::Position(s, s, s, s), feed, PrintFeatureType(5)); res(o, q, t, 0); }
#define PLAN2(name, i, x, y, z, e) void h_junction_##name(AXES, double feed, double d, double pv, double pn, i64* q, double* o) { SETUP; t.setPosition(T::Position(0, 0, 0, 0)); t.blocks.push_back(blk2(1, 1, 1, 1, 1)); t.previous_feedrate[i] = pv; t.previous_nominal_feedrate = pn; t.plan(T::Position(x, y, z, e), feed, PrintFeatureType(2)); res(o, q, t, 1); }
PLAN2(x, 0, d, 0, 0, 0) PLAN2(ny, 1, 0, -d, 0, 0) PLAN2(z, 2, 0, 0, d, 0) PLAN2(e, 3, 0, 0, 0, d)
void h_plan(AXES, double feed, double s0, double x, double y, double z, double e, double x2, double y2, double z2, double e2, double* o, i64* q, double* o2, i64* q2, double* tt) { SETUP; t.setPosition(T::Position(s0, s0, s0, s0)); t.plan(T::Position(x, y, z, e), feed, PrintFeatureType(1)); res(o, q, t, 0); size_t n = t.blocks.size(); t.plan(T::Position(x2, y2, z2, e2), feed, PrintFeatureType(2)); res(o2, q2, t, n); auto r = t.calculate(); for (int i = 0; i < 15; i++) tt[i] = r[i]; }
}
