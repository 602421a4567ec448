#include "geo.h"
#include <cmath>
#include "settings/types/Angle.h"
#include "settings/types/Duration.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "settings/types/Temperature.h"
#include "settings/types/Velocity.h"
using namespace cura;
static inline AngleDegrees DG(double v) { AngleDegrees a; a.value_ = v; return a; }
static inline AngleRadians RD(double v) { AngleRadians a; a.value_ = v; return a; }
extern "C" {
double h_deg(double v, double* r) { *r = std::fmod(v, 360.0); return AngleDegrees(v); }
double h_rad(double v, double* r) { *r = std::fmod(v, TAU); return AngleRadians(v); }
void h_deg2(double a, double b, double* o) { o[0] = DG(a) + DG(b); o[1] = DG(a) - DG(b); AngleDegrees c = DG(a); c += DG(b); o[2] = c; c = DG(a); c -= DG(b); o[3] = c; }
void h_degmix(double a, double b, double* o) { o[0] = DG(a) + b; o[1] = DG(a) - b; o[2] = std::fmod(b, 360.0); }
void h_rad2(double a, double b, double* o) { o[0] = RD(a) + RD(b); o[1] = RD(a) - RD(b); AngleRadians c = RD(a); c += RD(b); o[2] = c; c = RD(a); c -= RD(b); o[3] = c; }
double h_todeg(double a) { return AngleDegrees(RD(a)); }
double h_torad(double a) { return AngleRadians(DG(a)); }
double h_tan(double a) { return boundedTan(RD(a)); }
void h_tan2(double a, double b, double* o) { o[0] = boundedTan(RD(a)); o[1] = boundedTan(RD(b)); }
void h_layer(i64 a, i64 b, int n, i64* o) {
    LayerIndex x(a), y(b); o[0] = x + y; o[1] = x - y; o[2] = x * y; o[3] = -x; LayerIndex z = x; z += y; o[4] = z; z = x; z -= y; o[5] = z; z = x; z *= y; o[6] = z; z = x; o[7] = ++z; o[8] = z++; o[9] = z; o[10] = --z; o[11] = z--; o[12] = z; o[13] = distance(x, y);
    o[14] = x + n; o[15] = x - n; o[16] = x * n; z = x; z += n; o[17] = z; z = x; z -= n; o[18] = z; z = n; o[19] = z; o[20] = LayerIndex(n); z = y; o[21] = z; }
void h_layerdiv(i64 a, i64 b, i64* o) { LayerIndex x(a), y(b); o[0] = x / y; LayerIndex z = x; z /= y; o[1] = z; z = x; z /= b; o[2] = z; o[3] = x / b; }
void h_layercmp(i64 a, i64 b, bool* o) { LayerIndex x(a), y(b); o[0] = x < y; o[1] = x <= y; o[2] = x > y; o[3] = x >= y; o[4] = x == y; o[5] = x != y; o[6] = x < b; o[7] = x == b; o[8] = x >= b; }
i64 h_layerf(double v) { return LayerIndex(v); }
double h_dur(double v) { return Duration(v); }
void h_dur2(double a, double b, double f, double* o) { Duration x(a), y(b); o[0] = x + y; o[1] = x - y; Duration z = x; z += y; o[2] = z; o[3] = f * x; o[4] = x - x; o[5] = Duration(); }
void h_temp(double a, double b, double* o) { Temperature x(a), y(b); o[0] = x + y; o[1] = x - y; Temperature z = x; z += y; o[2] = z; z = x; z -= y; o[3] = z; o[4] = x; o[5] = Temperature(); }
#define NUM(T) { T x(a), y(b); o[0] = x + y; o[1] = x - y; o[2] = x * y; o[3] = -x; T z = x; z += y; o[4] = z; z = x; z -= y; o[5] = z; z = x; z *= y; o[6] = z; o[7] = x + b; o[8] = x - b; o[9] = x * b; z = x; z += b; o[10] = z; z = x; z -= b; o[11] = z; z = x; z *= b; o[12] = z; z = b; o[13] = z; o[14] = x; o[15] = T(); c[0] = x < y; c[1] = x <= y; c[2] = x > y; c[3] = x >= y; c[4] = x == y; c[5] = x != y; c[6] = x < b; c[7] = x == b; }
#define DIV(T) { T x(a), y(b); o[0] = x / y; T z = x; z /= y; o[1] = z; z = x; z /= b; o[2] = z; o[3] = x / b; }
void h_ratio(double a, double b, double* o, bool* c) NUM(Ratio)
void h_velocity(double a, double b, double* o, bool* c) NUM(Velocity)
void h_accel(double a, double b, double* o, bool* c) NUM(Acceleration)
void h_ratiodiv(double a, double b, double* o) { DIV(Ratio) o[4] = Ratio(a, b); }
void h_velocitydiv(double a, double b, double* o) DIV(Velocity)
void h_acceldiv(double a, double b, double* o) DIV(Acceleration)
void h_ratioint(int a, int b, double* o) { o[0] = Ratio(a, b); o[1] = Ratio((long long)a, (long long)b); }
}
