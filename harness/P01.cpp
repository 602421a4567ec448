// Harness for C01: thin extern "C" entry points over the real API (no logic of its own).
#include <cstdint>
#include "utils/Coord_t.h"
#include "utils/math.h"
using namespace cura;
extern "C" {
int64_t h_round_divide_signed(int64_t a, int64_t b) { return round_divide_signed(a, b); }
int64_t h_ceil_divide_signed(int64_t a, int64_t b) { return ceil_divide_signed(a, b); }
int64_t h_floor_divide_signed(int64_t a, int64_t b) { return floor_divide_signed(a, b); }
uint64_t h_round_divide(uint64_t a, uint64_t b) { return round_divide(a, b); }
uint64_t h_round_up_divide(uint64_t a, uint64_t b) { return round_up_divide(a, b); }
int64_t h_mm2int(double mm) { return MM2INT(mm); }
double h_int2mm(int64_t n) { return INT2MM(n); }
int64_t h_roundtrip(int64_t n) { return MM2INT(INT2MM(n)); }
int64_t h_lerp(int64_t a, int64_t b, double t) { return lerp(a, b, t); }
}
