#include "geo.h"
#include <cstring>
#include <ostream>
#include <streambuf>
#include "utils/string.h"
using namespace cura;
// the stream the numbers go to: o[0] characters, one per element of o from 1 on
struct Sink : std::streambuf
{
    i64* o = nullptr;
    int_type overflow(int_type ch) override { if (o[0] < 60) { o[1 + o[0]++] = (char)ch; } return ch; }
};
extern "C" {
__attribute__((noinline)) std::ostream* h_open(i64* o) { static Sink b; static std::ostream s(&b); b.o = o; for (int i = 0; i < 61; i++) o[i] = 0; s.clear(); return &s; }
void h_int(int v, i64* o) { writeInt2mm(v, *h_open(o)); }
void h_mm(i64 v, i64* o) { *h_open(o) << MMtoStream{ v }; }
void h_mm2(i64 v, i64 w, i64* o) { *h_open(o) << MMtoStream{ v } << ' ' << MMtoStream{ w }; }
#define DBL(k) void h_double##k(double v, i64* o) { writeDoubleToStream(k, v, *h_open(o)); }
DBL(0) DBL(1) DBL(2) DBL(3) DBL(4) DBL(5) DBL(6) DBL(9)
void h_prec(double v, i64* o) { *h_open(o) << PrecisionedDouble{ 5, v }; }
bool h_zero2(double v) { return PrecisionedDouble{ 2, v }.wouldWriteZero(); }
bool h_zero5(double v) { return PrecisionedDouble{ 5, v }.wouldWriteZero(); }
void h_escape(i64 a, i64 b, i64* o) { char s[3] = { char(a), char(b), 0 }; *h_open(o) << Escaped{ s }; }
int h_case(i64* a, i64* b) { char x[16], y[16]; for (int i = 0; i < 8; i++) { x[i] = a[i]; y[i] = b[i]; } x[8] = y[8] = 0; return stringcasecompare(x, y); }
i64 h_base64(i64* a, i64 n, i64* o) { std::string s; for (int i = 0; i < n; i++) s += char(a[i]); std::string r = convertTobase64(s); for (size_t i = 0; i < r.size() && i < 60; i++) o[i] = r[i]; return r.size(); }
}
