#pragma once
#include <cstdint>
#include <optional>
#include <utility>
#include "geometry/Point2LL.h"
#include "geometry/Point3LL.h"
typedef cura::coord_t i64;
#define PT(n) i64 n##x, i64 n##y
#define P2(n) cura::Point2LL(n##x, n##y)
static inline void put(i64* o, const cura::Point2LL& p) { o[0] = p.X; o[1] = p.Y; }
