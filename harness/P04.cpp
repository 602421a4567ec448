#include "geo.h"
#include <cstring>
#include <functional>
#include <vector>
#include "utils/SquareGrid.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/SparseLineGrid.h"
#include "utils/VoxelUtils.h"
using namespace cura;
typedef std::vector<Point2LL> V;
struct Cell3 { i64 x, y, z; };
extern "C" {
void h_cell(i64 size, PT(p), i64* o) { SquareGrid g(size); put(o, g.toGridPoint(P2(p))); put(o + 2, g.toLowerCorner(g.toGridPoint(P2(p)))); o[4] = g.getCellSize(); }
#define FIND(s, S) void h_find_##s(S PT(q), PT(p), i64 r, i64* o) { SquareGrid g(size_##s); Point2LL c = g.toGridPoint(P2(p)), lo = g.toGridPoint(Point2LL(qx - r, qy - r)), hi = g.toGridPoint(Point2LL(qx + r, qy + r)); bool found = false, out = false; o[0] = g.processNearby(P2(q), r, [&](const SquareGrid::GridPoint& x) { if (x.X < lo.X || x.Y < lo.Y || x.X > hi.X || x.Y > hi.Y) out = true; if (x.Y == c.Y && x.X == c.X) { found = true; return false; } return ! found; }); o[1] = found; o[2] = out; }
#define size_1000 1000
#define size_any size
#define COMMA ,
FIND(1000,) FIND(any, i64 size COMMA)
void h_hline(PT(a), PT(p), i64 d, i64* o) { SquareGrid g(1000); Point2LL c = g.toGridPoint(P2(p)); i64 hits = 0, total = 0; o[2] = g.processLineCells({ P2(a), Point2LL(ax + d, ay) }, [&](SquareGrid::GridPoint x) { total++; if (x == c) hits++; return true; }); o[0] = hits; o[1] = total; }
void h_line(i64 size, PT(a), PT(b), i64 stop, V* out, i64* o) { SquareGrid g(size); out->clear(); i64 n = 0; o[0] = g.processLineCells({ P2(a), P2(b) }, [&](SquareGrid::GridPoint x) { out->push_back(x); return ++n != stop; }); }
void h_voxel(i64 sx, i64 sy, i64 sz, PT(p), i64 pz, i64* o) { VoxelUtils v(Point3LL(sx, sy, sz)); Point3LL g = v.toGridPoint(Point3LL(px, py, pz)), l = v.toLowerCorner(g); o[0] = g.x_; o[1] = g.y_; o[2] = g.z_; o[3] = l.x_; o[4] = l.y_; o[5] = l.z_; }
void h_voxelpoly(i64 sx, i64 sy, i64 sz, PT(p), i64 pz, i64* o) { VoxelUtils v(Point3LL(sx, sy, sz)); Polygon q = v.toPolygon(Point3LL(px, py, pz)); o[8] = q.size(); for (int i = 0; i < 4; i++) put(o + 2 * i, q[i]); }
void h_walk(i64 sx, i64 sy, i64 sz, PT(a), i64 az, PT(b), i64 bz, i64 stop, std::vector<Cell3>* out, i64* o) { VoxelUtils v(Point3LL(sx, sy, sz)); out->clear(); i64 n = 0; o[0] = v.walkLine(Point3LL(ax, ay, az), Point3LL(bx, by, bz), [&](GridPoint3 x) { out->push_back({ x.x_, x.y_, x.z_ }); return ++n != stop; }); }
void h_walkpoly(i64 sx, i64 sy, i64 sz, V* v, i64 z, std::vector<Cell3>* out) { VoxelUtils u(Point3LL(sx, sy, sz)); out->clear(); Shape s; s.push_back(Polygon(*v, false)); u.walkPolygons(s, z, [&](GridPoint3 x) { out->push_back({ x.x_, x.y_, x.z_ }); return true; }); }
void h_kernel(i64 kx, i64 ky, i64 kz, int type, std::vector<Cell3>* out, std::vector<Cell3>* dil, PT(p), i64 pz, i64 stop, i64* o) { DilationKernel k(Point3LL(kx, ky, kz), DilationKernel::Type(type)); out->clear(); dil->clear(); for (auto& c : k.relative_cells_) out->push_back({ c.x_, c.y_, c.z_ }); VoxelUtils u(Point3LL(10, 10, 10)); i64 n = 0; std::function<bool(GridPoint3)> f = [&](GridPoint3 x) { dil->push_back({ x.x_, x.y_, x.z_ }); return ++n != stop; }; o[0] = u.dilate(k, f)(Point3LL(px, py, pz)); }
void h_sparse(i64 size, V* v, PT(q), i64 r, i64 skip, V* out, i64* o) { SparsePointGridInclusive<i64> g(size); for (size_t i = 0; i < v->size(); i++) g.insert((*v)[i], i); out->clear(); for (auto& e : g.getNearby(P2(q), r)) { out->push_back(Point2LL(e.val, e.point == (*v)[e.val])); }
    SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<i64> e; e.val = -1; o[0] = g.getNearest(P2(q), r, e, [skip](const auto& x) { return x.val != skip; }); o[1] = e.val; auto vals = g.getNearbyVals(P2(q), r); o[2] = vals.size(); for (size_t i = 0; i < vals.size() && i < out->size(); i++) if (vals[i] != (*out)[i].X) o[2] = -1; }
struct Loc { std::pair<Point2LL, Point2LL> operator()(const std::pair<Point2LL, Point2LL>& x) const { return x; } };
void h_lines(i64 size, V* v, PT(q), i64 r, V* out) { SparseLineGrid<std::pair<Point2LL, Point2LL>, Loc> g(size); for (size_t i = 0; i + 1 < v->size(); i += 2) g.insert({ (*v)[i], (*v)[i + 1] }); out->clear(); for (auto& e : g.getNearby(P2(q), r)) { out->push_back(e.first); out->push_back(e.second); } }
}
