#include "geo.h"
#include <vector>
#include "geometry/PointsSet.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "settings/EnumSettings.h"
#include "utils/math.h"
#include "utils/scoring/BestElementFinder.h"
#include "utils/scoring/CornerScoringCriterion.h"
#include "utils/scoring/DistanceScoringCriterion.h"
#include "utils/scoring/ExclusionAreaScoringCriterion.h"
#include "utils/scoring/RandomScoringCriterion.h"
#include "utils/scoring/ScoringCriterion.h"
using namespace cura;
typedef std::vector<Point2LL> V;
struct Table : ScoringCriterion { const double* s; explicit Table(const double* s) : s(s) {} double computeScore(const size_t i) const override { return s[i]; } };
static std::shared_ptr<ScoringCriterion> share(ScoringCriterion& c) { return std::shared_ptr<ScoringCriterion>(std::shared_ptr<ScoringCriterion>(), &c); }
static i64 answer(std::optional<size_t> r) { return r ? i64(*r) : -1; }
struct Val { double v; };
extern "C" {
i64 h_none() { double s[1] = { 0 }; Table a(s); BestElementFinder f; f.appendSingleCriterionPass(share(a), 0.5); return answer(f.findBestElement(0)); }
i64 h_nopass(i64 n) { BestElementFinder f; return answer(f.findBestElement(n)); }
#define ONE(n) i64 h_one##n(double* s) { Table a(s); BestElementFinder f; f.appendSingleCriterionPass(share(a)); return answer(f.findBestElement(n)); }
ONE(1) ONE(2) ONE(4)
#define TWO(n) i64 h_two##n(double* s, double* t, double thr) { Table a(s), b(t); BestElementFinder f; f.appendSingleCriterionPass(share(a), thr); f.appendSingleCriterionPass(share(b)); return answer(f.findBestElement(n)); }
TWO(2) TWO(3) TWO(4)
i64 h_weights(double* s, double* t, double wa, double wb) { Table a(s), b(t); BestElementFinder f; BestElementFinder::CriteriaPass p; p.criteria.push_back({ share(a), wa }); p.criteria.push_back({ share(b), wb }); f.appendCriteriaPass(p); return answer(f.findBestElement(3)); }
i64 h_many(std::vector<Val>* s, std::vector<Val>* t, std::vector<Val>* u, std::vector<Val>* x, double w, double thr, double thr2) { std::vector<double> d[4]; for (size_t i = 0; i < s->size(); i++) { d[0].push_back((*s)[i].v); d[1].push_back((*t)[i].v); d[2].push_back((*u)[i].v); d[3].push_back((*x)[i].v); }
    Table a(d[0].data()), b(d[1].data()), c(d[2].data()), e(d[3].data()); BestElementFinder f; BestElementFinder::CriteriaPass p; p.criteria.push_back({ share(a), 1 }); p.criteria.push_back({ share(b), w }); p.outsider_delta_threshold = thr; f.appendCriteriaPass(p); f.appendSingleCriterionPass(share(c), thr2); f.appendSingleCriterionPass(share(e)); return answer(f.findBestElement(s->size())); }
void h_dist(PT(p), PT(t), int type, double div, double* o) { PointsSet s; s.push_back(P2(p)); Point2LL target = P2(t); DistanceScoringCriterion c(s, target, DistanceScoringCriterion::DistanceType(type), div); const ScoringCriterion& b = c; o[0] = b.computeScore(size_t(0)); o[1] = type == 0 ? vSizeMM(P2(p) - P2(t)) : INT2MM(std::abs(type == 1 ? px - tx : py - ty)); o[2] = INT2MM(px - tx); o[3] = INT2MM(py - ty); }
void h_closer(PT(p), PT(q), PT(t), int type, double div, double* o) { PointsSet s; s.push_back(P2(p)); s.push_back(P2(q)); Point2LL target = P2(t); DistanceScoringCriterion c(s, target, DistanceScoringCriterion::DistanceType(type), div); const ScoringCriterion& b = c; o[0] = b.computeScore(size_t(0)); o[1] = b.computeScore(size_t(1)); }
static double corner(const PointsSet& s, size_t i, EZSeamCornerPrefType t) { CornerScoringCriterion c(s, t); const ScoringCriterion& b = c; return b.computeScore(i); }
void h_corner3(PT(a), PT(b), PT(c), double* o) { PointsSet s; s.push_back(P2(a)); s.push_back(P2(b)); s.push_back(P2(c));
    o[0] = corner(s, 1, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER); o[1] = corner(s, 1, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_OUTER); o[2] = corner(s, 1, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_ANY); o[3] = corner(s, 1, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_WEIGHTED); o[4] = corner(s, 1, EZSeamCornerPrefType::PLUGIN); }
void h_corner(V* v, i64 i, double* o) { PointsSet s(*v); 
    o[0] = corner(s, i, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER); o[1] = corner(s, i, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_OUTER); o[2] = corner(s, i, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_ANY); o[3] = corner(s, i, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_WEIGHTED); o[4] = corner(s, i, EZSeamCornerPrefType::PLUGIN); }
void h_exclude(V* v, PT(p), double* o, int* pip) { Polygon q(*v, false); Shape x; x.push_back(q); PointsSet s; s.push_back(P2(p)); ExclusionAreaScoringCriterion c(s, x); const ScoringCriterion& b = c; o[0] = b.computeScore(size_t(0)); pip[0] = ClipperLib::PointInPolygon(P2(p), q.getPoints()); }
void h_random(i64 i, double* o) { RandomScoringCriterion c; o[0] = c.computeScore(i); o[1] = c.computeScore(i); o[2] = c.computeScore(i + 1); }
double h_invlerp(double a, double b, double v) { return inverse_lerp(a, b, v); }
i64 h_invlerpi(i64 a, i64 b, i64 v, double* o) { o[0] = inverse_lerp(a, b, v); return 0; }
}
