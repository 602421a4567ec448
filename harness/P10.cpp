#include "geo.h"
#include <memory>
#include <new>
#include <vector>
#include "BeadingStrategy/BeadingStrategyFactory.h"
#include "BeadingStrategy/DistributedBeadingStrategy.h"
#include "BeadingStrategy/InnerWallInsetBeadingStrategy.h"
#include "BeadingStrategy/LimitedBeadingStrategy.h"
#include "BeadingStrategy/OuterWallInsetBeadingStrategy.h"
#include "BeadingStrategy/RedistributeBeadingStrategy.h"
#include "BeadingStrategy/WideningBeadingStrategy.h"
using namespace cura;
typedef BeadingStrategy::Beading B;
typedef BeadingStrategyPtr SP;
#define N 10
static inline void putb(i64* o, const B& b, bool lo = true) { o[0] = b.total_thickness; if (lo) o[1] = b.left_over; o[2] = b.bead_widths.size(); o[3] = b.toolpath_locations.size(); for (int i = 0; i < N && i < (int)b.bead_widths.size(); i++) o[4 + i] = b.bead_widths[i]; for (int i = 0; i < N && i < (int)b.toolpath_locations.size(); i++) o[4 + N + i] = b.toolpath_locations[i]; }
static inline void scal(i64* o, BeadingStrategy& d, i64 t, i64 n) { o[0] = d.getOptimalBeadCount(t); o[1] = d.getOptimalThickness(n); o[2] = d.getTransitionThickness(n); }
#define DP i64 w, double split, double add, int radius
#define RP DP, i64 wo, double mr
static inline SP mkd(DP) { return std::make_unique<DistributedBeadingStrategy>(w, 100, AngleRadians(), Ratio(split), Ratio(add), radius); }
static inline SP mkr(RP) { return std::make_unique<RedistributeBeadingStrategy>(wo, Ratio(mr), mkd(w, split, add, radius)); }
#define D_ mkd(w, split, add, 1)
#define R_ mkr(w, split, add, 1, wo, mr)
#define DA i64 w, double split, double add
#define RA DA, i64 wo, double mr
extern "C" {
void h_dist(DA, i64 t, i64 n, i64* o) { SP d = D_; scal(o, *d, t, n); }
void h_redist(RA, i64 t, i64 n, i64* o) { SP d = R_; scal(o, *d, t, n); }
void h_wide(DA, i64 mi, i64 mo, i64 t, i64 n, i64* o) { WideningBeadingStrategy d(D_, mi, mo); scal(o, d, t, n); o[3] = DistributedBeadingStrategy(w, 100, AngleRadians(), Ratio(split), Ratio(add), 1).getTransitionThickness(1); }
void h_limit(DA, i64 mx, i64 t, i64 n, i64* o) { LimitedBeadingStrategy d(mx, D_); scal(o, d, t, n); SP p = D_; o[3] = p->getOptimalBeadCount(t); o[4] = p->getOptimalThickness(mx + 1); o[5] = p->getTransitionThickness(mx); }
void h_insets(DA, i64 off, i64 t, i64 n, i64* o) { OuterWallInsetBeadingStrategy d(off, D_); scal(o, d, t, n); InnerWallInsetBeadingStrategy e(off, D_); scal(o + 3, e, t, n); SP p = D_; scal(o + 6, *p, t, n); }
void h_anchor(DA, i64 n, double* o, i64* q) { SP d = D_; o[0] = d->getTransitionAnchorPos(n); q[0] = d->getOptimalThickness(n); q[1] = d->getTransitionThickness(n); q[2] = d->getOptimalThickness(n + 1); q[3] = d->getTransitioningLength(n); q[4] = d->getOptimalWidth(); q[5] = d->getDefaultTransitionLength(); o[1] = d->getSplitMiddleThreshold(); o[2] = d->getAddMiddleThreshold(); }
#define DC(n, r) void h_dist_##n##_##r(DA, i64 t, i64* o) { SP d = mkd(w, split, add, r); putb(o, d->compute(t, n), true); }
DC(0, 1) DC(1, 1) DC(2, 1) DC(3, 1) DC(4, 1) DC(4, 2) DC(5, 1) DC(5, 3) DC(6, 2) DC(7, 3)
#define RC(n) void h_redist_##n(RA, i64 t, i64* o, i64* p) { SP d = R_; putb(o, d->compute(t, n)); if (n > 2) { SP q = D_; putb(p, q->compute(t - 2 * wo, n - 2)); } }
RC(0) RC(1) RC(2) RC(3) RC(4) RC(5) RC(6)
void h_wide_c(DA, i64 mi, i64 mo, i64 t, i64* o, i64* p) { WideningBeadingStrategy d(D_, mi, mo); putb(o, d.compute(t, 3), false); SP q = D_; putb(p, q->compute(t, 3)); }
#define IC(n) void h_inset_##n(DA, i64 off, i64 t, i64* o, i64* p, i64* q) { OuterWallInsetBeadingStrategy d(off, D_); putb(o, d.compute(t, n)); InnerWallInsetBeadingStrategy e(off, D_); putb(p, e.compute(t, n)); SP f = D_; putb(q, f->compute(t, n)); }
IC(1) IC(2) IC(3) IC(4)
#define LC(mx, n) void h_limit_##mx##_##n(DA, i64 t, i64* o, i64* q) { LimitedBeadingStrategy d(mx, D_); putb(o, d.compute(t, n)); SP f = D_; putb(q, f->compute(n <= mx ? t : f->getOptimalThickness(mx), n <= mx ? n : mx)); }
LC(2, 1) LC(2, 2) LC(2, 3) LC(4, 3) LC(4, 4) LC(4, 5) LC(6, 6) LC(6, 7)
#define FA i64 w, i64 wo, i64 tl, double ang, i64 mo, i64 mi, double split, double add, i64 mx, i64 oo, i64 io, double mr, i64 t, i64 n, i64* o, i64* p
#define FC(name, thin, O, I, MK) void h_factory_##name(FA) { SP f = BeadingStrategyFactory::makeStrategy(wo, w, tl, ang, thin, mo, mi, Ratio(split), Ratio(add), mx, O, I, 3, Ratio(mr)); SP d = mkr(w, split, add, 3, wo, mr); MK; SP l = std::make_unique<LimitedBeadingStrategy>(mx, std::move(d)); scal(o, *f, t, n); scal(p, *l, t, n); o[3] = f->getTransitioningLength(n); p[3] = n == 0 ? 10 : tl; }
#define MW d = std::make_unique<WideningBeadingStrategy>(std::move(d), mi, mo);
#define MO d = std::make_unique<OuterWallInsetBeadingStrategy>(oo, std::move(d));
#define MI d = std::make_unique<InnerWallInsetBeadingStrategy>(io, std::move(d));
FC(thin, true, 0, 0, MW) FC(plain, false, 0, 0, ) FC(all, true, oo, io, MW MO MI)
#define FCC(name, thin, O, I, MK, c) void h_factoryc_##name(FA) { SP f = BeadingStrategyFactory::makeStrategy(wo, w, tl, ang, thin, mo, mi, Ratio(split), Ratio(add), 4, O, I, 3, Ratio(mr)); SP d = mkr(w, split, add, 3, wo, mr); MK; SP l = std::make_unique<LimitedBeadingStrategy>(4, std::move(d)); putb(o, f->compute(t, c)); putb(p, l->compute(t, c)); }
FCC(plain, false, 0, 0, , 4) FCC(insets, false, oo, io, MO MI, 4)
void h_names(i64 mx, i64* o) { SP f = BeadingStrategyFactory::makeStrategy(400, 350, 100, 0.1, true, 340, 100, Ratio(0.5), Ratio(0.6), mx, 20, 10, 3, Ratio(0.3)); std::string s = f->toString(); const char* parts[] = { "Limited", "Inner", "Outer", "Widening", "Redistribute", "Distributed" }; for (int i = 0; i < 6; i++) o[i] = s.find(parts[i]) != std::string::npos; o[6] = s.size() < 400; }
}
