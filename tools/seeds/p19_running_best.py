ID='p19_running_best'
PROP='P19'
NEEDS='a later candidate with an equal score to the best of the last pass'
BREAKS='the first of equally good candidates must win; with the change the last one does'
EDITS=[('src/utils/scoring/BestElementFinder.cpp', 'iterator->score > best_candidate_iterator->score', 'iterator->score >= best_candidate_iterator->score')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "utils/scoring/BestElementFinder.h"
#include "utils/scoring/ScoringCriterion.h"
#include <cstdio>
using namespace cura;
struct Table : ScoringCriterion { const double* s; Table(const double* s) : s(s) {} double computeScore(const size_t i) const override { return s[i]; } };
int main() {
    double a[4] = { 0.2, 0.7, 0.7, 0.1 };
    BestElementFinder f; f.appendSingleCriterionPass(std::make_shared<Table>(a));
    auto r = f.findBestElement(4);
    if (! r || *r != 1) { printf("chose %zu\\n", r ? *r : 99); return 1; }
    return 0;
}
'''
