ID='p11_jerk_overrides'
PROP='P11'
NEEDS='a corner where both the planar jerk and the extruder jerk exceed their limits, the planar one by more'
BREAKS='the junction speed is scaled by the last exceeded limit instead of the tightest one'
EDITS=[('src/timeEstimate.cpp','vmax_junction_factor = std::min(vmax_junction_factor, Ratio(max_e_jerk / e_jerk));','vmax_junction_factor = Ratio(max_e_jerk / e_jerk);')]
DEMO='''#include <sstream>
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <memory>
#define private public
#include "timeEstimate.h"
#undef private
#include <cstdio>
using namespace cura;
int main() {
    TimeEstimateCalculator t;
    t.setPosition(TimeEstimateCalculator::Position(0, 0, 0, 0));
    t.plan(TimeEstimateCalculator::Position(100, 0, 0, 10), Velocity(100), PrintFeatureType::OuterWall);
    t.plan(TimeEstimateCalculator::Position(0, 0, 0, 9.2), Velocity(100), PrintFeatureType::OuterWall);
    // planar jump 200 mm/s against 20, extruder jump 10.8 mm/s against 5
    double v = t.blocks.back().max_entry_speed;
    if (v > 10.01) { printf("%f\\n", v); return 1; }
    return 0;
}
'''
FLAGS='-Wl,--unresolved-symbols=ignore-all'
