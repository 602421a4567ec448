ID='p11_clamp_lost'
PROP='P11'
NEEDS='a short move that starts slowly and leaves faster than it could accelerate to within its length'
BREAKS='braking starts beyond the end of the move, so its parts no longer add up to its length and the time estimate is wrong'
EDITS=[('src/timeEstimate.cpp','accelerate_distance = std::min(accelerate_distance, block->distance); //(We can cast here to unsigned, because the above line ensures that we are above zero)','accelerate_distance = std::min(accelerate_distance, block->distance + block->distance);')]
DEMO='''#define private public
#include "timeEstimate.h"
#undef private
#include <cstdio>
#include <cstring>
using namespace cura;
int main() {
    TimeEstimateCalculator t;
    TimeEstimateCalculator::Block b;
    memset((void*)&b, 0, sizeof(b));
    b.distance = 1; b.acceleration = Acceleration(10); b.nominal_feedrate = Velocity(20);
    t.calculateTrapezoidForBlock(&b, Ratio(0.1), Ratio(0.9));
    if (b.accelerate_until > 1.0001 || b.decelerate_after > 1.0001) { printf("%f %f\\n", b.accelerate_until, b.decelerate_after); return 1; }
    return 0;
}
'''
FLAGS='-Wl,--unresolved-symbols=ignore-all'
