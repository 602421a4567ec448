ID='p16_angle_wrap'
PROP='P16'
NEEDS='an angle below minus one full turn'
BREAKS='angles must be normalised into one turn; with the change angles below -360 degrees stay negative'
EDITS=[('include/settings/types/Angle.h','        : value_{ std::fmod(std::fmod(value, 360) + 360, 360) }','        : value_{ std::fmod(value + 360, 360) }')]
DEMO='''#include "settings/types/Angle.h"
#include <cstdio>\n#include <initializer_list>
using namespace cura;
int main() {
    for (double v : { 0.0, 10.0, -10.0, 360.0, 725.0, -360.0, -370.0, -1000.0 }) {
        double a = AngleDegrees(v);
        double k = (v - a) / 360;
        if (a < 0 || a >= 360 || std::fabs(k - std::round(k)) > 1e-9) { printf("%f -> %f\\n", v, a); return 1; }
    }
    return 0;
}
'''
