ID='p12_flow_neighbour'
PROP='P12'
NEEDS='a flow graph with at least three points and a flow beyond the second'
BREAKS='the temperature is interpolated between the neighbouring points; with the change always from the first point'
EDITS=[('src/settings/FlowTempGraph.cpp','        last_datum = &datum;','        last_datum = datum.temp_ > last_datum->temp_ ? &datum : last_datum;')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "settings/FlowTempGraph.h"
#include <cstdio>
#include <cmath>
using namespace cura;
int main() {
    FlowTempGraph g; g.data_.emplace_back(1.0, Temperature(200.0)); g.data_.emplace_back(2.0, Temperature(190.0)); g.data_.emplace_back(4.0, Temperature(230.0));
    double t = g.getTemp(3.0, Temperature(210.0), true);
    if (std::abs(t - 210.0) > 1e-6) { printf("%f\\n", t); return 1; }
    return 0;
}
'''
