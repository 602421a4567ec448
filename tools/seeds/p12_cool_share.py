ID='p12_cool_share'
PROP='P12'
NEEDS='a short window between two switches in which the nozzle cools while printing, with cooling and heating speeds that differ, and an end temperature below the start'
BREAKS='the share of a short window spent heating must be in proportion to the heating time per degree; with the change the standby temperature is not the one reached in the window'
EDITS=[('src/Preheat.cpp','        result.heating_time += limited_time_window * time_to_heatup_1_degree / (time_to_cooldown_1_degree + time_to_heatup_1_degree);','        result.heating_time += limited_time_window * time_to_cooldown_1_degree / (time_to_cooldown_1_degree + time_to_heatup_1_degree);')]
FLAGS='-Wl,--unresolved-symbols=ignore-all'
DEMO='''#include "Application.h"
#include "ExtruderTrain.h"
#include "Preheat.h"
#include "Slice.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <new>
using namespace cura;
int main() {
    Slice* s = static_cast<Slice*>(calloc(1, sizeof(Slice)));
    new (&s->scene.extruders) std::vector<ExtruderTrain>();
    new (&s->scene.limit_to_extruder) std::unordered_map<std::string, ExtruderTrain*>();
    Application::getInstance().current_slice_ = std::shared_ptr<Slice>(s, [](Slice*) {});
    s->scene.extruders.emplace_back(0, nullptr);
    Settings& t = s->scene.extruders[0].settings_;
    t.add("machine_nozzle_heat_up_speed", "2"); t.add("machine_nozzle_cool_down_speed", "0.5"); t.add("material_extrusion_cool_down_speed", "0.5");
    Preheat p;
    auto r = p.getWarmUpPointAfterCoolDown(20, 0, 210, 100, 200, true);
    // cools at 1 degree/s and heats at 1.5 degree/s: leaves 210 at once and must be back at 200 after 20 s
    double low = r.lowest_temperature, x = r.heating_time;
    if (std::abs((210 - low) / 1.0 + x - 20) > 0.01 || std::abs((200 - low) / 1.5 - x) > 0.01) { printf("low %f heating %f\\n", low, x); fflush(stdout); _Exit(1); }
    _Exit(0);
}
'''
