// Stand-in for Application.h, Slice.h, Scene.h, ExtruderTrain.h and Settings.h in check P12: the settings of an extruder
// are five given numbers, looked up by name.
#pragma once
#define APPLICATION_H
#define SLICE_H
#define SCENE_H
#define EXTRUDER_TRAIN_H
#define SETTINGS_SETTINGS_H
#include <cstddef>
#include <string_view>
#include <vector>
#include "settings/types/Temperature.h"
#include "settings/types/Duration.h"
#include "settings/types/Ratio.h"
extern "C" double vp_heat[8][5];
namespace cura
{
inline bool vp_same(const char* a, const char* b)
{
    while (*a && *a == *b)
    {
        a++;
        b++;
    }
    return *a == *b;
}
struct Settings
{
    size_t nr;
    template<typename T>
    T get(const char* key) const
    {
        static constexpr const char* names[5] = { "machine_nozzle_heat_up_speed", "machine_nozzle_cool_down_speed", "material_extrusion_cool_down_speed", "material_print_temperature", "material_print_temperature_layer_0" };
        for (size_t i = 0; i < 5; i++)
        {
            if (vp_same(names[i], key))
            {
                return T(vp_heat[nr][i]);
            }
        }
        __builtin_trap();
    }
};
struct ExtruderTrain
{
    Settings settings_;
};
struct Extruders
{
    mutable ExtruderTrain t;
    ExtruderTrain& operator[](size_t i) const
    {
        t.settings_.nr = i;
        return t;
    }
    ExtruderTrain& at(size_t i) const
    {
        return (*this)[i];
    }
};
struct Scene
{
    Extruders extruders;
};
struct Slice
{
    Scene scene;
};
struct Application
{
    Slice* current_slice_;
    static Application& getInstance()
    {
        static Slice s;
        static Application a{ &s };
        return a;
    }
};
}
