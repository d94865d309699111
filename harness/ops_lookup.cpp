// element, isotope and material look-ups
#include "harness.h"
#include "catima/nucdata.h"
#include "catima/abundance_database.h"
#include "catima/data_ionisation_potential.h"
#include "catima/material_database.h"

OP(element){
    int z=j["z"].n();
    Out o; o("w",catima::element_atomic_weight(z))("d",catima::element_density(z))("I",catima::ipot(z));
    return o.str();
}
OP(isotope){
    int z=j["z"].n(), i=j["i"].n();
    auto p=abundance::get_isotope(z,i);
    Out o; o.i("num",abundance::get_isotopes_num(z)).i("a",abundance::get_isotope_a(z,i))("ab",abundance::get_abundance(z,i))
            .i("pa",p.first)("pab",p.second);
    return o.str();
}
OP(predefined){
    int id=j["id"].n();
    Out o; o.raw("m",dump(catima::get_material(id)));
    if(id>=201 && id<=349){
        o.raw("c",dump(catima::get_compound(static_cast<catima::material>(id))));
        o.raw("g",dump(catima::get_material(static_cast<catima::material>(id))));
    }
    return o.str();
}
