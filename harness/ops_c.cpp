// the C interface
#include "harness.h"
#include "catima/cwrapper.h"

static std::string one(double x){Out o; o("v",x); return o.str();}
OP(c_def){ catima_defaults.z_effective=static_cast<char>(j["z"].n()); Out o; o.i("z",catima_defaults.z_effective); return o.str(); }
OP(c_def_get){ Out o; o.i("z",catima_defaults.z_effective); return o.str(); }
OP(c_calc){
    CatimaResult r=catima_calculate(j["pa"].d(),j["pz"].n(),j["T"].d(),j["ta"].d(),j["tz"].d(),j["th"].d(),j["rho"].d());
    Out o;
    o("Ein",r.Ein)("Eout",r.Eout)("Eloss",r.Eloss)("range",r.range)("dEdxi",r.dEdxi)("dEdxo",r.dEdxo)
     ("sigma_E",r.sigma_E)("sigma_a",r.sigma_a)("sigma_r",r.sigma_r)("tof",r.tof);
    return o.str();
}
OP(c_eout){ return one(catima_Eout(j["pa"].d(),j["pz"].n(),j["T"].d(),j["ta"].d(),j["tz"].d(),j["th"].d(),j["rho"].d())); }
OP(c_range){ return one(catima_range(j["pa"].d(),j["pz"].n(),j["T"].d(),j["ta"].d(),j["tz"].d())); }
OP(c_range_str){ return one(catima_range_straggling(j["pa"].d(),j["pz"].n(),j["T"].d(),j["ta"].d(),j["tz"].d())); }
OP(c_ang){ return one(catima_angular_straggling_from_E(j["pa"].d(),j["pz"].n(),j["T"].d(),j["T2"].d(),j["ta"].d(),j["tz"].d())); }
OP(c_en){ return one(catima_energy_straggling_from_E(j["pa"].d(),j["pz"].n(),j["T"].d(),j["T2"].d(),j["ta"].d(),j["tz"].d())); }
OP(c_weight){ return one(atomic_weight(j["z"].n())); }
OP(c_nonreaction){ return one(catima_nonreaction_rate(j["pa"].d(),j["pz"].n(),j["T"].d(),j["ta"].d(),j["tz"].d(),j["th"].d())); }
