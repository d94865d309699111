// local physics: functions of projectile, target, material and configuration
#include "harness.h"
#include "catima/srim.h"
#include "catima/reactions.h"
using namespace catima;

static std::string one(double x){Out o; o("v",x); return o.str();}

OP(kin){
    double T=j["T"].d(), A=j["A"].d();
    Out o; o("g",gamma_from_T(T))("b",beta_from_T(T))("p",p_from_T(T,A));
#ifndef NUREX
    o("ecm",Ecm_from_T(T,A,j["At"].d()));
#endif
    return o.str();
}
OP(kin_seq){
    List g,b,p;
    for(auto &x:j["T"].a){g.add(D(gamma_from_T(x.d()))); b.add(D(beta_from_T(x.d()))); p.add(D(p_from_T(x.d(),j["A"].d())));}
    Out o; o.raw("g",g.str()).raw("b",b.str()).raw("p",p.str()); return o.str();
}
OP(zeff){ return one(CALLC(z_effective,proj(j["p"]),tgt(j["t"]))); }
OP(zeff_raw){
    double z=j["z"].d(), x=j["x"].d(), tz=j["tz"].d();
    switch(j["k"].n()){
        case 1: return one(z_eff_Pierce_Blann(z,x));
        case 2: return one(z_eff_Anthony_Landford(z,x,tz));
        case 3: return one(z_eff_Hubert(z,x,tz));
        case 4: return one(z_eff_Winger(z,x,tz));
        case 5: return one(z_eff_Schiwietz(z,x,tz));
        case 6: return one(z_eff_global(z,x,tz));
        default: throw std::runtime_error("zeff_raw");
    }
}
OP(dedx_n_t){ return one(dedx_n(proj(j["p"]),tgt(j["t"]))); }
OP(dedx_n_m){ return one(dedx_n(proj(j["p"]),mat(j["m"]))); }
OP(reduced){ return one(reduced_energy_loss_unit(proj(j["p"]),tgt(j["t"]))); }
OP(srim){ return one(srim_dedx_e(j["pz"].n(),j["tz"].n(),j["T"].d(),j["v95"].n()!=0)); }
OP(sezi){ return one(CALLC(sezi_dedx_e,proj(j["p"]),mat(j["m"]))); }
OP(bethe_t){ return one(bethek_dedx_e(proj(j["p"]),tgt(j["t"]),cfg(j["c"]),j["I"].d())); }
OP(bethe_m){ return one(CALLC(bethek_dedx_e,proj(j["p"]),mat(j["m"]))); }
OP(barkas){ return one(bethek_barkas(j["z"].d(),j["eta"].d(),j["tz"].d())); }
OP(density){ return one(bethek_density_effect(j["b"].d(),j["tz"].n())); }
OP(pair){ return one(pair_production(proj(j["p"]),tgt(j["t"]))); }
OP(brems){ return one(bremsstrahlung(proj(j["p"]),tgt(j["t"]))); }
OP(ls){ return one(precalculated_lindhard(proj(j["p"]))); }
OP(lsx){ return one(precalculated_lindhard_X(proj(j["p"]))); }
OP(ls_pair){ // tabulated and direct value
    Projectile p=proj(j["p"]);
    Out o; o("t",precalculated_lindhard(p))("d",bethek_lindhard(p)); return o.str();
}
OP(lsx_pair){
    Projectile p=proj(j["p"]);
    Out o; o("t",precalculated_lindhard_X(p))("d",bethek_lindhard_X(p)); return o.str();
}
static std::string nodes(const J &j, double f(const Projectile&)){
    Projectile p(j["A"].d(),j["Z"].n());
    List v;
    for(size_t k=0;k<j["T"].size();k++){p.T=j["T"][k].d(); v.add(D(f(p)));}
    Out o; o.raw("v",v.str()); return o.str();
}
OP(ls_nodes){ return nodes(j,precalculated_lindhard); }
OP(lsx_nodes){ return nodes(j,precalculated_lindhard_X); }
OP(dedx){ return one(CALLC(dedx,proj(j["p"]),mat(j["m"]))); }
OP(firsov){ return one(energy_straggling_firsov(j["z1"].d(),j["T"].d(),j["z2"].d(),j["m2"].d())); }
OP(dedx_var){ return one(CALLC(dedx_variance,proj(j["p"]),tgt(j["t"]))); }
OP(domega2dx){ return one(CALLC(domega2dx,proj(j["p"]),mat(j["m"]))); }
OP(scat_t){ return one(j["es"].empty()?angular_scattering_power(proj(j["p"]),tgt(j["t"])):angular_scattering_power(proj(j["p"]),tgt(j["t"]),j["es"].d())); }
OP(scat_m){ return one(j["es"].empty()?angular_scattering_power(proj(j["p"]),mat(j["m"])):angular_scattering_power(proj(j["p"]),mat(j["m"]),j["es"].d())); }
OP(scat_xs){
    Projectile p=proj(j["p"]); double T1=j["T1"].d();
    double p1=p_from_T(T1,p.A), b1=beta_from_T(T1);
    return one(j["es"].empty()?angular_scattering_power_xs(p,mat(j["m"]),p1,b1):angular_scattering_power_xs(p,mat(j["m"]),p1,b1,j["es"].d()));
}
OP(radlen){ return one(radiation_length(j["z"].n(),j["a"].d())); }
OP(radlen_m){ Material m=mat(j["m"]); Out o; o("x0",radiation_length(m))("xs",scattering_length(m)); return o.str(); }
OP(da2dx){ return one(CALLC(da2dx,proj(j["p"]),mat(j["m"]))); }
#ifndef NUREX
OP(kox){ return one(SigmaR_Kox(j["ap"].n(),j["zp"].n(),j["T"].d(),j["at"].n(),j["zt"].n())); }
#endif
OP(production){
    Material m=mat(j["m"]);
    return one(CALLC(production_rate,j["cs"].d(),j["r1"].d(),j["r2"].d(),m));
}
OP(rates){
    double s=j["s"].d(), n=j["n"].d();
    auto f=[&](double){return s;};
    Out o; o("r",reaction_rate(s,n))("n",nonreaction_rate(s,n))("ri",reaction_rate(f,n)); return o.str();
}
