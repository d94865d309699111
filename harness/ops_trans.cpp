// transport: table based quantities, energy out, single and layered results
#include "harness.h"
#include "catima/storage.h"
#include "catima/reactions.h"
using namespace catima;

static std::string one(double x){Out o; o("v",x); return o.str();}
static std::vector<double> dlist(const J &j){std::vector<double> r; for(auto &e:j.a)r.push_back(e.d()); return r;}
static Phasespace phase(const J &j){Phasespace ps; ps.sigma_x=j[0].d(); ps.sigma_a=j[1].d(); ps.cov_x=j[2].d(); return ps;}
static std::string mres(const MultiResult &r){
    List l; for(auto &e:r.results)l.add(res(e));
    Out o; o.raw("l",l.str()).raw("t",res(r.total_result)); return o.str();
}

OP(range){ return one(CALLC(range,proj(j["p"]),mat(j["m"]))); }
OP(dedx_r){ return one(CALLC(dedx_from_range,proj(j["p"]),mat(j["m"]))); }
OP(dedx_rv){
    auto v=CALLC(dedx_from_range,proj(j["p"]),dlist(j["T"]),mat(j["m"]));
    Out o; o.raw("v",DV(v)); return o.str();
}
// the energy of the projectile, which gets another one when the command gives it, to be passed as argument
static double argument(Projectile &p, const J &j){
    double T=p.T; if(j.has("T0"))p.T=j["T0"].d();
    return T;
}
OP(range_str){ Projectile p=proj(j["p"]); double T=argument(p,j); return one(CALLC(range_straggling,p,T,mat(j["m"]))); }
OP(range_var){ Projectile p=proj(j["p"]); double T=argument(p,j); return one(CALLC(range_variance,p,T,mat(j["m"]))); }
OP(domega2de){ Projectile p=proj(j["p"]); double T=argument(p,j); return one(CALLC(domega2de,p,T,mat(j["m"]))); }
OP(ang_str){ return one(CALLC(angular_straggling,proj(j["p"]),mat(j["m"]))); }
OP(ang_var){
    int n=j["n"].n();
    return one(angular_variance(proj(j["p"]),mat(j["m"]),j["c"].empty()?default_config:cfg(j["c"]),n));
}
OP(ang_var0){ return one(CALLC(angular_variance,proj(j["p"]),mat(j["m"]))); }
OP(ang_from_E){ return one(CALLC(angular_straggling_from_E,proj(j["p"]),j["T2"].d(),mat(j["m"]))); }
OP(en_from_E){ Projectile p=proj(j["p"]); double T=argument(p,j); return one(CALLC(energy_straggling_from_E,p,T,j["T2"].d(),mat(j["m"]))); }
OP(eout){ return one(CALLC(energy_out,proj(j["p"]),mat(j["m"]))); }
OP(eout_v){
    auto v=CALLC(energy_out,proj(j["p"]),dlist(j["T"]),mat(j["m"]));
    Out o; o.raw("v",DV(v)); return o.str();
}
// the neighbouring pair of n points of a geometric sequence from a to b at which the quantity falls most (or grows least)
OP(scan){
    Projectile p=proj(j["p"]); Material m=mat(j["m"]); const Config c=cfg(j["c"]);
    std::string k=j["k"].s; double a=j["a"].d(), b=j["b"].d(); int n=j["n"].n();
    double q=std::log(b/a)/(n-1), xo=0, vo=0, worst=INFINITY, w1=a, w2=b;
    for(int i=0;i<n;i++){
        double x=a*std::exp(q*i), v=0, s;
        if(k=="range")v=range(p(x),m,c);
        else if(k=="variance")v=range_variance(p,x,m,c);
        else if(k=="thickness")v=-energy_out(p,m.thickness(x),c);
        else if(k=="energy")v=energy_out(p(x),m,c);
        if(i>0){
            // for energies in units of thickness, the unit of the tolerance of the solver
            if(k=="range"||k=="variance")s=(v-vo)/std::fabs(vo+v);
            else s=(v-vo)*p.A/dedx_from_range(Projectile(p.A,p.Z,p.Q,std::fabs(vo)),m,c);
            if(!(s>=worst)&&!(k=="energy"&&v<=0)&&!(k=="thickness"&&vo>=0)){worst=s; w1=xo; w2=x;}
        }
        xo=x; vo=v;
    }
    Out o; o("x1",w1)("x2",w2)("d",worst); return o.str();
}
// the thickness of a geometric sequence from a to b at which range in minus range out differs most from the thickness
OP(scan_balance){
    Projectile p=proj(j["p"]); Material m=mat(j["m"]); const Config c=cfg(j["c"]);
    double a=j["a"].d(), b=j["b"].d(), worst=-1, w=a; int n=j["n"].n();
    double R=range(p,m,c), q=std::log(b/a)/(n-1);
    for(int i=0;i<n;i++){
        double x=a*std::exp(q*i), e=energy_out(p,m.thickness(x),c);
        double s=std::fabs(R-x-range(Projectile(p.A,p.Z,p.Q,e),m,c));
        if(!(s<=worst)){worst=s; w=x;}
    }
    Out o; o("x",w)("d",worst); return o.str();
}
OP(calc){ return res(CALLC(calculate,proj(j["p"]),mat(j["m"]))); }
OP(calc_T){
    Projectile p=proj(j["p"]); double T=p.T; p.T=j["T0"].d();
    return res(CALLC(calculate,p,mat(j["m"]),T));
}
OP(calc_plain){ // plain numbers, default configuration
    return res(calculate(j["pa"].d(),j["pz"].n(),j["T"].d(),j["ta"].d(),j["tz"].d(),j["th"].d(),j["rho"].d()));
}
OP(layers){ return mres(CALLC(calculate,proj(j["p"]),layers(j["ls"]))); }
OP(layers_T){
    Projectile p=proj(j["p"]); double T=p.T; p.T=j["T0"].d();
    return mres(CALLC(calculate,p,T,layers(j["ls"])));
}
OP(layers_ps){ return mres(CALLC(calculate,proj(j["p"]),phase(j["ps"]),layers(j["ls"]))); }
OP(tof_E){ return one(CALLC(calculate_tof_from_E,proj(j["p"]),j["T2"].d(),mat(j["m"]))); }
OP(tof_v){ // values at some points of the table
    auto v=CALLC(calculate_tof,proj(j["p"]),mat(j["m"]));
    List l,e; for(auto &k:j["k"].a){l.add(D(v.at(k.n()))); e.add(D(energy_table(k.n())));}
    Out o; o.i("n",v.size()).raw("v",l.str()).raw("e",e.str()); return o.str();
}
OP(wmag){
    Projectile p=proj(j["p"]); double T=argument(p,j);
    auto v=CALLC(w_magnification,p,T,mat(j["m"]));
    Out o; o("e",v.first)("p",v.second); return o.str();
}
OP(nonreaction){
    Projectile p=proj(j["p"]); double T=p.T; Material m=mat(j["m"]);
    double v=j["c"].empty()?nonreaction_rate(p,m):nonreaction_rate(p,m,cfg(j["c"]));
    Out o; o("v",v)("T",p.T); (void)T; return o.str();
}
// several transport quantities of one combination, to relate them
OP(eout_spline){
    Projectile p=proj(j["p"]); Material m=mat(j["m"]); Config c=cfg(j["c"]);
    const DataPoint &d=get_data(p,m,c);
    spline_type s=get_range_spline(d);
    return one(energy_out(p.T,m.thickness(),s));
}
// ranges, variances at two energies
OP(tab2){
    Projectile p=proj(j["p"]); Material m=mat(j["m"]); Config c=cfg(j["c"]);
    const DataPoint &d=get_data(p,m,c);
    List r,v,a,e;
    spline_type rs=get_range_spline(d);
    spline_type vs=get_range_straggling_spline(d);
    spline_type as=get_angular_variance_spline(d);
    for(auto &x:j["T"].a){
        double T=x.d();
        r.add(D(rs(T))); v.add(D(vs(T))); a.add(D(as(T)));
        e.add(D(p.A/rs.derivative(T)));
    }
    Out o; o.raw("r",r.str()).raw("v",v.str()).raw("a",a.str()).raw("d",e.str()); return o.str();
}
// local rates at given energies
OP(rates_at){
    Projectile p=proj(j["p"]); Material m=mat(j["m"]); Config c=cfg(j["c"]);
    List r,v,a,b;
    for(auto &x:j["T"].a){
        p.T=x.d();
        r.add(D(dedx(p,m,c))); v.add(D(domega2dx(p,m,c))); a.add(D(da2dx(p,m,c))); b.add(D(beta_from_T(p.T)));
    }
    Out o; o.raw("s",r.str()).raw("w",v.str()).raw("a",a.str()).raw("b",b.str()); return o.str();
}
// one result with the dedicated functions at the energies before and after the material
OP(calc_full){
    Projectile p=proj(j["p"]); const double T=p.T; Material m=mat(j["m"]); Config c=cfg(j["c"]);
    Result r=calculate(p,m,c);
    Out o; o.raw("res",res(r));
    if(T<Ezero){ return o.str(); }
    auto at=[&](const char *name,double E){
        Projectile q=p; q.T=E;
        const DataPoint &d=get_data(q,m,c);
        spline_type as=get_angular_variance_spline(d);
        Out x;
        x("T",E)("range",range(q,m,c))("dedx",dedx_from_range(q,m,c))("var",range_variance(q,E,m,c))("str",range_straggling(q,E,m,c))
         ("dvar",domega2de(q,E,m,c))("ang",as(E))("dang",as.derivative(E));
        o.raw(name,x.str());
    };
    at("i",T);
    o("eout",energy_out(p,m,c));
    if(m.thickness()>0){
        o("x2",angular_variance(p,m,c,2))("xa",angular_variance(p,m,c,1))("a2",angular_variance(p,m,c,0));
#ifdef REACTIONS
        Projectile q=p; o("sp",nonreaction_rate(q,m,c));
#endif
    }
    if(r.Eout>=Ezero){
        at("o",r.Eout);
        o("tof",calculate_tof_from_E(p,r.Eout,m,c));
        if(m.thickness()>0)o("as",angular_straggling(p,m,c))("es",energy_straggling_from_E(p,T,r.Eout,m,c));
    }
    return o.str();
}
// energies at given depths, and the moments of the scattering of the layer
OP(moments){
    Projectile p=proj(j["p"]); Material m=mat(j["m"]); Config c=cfg(j["c"]);
    List e;
    for(auto &x:j["x"].a){ Material s=m; s.thickness(x.d()); e.add(D(energy_out(p,s,c))); }
    Out o; o.raw("e",e.str())("range",range(p,m,c))("m0",angular_variance(p,m,c,0))("m1",angular_variance(p,m,c,1))("m2",angular_variance(p,m,c,2))
            ("s",angular_straggling(p,m,c));
    return o.str();
}
// survival with the energies at given depths
OP(survival){
    Projectile p=proj(j["p"]); Material m=mat(j["m"]); Config c=cfg(j["c"]);
    List e;
    for(auto &x:j["x"].a){ Material s=m; s.thickness(x.d()); e.add(D(energy_out(p,s,c))); }
    Projectile q=p; double v=nonreaction_rate(q,m,c);
    Out o; o.raw("e",e.str())("v",v)("eout",energy_out(p,m,c))("range",range(p,m,c)); return o.str();
}
// layered calculation and a separate one for every layer at the energy leaving the layer before
OP(chain){
    Projectile p=proj(j["p"]); Layers l=layers(j["ls"]); Config c=cfg(j["c"]);
    Phasespace ps=phase(j["ps"]);
    MultiResult r=calculate(p,ps,l,c);
    List s,cm; double e=p.T;
    for(auto &m:l.get_materials()){
        Result x=calculate(p,m,e,c); s.add(res(x)); cm.add(D(m.thickness_cm())); e=x.Eout;
    }
    Out o; o.raw("multi",mres(r)).raw("single",s.str()).raw("cm",cm.str()); return o.str();
}
// result and range of the outgoing energy
OP(calc_bal){
    Projectile p=proj(j["p"]); Material m=mat(j["m"]); Config c=cfg(j["c"]);
    Result r=calculate(p,m,c);
    Out o; o.raw("res",res(r));
    p.T=r.Eout; if(r.Eout>=Ezero)o("ro",range(p,m,c));
    return o.str();
}
