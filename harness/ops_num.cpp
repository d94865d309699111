// numerics: grids, interpolation, quadrature
#include <cmath>
#include <functional>
#include "harness.h"
#include "catima/storage.h"
#include "catima/integrator.h"
using namespace catima;
using namespace integrators;

static std::vector<double> dlist(const J &j){std::vector<double> r; for(auto &e:j.a)r.push_back(e.d()); return r;}

template<class T> static std::string grid(const T &t,const J &xs){
    List l;
    for(auto &e:xs.a){
        double v=e.d(); int i=t.index(v);
        Out o; o.i("i",i);
        o("lo",(i>=0&&i<t.size())?t[i]:0.0)("hi",(i+1<t.size()&&i+1>=0)?t[i+1]:0.0);
        l.add(o.str());
    }
    Out o; o.raw("q",l.str()).i("n",t.size())("first",t[0])("last",t[t.size()-1]);
    return o.str();
}
template<int N> static std::string grid_n(const J &j){
    double lo=j["lo"].d(), hi=j["hi"].d();
    switch(j["k"].n()){
        case 0: return grid(EnergyTable<N>(lo,hi),j["x"]);
        case 1: return grid(LogVArray<N>(lo,hi),j["x"]);
        default: return grid(LinearVArray<N>(lo,hi),j["x"]);
    }
}
#define SIZES(F) switch(j["N"].n()){ case 3: return F<3>(j); case 5: return F<5>(j); case 8: return F<8>(j); \
    case 20: return F<20>(j); case 100: return F<100>(j); case 600: return F<600>(j); default: throw std::runtime_error("N"); }
OP(grid){ SIZES(grid_n) }
OP(lib_grid){ return grid(energy_table,j["x"]); }
template<int N> static std::string grid_vals_n(const J &j){
    double lo=j["lo"].d(), hi=j["hi"].d(); List l;
    auto put=[&](const auto &t){for(int i=0;i<N;i++)l.add(D(t[i]));};
    switch(j["k"].n()){
        case 0: put(EnergyTable<N>(lo,hi)); break;
        case 1: put(LogVArray<N>(lo,hi)); break;
        default: put(LinearVArray<N>(lo,hi));
    }
    Out o; o.raw("v",l.str()); return o.str();
}
OP(grid_vals){ SIZES(grid_vals_n) }
template<int N> static std::string interp_n(const J &j){
    EnergyTable<N> t(j["lo"].d(),j["hi"].d()); auto y=dlist(j["y"]); List l;
    for(auto &e:j["x"].a)l.add(D(EnergyTable_interpolate(t,e.d(),y.data())));
    List g; for(int i=0;i<N;i++)g.add(D(t[i]));
    Out o; o.raw("v",l.str()).raw("g",g.str()); return o.str();
}
OP(interp){ SIZES(interp_n) }
template<class T> static std::string spl(const T &t,const J &j){
    auto y=dlist(j["y"]);
    cspline_special<T> s(t,y,j["nat"].n()!=0);
    List v,d,g;
    for(auto &e:j["x"].a){v.add(D(s(e.d()))); d.add(D(s.deriv(e.d())));}
    for(int i=0;i<t.size();i++)g.add(D(t[i]));
    Out o; o.raw("v",v.str()).raw("d",d.str()).raw("g",g.str()); return o.str();
}
template<int N> static std::string spline_n(const J &j){
    double lo=j["lo"].d(), hi=j["hi"].d();
    switch(j["k"].n()){
        case 0: {EnergyTable<N> t(lo,hi); return spl(t,j);}
        case 1: {LogVArray<N> t(lo,hi); return spl(t,j);}
        default: {LinearVArray<N> t(lo,hi); return spl(t,j);}
    }
}
OP(spline){ SIZES(spline_n) }
// tridiagonal system: lower, diagonal, upper and right side; entries as read back
template<int N> static std::string tridiag_n(const J &j){
    auto a=dlist(j["a"]), d=dlist(j["d"]), c=dlist(j["c"]), b=dlist(j["b"]);
    tridiagonal_matrix<N> m{}; std::array<double,N> rhs;
    for(int i=0;i<N;i++){ if(i>0)m(i,i-1)=a[i]; m(i,i)=d[i]; if(i<N-1)m(i,i+1)=c[i]; rhs[i]=b[i]; }
    auto x=m.trig_solve(rhs); List l,e; for(double v:x)l.add(D(v));
    const auto &k=m; int row=j["row"].n(); for(int i=0;i<N;i++)e.add(D(k(row,i)));
    Out o; o.raw("x",l.str()).raw("row",e.str()); return o.str();
}
OP(tridiag){ SIZES(tridiag_n) }

// integrands: polynomial in (x-c), exponential, peak, reciprocal
static std::function<double(double)> fun(const J &j){
    int k=j["k"].n(); auto a=dlist(j["a"]);
    if(k==0)return [a](double x){double r=0; for(std::size_t i=a.size();i-->1;)r=r*(x-a[0])+a[i]; return r;};
    if(k==1)return [a](double x){return a[0]*std::exp(a[1]*x);};
    if(k==2)return [a](double x){double u=(x-a[1])/a[2]; return a[0]/(1+u*u);};
    if(k==3)return [a](double x){return a[0]/(x-a[1]);};
    throw std::runtime_error("fun");
}
template<int N> static std::string gl_n(const J &j){
    GaussLegendreIntegration<N> q; auto f=fun(j["f"]);
    std::size_t calls=0; auto g=[&](double x){++calls; return f(x);};
    double a=j["lo"].d(), b=j["hi"].d();
    Out o; o("v",q.integrate(g,a,b)); o.i("calls",calls)("op",q(g,a,b)).i("n",q.n()); return o.str();
}
template<int N> static std::string glp_n(const J &j){
    GaussLegendreIntegration<N> q; auto p=q.get_points(j["lo"].d(),j["hi"].d()); List w;
    for(int i=0;i<N/2+N%2;i++)w.add(D(q.w(i)));
    auto d=q.get_points();
    Out o; o.raw("p",DV(p)).raw("w",w.str()).raw("d",DV(d)); return o.str();
}
template<int N> static std::string gl2_n(const J &j){
    GaussLegendreIntegration2D<N> q; auto f=fun(j["f"]), h=fun(j["h"]);
    auto g=[&](double x,double y){return f(x)*h(y);};
    double a=j["lo"].d(), b=j["hi"].d(), c=j["lo2"].d(), d=j["hi2"].d();
    GaussLegendreIntegration2DA<N> qa;
    Out o; o("v",q.integrate(g,a,b,c,d))("a",qa.integrate(g,a,b,c,d)); return o.str();
}
template<int N,int K> static double gl2a(const J &j){
    GaussLegendreIntegration2DA<N,K> q; auto f=fun(j["f"]), h=fun(j["h"]);
    auto g=[&](double x,double y){return f(x)*h(y);};
    return q(g,j["lo"].d(),j["hi"].d(),j["lo2"].d(),j["hi2"].d());
}
#define GL(F) switch(j["n"].n()){ case 3: return F<3>(j); case 4: return F<4>(j); case 5: return F<5>(j); case 6: return F<6>(j); \
    case 7: return F<7>(j); case 8: return F<8>(j); case 10: return F<10>(j); case 12: return F<12>(j); case 14: return F<14>(j); \
    case 16: return F<16>(j); case 20: return F<20>(j); case 32: return F<32>(j); case 64: return F<64>(j); case 128: return F<128>(j); \
    default: throw std::runtime_error("order"); }
OP(gl){ GL(gl_n) }
OP(gl_points){ GL(glp_n) }
OP(gl2){ GL(gl2_n) }
OP(gl2a){
    int n=j["n"].n(), k=j["k"].n(); double v;
    if(n==4&&k==8)v=gl2a<4,8>(j); else if(n==8&&k==4)v=gl2a<8,4>(j); else if(n==3&&k==8)v=gl2a<3,8>(j);
    else if(n==8&&k==3)v=gl2a<8,3>(j); else if(n==5&&k==7)v=gl2a<5,7>(j); else if(n==6&&k==16)v=gl2a<6,16>(j);
    else throw std::runtime_error("order");
    Out o; o("v",v); return o.str();
}
OP(gl_lib){ // the integrator which the library uses
    auto f=fun(j["f"]); Out o; o("v",integrator.integrate(f,j["lo"].d(),j["hi"].d())); return o.str();
}
template<int N> static std::string gk_n(const J &j){
    auto f=fun(j["f"]); double a=j["lo"].d(), b=j["hi"].d();
    auto r=GaussKronrodIntegration<N>::integrate_nonadaptive(f,a,b);
    Out o; o("v",r.first)("err",r.second)("ad",GaussKronrodIntegration<N>::integrate(f,a,b,j["eps"].d(),j["reps"].d(),j["parts"].n()));
    std::vector<std::pair<double,double>> iv; auto cut=dlist(j["cut"]);
    for(std::size_t i=0;i+1<cut.size();i++)iv.emplace_back(cut[i],cut[i+1]);
    o("iv",GaussKronrodIntegration<N>::integrate_intervals(f,iv,j["eps"].d(),j["reps"].d()));
    return o.str();
}
template<int N> static std::string gkp_n(const J &j){
    auto p=GaussKronrodIntegration<N>::get_points(j["lo"].d(),j["hi"].d()); List w;
    for(int i=0;i<N/2+1;i++)w.add(D(GaussKronrodIntegration<N>::w(i)));
    Out o; o.raw("p",DV(p)).raw("w",w.str()); return o.str();
}
#define GK(F) switch(j["n"].n()){ case 7: return F<7>(j); case 15: return F<15>(j); case 21: return F<21>(j); \
    case 31: return F<31>(j); case 61: return F<61>(j); default: throw std::runtime_error("order"); }
OP(gk){ GK(gk_n) }
OP(gk_points){ GK(gkp_n) }
OP(gk_lib){
    auto f=fun(j["f"]); Out o; o("v",integrator_adaptive.integrate(f,j["lo"].d(),j["hi"].d(),j["eps"].d(),j["reps"].d())); return o.str();
}
OP(lib_grid_vals){ List l; for(int i=0;i<max_datapoints;i++)l.add(D(energy_table(i))); Out o; o.raw("v",l.str()); return o.str(); }
