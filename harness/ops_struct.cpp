// programs over material and layer objects kept in registers
#include "harness.h"
using namespace catima;

static std::map<int,Material> M;
static std::map<int,Layers> L;

static Material make_list(const J &l,double rho,double I,double m,int form){
    std::vector<std::array<double,3>> a;
    for(auto &e:l.a)a.push_back({e[0].d(),static_cast<double>(e[1].n()),e[2].d()});
    using A=std::array<double,3>;
    auto mk=[&](std::initializer_list<A> il){
        if(form==0)return Material(il);
        if(form==1)return Material(il,rho);
        if(form==2)return Material(il,rho,I);
        return Material(il,rho,I,m);
    };
    switch(a.size()){
        case 1: return mk({a[0]});
        case 2: return mk({a[0],a[1]});
        case 3: return mk({a[0],a[1],a[2]});
        case 4: return mk({a[0],a[1],a[2],a[3]});
        case 5: return mk({a[0],a[1],a[2],a[3],a[4]});
        case 6: return mk({a[0],a[1],a[2],a[3],a[4],a[5]});
        default: throw std::runtime_error("list size");
    }
}
static std::string all(){
    List l;
    for(auto &e:M)l.add(dump(e.second));
    Out o; o.raw("m",l.str()); return o.str();
}
// every operation reports all registers, so changes of other objects show
OP(m_reset){ M.clear(); int n=j["n"].n(); for(int i=0;i<n;i++)M[i]=Material(); return all(); }
OP(m_list){ M[j["d"].n()]=make_list(j["e"],j["rho"].d(),j["I"].d(),j["mm"].d(),j["form"].n()); return all(); }
OP(m_elem){
    double a=j["a"].d(); int z=j["z"].n();
    switch(j["form"].n()){
        case 0: M[j["d"].n()]=Material(a,z); break;
        case 1: M[j["d"].n()]=Material(a,z,j["rho"].d()); break;
        case 2: M[j["d"].n()]=Material(a,z,j["rho"].d(),j["th"].d()); break;
        default: M[j["d"].n()]=Material(a,z,j["rho"].d(),j["th"].d(),j["I"].d());
    }
    return all();
}
OP(m_new){ M[j["d"].n()]=Material(); return all(); }
OP(m_copy){ M[j["d"].n()]=M[j["a"].n()]; return all(); }
OP(m_add){ M[j["d"].n()].add_element(j["a"].d(),j["z"].n(),j["stn"].d()); return all(); }
OP(m_calc){ M[j["d"].n()].calculate(); return all(); }
OP(m_M){ M[j["d"].n()].M(j["v"].d()); return all(); }
OP(m_rho){ M[j["d"].n()].density(j["v"].d()); return all(); }
OP(m_th){ M[j["d"].n()].thickness(j["v"].d()); return all(); }
OP(m_cm){ M[j["d"].n()].thickness_cm(j["v"].d()); return all(); }
OP(m_I){ M[j["d"].n()].I(j["v"].d()); return all(); }
OP(m_chain){ M[j["d"].n()].density(j["rho"].d()).thickness(j["th"].d()).I(j["I"].d()); return all(); }
OP(m_nd){ // number density of a constituent which may not exist
    Material &m=M[j["d"].n()]; int i=j["i"].n();
    Out o; o("a",m.number_density(i))("b",m.number_density_cm2(i)); return o.str();
}

static std::string key(const Material &m){
    std::string z="[";
    for(int i=0;i<m.ncomponents();i++)z+=(i?",":"")+std::to_string(m.get_element(i).Z);
    Out o; o.raw("z",z+"]")("rho",m.density())("th",m.thickness())("M",m.M())("I",m.I()); return o.str();
}
static std::string lall(){
    List ls,ms;
    for(auto &e:L){
        List l; for(auto &m:e.second.get_materials())l.add(key(m));
        Out o; o.i("num",e.second.num()).raw("l",l.str())("th",e.second.thickness())("cm",e.second.thickness_cm());
        ls.add(o.str());
    }
    for(auto &e:M)ms.add(key(e.second));
    Out o; o.raw("L",ls.str()).raw("M",ms.str()); return o.str();
}
OP(l_reset){
    L.clear(); M.clear();
    for(int i=0;i<j["n"].n();i++)L[i]=Layers();
    int k=0; for(auto &m:j["ms"].a)M[k++]=mat(m);
    return lall();
}
OP(l_new){ L[j["d"].n()]=Layers(); return lall(); }
OP(l_addm){ L[j["d"].n()].add(M[j["m"].n()]); return lall(); }
OP(l_addl){ L[j["d"].n()].add(L[j["a"].n()]); return lall(); }
OP(l_cat){ Layers x=L[j["a"].n()]+L[j["b"].n()]; L[j["d"].n()]=x; return lall(); }
OP(l_catm){ Layers x=L[j["a"].n()]+M[j["m"].n()]; L[j["d"].n()]=x; return lall(); }
OP(l_copy){ L[j["d"].n()]=L[j["a"].n()]; return lall(); }
OP(l_addi){ // append a layer of the stack itself
    Layers &l=L[j["d"].n()]; l.add(l[j["i"].n()]); return lall();
}
OP(l_setth){ L[j["d"].n()][j["i"].n()].thickness(j["v"].d()); return lall(); }
OP(l_setrho){ L[j["d"].n()][j["i"].n()].density(j["v"].d()); return lall(); }
OP(l_msetth){ M[j["m"].n()].thickness(j["v"].d()); return lall(); }
