// export of a beam line description
#include <cmath>
#include <cstdio>
#include <sstream>
#include <unistd.h>
#include "harness.h"
#include "catima/convert.h"

OP(db_id){ Out o; o.i("v",materialdb_id(mat(j["m"]))); return o.str(); }
OP(mocadi){
    auto ps=[](const J &e){catima::Phasespace p; p.sigma_x=e[0].d(); p.sigma_a=e[1].d(); p.cov_x=e[2].d(); return p;};
    std::string name=j["file"].s;
    bool ok;
    catima::Projectile p=proj(j["p"]); catima::Layers l=layers(j["ls"]);
    switch(j["form"].n()){
        case 0: ok=save_mocadi(name.c_str(),p,l); break;
        case 1: ok=save_mocadi(name.c_str(),p,l,ps(j["x"])); break;
        default: ok=save_mocadi(name.c_str(),p,l,ps(j["x"]),ps(j["y"]));
    }
    std::string text;
    if(ok){std::ifstream f(name); std::stringstream s; s<<f.rdbuf(); text=s.str(); std::remove(name.c_str());}
    Out o; o.b("ok",ok).raw("text",S(text)); return o.str();
}
