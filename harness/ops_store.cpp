// the cache and the default configuration
#include <cstring>
#include "harness.h"
#include "catima/storage.h"
#include "catima/reactions.h"
using namespace catima;

// fingerprint of the tables of an entry
template<typename V> static std::uint64_t fold(std::uint64_t h,const V &v){
    for(double x:v){std::uint64_t b; std::memcpy(&b,&x,8); h=(h^b)*1099511628211ull; h^=h>>29;}
    return h;
}
static std::string digest(const DataPoint &d){
    std::uint64_t h=14695981039346656037ull;
    h=fold(h,d.range); h=fold(h,d.range_straggling); h=fold(h,d.angular_variance);
    spline_type rs=get_range_spline(d);
    spline_type vs=get_range_straggling_spline(d);
    spline_type as=get_angular_variance_spline(d);
    std::vector<double> x;
    if(!d.range.empty())for(double T:{0.01,1.7,33.0,412.0,9000.0}){x.push_back(rs(T));x.push_back(rs.derivative(T));x.push_back(vs(T));x.push_back(as(T));}
    h=fold(h,x);
    return "["+std::to_string(static_cast<std::int32_t>(h>>32))+","+std::to_string(static_cast<std::int32_t>(h&0xffffffffu))+"]";
}
// slot of a reference in the storage, -1 when it is not in there
static int slot(Data &s,const DataPoint *d){
    for(int i=0;i<s.GetN();i++)if(&s.Get(static_cast<unsigned>(i))==d)return i;
    return -1;
}
static std::map<int,Data>& stores(){static std::map<int,Data> m; return m;}
static Data& store(const J &j){int s=j["s"].n(); return s==0?_storage:stores()[s];}
// the keys stored: an identifier for each slot, 0 for one which was not used
static std::string contents(Data &s){
    List l;
    for(int i=0;i<s.GetN();i++){
        const DataPoint &d=s.Get(static_cast<unsigned>(i));
        bool used=!d.range.empty();
        Out o; o.b("u",used);
        if(used)o.raw("h",digest(d));
        l.add(o.str());
    }
    return l.str();
}
static std::map<std::pair<int,int>,DataPoint*> refs;   // references kept by a user

OP(st_cap){ Data &s=store(j); Out o; o.i("n",s.GetN()).i("i",s.get_index()); return o.str(); }
OP(st_get){
    Data &s=store(j);
    DataPoint &d=j["c"].empty()?s.Get(proj(j["p"]),mat(j["m"])):s.Get(proj(j["p"]),mat(j["m"]),cfg(j["c"]));
    if(j.has("keep"))refs[{j["s"].n(),j["keep"].n()}]=&d;
    Out o; o.i("slot",slot(s,&d)).raw("h",digest(d)).i("i",s.get_index()).i("n",s.GetN()); return o.str();
}
OP(st_add){
    Data &s=store(j);
    if(j["c"].empty())s.Add(proj(j["p"]),mat(j["m"])); else s.Add(proj(j["p"]),mat(j["m"]),cfg(j["c"]));
    Out o; o.i("i",s.get_index()).i("n",s.GetN()); return o.str();
}
OP(st_reset){ Data &s=store(j); s.Reset(); Out o; o.i("i",s.get_index()).i("n",s.GetN()); return o.str(); }
OP(st_ref){ // digest through a reference kept earlier
    auto *d=refs.at({j["s"].n(),j["keep"].n()});
    Out o; o.raw("h",digest(*d)); return o.str();
}
OP(st_dump){ Data &s=store(j); Out o; o.raw("e",contents(s)).i("i",s.get_index()).i("n",s.GetN()); return o.str(); }

OP(def_set){ default_config=cfg(j["c"]); Out o; o.raw("c",dump(default_config)); return o.str(); }
OP(def_get){ Out o; o.raw("c",dump(default_config)); return o.str(); }
OP(cfg_new){ Config c; Out o; o.raw("c",dump(c)); return o.str(); }
OP(cfg_eq){ Out o; o.b("v",cfg(j["a"])==cfg(j["b"])); return o.str(); }
OP(proj_eq){ Out o; o.b("v",proj(j["a"])==proj(j["b"])); return o.str(); }
OP(mat_eq){ Out o; o.b("v",mat(j["a"])==mat(j["b"])); return o.str(); }
