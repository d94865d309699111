// Executes one command per line of standard input with the library and
// writes the command extended with the field "r" to standard output.
// With --fresh every command and with --sessions every session runs in its
// own process forked before any library call.
#include <cstdio>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
#include "harness.h"

std::map<std::string,Op>& registry(){static std::map<std::string,Op> r; return r;}

catima::Projectile proj(const J &j){
    catima::Projectile p(j[0].d(),j[1].d(),j[2].d(),j[3].d());
    return p;
}
catima::Target tgt(const J &j){
    catima::Target t; t.A=j[0].d(); t.Z=j[1].n(); t.stn=j[2].d(); return t;
}
catima::Config cfg(const J &j){
    catima::Config c;
    c.z_effective=j[0].n(); c.corrections=j[1].n(); c.calculation=j[2].n();
    c.low_energy=j[3].n(); c.scattering=j[4].n(); c.scattering_factor=j[5].d();
    return c;
}
catima::Material mat(const J &j){
    catima::Material m;
    if(j.has("id")){
        m = catima::get_material(j["id"].n());
        if(!j["rho"].empty())m.density(j["rho"].d());
        m.thickness(j["th"].d());
        if(j.has("I"))m.I(j["I"].d());
        return m;
    }
    for(auto &e:j["e"].a)m.add_element(e[0].d(),e[1].n(),e[2].d());
    if(!j["M"].empty())m.M(j["M"].d()); else m.calculate();
    m.density(j["rho"].d()).thickness(j["th"].d()).I(j["I"].d());
    return m;
}
catima::Layers layers(const J &j){
    catima::Layers l;
    for(auto &e:j.a)l.add(mat(e));
    return l;
}
std::string res(const catima::Result &r){
    Out o;
    o("Ein",r.Ein)("Eout",r.Eout)("Eloss",r.Eloss)("range",r.range)("dEdxi",r.dEdxi)("dEdxo",r.dEdxo)
     ("sigma_E",r.sigma_E)("sigma_a",r.sigma_a)("sigma_r",r.sigma_r)("sigma_x",r.sigma_x)("cov",r.cov)("tof",r.tof);
#ifdef REACTIONS
    o("sp",r.sp);
#endif
    return o.str();
}
std::string dump(const catima::Material &m){
    List l, w, f, nd, nd2;
    for(int i=0;i<m.ncomponents();i++){
        auto t=m.get_element(i);
        l.add("["+D(t.A)+","+std::to_string(t.Z)+","+D(t.stn)+"]");
        w.add(D(m.weight_fraction(i))); f.add(D(m.molar_fraction(i)));
        nd.add(D(m.number_density(i))); nd2.add(D(m.number_density_cm2(i)));
    }
    Out o;
    o.i("n",m.ncomponents()).raw("e",l.str())("rho",m.density())("th",m.thickness())("cm",m.thickness_cm())
     ("M",m.M())("I",m.I()).raw("w",w.str()).raw("f",f.str())("nd",m.number_density())("nd2",m.number_density_cm2())
     .raw("ndi",nd.str()).raw("nd2i",nd2.str());
    return o.str();
}
std::string dump(const catima::Config &c){
    return "["+std::to_string(c.z_effective)+","+std::to_string(c.corrections)+","+std::to_string(c.calculation)+","
        +std::to_string(c.low_energy)+","+std::to_string(c.scattering)+","+D(c.scattering_factor)+"]";
}

OP(begin){ return "{}"; }
OP(seq){ // several commands reported as one event, to relate their results
    List l;
    for(auto &e:j["cmds"].a){
        auto it=registry().find(e["op"].s);
        if(it==registry().end())throw std::runtime_error("unknown operation "+e["op"].s);
        l.add(it->second(e));
    }
    Out o; o.raw("rs",l.str()); return o.str();
}

static int execute(const std::string &line){
    try{
        J j = JParser(line.c_str()).value();
        auto it = registry().find(j["op"].s);
        if(it==registry().end())throw std::runtime_error("unknown operation "+j["op"].s);
        std::string r = it->second(j);
        std::string out = line.substr(0,line.rfind('}')) + ",\"r\":" + r + "}\n";
        std::fwrite(out.data(),1,out.size(),stdout);
        std::fflush(stdout);
        return 0;
    }
    catch(const std::runtime_error &e){
        std::fprintf(stderr,"harness: %s in %s\n",e.what(),line.c_str());
        return 3;
    }
}

static int child(const std::vector<std::string> &lines,std::size_t from,std::size_t to){
    pid_t pid=fork();
    if(pid==0){
        int rc=0;
        for(std::size_t i=from;i<to && rc==0;i++)rc=execute(lines[i]);
        std::fflush(stdout);
        _exit(rc);
    }
    int st=0;
    waitpid(pid,&st,0);
    return WIFEXITED(st)?WEXITSTATUS(st):4;
}

int main(int argc,char **argv){
    const std::string mode = argc>1?argv[1]:"";
    std::string line;
    if(mode.empty()){
        while(std::getline(std::cin,line)){
            if(line.empty())continue;
            int rc=execute(line);
            if(rc)return rc;
        }
        return 0;
    }
    if(mode=="--ops"){
        for(auto &e:registry())std::printf("%s\n",e.first.c_str());
        return 0;
    }
    // --fresh: a process for each command, --sessions: for each command "begin" and those after it
    std::vector<std::string> lines;
    while(std::getline(std::cin,line))if(!line.empty())lines.push_back(line);
    for(std::size_t i=0;i<lines.size();){
        std::size_t k=i+1;
        if(mode=="--sessions")while(k<lines.size() && lines[k].find("\"op\":\"begin\"")==std::string::npos)k++;
        int rc=child(lines,i,k);
        if(rc)return rc;
        i=k;
    }
    return 0;
}
