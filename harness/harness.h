#ifndef VERIF_HARNESS_H
#define VERIF_HARNESS_H
#include "registry.h"
#include "catima/catima.h"

// library objects described by a command
catima::Projectile proj(const J &j);     // [A,Z,Q,T]
catima::Material mat(const J &j);        // {"e":[[A,Z,stn]..],"rho","th","I","M"} or {"id",..}
catima::Config cfg(const J &j);          // [zeff,corr,calc,low,scat,sf]
catima::Target tgt(const J &j);          // [A,Z,stn]
catima::Layers layers(const J &j);
std::string res(const catima::Result &r);
std::string dump(const catima::Material &m);
std::string dump(const catima::Config &c);

// call with the configuration, or without when the command gives none
#define CALLC(f, ...) (j["c"].empty() ? f(__VA_ARGS__) : f(__VA_ARGS__, cfg(j["c"])))
#endif
