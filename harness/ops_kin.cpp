// kinematics as the rest of the library sees them: catima.h brings inline versions of its own
#include "registry.h"
#include "catima/calculations.h"
using namespace catima;

OP(kin_lib){
    double T=j["T"].d();
    Out o; o("g",gamma_from_T(T))("b",beta_from_T(T))("p",p_from_T(T,j["A"].d()));
    return o.str();
}
