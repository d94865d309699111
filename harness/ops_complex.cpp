// complex functions of the partial wave sums
#include <complex>
#include "harness.h"
using namespace catima;
typedef std::complex<double> C;

static C cnum(const J &j){return C(j[0].d(),j[1].d());}
static std::string cstr(C z){return "["+D(z.real())+","+D(z.imag())+"]";}

OP(lngamma){ // value, value of the conjugate, value at z+1
    C z=cnum(j["z"]);
    List l; l.add(cstr(lngamma(z))).add(cstr(lngamma(std::conj(z)))).add(cstr(lngamma(z+1.0)));
    Out o; o.raw("v",l.str()); return o.str();
}
OP(hyperg){ // value, value of the conjugates, the other side of the Kummer transformation
    C a=cnum(j["a"]), b=cnum(j["b"]), z=cnum(j["z"]);
    List l; l.add(cstr(hyperg(a,b,z))).add(cstr(hyperg(std::conj(a),std::conj(b),std::conj(z)))).add(cstr(hyperg(b-a,b,-z)));
    Out o; o.raw("v",l.str()); return o.str();
}
