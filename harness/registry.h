#ifndef VERIF_REGISTRY_H
#define VERIF_REGISTRY_H
#include <map>
#include <string>
#include "json.h"

// an operation gets the command and returns the JSON text of its result
using Op = std::string(*)(const J&);
std::map<std::string,Op>& registry();
struct Reg{Reg(const char *n, Op f){registry()[n]=f;}};
#define OP(name) static std::string op_##name(const J &j); static Reg reg_##name(#name,op_##name); static std::string op_##name(const J &j)
#endif
