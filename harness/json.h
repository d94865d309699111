// Minimal JSON for the command lines of the harness. Doubles are arrays
// [hi,lo] with the two signed 32 bit halves of the bit pattern.
#ifndef VERIF_JSON_H
#define VERIF_JSON_H
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

struct J{
    enum Type{Null,Int,Str,Arr,Obj,Bool} type = Null;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string,J>> o;

    bool has(const char *k)const{for(auto &e:o)if(e.first==k)return true;return false;}
    const J& operator[](const char *k)const{
        for(auto &e:o)if(e.first==k)return e.second;
        throw std::runtime_error(std::string("missing field ")+k);
    }
    const J& operator[](std::size_t k)const{
        if(k>=a.size())throw std::runtime_error("array too short");
        return a[k];
    }
    const J& operator[](int k)const{return (*this)[static_cast<std::size_t>(k)];}
    std::size_t size()const{return a.size();}
    bool empty()const{return a.empty();}
    double d()const{
        if(type==Int)return static_cast<double>(i);
        if(type!=Arr || a.size()!=2)throw std::runtime_error("double expected");
        std::uint64_t hi = static_cast<std::uint32_t>(a[0].i), lo = static_cast<std::uint32_t>(a[1].i);
        std::uint64_t b = (hi<<32)|lo;
        double x; std::memcpy(&x,&b,8);
        return x;
    }
    int n()const{if(type!=Int)throw std::runtime_error("integer expected");return static_cast<int>(i);}
};

struct JParser{
    const char *p;
    explicit JParser(const char *t):p(t){}
    void ws(){while(*p==' '||*p=='\t'||*p=='\n'||*p=='\r')++p;}
    J value(){
        ws();
        J v;
        if(*p=='{'){
            v.type=J::Obj; ++p; ws();
            if(*p=='}'){++p;return v;}
            while(true){
                ws(); std::string k=str(); ws();
                if(*p!=':')throw std::runtime_error("json: colon"); ++p;
                v.o.emplace_back(k,value()); ws();
                if(*p==','){++p;continue;}
                if(*p=='}'){++p;return v;}
                throw std::runtime_error("json: object");
            }
        }
        if(*p=='['){
            v.type=J::Arr; ++p; ws();
            if(*p==']'){++p;return v;}
            while(true){
                v.a.push_back(value()); ws();
                if(*p==','){++p;continue;}
                if(*p==']'){++p;return v;}
                throw std::runtime_error("json: array");
            }
        }
        if(*p=='"'){v.type=J::Str;v.s=str();return v;}
        if(!std::strncmp(p,"true",4)){v.type=J::Bool;v.i=1;p+=4;return v;}
        if(!std::strncmp(p,"false",5)){v.type=J::Bool;v.i=0;p+=5;return v;}
        char *e; v.type=J::Int; v.i=std::strtoll(p,&e,10);
        if(e==p)throw std::runtime_error(std::string("json: value at ")+p);
        p=e; return v;
    }
    std::string str(){
        if(*p!='"')throw std::runtime_error("json: string");
        ++p; std::string r;
        while(*p && *p!='"'){
            if(*p=='\\'){++p; r+=(*p=='n')?'\n':*p; ++p; continue;}
            r+=*p++;
        }
        if(*p!='"')throw std::runtime_error("json: string end");
        ++p; return r;
    }
};

// output
inline std::string D(double x){
    std::uint64_t b; std::memcpy(&b,&x,8);
    return "["+std::to_string(static_cast<std::int32_t>(b>>32))+","+std::to_string(static_cast<std::int32_t>(b&0xffffffffu))+"]";
}
inline std::string S(const std::string &s){
    std::string r="\"";
    for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n')r+="\\n"; else r+=c; }
    return r+"\"";
}
inline std::string B(bool b){return b?"true":"false";}
template<typename V> std::string DV(const V &v){
    std::string r="["; bool f=true;
    for(double x:v){if(!f)r+=","; f=false; r+=D(x);}
    return r+"]";
}
struct Out{
    std::string s="{"; bool first=true;
    Out& raw(const char *k,const std::string &v){if(!first)s+=","; first=false; s+="\""; s+=k; s+="\":"; s+=v; return *this;}
    Out& operator()(const char *k,double v){return raw(k,D(v));}
    Out& i(const char *k,long long v){return raw(k,std::to_string(v));}
    Out& b(const char *k,bool v){return raw(k,B(v));}
    std::string str()const{return s+"}";}
};
struct List{
    std::string s="["; bool first=true;
    List& add(const std::string &v){if(!first)s+=","; first=false; s+=v; return *this;}
    std::string str()const{return s+"]";}
};
#endif
