// shared by the bounded harnesses: adversarial numbers, seeds from the verifier's counterexamples
#pragma once
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>
#include <optional>
#include <random>
#include <sstream>
#include <string>
#include <vector>
namespace vh {
constexpr double INF = std::numeric_limits<double>::infinity();
inline double NaN() { return std::numeric_limits<double>::quiet_NaN(); }
struct Rng { std::mt19937_64 g; explicit Rng(uint64_t s):g(s){} uint64_t u(){return g();} int i(int lo,int hi){return lo+int(g()%uint64_t(hi-lo+1));} bool b(double p=0.5){return (g()>>11)*0x1.0p-53<p;} double r(double lo,double hi){return lo+(hi-lo)*((g()>>11)*0x1.0p-53);} };
using Seed = std::map<std::string,double>;
inline std::vector<Seed> read_seeds(const char* path){ std::vector<Seed> out; std::ifstream f(path); std::string l; Seed cur; while(std::getline(f,l)){ if(l=="--"){ out.push_back(cur); cur.clear(); continue;} auto p=l.find('='); if(p==std::string::npos) continue; cur[l.substr(0,p)]=std::strtod(l.c_str()+p+1,nullptr);} if(!cur.empty()) out.push_back(cur); return out; }
struct Clock { std::chrono::steady_clock::time_point t0=std::chrono::steady_clock::now(); double s() const {return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();} };
inline std::string num(double v){ char b[64]; std::snprintf(b,sizeof b,"%.17g",v); return b; }
[[noreturn]] inline void fail(const std::string& what,const std::string& input){ std::printf("FAIL %s\n%s\n",what.c_str(),input.c_str()); std::fflush(stdout); std::_Exit(1); }
}
