#pragma once
#include "vf.h"
#include <vector>
#include <string>
#include <stdexcept>
#include <limits>
#include <cmath>
#include "LinearAlgebra/INCLUDE/vector.hpp"
#include "LinearAlgebra/INCLUDE/matrix.hpp"
#ifdef VF_DEEP
enum { DEEP=1 };
#else
enum { DEEP=0 };
#endif
using namespace Rodop;
template<class F> static bool vf_throws(F f){ try{ f(); }catch(...){ return true; } return false; }
static inline vec vf_vec(int n,const char*nm,double lo,double hi){ vec v(n); for(int i=0;i<n;i++) v(i)=vf_range(nm,lo,hi); return v; }
// any double except NaN (infinities allowed in fp mode)
static inline double vf_number(const char*nm){ double x=vf_double(nm); vf_assume(x==x); return x; }
static inline vec vf_vecn(int n,const char*nm){ vec v(n); for(int i=0;i<n;i++) v(i)=vf_number(nm); return v; }
static inline mat vf_mat(int r,int c,const char*nm,double lo,double hi){ mat m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=vf_range(nm,lo,hi); return m; }
#define CHECK(c) vf_assert((c),#c)
#define CHECKM(c,m) vf_assert((c),m)
#define CLOSE(a,b,t) vf_assert(vf_close((a),(b),(t)),#a " ~ " #b)
#define THROWS(e) vf_assert(vf_throws([&]{ e; }),"rejects: " #e)
#define NOTHROW(e) vf_assert(!vf_throws([&]{ e; }),"accepts: " #e)
static inline std::vector<std::string> vf_lines(const std::string&s){ std::vector<std::string> r; std::string c; for(size_t i=0;i<s.size();i++){ if(s[i]=='\n'){ r.push_back(c); c.clear(); } else c.push_back(s[i]); } if(!c.empty()) r.push_back(c); return r; }
static inline std::vector<std::string> vf_split(const std::string&s,char d){ std::vector<std::string> r; std::string c; for(size_t i=0;i<s.size();i++){ if(s[i]==d){ r.push_back(c); c.clear(); } else c.push_back(s[i]); } r.push_back(c); return r; }
