#pragma once
#include "common.h"
#include "Bounds/INCLUDE/bounds.hpp"
// text of a matrix as a comma separated file
static inline std::string csv(const mat&m,int prec=17){ std::string s; for(unsigned i=0;i<m.getNRows();i++){ for(unsigned j=0;j<m.getNCols();j++){ if(j) s+=","; s+=vf_num(m(i,j),prec); } s+="\n"; } return s; }
// a box with widths >= minw inside [lo,hi]
static inline void vf_box(vec&lb,vec&ub,int d,double lo,double hi,double minw){ lb=vec(d); ub=vec(d); for(int i=0;i<d;i++){ lb(i)=vf_range("lb",lo,hi); ub(i)=vf_range("ub",lo,hi); vf_assume(ub(i)-lb(i)>=minw); } }
static inline double norm1(double x,double lo,double hi,int d){ return (x-lo)/(hi-lo)/d; }
