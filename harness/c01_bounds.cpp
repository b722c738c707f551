// C01: box constraints
#include "common.h"
#include "Bounds/INCLUDE/bounds.hpp"
// @entry c01_pairwise prop=C01 mode=fp time=60
// @bounds dimension 1..3 (4 thorough), every double (NaN and infinities, too) as bound and coordinate, all four ways of giving bounds
#ifdef VF_DEEP
#define DIM 4
#else
#define DIM 3
#endif
VF_HARNESS(c01_pairwise){
  int n=vf_pick("n",1,DIM), how=vf_pick("how",0,3);
  vec lb(n),ub(n),x(n); bool valid=true,in=true; std::vector<double> sl(n),su(n);
  for(int i=0;i<n;i++){ sl[i]=lb(i)=vf_double("lb"); su[i]=ub(i)=vf_double("ub"); x(i)=vf_double("x"); valid=valid&(lb(i)<ub(i)); in=in&(x(i)>=lb(i))&(x(i)<=ub(i)); }
  Bounds b; bool thrown=false;
  try{ if(how==0) b.setBounds(lb,ub); else if(how==1) b.setBounds(sl,su); else if(how==2) b=Bounds(lb,ub); else b=Bounds(sl,su); }catch(...){ thrown=true; }
  CHECKM(thrown==!valid,"bounds accepted exactly when lower<upper everywhere");
  if(thrown){ vf_reach("rejected"); return; }
  vf_reach("accepted");
  CHECKM(b.isPointWithinBounds(x)==in,"membership is lower<=x<=upper");
  CHECK(b.getDimension()==(unsigned)n); CHECK(b.areBoundsSet()); CHECK(b.checkBounds()); CHECK(b.checkIfBoundsAreValid());
  vec l=b.getLowerBounds(),u=b.getUpperBounds(); CHECK(l.getSize()==(unsigned)n&&u.getSize()==(unsigned)n);
  for(int i=0;i<n;i++){ CHECKM(l(i)==lb(i),"lower bound kept"); CHECKM(u(i)==ub(i),"upper bound kept"); }
  THROWS(b.isPointWithinBounds(vec(n+1))); THROWS(b.isPointWithinBounds(vec(n-1)));
}
// @entry c01_sizes prop=C01 mode=fp time=60
// @bounds sizes 0..3 of both bound vectors, every double
VF_HARNESS(c01_sizes){
  int n=vf_pick("n",0,3),m=vf_pick("m",0,3),how=vf_pick("how",0,3); vf_assume(n!=m||n==0);
  vec lb(n),ub(m); std::vector<double> sl(n),su(m);
  for(int i=0;i<n;i++) sl[i]=lb(i)=vf_number("lb"); for(int i=0;i<m;i++) su[i]=ub(i)=vf_number("ub");
  Bounds b; bool thrown=false;
  try{ if(how==0) b.setBounds(lb,ub); else if(how==1) b.setBounds(sl,su); else if(how==2) b=Bounds(lb,ub); else b=Bounds(sl,su); }catch(...){ thrown=true; }
  vf_reach("tried"); CHECKM(thrown,"bound vectors of different or zero length are rejected");
}
// @entry c01_uniform prop=C01 mode=fp time=60
// @bounds dimension 0..3, every pair of scalar bounds
VF_HARNESS(c01_uniform){
  int n=vf_pick("n",0,3); double l=vf_double("l"),u=vf_double("u"); Bounds b((unsigned)n); bool thrown=vf_throws([&]{ b.setBounds(l,u); });
  CHECKM(thrown==(!(l<u)|(n==0)),"scalar bounds accepted exactly when lower<upper and a dimension is set");
  if(!thrown){ vf_reach("set"); vec L=b.getLowerBounds(),U=b.getUpperBounds(); CHECK(L.getSize()==(unsigned)n); CHECK(U.getSize()==(unsigned)n); for(int i=0;i<n;i++){ CHECK(L(i)==l); CHECK(U(i)==u); } 
    b.reset(); CHECK(!b.areBoundsSet()); CHECK(b.getDimension()==0); THROWS(b.generateVectorWithinBounds()); }
}
// @entry c01_random prop=C01 mode=fp time=60
// @bounds dimension 1..3, finite bounds, every outcome of the random generator
VF_HARNESS(c01_random){
  int n=vf_pick("n",1,3); bool sv=vf_flag("std"); vec lb(n),ub(n); for(int i=0;i<n;i++){ lb(i)=vf_range("lb",-1e6,1e6); ub(i)=vf_range("ub",-1e6,1e6); vf_assume(lb(i)<ub(i)); }
  Bounds b; THROWS(b.generateVectorWithinBounds()); b.setBounds(lb,ub);
  if(sv){ std::vector<double> p=b.generateStdVectorWithinBounds(); CHECK(p.size()==(size_t)n); for(int i=0;i<n;i++) CHECKM((p[i]>=lb(i))&(p[i]<=ub(i)),"random point inside the box"); }
  else { vec p=b.generateVectorWithinBounds(); CHECK(p.getSize()==(unsigned)n); for(int i=0;i<n;i++) CHECKM((p(i)>=lb(i))&(p(i)<=ub(i)),"random point inside the box"); CHECK(b.isPointWithinBounds(p)); }
  vf_reach("generated");
}
// @entry c01_again prop=C01 mode=fp time=60
// @bounds 1..2 dimensions, two (thorough: three) boxes set one after the other on the same object in every order of the ways to set them, every double as bound and coordinate, rejected boxes in between
VF_HARNESS(c01_again){
  int n=vf_pick("n",1,2),k=DIM-1; Bounds b((unsigned)n); vec lb(n),ub(n),x(n); bool ok=false; for(int i=0;i<n;i++) x(i)=vf_double("x");
  for(int s=0;s<k;s++){ int how=vf_pick("how",0,4); bool valid=true; double l=vf_double("l"),u=vf_double("u"); std::vector<double> sl(n),su(n); for(int i=0;i<n;i++){ bool last=i==n-1; lb(i)=sl[i]=how==2||!last?l:vf_double("lb"); ub(i)=su[i]=how==2||!last?u:vf_double("ub"); valid=valid&(lb(i)<ub(i)); }
    bool thrown=false; try{ if(how==0) b.setBounds(lb,ub); else if(how==1) b.setBounds(sl,su); else if(how==2) b.setBounds(l,u); else if(how==3) b=Bounds(lb,ub); else { Bounds c(sl,su); Bounds e(c); b=e; } }catch(...){ thrown=true; } CHECKM(thrown==!valid,"bounds accepted exactly when lower<upper everywhere"); ok=!thrown; }
  if(!ok){ vf_reach("rejected"); return; } bool in=true; vec l=b.getLowerBounds(),u=b.getUpperBounds(); CHECK(b.getDimension()==(unsigned)n&&l.getSize()==(unsigned)n&&u.getSize()==(unsigned)n); for(int i=0;i<n;i++){ CHECKM((l(i)==lb(i))&(u(i)==ub(i)),"the box is the one set last"); in=in&(x(i)>=lb(i))&(x(i)<=ub(i)); } CHECKM(b.isPointWithinBounds(x)==in,"membership follows the box set last"); vf_reach("accepted");
}
