// C16: correlation kernels and matrices
#include "common.h"
#include "CorrelationFunctions/INCLUDE/exponential_correlation_function.hpp"
#include "CorrelationFunctions/INCLUDE/gaussian_correlation_function.hpp"
#ifdef VF_DEEP
#define NS 3
#else
#define NS 2
#endif
static double gauss(const vec&a,const vec&b,const vec&th,int n){ double s=0; for(int i=0;i<n;i++) s+=th(i)*(a(i)-b(i))*(a(i)-b(i)); return std::exp(-s); }
static double expo(const vec&a,const vec&b,const vec&th,const vec&g,int n){ double s=0; for(int i=0;i<n;i++) s+=th(i)*std::pow(vf_absd(a(i)-b(i)),g(i)); return std::exp(-s); }
// @entry c16_gauss prop=C16 mode=real time=120 qtime=20000
// @bounds 1..3 samples in 1..2 dimensions, coordinates in [-1,1], theta in [0,20], epsilon in [0,0.5]
VF_HARNESS(c16_gauss){
  int n=vf_pick("n",1,3),d=vf_pick("d",1,2); mat X=vf_mat(n,d,"X",-1,1); vec th=vf_vec(d,"th",0,20),x=vf_vec(d,"x",-1,1); double eps=vf_range("eps",0,0.5);
  GaussianCorrelationFunction f; THROWS(f.computeCorrelationMatrix()); THROWS(f.computeCorrelationVector(x)); CHECK(!f.isInputSampleMatrixSet()); f.setInputSampleMatrix(X); CHECK(f.isInputSampleMatrixSet()); THROWS(f.setHyperParameters(vec(d+1))); f.setHyperParameters(th); f.setEpsilon(eps); f.computeCorrelationMatrix(); mat R=f.getCorrelationMatrix(); CHECK(R.getNRows()==(unsigned)n&&R.getNCols()==(unsigned)n);
  vec h=f.getHyperParameters(); for(int i=0;i<d;i++) CHECK(h(i)==th(i)); vec r=f.computeCorrelationVector(x); CHECK(r.getSize()==(unsigned)n);
  for(int i=0;i<n;i++){ CLOSE(R(i,i),1+eps,1e-9); vec xi=X.getRow(i); CLOSE(r(i),gauss(x,xi,th,d),1e-9); vec ri=f.computeCorrelationVector(xi); for(int j=0;j<n;j++){ if(i!=j){ CLOSE(R(i,j),R(j,i),1e-12); CLOSE(R(i,j),gauss(xi,X.getRow(j),th,d),1e-9); CHECKM((R(i,j)>0)&(R(i,j)<=1),"kernel values lie in (0,1]"); CLOSE(ri(j),R(i,j),1e-9); } else CLOSE(ri(j),1.0,1e-9); } }
  vf_observe("r0",r(0)); vf_reach("end");
}
// @entry c16_exp prop=C16 mode=real time=120 qtime=20000
// @bounds 1..3 samples in 1..2 dimensions, coordinates in [-1,1], theta in [0,20], gamma in [1,2], epsilon in [0,0.5]
VF_HARNESS(c16_exp){
  int n=vf_pick("n",1,NS),d=vf_pick("d",1,2); mat X=vf_mat(n,d,"X",-1,1); vec th=vf_vec(d,"th",0,20),g=vf_vec(d,"g",1,2),x=vf_vec(d,"x",-1,1); double eps=vf_range("eps",0,0.5); vec hp(2*d); for(int i=0;i<d;i++){ hp(i)=th(i); hp(d+i)=g(i); }
  ExponentialCorrelationFunction f; THROWS(f.computeCorrelationMatrix()); THROWS(f.computeCorrelationVector(x)); f.setInputSampleMatrix(X); THROWS(f.setHyperParameters(vec(d))); f.setHyperParameters(hp); f.setEpsilon(eps); CHECK(f.checkIfParametersAreSetProperly()); f.computeCorrelationMatrix(); mat R=f.getCorrelationMatrix(); CHECK(R.getNRows()==(unsigned)n&&R.getNCols()==(unsigned)n);
  vec h=f.getHyperParameters(); CHECK(h.getSize()==(unsigned)2*d); for(int i=0;i<2*d;i++) CHECKM(h(i)==hp(i),"hyperparameters are theta then gamma"); vec r=f.computeCorrelationVector(x); CHECK(r.getSize()==(unsigned)n);
  for(int i=0;i<n;i++){ CLOSE(R(i,i),1+eps,1e-9); vec xi=X.getRow(i); CLOSE(r(i),expo(x,xi,th,g,d),1e-9); vec ri=f.computeCorrelationVector(xi); for(int j=0;j<n;j++){ if(i!=j){ CLOSE(R(i,j),R(j,i),1e-12); CLOSE(R(i,j),expo(xi,X.getRow(j),th,g,d),1e-9); CHECKM((R(i,j)>0)&(R(i,j)<=1),"kernel values lie in (0,1]"); CLOSE(ri(j),R(i,j),1e-9); CLOSE(f.computeCorrelation(xi,X.getRow(j)),R(i,j),1e-9); } else CLOSE(ri(j),1.0,1e-9); } }
  vf_observe("r0",r(0)); vf_reach("end");
}
// @entry c16_monotone prop=C16 mode=real time=120 qtime=20000
// @bounds 1..2 dimensions, coordinates in [-1,1], theta in [0,20], gamma in {1,1.5,2}; shift invariance, symmetry, monotone decrease along a coordinate
VF_HARNESS(c16_monotone){
  int d=vf_pick("d",1,2),k=vf_pick("k",0,3); vec a=vf_vec(d,"a",-1,1),b=vf_vec(d,"b",-1,1),s=vf_vec(d,"s",-1,1),th=vf_vec(d,"th",0,20),g(d,k==1?1.0:k==2?1.5:2.0); auto K=[&](const vec&p,const vec&q){ return k==0?vec::computeGaussianCorrelation(p,q,th,d):vec::computeExponentialCorrelation(p.getPointer(),q.getPointer(),th.getPointer(),g.getPointer(),d); };
  double r=K(a,b); CLOSE(K(b,a),r,1e-9); CHECKM((r>0)&(r<=1),"kernel value in (0,1]"); CLOSE(K(a,a),1.0,1e-12); if(k!=2) CLOSE(K(a+s,b+s),r,1e-9); vec c(b); double t=vf_range("t",0,1); vf_assume(b(0)>=a(0)); c(0)=b(0)+t; CHECKM(K(a,c)<=r+1e-9,"kernel does not increase with distance"); vf_observe("r",r); vf_reach("end");
}
// @entry c16_derivative prop=C16 mode=real time=120 qtime=20000
// @bounds 1..2 dimensions, coordinates and directions in [-1,1], theta in [0,20], gamma in {1,2} (distinct coordinates for gamma=1)
VF_HARNESS(c16_derivative){
  int d=vf_pick("d",1,2),k=vf_pick("k",0,3); vec a=vf_vec(d,"a",-1,1),b=vf_vec(d,"b",-1,1),u=vf_vec(d,"u",-1,1),v=vf_vec(d,"v",-1,1),th=vf_vec(d,"th",0,20); double s=0,su=0,sv=0,suv=0; for(int i=0;i<d;i++){ double x=a(i)-b(i); s+=th(i)*x*x; su+=2*th(i)*x*u(i); sv+=2*th(i)*x*v(i); suv+=2*th(i)*u(i)*v(i); }
  if(k==0){ double r=std::exp(-s); CLOSE(vec::computeGaussianCorrelationDot(a.getPointer(),b.getPointer(),u.getPointer(),th.getPointer(),d),su*r,1e-6); }
  else if(k==1){ double r=std::exp(-s); CLOSE(vec::computeGaussianCorrelationDotDot(a.getPointer(),b.getPointer(),u.getPointer(),v.getPointer(),th.getPointer(),d),(su*sv-suv)*r,1e-5); vf_reach("dd"); }
  else if(k==2){ vec g(d,2.0); double r=std::exp(-s); CLOSE(vec::computeExponentialCorrelationDot(a.getPointer(),b.getPointer(),u.getPointer(),th.getPointer(),g.getPointer(),d),su*r,1e-6); vf_reach("e2"); }
  else { vec g(d,1.0); double t=0,tu=0; for(int i=0;i<d;i++){ double x=a(i)-b(i); vf_assume(vf_absd(x)>=0.01); t+=th(i)*vf_absd(x); tu+=th(i)*(x>0?u(i):-u(i)); } CLOSE(vec::computeExponentialCorrelationDot(a.getPointer(),b.getPointer(),u.getPointer(),th.getPointer(),g.getPointer(),d),tu*std::exp(-t),1e-6); vf_reach("e1"); }
}
// @entry c16_settings prop=C16 mode=fp time=60
// @bounds every epsilon, 1..2 dimensions, every non-NaN theta and gamma
VF_HARNESS(c16_settings){
  int d=vf_pick("d",1,2); double e=vf_number("e"); GaussianCorrelationFunction g; ExponentialCorrelationFunction x; CHECKM(vf_throws([&]{ g.setEpsilon(e); })==!((e>=0)&(e<1)),"epsilon must lie in [0,1)"); CHECKM(vf_throws([&]{ x.setEpsilon(e); })==!((e>=0)&(e<1)),"epsilon must lie in [0,1)"); THROWS(g.setDimension(0)); THROWS(x.setDimension(0)); THROWS(g.initialize()); THROWS(x.initialize()); THROWS(g.setInputSampleMatrix(mat())); THROWS(x.setInputSampleMatrix(mat()));
  x.setDimension(d); g.setDimension(d); x.initialize(); g.initialize(); CHECK(x.checkIfParametersAreSetProperly()); CHECK(g.getHyperParameters().getSize()==(unsigned)d); vec h=vf_vecn(2*d,"h"); x.setHyperParameters(h); bool ok=true; for(int i=0;i<d;i++) ok=ok&(h(i)>=0)&(h(d+i)>=0)&(h(d+i)<=2); CHECKM(x.checkIfParametersAreSetProperly()==ok,"parameter ranges"); THROWS(x.setTheta(vec(d+1))); THROWS(x.setGamma(vec(d+1))); THROWS(x.setTheta(vec())); THROWS(x.setHyperParameters(vec(d))); THROWS(g.setHyperParameters(vec())); vf_reach("end");
}
