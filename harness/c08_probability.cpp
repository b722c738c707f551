// C08: feasibility probabilities
#include "havoc.h"
static double cdf(double z){ return 0.5*(1+std::erf(z/1.4142135623730950488)); }
// @entry c08_cdf prop=C08 mode=real time=60 qtime=10000
// @bounds every target and mean in [-1e6,1e6], deviations 0 or in [1e-6,1e6]; the error function is a monotone odd function into [-1,1]
VF_HARNESS(c08_cdf){
  Optimizer O; double t=vf_range("target",-1e6,1e6),m=vf_range("mean",-1e6,1e6),s=vf_range("sigma",0,1e6); vf_assume((s==0.0)|(s>=1e-6)); double p=O.calculateProbabilityLessThanAValue(t,m,s),q=O.calculateProbabilityGreaterThanAValue(t,m,s); CHECKM(p>=0&&p<=1&&q>=0&&q<=1,"probabilities"); CHECKM(vf_close(p+q,1,1e-12),"the two directions add up to one"); if(s==0.0){ vf_assume(m!=t); CHECKM(p==(m<t?1.0:0.0),"step function without deviation"); vf_reach("step"); } else { CHECKM(vf_close(p,cdf((t-m)/s),1e-9),"normal distribution function"); double m2=vf_range("mean2",-1e6,1e6); vf_assume(m2<=m); CHECKM(O.calculateProbabilityLessThanAValue(t,m2,s)>=p,"not smaller for a prediction further on the feasible side (<)"); CHECKM(O.calculateProbabilityGreaterThanAValue(t,m2,s)<=q,"not smaller for a prediction further on the feasible side (>)"); } double n=vf_double("negative"); vf_assume(n<0); THROWS(O.normalCdf(t,m,n)); vf_reach("end");
}
// @entry c08_types prop=C08 mode=real time=60 qtime=10000
// @bounds 1..3 constraints of both directions, every target and mean in [-1e6,1e6], deviations 0 or in [1e-3,1e3]
VF_HARNESS(c08_types){
  int n=vf_pick("n",1,3); Bounds b(vec(1,0.0),vec(1,1.0)); Optimizer O; bool gt[3]; double t[3],m[3],s[3]; for(int i=0;i<n;i++){ gt[i]=vf_flag("gt"); t[i]=vf_range("target",-1e6,1e6); } vf_study(O,1,b,n,gt,t); DesignForBayesianOptimization D(1,n); D.valueAcquisitionFunction=vf_range("acq",0,100); double e=D.valueAcquisitionFunction; for(int i=0;i<n;i++){ m[i]=D.constraintValues(i)=vf_range("mean",-1e6,1e6); s[i]=D.constraintSigmas(i)=vf_flag("certain")?0.0:vf_range("sigma",1e-3,1e3); if(s[i]==0.0) vf_assume(m[i]!=t[i]); } O.calculateFeasibilityProbabilities(D); CHECK(D.constraintFeasibilityProbabilities.getSize()==(unsigned)n); for(int i=0;i<n;i++){ double p=s[i]==0.0?(m[i]<t[i]?1.0:0.0):cdf((t[i]-m[i])/s[i]); if(gt[i]) p=1-p; CHECKM(vf_close(D.constraintFeasibilityProbabilities(i),p,1e-9),"probability of the declared inequality"); D.constraintFeasibilityProbabilities(i)=0.25*(i+1); e*=0.25*(i+1); } D.updateAcqusitionFunctionAccordingToConstraints(); CHECKM(vf_close(D.valueAcquisitionFunction,e,1e-9),"one factor per constraint"); vf_reach("end");
}
static double M[3],S[3]; static void a0(const vec&,double*f,double*s){ *f=M[0]; *s=S[0]*S[0]; } static void a1(const vec&,double*f,double*s){ *f=M[1]; *s=S[1]*S[1]; } static vec seen; static double udf(int k,const double*x){ for(unsigned i=0;i<seen.getSize();i++) seen(i)=x[i]; return M[k]; }
// @entry c08_penalty prop=C08 mode=real time=60 qtime=10000
// @bounds 0..2 constraints, surrogate based or user defined, both directions, every target and predicted mean in [-1e3,1e3], predicted deviations from {0.5, 1, 2}, every acquisition value in [0,100] and candidate
VF_HARNESS(c08_penalty){
  int n=vf_pick("n",0,2); vec lb(2),ub(2); lb(0)=-1; ub(0)=3; lb(1)=2; ub(1)=2.5; Bounds b(lb,ub); Optimizer O; bool gt[2],u[2]; double t[2]; for(int i=0;i<n;i++){ gt[i]=vf_flag("gt"); t[i]=vf_range("target",-1e3,1e3); M[i]=vf_range("mean",-1e3,1e3); int k=vf_pick("sigma",0,2); S[i]=k==0?0.5:k; } vf_study(O,2,b,n,gt,t); Havoc H[2]; H[0].answer=a0; H[1].answer=a1; vf_udf=udf; seen=vec(2,-9.0); bool any=false; for(int i=0;i<n;i++){ u[i]=vf_flag("user"); if(u[i]){ O.constraintFunctions[i].setUseExplicitFunctionOn(); vf_assume(vf_absd(M[i]-t[i])>=1e-6); any=true; } else O.constraintFunctions[i].surrogate=&H[i]; } DesignForBayesianOptimization D(2,n); D.dv(0)=vf_range("x",0,0.5); D.dv(1)=vf_range("x",0,0.5); double e=D.valueAcquisitionFunction=vf_range("acq",0,100); O.addPenaltyToAcqusitionFunctionForConstraints(D); for(int i=0;i<n;i++){ double p=u[i]?(M[i]<t[i]?1.0:0.0):cdf((t[i]-M[i])/S[i]); if(gt[i]) p=1-p; e=e*p; CHECK(vf_close(D.constraintFeasibilityProbabilities(i),p,1e-9)); } CHECKM(vf_close(D.valueAcquisitionFunction,e,1e-6),"acquisition value times one probability per constraint"); if(any){ CHECKM(vf_close(seen(0),-1+8*D.dv(0),1e-9)&vf_close(seen(1),2+D.dv(1),1e-9),"user defined constraints are asked at the candidate itself"); vf_reach("user"); } vf_reach("end");
}
