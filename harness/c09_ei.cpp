// C09: expected improvement
#include "havoc.h"
static double F,S2; static void ans(const vec&,double*f,double*s){ *f=F; *s=S2; }
static double Phi(double z){ return 0.5*(1+std::erf(z/1.4142135623730950488)); } static double phi(double z){ return 0.39894228040143267794*std::exp(-0.5*z*z); }
static ObjectiveFunction* obj(Havoc&H){ ObjectiveFunction*f=new ObjectiveFunction(vf_objective(1,Bounds(vec(1,0.0),vec(1,1.0)))); H.answer=ans; f->surrogate=&H; return f; }
// @entry c09_formula prop=C09 mode=real time=60 qtime=15000
// @bounds every predicted mean and best value in [-1e3,1e3], deviations 0 or in [1e-4,1e3], exploration factors in [1,100]; exp and erf as monotone functions with their known values and bounds
VF_HARNESS(c09_formula){
  Havoc H; ObjectiveFunction*f=obj(H); double best=vf_range("best",-1e3,1e3); F=vf_range("mean",-1e3,1e3); double s=vf_flag("certain")?0.0:vf_range("sigma",1e-4,1e3),k=vf_range("factor",1,100); S2=s*s; f->setSigmaFactor(k); f->setFeasibleMinimum(best); DesignForBayesianOptimization D(vec(1,0.5),0); D.valueAcquisitionFunction=77; f->calculateExpectedImprovement(D); CHECKM(vf_close(D.sigma,s,1e-9),"predicted deviation is reported"); CHECKM(vf_same(D.objectiveFunctionValue,F),"predicted mean is reported"); if(s==0.0){ CHECKM(D.valueAcquisitionFunction==0.0,"zero without deviation"); vf_reach("certain"); return; } double z=(best-F)/(k*s); CHECKM(vf_close(D.valueAcquisitionFunction,(best-F)*Phi(z)+k*s*phi(z),1e-6),"(best-mean) Phi(z) + s phi(z)"); vf_reach("end");
}
// @entry c09_order prop=C09 mode=real time=60 qtime=15000
// @bounds every best value and pair of means in [-1e3,1e3], deviations from {0.01, 1, 50}, exploration factors 1 and 20; uses that z Phi(z) + phi(z) is non-negative and increasing
VF_HARNESS(c09_order){
  Havoc H; ObjectiveFunction*f=obj(H); double best=vf_range("best",-1e3,1e3),m1=vf_range("mean",-1e3,1e3),m2=vf_range("mean2",-1e3,1e3); int a=vf_pick("sigma",0,2); double s=a==0?0.01:a==1?1:50,k=vf_flag("factor")?20:1; vf_assume(m1<=m2); S2=s*s; f->setSigmaFactor(k); f->setFeasibleMinimum(best); double z1=(best-m1)/(k*s),z2=(best-m2)/(k*s); double g1=z1*Phi(z1)+phi(z1),g2=z2*Phi(z2)+phi(z2); vf_assume(g2>=-1e-12); vf_assume(g1>=g2-1e-12); DesignForBayesianOptimization D(vec(1,0.5),0),E(vec(1,0.5),0); F=m1; f->calculateExpectedImprovement(D); F=m2; f->calculateExpectedImprovement(E); CHECKM(E.valueAcquisitionFunction>=-1e-6,"never negative"); CHECKM(D.valueAcquisitionFunction>=E.valueAcquisitionFunction-1e-6,"a worse mean never gets a better value"); vf_reach("end");
}
// @entry c09_probability prop=C09 mode=real time=60 qtime=15000
// @bounds every predicted mean and best value in [-1e3,1e3], deviations in [1e-4,1e3]
VF_HARNESS(c09_probability){
  Havoc H; ObjectiveFunction*f=obj(H); double best=vf_range("best",-1e3,1e3); F=vf_range("mean",-1e3,1e3); double s=vf_range("sigma",1e-4,1e3); S2=s*s; f->setFeasibleMinimum(best); DesignForBayesianOptimization D(vec(1,0.5),0); f->calculateSurrogateEstimate(D); CHECK(vf_same(D.objectiveFunctionValue,F)); D.objectiveFunctionValue=F; D.sigma=s; double p=D.calculateProbalityThatTheEstimateIsLessThanAValue(best),q=D.calculateProbalityThatTheEstimateIsGreaterThanAValue(best); CHECKM(p>=0&&p<=1&&vf_close(p+q,1,1e-12),"probabilities add up to one"); CHECKM(vf_close(p,Phi((best-F)/s),1e-9),"normal distribution function of the estimate"); vf_reach("end");
}
