// C06: feasibility of constraint values
#include "opt.h"
static bool ok(bool gt,double v,double t){ return gt?v>t:v<t; }
// @entry c06_single prop=C06 mode=fp time=60
// @bounds every double (NaN and infinities included) as value and target, both directions
VF_HARNESS(c06_single){
  bool gt=vf_flag("gt"); double t=vf_double("target"),v=vf_double("value"); Bounds b(vec(1,0.0),vec(1,1.0)); ConstraintFunction c=vf_constraint(1,b,0,gt,t); CHECKM(c.checkFeasibility(v)==ok(gt,v,t),"feasible exactly when the declared strict inequality holds"); CHECK(c.getInequalityType()==(gt?">":"<")); c.setInequalityType(gt?"<":">"); double t2=vf_double("target2"); c.setInequalityTargetValue(t2); CHECKM(c.checkFeasibility(v)==ok(!gt,v,t2),"after the definition is changed"); THROWS(c.setInequalityType("=")); THROWS(c.setInequalityType("")); vf_reach("end");
}
// @entry c06_set prop=C06 mode=fp time=60
// @bounds 0..3 constraints of both directions, 0..4 values, every double
VF_HARNESS(c06_set){
  int n=vf_pick("n",0,3),m=vf_pick("m",0,4); Bounds b(vec(1,0.0),vec(1,1.0)); Optimizer O; bool gt[3]; double t[3]; for(int i=0;i<n;i++){ gt[i]=vf_flag("gt"); t[i]=vf_double("target"); } vf_study(O,1,b,n,gt,t); vec v(m); for(int i=0;i<m;i++) v(i)=vf_double("value"); if(m<n){ THROWS(O.checkConstraintFeasibility(v)); vf_reach("too few values"); return; } bool e=true; for(int i=0;i<n;i++) e=e&ok(gt[i],v(i),t[i]); bool r=O.checkConstraintFeasibility(v); CHECKM(r==e,"feasible exactly when every constraint is satisfied"); if(n==0) CHECK(r); vf_reach("end");
}
static double fval[3]; static double f0(const double*){ return fval[0]; } static double f1(const double*){ return fval[1]; } static double f2(const double*){ return fval[2]; }
// @entry c06_design prop=C06 mode=fp time=60
// @bounds 1..3 constraints of both directions evaluated for a design that was feasible or infeasible before, every double
VF_HARNESS(c06_design){
  int n=vf_pick("n",1,3); Bounds b(vec(1,0.0),vec(1,1.0)); Optimizer O; bool gt[3]; double t[3]; for(int i=0;i<n;i++){ gt[i]=vf_flag("gt"); t[i]=vf_double("target"); fval[i]=vf_double("value"); } ObjectiveFunctionPtr fp[3]={f0,f1,f2}; vf_study(O,1,b,n,gt,t,f0,fp); Design d(vec(1,0.5)); d.setNumberOfConstraints(n); d.isDesignFeasible=vf_flag("before"); O.computeConstraintsandPenaltyTerm(d); bool e=true; for(int i=0;i<n;i++){ e=e&ok(gt[i],fval[i],t[i]); CHECKM(d.constraintTrueValues(i)==fval[i]||(fval[i]!=fval[i]&&d.constraintTrueValues(i)!=d.constraintTrueValues(i)),"constraint value stored under its ID"); } CHECKM(d.isDesignFeasible==e,"design is flagged feasible exactly when every constraint is satisfied"); vf_reach("end");
}
// @entry c06_history prop=C06 mode=real time=150
// @bounds 1..2 initial samples of 1..2 parameters, 0..2 constraints; every value and target in [-100,100], inputs in or outside the box
VF_HARNESS(c06_history){
  int N=vf_pick("N",1,2),d=vf_pick("d",1,2),n=vf_pick("n",0,2); vec lb(d,-1.0),ub(d,2.0); Bounds b(lb,ub); Optimizer O; bool gt[3]; double t[3]; for(int i=0;i<n;i++){ gt[i]=vf_flag("gt"); t[i]=vf_range("target",-100,100); } vf_study(O,d,b,n,gt,t); mat H=vf_mat(N,d+n+3,"h",-100,100); mat G=H; O.setOptimizationHistoryDataFeasibilityValues(G); for(int i=0;i<N;i++){ bool e=true; for(int k=0;k<n;k++) e=e&ok(gt[k],H(i,d+1+k),t[k]); if(n>0) for(int j=0;j<d;j++) e=e&(H(i,j)>=lb(j))&(H(i,j)<=ub(j)); CHECKM(vf_close(G(i,d+n+2),e?1.0:0.0,1e-12),"initial sample flagged feasible exactly when it satisfies constraints and box"); for(int j=0;j<d+n+2;j++) CHECK(vf_same(G(i,j),H(i,j))); } vf_reach("end");
}
