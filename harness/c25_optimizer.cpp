// C25: settings of the optimizer itself
#include "loop.h"
struct Halt{}; static int evaluations; static double halt(const double*){ evaluations++; throw Halt(); }
// @entry c25_optimizer prop=C25 mode=real time=100
// @bounds optimizer with 1..2 parameters and 0..1 constraint: each mandatory setting missing, budget 0..2, training data files missing, empty or with a wrong number of columns, repeated constraint names, surrogate model types which are not available
VF_HARNESS(c25_optimizer){
  vf_random_fixed=1; int d=vf_pick("d",1,2),nc=vf_pick("nc",0,1),w=vf_pick("wrong",-1,9); vf_assume(nc==1||w<6||w==8); static const SURROGATE_MODEL none[4]={NONE,GRADIENT_ENHANCED,TANGENT_ENHANCED,LINEAR_REGRESSION}; SURROGATE_MODEL model=w>=8?none[vf_pick("model",0,3)]:ORDINARY_KRIGING; bool swap=vf_flag("bounds first"); vec lb(d,-1.0),ub(d,2.0); Bounds b(lb,ub); Optimizer O; evaluations=0; bool refused=false,started=false;
  for(int q=0;q<=nc;q++){ bool bad=q==nc; int cols=bad&&w==4?d:(bad&&w==5?d+2:d+1); mat m(3,cols); for(int i=0;i<3;i++) for(int j=0;j<cols;j++) m(i,j)=-0.75+0.5*i+0.25*j*(i==1); if(!(bad&&w==3)) vf_write_file(q==0?"objective.csv":"constraint0.csv",csv(m)); }
  try{ O.setDimension(d); auto box=[&]{ if(w!=1) O.setBoxConstraints(b); }; if(swap) box(); if(w!=0){ ObjectiveFunction f=vf_objective(d,b); f.setFunctionPtr(halt); if(w==8) f.definition.modelHiFi=model; O.addObjectFunction(f); } if(nc){ ConstraintFunction c=vf_constraint(w==7?3-d:d,w==7?Bounds(vec(3-d,-1.0),vec(3-d,2.0)):b,0,true,0.5); c.setFunctionPtr(halt); if(w==9) c.definition.modelHiFi=model; O.addConstraint(c); if(w==6) O.addConstraint(c); } if(!swap) box(); O.setMaximumNumberOfInnerIterations(1); vf_untrain(O); O.setMaximumNumberOfIterations(w==2?0:2); O.performEfficientGlobalOptimization(); }catch(Halt&){ started=true; }catch(std::exception&){ refused=true; }
  if(w>=0){ CHECKM(refused&&evaluations==0,"incomplete or inconsistent settings are refused before anything is evaluated"); vf_reach("refused"); } else { CHECKM(started&&evaluations==1,"complete settings are accepted"); vf_reach("started"); }
}
// @entry c25_discrete prop=C25 mode=fp time=60
// @bounds optimizer with 1..2 parameters: every index 0..3 and every increment (all doubles) of a discrete parameter
VF_HARNESS(c25_discrete){
  int d=vf_pick("d",1,2),i=vf_pick("index",0,3); double h=vf_double("increment"); Optimizer O; O.setDimension(d); bool t=vf_throws([&]{ O.setParameterToDiscrete(i,h); }); CHECKM(t!=((i<d)&(h>0)),"index inside the dimension and positive increment"); CHECK(O.indicesForDiscreteVariables.size()==(t?0u:1u)); vf_reach("end");
}
// @entry c25_numbers prop=C25 mode=real time=60
// @bounds numbers of threads 0..2, training periods 0..2, empty file and problem names
VF_HARNESS(c25_numbers){
  Optimizer O; O.setDimension(1); int n=vf_pick("n",0,2); bool t=vf_throws([&]{ O.setNumberOfThreads(n); }); CHECKM(t==(n==0),"at least one thread"); t=vf_throws([&]{ O.setHowOftenTrainModels(n); }); CHECKM(t==(n==0),"surrogate models are trained every so many iterations"); THROWS(O.setFileNameDesignVector("")); THROWS(O.setFileNameDesignVector("  ")); NOTHROW(O.setFileNameDesignVector("dv.dat")); KrigingModel K; t=vf_throws([&]{ K.setNumberOfThreads(n); }); CHECKM(t==(n==0),"at least one thread trains"); vf_reach("end");
}
