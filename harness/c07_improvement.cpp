// C07: improvement values
#include "opt.h"
// @entry c07_initial prop=C07 mode=fp time=60
// @bounds histories of 1..4 rows, every finite objective value, all feasibility patterns, 0..1 constraints
VF_HARNESS(c07_initial){
  int N=vf_pick("N",1,4),nc=vf_pick("nc",0,1); OptimizationHistory h; h.setDimension(1); if(nc) h.addConstraintName("c"); mat H(N,4+nc); bool any=false; double best=0; for(int i=0;i<N;i++){ H(i,0)=i; double v=vf_range("f",-1e300,1e300); H(i,1)=v; if(nc) H(i,2)=vf_range("c",-1e300,1e300); bool f=vf_flag("feasible"); H(i,3+nc)=f?1:0; if(f){ best=any?(v<best?v:best):v; any=true; } } h.setData(H); double b=h.calculateInitialImprovementValue(); if(any) CHECKM(b==best,"smallest objective value of the feasible initial samples"); else CHECKM(b<-1e300,"no best value when no initial sample is feasible"); vf_reach("end");
}
// @entry c07_sequence prop=C07 mode=real time=100
// @bounds 1..3 initial samples (each feasible or not), sequences of 3 (thorough: 4) evaluated designs, every objective value in [-1e300,1e300], all feasibility patterns
VF_HARNESS(c07_sequence){
  int N=vf_pick("N",1,3); Optimizer O; O.setDimension(1); bool any=false; double best=0; OptimizationHistory h; h.setDimension(1); mat H(N,4); for(int i=0;i<N;i++){ double v=vf_range("f",-1e300,1e300); H(i,1)=v; bool f=vf_flag("feasible"); H(i,3)=f?1:0; if(f){ best=any?(v<best?v:best):v; any=true; } } h.setData(H); O.bestFeasibleInitialValue=h.calculateInitialImprovementValue();
  for(int t=0;t<(DEEP?4:3);t++){ Design D(1); D.isDesignFeasible=vf_flag("feasible"); D.trueValue=vf_range("v",-1e300,1e300); D.improvementValue=vf_double("stale"); O.calculateImprovementValue(D); double m=D.improvementValue; CHECKM(m>=0.0,"never negative"); if(!D.isDesignFeasible) CHECKM(m==0.0,"zero for an infeasible design"); else if(!any){ CHECKM(m>0.0&&m<1e-10,"positive token amount for the first feasible design"); any=true; best=D.trueValue; vf_reach("first"); } else if(D.trueValue<best) CHECKM(m==best-D.trueValue&&m>0,"the amount by which the best value is undercut"); else CHECKM(m==0.0,"zero when not better"); } vf_reach("end");
}
// @entry c07_rounding prop=C07 mode=fp time=100
// @bounds 1 initial sample, sequences of 2 evaluated designs, every objective value in [-1e300,1e300], all feasibility patterns
VF_HARNESS(c07_rounding){
  int N=1; Optimizer O; O.setDimension(1); bool any=false; double best=0; OptimizationHistory h; h.setDimension(1); mat H(N,4); for(int i=0;i<N;i++){ double v=vf_range("f",-1e300,1e300); H(i,1)=v; bool f=vf_flag("feasible"); H(i,3)=f?1:0; if(f){ best=any?(v<best?v:best):v; any=true; } } h.setData(H); O.bestFeasibleInitialValue=h.calculateInitialImprovementValue();
  for(int t=0;t<2;t++){ Design D(1); D.isDesignFeasible=vf_flag("feasible"); D.trueValue=vf_range("v",-1e300,1e300); D.improvementValue=vf_double("stale"); O.calculateImprovementValue(D); double m=D.improvementValue; CHECKM(m>=0.0,"never negative"); if(!D.isDesignFeasible) CHECKM(m==0.0,"zero for an infeasible design"); else if(!any){ CHECKM(m>0.0&&m<1e-10,"positive token amount for the first feasible design"); any=true; best=D.trueValue; vf_reach("first"); } else if(D.trueValue<best) CHECKM(m==best-D.trueValue&&m>0,"the amount by which the best value is undercut"); else CHECKM(m==0.0,"zero when not better"); } vf_reach("end");
}
