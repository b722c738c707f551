// C30: adaptation of the trust region and of the exploration factor
#include "loop.h"
// @entry c30_adapt prop=C30 mode=real time=200 qtime=10000
// @bounds optimization loop of 4 (thorough: 5) evaluations in 2 (1..2) dimensions, every objective value in [-100,100] of the best sample and of the evaluations, tolerances 1..2 successes and 1..2 (3) failures, every start length between minimum and maximum; constant surrogate, fixed random draws
VF_HARNESS(c30_adapt){
  vf_random_fixed=1; int d=DEEP?vf_pick("d",1,2):2,k=DEEP?5:4; int st=vf_pick("successes",1,2),ft=vf_pick("failures",1,DEEP?3:2); vec lb(d,-1.0),ub(d,3.0); vec y(2); y(0)=vf_range("y",-100,100); y(1)=y(0)+1; Optimizer O; Havoc H; vf_loop(O,H,d,lb,ub,y); for(int i=0;i<k;i++) vf_values.push_back(vf_range("f",-100,100)); O.initializeOptimizerSettings(); O.initializeSurrogates(); O.initializeCurrentBestDesign(); O.initializeOptimizationHistory(); O.objFun.surrogate=&H; O.ifVariableSigmaStrategy=false; O.trSuccessTolerance=st; O.trFailureTolerance=ft; double mx=O.trLengthMax,mn=O.trLengthMin; CHECKM(mn>0&&mn<mx,"minimum below maximum"); CHECKM(O.trLength<=mx&&O.trLength>=mn,"the initial trust region length lies between its limits"); int e0=vf_pick("start",0,2); double L=e0==0?O.trLength:e0==1?mx*0.75:mn*1.5; O.trLength=L; double best=y(0)<y(1)?y(0):y(1),b0=best; int s=0,f=0;
  for(int i=0;i<k;i++){ vec c=O.globalOptimalDesign.designParametersNormalized; double Lb=L; vf_budget(O,i+1); O.performEfficientGlobalOptimizationOnlyWithFunctionalValues(); for(int j=0;j<d;j++){ double lo=c(j)-Lb/d,hi=c(j)+Lb/d; if(lo<0) lo=0; if(hi>1.0/d) hi=1.0/d; CHECKM(vf_close(O.lowerBoundsForAcqusitionFunctionMaximization(j),lo,1e-9)&&vf_close(O.upperBoundsForAcqusitionFunctionMaximization(j),hi,1e-9),"candidates are searched around the best design known"); } double v=vf_values[i]; bool better=v<best; if(better){ best=v; s++; f=0; if(s==st){ L=L*2; if(L>mx) L=mx; s=0; vf_reach("enlarged"); } } else { f++; s=0; if(f==ft){ L=L/2; if(L<mn) L=mn; f=0; vf_reach("shrunk"); } } CHECKM(vf_close(O.trLength,L,1e-12),"doubled after the configured successes, halved after the configured failures, within its limits"); CHECKM((int)O.trSuccessCounter==s&&(int)O.trFailureCounter==f,"successes and failures in a row"); }
  vf_reach("end");
}
// @entry c30_sigma prop=C30 mode=real time=200 qtime=10000
// @bounds exploration factor after 1..2 evaluations, 1..2 initial samples at arbitrary places of a one-dimensional box (coinciding ones included), every multiplier state in [1,3] and random draw
VF_HARNESS(c30_sigma){
  int n=vf_pick("n",1,2); Optimizer O; O.setDimension(1); OptimizationHistory&h=O.history; h.setDimension(1); mat m(n,4); for(int i=0;i<n;i++) m(i,0)=vf_range("x",0,4); h.setData(m); h.numberOfDoESamples=n; O.initializeOptimizerSettings(); h.calculateCrowdingFactor(); O.crowdingCoefficient=h.getCrowdingFactor()*O.sigmaFactor; CHECK(O.crowdingCoefficient>=0); CHECKM(O.sigmaFactorMin==1.0&&O.sigmaFactorMax>=1.0,"limits"); int k=vf_pick("evaluations",1,2); for(int i=0;i<k;i++){ Design D(1); D.designParameters(0)=vf_range("new",0,4); h.updateOptimizationHistory(D); O.sigmaMultiplier=vf_range("multiplier",1,3); O.adjustSigmaFactor(); CHECKM(O.sigmaFactor>=O.sigmaFactorMin&&O.sigmaFactor<=O.sigmaFactorMax,"the exploration factor stays within its limits"); CHECKM(vf_same(O.objFun.sigmaFactor,O.sigmaFactor),"and is the one the acquisition function uses"); } vf_reach("end");
}
// @entry c30_centre prop=C30,C02 mode=real time=100 qtime=10000
// @bounds 1..3 dimensions, every centre in the box, every trust region length in [0.001,1.5]
VF_HARNESS(c30_centre){
  int d=vf_pick("d",1,3); Optimizer O; O.setDimension(d); vec c(d); for(int i=0;i<d;i++){ c(i)=vf_range("c",0,1); vf_assume(c(i)<=1.0/d); } O.globalOptimalDesign.designParametersNormalized=c; double L=O.trLength=vf_range("L",0.001,1.5); O.defineTrustRegion(); vec&lo=O.lowerBoundsForAcqusitionFunctionMaximization,&hi=O.upperBoundsForAcqusitionFunctionMaximization; CHECK(lo.getSize()==(unsigned)d&&hi.getSize()==(unsigned)d); for(int i=0;i<d;i++){ double a=c(i)-L/d,b=c(i)+L/d; if(a<0) a=0; if(b>1.0/d) b=1.0/d; CHECKM(lo(i)>=0&&hi(i)<=1.0/d+1e-12,"inside the box"); CHECKM(lo(i)<hi(i),"not empty"); CHECKM(lo(i)<=c(i)&&c(i)<=hi(i),"contains its centre"); CLOSE(lo(i),a,1e-12); CLOSE(hi(i),b,1e-12); } vf_reach("end");
}
