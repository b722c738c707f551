// C36: when the surrogate models are trained and with which data
#include "loop.h"
// @entry c36_schedule prop=C36 mode=real time=150 qtime=10000
// @bounds runs of 1..4 (thorough 5) evaluations in one dimension with training periods 1..4 (and the default), 0..1 constraint, models with and without linear trend, first evaluation better or worse than the initial samples, others fixed, fixed random draws; training itself replaced by a note
VF_HARNESS(c36_schedule){
  vf_random_fixed=1; vf_trainings.clear(); int d=1,nc=vf_pick("nc",0,1),k=vf_pick("budget",1,DEEP?5:4),period=vf_pick("period",0,4); bool uni=vf_flag("universal"); double first=vf_flag("improves")?-5:50; vf_dim=d; vf_calls=0; vf_designs.clear(); vf_values.clear(); vf_cvalues.assign(nc,{}); vf_cdesigns.assign(nc,{}); vec lb(d,-1.0),ub(d,3.0); static const double P[2]={0.125,0.75};
  for(int q=0;q<=nc;q++){ mat m(2,d+1); for(int i=0;i<2;i++){ m(i,0)=-1+P[i]*4; m(i,1)=q==0?1.5*i-2:0.25-i; } vf_write_file(q==0?"objective.csv":"constraint0.csv",csv(m)); } for(int t=0;t<k;t++){ vf_values.push_back(t==0?first:3.0-2.5*t); for(int q=0;q<nc;q++) vf_cvalues[q].push_back(0.75*t-1); }
  Bounds b(lb,ub); Optimizer O; bool gt[1]={true}; double target[1]={0.5}; static ObjectiveFunctionPtr cp[1]={vf_cevaluate<0>}; vf_study(O,d,b,nc,gt,target,(ObjectiveFunctionPtr)vf_evaluate,cp); vf_untrain(O); if(uni){ O.objFun.definition.modelHiFi=UNIVERSAL_KRIGING; } O.setMaximumNumberOfInnerIterations(1); if(period) O.setHowOftenTrainModels(period); O.setMaximumNumberOfIterations(k); NOTHROW(O.performEfficientGlobalOptimization());
  std::vector<int> at; for(int t=0;t<k;t++) if(period?t%period==0:t==0) at.push_back(t); CHECKM(vf_trainings.size()==at.size()*(1+nc),"the models are trained in the first iteration and then in every iteration the period asks for");
  for(size_t j=0;j<vf_trainings.size();j++){ int t=at[j/(1+nc)]; CHECKM((int)vf_trainings[j].samples==2+t,"with all samples evaluated so far"); const void*m=j%(1+nc)==0?(const void*)&O.objFun.surrogateModel:(const void*)&O.constraintFunctions[0].surrogateModel; CHECKM(vf_trainings[j].model==m,"every model is trained once"); }
  for(int q=0;q<=nc;q++){ ObjectiveFunction&F=q==0?O.objFun:O.constraintFunctions[0]; mat R=F.getTrainingData(); CHECKM((int)R.getNRows()==2+k,"the model knows every sample"); for(int t=0;t<k;t++){ CLOSE(R(2+t,0),vf_designs[t](0),1e-5); CLOSE(R(2+t,1),q==0?vf_values[t]:vf_cvalues[0][t],1e-5); } CHECK((int)F.surrogateModel.data.getNumberOfSamples()==2+k); }
  mat H=O.getHistory(); CHECKM((int)H.getNRows()==2+k,"training leaves the history alone"); for(int t=0;t<k;t++) CHECKM(vf_same(H(2+t,d),vf_values[t]),"training leaves the history alone"); vf_reach("end");
}
