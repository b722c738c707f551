#pragma once
#include "havoc.h"
// the models are trained in the first iteration: these runs start with the second, so that the budget is one more
static void vf_budget(Optimizer&O,int k){ O.setMaximumNumberOfIterations(k+1); }
// runs of the optimization loop with surrogate models that answer a constant, so that evaluated values are the only thing that varies
static std::vector<double> vf_values; static std::vector<vec> vf_designs; static size_t vf_calls; static int vf_dim;
static double vf_evaluate(const double*x){ vec v(vf_dim); for(int i=0;i<vf_dim;i++) v(i)=x[i]; vf_designs.push_back(v); return vf_values[vf_calls++]; }
static void vf_flat(const vec&,double*f,double*s2){ *f=0; *s2=0; }
// O: study with objective function pointer vf_evaluate, N initial samples on a grid with the given outputs, inner search of one candidate
static void vf_loop(Optimizer&O,Havoc&H,int d,const vec&lb,const vec&ub,const vec&y){ H.answer=vf_flat; vf_dim=d; static const double P[3][2]={{0.125,0.3125},{0.75,0.0625},{0.4375,0.875}}; mat m(y.getSize(),d+1); for(unsigned i=0;i<y.getSize();i++){ for(int j=0;j<d;j++) m(i,j)=lb(j)+P[i][j]*(ub(j)-lb(j)); m(i,d)=y(i); } vf_write_file("objective.csv",csv(m)); Bounds b(lb,ub); bool gt[1]; double t[1]; vf_study(O,d,b,0,gt,t,vf_evaluate); O.setMaximumNumberOfInnerIterations(1); O.outerIterationNumber=1; }
// a surrogate model which records the samples it is given
class Recorder : public Havoc { public: std::vector<vec> samples; void addNewSampleToData(vec v) override { samples.push_back(v); } };
static std::vector<std::vector<double>> vf_cvalues; static std::vector<std::vector<vec>> vf_cdesigns;
template<int K> static double vf_cevaluate(const double*x){ vec v(vf_dim); for(int i=0;i<vf_dim;i++) v(i)=x[i]; vf_cdesigns[K].push_back(v); return vf_cvalues[K][vf_cdesigns[K].size()-1]; }
// study with nc constraints evaluated by function pointers; the initial samples have constraint values 0; all surrogate models are recorders
static void vf_loop_constrained(Optimizer&O,Recorder*R,int d,int nc,const vec&lb,const vec&ub,const vec&y,bool*gt,double*target){
  vf_dim=d; vf_calls=0; vf_designs.clear(); vf_cvalues.assign(nc,{}); vf_cdesigns.assign(nc,{}); static const double P[3][2]={{0.125,0.3125},{0.75,0.0625},{0.4375,0.875}}; for(int q=-1;q<nc;q++){ mat m(y.getSize(),d+1); for(unsigned i=0;i<y.getSize();i++){ for(int j=0;j<d;j++) m(i,j)=lb(j)+P[i][j]*(ub(j)-lb(j)); m(i,d)=q<0?y(i):0.0; } vf_write_file(q<0?std::string("objective.csv"):"constraint"+std::to_string(q)+".csv",csv(m)); } Bounds b(lb,ub); static ObjectiveFunctionPtr cp[2]={vf_cevaluate<0>,vf_cevaluate<1>}; vf_study(O,d,b,nc,gt,target,(ObjectiveFunctionPtr)vf_evaluate,cp); O.setMaximumNumberOfInnerIterations(1); O.outerIterationNumber=1; O.initializeOptimizerSettings(); O.initializeSurrogates(); O.initializeCurrentBestDesign(); O.initializeOptimizationHistory(); for(int q=0;q<=nc;q++) R[q].answer=vf_flat; O.objFun.surrogate=&R[0]; for(int q=0;q<nc;q++) O.constraintFunctions[q].surrogate=&R[q+1]; }
