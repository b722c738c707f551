// C24, C23: evaluations of an optimization run
#include "loop.h"
static void rows(const mat&H,const mat&H0,int N,int k,int d,int nc){ CHECKM((int)H.getNRows()==N+k,"every evaluated design is recorded once"); for(int i=0;i<N;i++) for(unsigned j=0;j<H0.getNCols();j++) CHECKM(vf_same(H(i,j),H0(i,j)),"earlier rows are unchanged"); for(int t=0;t<k;t++){ for(int j=0;j<d;j++) CHECKM(vf_close(H(N+t,j),vf_designs[t](j),1e-9),"in the order of evaluation"); CHECKM(vf_same(H(N+t,d),vf_values[t]),"with its objective value"); for(int q=0;q<nc;q++) CHECKM(vf_same(H(N+t,d+1+q),vf_cvalues[q][t]),"with its constraint values"); } }
// @entry c24_loop prop=C24 mode=real time=150 qtime=10000
// @bounds budgets of 1..3 (thorough 4) evaluations, 1..2 dimensions, 0..2 constraints of either type, every value the evaluations return in [-100,100], fixed random draws, constant surrogates
VF_HARNESS(c24_loop){
  vf_random_fixed=1; int d=vf_pick("d",1,2),nc=vf_pick("nc",0,2),k=vf_pick("budget",1,DEEP?4:(nc==2?2:3)); vec lb(d,-1.0),ub(d,3.0); vec y(2); y(0)=1; y(1)=2; bool gt[2]; double target[2]={0.5,-0.5}; for(int i=0;i<nc;i++) gt[i]=i==0; Optimizer O; Recorder R[3]; vf_values.clear(); vf_loop_constrained(O,R,d,nc,lb,ub,y,gt,target); for(int t=0;t<k;t++){ vf_values.push_back(vf_range("f",-100,100)); for(int q=0;q<nc;q++) vf_cvalues[q].push_back(vf_range("c",-100,100)); } mat H0=O.getHistory(); vf_budget(O,k); NOTHROW(O.performEfficientGlobalOptimizationOnlyWithFunctionalValues());
  CHECKM((int)vf_designs.size()==k,"the objective is evaluated exactly as often as the budget says"); for(int q=0;q<nc;q++){ CHECKM((int)vf_cdesigns[q].size()==k,"every constraint is evaluated once for every design"); for(int t=0;t<k;t++) for(int j=0;j<d;j++) CHECKM(vf_same(vf_cdesigns[q][t](j),vf_designs[t](j)),"constraints are evaluated for the design of the objective"); }
  rows(O.getHistory(),H0,2,k,d,nc); for(int q=0;q<=nc;q++){ CHECKM((int)R[q].samples.size()==k,"every evaluated design is added to the data of each surrogate model once"); for(int t=0;t<k;t++){ vec&s=R[q].samples[t]; CHECK((int)s.getSize()==d+1); for(int j=0;j<d;j++) CHECKM(vf_close(s(j),vf_designs[t](j),1e-9),"with its parameters"); CHECKM(vf_same(s(d),q==0?vf_values[t]:vf_cvalues[q-1][t]),"and its own value"); } }
  vf_reach("end");
}
// @entry c23_nan prop=C23 mode=real time=100 qtime=10000
// @bounds runs of 2 evaluations in one dimension with 0..2 constraints, one of the values returned NaN, every other value in [-100,100], fixed random draws, constant surrogates
VF_HARNESS(c23_nan){
  vf_random_fixed=1; int d=1,nc=vf_pick("nc",0,2),k=2; int when=vf_pick("when",0,1),which=vf_pick("which",0,nc); vec lb(d,-1.0),ub(d,3.0); vec y(2); y(0)=1; y(1)=2; bool gt[2]={true,false}; double target[2]={0.5,-0.5}; Optimizer O; Recorder R[3]; vf_values.clear(); vf_loop_constrained(O,R,d,nc,lb,ub,y,gt,target); double nan=std::numeric_limits<double>::quiet_NaN(); for(int t=0;t<k;t++){ vf_values.push_back(t==when&&which==0?nan:vf_range("f",-100,100)); for(int q=0;q<nc;q++) vf_cvalues[q].push_back(t==when&&which==q+1?nan:vf_range("c",-100,100)); } mat H0=O.getHistory(); vf_budget(O,k); THROWS(O.performEfficientGlobalOptimizationOnlyWithFunctionalValues()); CHECKM((int)vf_designs.size()==when+1,"the optimization stops at the failed evaluation"); rows(O.getHistory(),H0,2,when,d,nc); for(int q=0;q<=nc;q++) CHECKM((int)R[q].samples.size()==when,"the failed evaluation is not added to the data"); vf_reach("end");
}
// @entry c24_whole prop=C24 mode=real time=150 qtime=10000
// @bounds complete run with Kriging models: budget 1 (thorough 2), 1..2 dimensions, 0..1 constraint, concrete values for all evaluations but the last, whose values are any in [-100,100], fixed random draws
VF_HARNESS(c24_whole){
  vf_random_fixed=1; int d=vf_pick("d",1,2),nc=vf_pick("nc",0,1),k=DEEP&&d==1?2:1; vf_dim=d; vf_calls=0; vf_designs.clear(); vf_values.clear(); vf_cvalues.assign(nc,{}); vf_cdesigns.assign(nc,{}); vec lb(d,-1.0),ub(d,3.0); static const double P[3][2]={{0.125,0.3125},{0.75,0.0625},{0.4375,0.875}}; mat M[2]; for(int q=0;q<=nc;q++){ mat m(3,d+1); for(int i=0;i<3;i++){ for(int j=0;j<d;j++) m(i,j)=-1+P[i][j]*4; m(i,d)=q==0?1.5*i*i-2:0.25-i; } M[q]=m; vf_write_file(q==0?"objective.csv":"constraint0.csv",csv(m)); } for(int t=0;t<k;t++){ vf_values.push_back(vf_range("f",-100,100)); for(int q=0;q<nc;q++) vf_cvalues[q].push_back(vf_range("c",-100,100)); }
  Bounds b(lb,ub); Optimizer O; bool gt[1]={true}; double target[1]={0.5}; static ObjectiveFunctionPtr cp[1]={vf_cevaluate<0>}; vf_study(O,d,b,nc,gt,target,(ObjectiveFunctionPtr)vf_evaluate,cp); O.setMaximumNumberOfInnerIterations(1); vf_untrain(O); O.setMaximumNumberOfIterations(k); NOTHROW(O.performEfficientGlobalOptimization()); CHECKM((int)vf_designs.size()==k,"the objective is evaluated exactly as often as the budget says"); for(int q=0;q<nc;q++) CHECKM((int)vf_cdesigns[q].size()==k,"every constraint is evaluated once for every design");
  mat H=O.getHistory(); mat H0(3,d+nc+3); for(int i=0;i<3;i++) for(unsigned j=0;j<H0.getNCols();j++) H0(i,j)=H(i,j); for(int i=0;i<3;i++) for(int j=0;j<d;j++) CHECKM(vf_close(H0(i,j),M[0](i,j),1e-9),"initial samples come first"); rows(H,H0,3,k,d,nc); for(int q=0;q<=nc;q++){ std::vector<std::string> L=vf_lines(vf_read_file(q==0?"objective.csv":"constraint0.csv")); CHECKM((int)L.size()==3+k,"every design is added to the training data once"); for(int t=0;t<k;t++){ std::vector<std::string> c=vf_split(L[3+t],','); CHECK((int)c.size()==d+1); for(int j=0;j<d;j++) CLOSE(std::stod(c[j]),vf_designs[t](j),1e-6); CLOSE(std::stod(c[d]),q==0?vf_values[t]:vf_cvalues[q-1][t],1e-6); } }
  CHECKM(vf_file_exists("globalOptimalDesign.xml"),"the run reports"); vf_reach("end");
}
// @entry c24_twice prop=C24 mode=real time=150 qtime=10000
// @bounds the same study run twice with Kriging models: budgets 1..2 and 1..2, one dimension, 0..1 constraint, concrete values for all evaluations but the last, whose values are any in [-100,100], fixed random draws
VF_HARNESS(c24_twice){
  vf_random_fixed=1; int d=1,nc=vf_pick("nc",0,1),k1=vf_pick("first",1,DEEP?2:1),k2=vf_pick("second",1,2),k=k1+k2; vf_dim=d; vf_calls=0; vf_designs.clear(); vf_values.clear(); vf_cvalues.assign(nc,{}); vf_cdesigns.assign(nc,{}); vec lb(d,-1.0),ub(d,3.0); static const double P[3]={0.125,0.75,0.4375}; for(int q=0;q<=nc;q++){ mat m(3,d+1); for(int i=0;i<3;i++){ m(i,0)=-1+P[i]*4; m(i,d)=q==0?1.5*i*i-2:0.25-i; } vf_write_file(q==0?"objective.csv":"constraint0.csv",csv(m)); } for(int t=0;t<k;t++){ bool last=t==k-1; vf_values.push_back(last?vf_range("f",-100,100):(t%2?0.75:-1.25)); for(int q=0;q<nc;q++) vf_cvalues[q].push_back(last?vf_range("c",-100,100):0.25*t); }
  Bounds b(lb,ub); Optimizer O; bool gt[1]={true}; double target[1]={0.5}; static ObjectiveFunctionPtr cp[1]={vf_cevaluate<0>}; vf_study(O,d,b,nc,gt,target,(ObjectiveFunctionPtr)vf_evaluate,cp); O.setMaximumNumberOfInnerIterations(1); vf_untrain(O); O.setMaximumNumberOfIterations(k1); NOTHROW(O.performEfficientGlobalOptimization()); CHECKM((int)vf_designs.size()==k1,"the first run spends its budget"); mat H1=O.getHistory(); O.setMaximumNumberOfIterations(k2); NOTHROW(O.performEfficientGlobalOptimization()); CHECKM((int)vf_designs.size()==k,"a second run of the study spends its whole budget again"); for(int q=0;q<nc;q++) CHECKM((int)vf_cdesigns[q].size()==k,"and evaluates every constraint once for every design");
  mat H=O.getHistory(); CHECKM((int)H.getNRows()==3+k,"the designs of the first run are the initial samples of the second"); for(int t=0;t<k;t++){ for(int j=0;j<d;j++) CHECKM(vf_close(H(3+t,j),vf_designs[t](j),1e-6),"every design is recorded once"); CHECKM(vf_close(H(3+t,d),vf_values[t],1e-9),"with its objective value"); for(int q=0;q<nc;q++) CHECKM(vf_close(H(3+t,d+1+q),vf_cvalues[q][t],1e-9),"with its constraint values"); } vf_reach("end");
}
