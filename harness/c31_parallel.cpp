// C31: parallel loops of the candidate search and of the training
#include "loop.h"
static int vf_count; static double vf_deviation[16],vf_at[16]; static double vf_lowest;
static void vf_arbitrary(const vec&x,double*f,double*s2){ int c=vf_count++; double s=vf_range("sigma",0.5,2); if(c<16){ vf_deviation[c]=s; vf_at[c]=x(0); } *f=vf_lowest; *s2=s*s; }
static double vf_chance[16]; static int vf_chances;
static void vf_uncertain(const vec&,double*f,double*s2){ int c=vf_chances++; double v=vf_flag("likely")?-1:1; if(c<16) vf_chance[c]=v; *f=v; *s2=1; }
static void search(int T,int inner,int nc){
  vec lb(1),ub(1); lb(0)=-2; ub(0)=6; Bounds b(lb,ub); Optimizer O; bool gt[1]={false}; double t[1]={0}; vf_dim=1; vf_values.assign(1,1.0); vf_study(O,1,b,nc,gt,t,vf_evaluate); Havoc H,K; H.answer=vf_arbitrary; K.answer=vf_uncertain; O.setMaximumNumberOfInnerIterations(inner); O.setNumberOfThreads(T); O.objFun.surrogate=&H; if(nc) O.constraintFunctions[0].surrogate=&K; O.ifSurrogatesAreInitialized=true; O.initializeOptimizerSettings(); vec c(1); c(0)=0.5; O.globalOptimalDesign.designParametersNormalized=c; O.globalOptimalDesign.trueValue=1; O.globalOptimalDesign.isDesignFeasible=true; O.trLength=0.5; vf_lowest=1; vf_count=vf_chances=0;
  vf_set_threads(T); O.findTheMostPromisingDesignEGO(); vf_set_threads(1);
  CHECKM(O.theMostPromisingDesigns.size()==1,"the search returns one design"); DesignForBayesianOptimization D=O.theMostPromisingDesigns.front(); CHECKM(vf_count==2*inner,"every start is tried once"); double best=0;
  bool own=false,ok=false; for(int j=0;j<2*inner;j++){ bool is=(D.dv(0)==vf_at[j])&(vf_absd(D.sigma-vf_deviation[j])<=1e-9),beats=true; own=own|is; if(nc) for(int k=0;k<2*inner;k++) beats=beats&!((vf_deviation[k]>D.sigma+1e-9)&(vf_chance[k]<=vf_chance[j])); ok=ok|(is&beats); }
  if(nc) CHECKM(ok,"no start which meets the constraint as likely has a larger deviation than the design returned");
  if(!nc) for(int k=0;k<2*inner;k++) CHECKM(D.sigma>=vf_deviation[k]-1e-9,"no start has a larger acquisition value than the design returned");
  CHECKM(D.valueAcquisitionFunction>0,"the design found has a positive acquisition value"); CHECKM(own,"the design returned and its predictions belong to the same start"); (void)best; vf_reach("end");
}
// @entry c31_search prop=C31 mode=real time=120 qtime=10000
// @bounds 2 threads, 1 start in the design space and 1 around the best design per thread (thorough 2), every random draw, every predicted deviation in [0.5,2] at the starts (so every order of their acquisition values), every interleaving of the critical sections; accesses to shared memory are checked for locks
VF_HARNESS(c31_search){ search(2,DEEP?4:2,0); }
// @entry c31_three prop=C31 mode=real time=120 qtime=10000
// @bounds as c31_search, 3 threads with one start each
VF_HARNESS(c31_three){ search(3,3,0); }
// @entry c31_constrained prop=C31 mode=real time=120 qtime=10000
// @bounds as c31_search with one constraint, whose prediction is clearly met or clearly missed at each start
VF_HARNESS(c31_constrained){ search(2,2,1); }
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
extern "C" unsigned vf_fraction_k;
static KrigingModel trained(int T,int N,double validation=0){ KrigingModel K; K.setDimension(1); if(validation>0) K.setRatioValidationSamples(validation); K.setNameOfInputFile("train.csv"); vec lb(1,0.0),ub(1,4.0); K.setBoxConstraints(Bounds(lb,ub)); K.readData(); K.normalizeData(); K.setEpsilon(0.01); K.setWriteWarmStartFileFlag(false); K.initializeSurrogateModel(); K.setNumberOfTrainingIterations(N); K.setNumberOfThreads(T); vf_set_threads(T); K.train(); vf_set_threads(1); CHECKM((int)K.numberOfTrainingIterations==N,"training leaves the number of training iterations as it has been set"); return K; }
static void training(int T){
  vf_random_fixed=1; mat raw(2,2); raw(0,0)=0; raw(0,1)=1; raw(1,0)=3; raw(1,1)=-2; vf_write_file("train.csv",csv(raw)); double best=-1e300; vf_fraction_k=0;
  for(int k=0;k<T;k++){ KrigingModel K=trained(1,1); double l=K.calculateLikelihoodFunction(K.getHyperParameters()); vf_observe("alone",l); if(l>best) best=l; }
  vf_fraction_k=0; KrigingModel K=trained(T,T); CHECK(K.getHyperParameters().getSize()==2); double l=K.calculateLikelihoodFunction(K.getHyperParameters()); vf_observe("together",l); CHECKM(l>=best-1e-9,"training with several threads finds the best of the solutions of the threads"); vf_reach("end");
}
// @entry c31_training prop=C31 mode=real time=200 qtime=10000
// @bounds Kriging model of 2 samples of one parameter (fixed values), 2 threads, fixed draws, one generation per thread, every interleaving of the critical sections; accesses to shared memory are checked for locks; reference: the same draws in one-thread training
VF_HARNESS(c31_training){ training(2); }
// @entry c31_constant prop=C31,C17 mode=real time=120 qtime=10000
// @bounds Kriging model of 1..2 (thorough 3) samples of one parameter which all have the same output, one of 3 values, 1..2 threads, with and without a held back validation sample, fixed draws, one generation per thread, predictions at every point
VF_HARNESS(c31_constant){
  vf_random_fixed=1; int n=vf_pick("n",1,DEEP?3:2),T=vf_pick("threads",1,2); static const double Y[3]={0,5,0.1}; double y=Y[vf_pick("y",0,2)]; bool split=n>1&&vf_flag("validation"); mat raw(n,2); static const double P[3]={0,3,1}; for(int i=0;i<n;i++){ raw(i,0)=P[i]; raw(i,1)=y; } vf_write_file("train.csv",csv(raw)); vf_fraction_k=0; KrigingModel K=trained(T,1,split?0.5:0); vec h=K.getHyperParameters(); CHECKM(h.getSize()==2,"training yields a value for every hyperparameter"); CHECKM((h(0)>=0)&(h(0)<=20)&(h(1)>=1)&(h(1)<=2),"hyperparameters lie in their ranges"); vec x(1); x(0)=vf_range("p",0,1); CHECKM(vf_close(K.interpolate(x),y,1e-6),"a model of equal samples predicts their value"); vf_reach("end");
}
// gradient-based refinement of the candidate found: the objective surrogate predicts the best value with a deviation as said below, so that the acquisition value is proportional to the deviation
struct Tried { double x,s; double chance; }; static std::vector<Tried> vf_tried; static int vf_free;
static void vf_track(const vec&x,double*f,double*s2){ double s=vf_free>0?vf_range("sigma",0.5,2):0.25; vf_free--; vf_tried.push_back({x(0),s,0}); *f=1; *s2=s*s; }
static void vf_likely(const vec&,double*f,double*s2){ double v=vf_free>=0&&vf_flag("likely")?-1:1; if(!vf_tried.empty()) vf_tried.back().chance=v; *f=v; *s2=1; }
static void refine(int nc,int steps,int freeOnes){
  vec lb(1),ub(1); lb(0)=-2; ub(0)=6; Bounds b(lb,ub); Optimizer O; bool gt[1]={false}; double t[1]={0}; vf_dim=1; vf_values.assign(1,1.0); vf_study(O,1,b,nc,gt,t,vf_evaluate); Havoc H,K; H.answer=vf_track; K.answer=vf_likely; O.objFun.surrogate=&H; if(nc) O.constraintFunctions[0].surrogate=&K; O.ifSurrogatesAreInitialized=true; O.initializeOptimizerSettings(); O.iterGradientEILoop=(unsigned)steps; O.objFun.setFeasibleMinimum(1); vf_tried.clear(); vf_free=freeOnes;
  DesignForBayesianOptimization D0(1,nc); static const double X[3]={0,0.5,1}; D0.dv(0)=X[vf_pick("at",0,2)]; DesignForBayesianOptimization D=O.maximizeAcqusitionFunctionGradientBased(D0); CHECKM((D.dv(0)>=0)&(D.dv(0)<=1),"the refined candidate stays in the design space"); Tried first=vf_tried[0]; CHECK(first.x==D0.dv(0)); bool stays=D.dv(0)==D0.dv(0),better=false; for(size_t i=1;i<vf_tried.size();i++){ Tried&q=vf_tried[i]; bool worse=nc?((q.s<=first.s)&(q.chance>=first.chance)):(q.s<=first.s); better=better|((q.x==D.dv(0))&!worse); }
  CHECKM(stays|better,"refinement does not give up a candidate for one with a smaller acquisition value"); vf_reach("end");
}
// @entry c31_refine prop=C31 mode=real time=150 qtime=10000
// @bounds gradient-based refinement of up to 2 steps (thorough 3), from the middle or an end of the range of one parameter, every predicted deviation in [0.5,2] at the first 5 (thorough 8) points evaluated (a step evaluates two for the gradient and those of its line search) and a small one at the others
VF_HARNESS(c31_refine){ refine(0,vf_pick("steps",1,DEEP?3:2),DEEP?8:5); }
// @entry c31_refine_constrained prop=C31 mode=real time=150 qtime=10000
// @bounds as c31_refine with one constraint, whose prediction is clearly met or clearly missed at each point, one step
VF_HARNESS(c31_refine_constrained){ refine(1,1,DEEP?5:4); }
