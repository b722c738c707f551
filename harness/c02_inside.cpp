// C02: designs handed to evaluation lie in the box, whatever surrogates and random numbers are
#include "loop.h"
static int calls,accept,maxfree,inner2; static double minimum; static bool symbolic,brief;
static void anything(const vec&,double*f,double*s2){ *f=minimum; int c=calls++; double s; if(c<maxfree&&symbolic) s=vf_range("sigma",0,3); else if(c<inner2) s=vf_flag("larger")?2.0:1.0; else if(c==inner2) s=1.0; else if(c<maxfree){ static const double S[5]={0,1e-9,1,-1e-9,-1}; s=(c-inner2)%2==0?1.0:1.0+S[brief?2*vf_pick("slope",0,2):vf_pick("slope",0,4)]; } else { s=c-maxfree>=accept?4.0+c:0.0; } *s2=s*s; }
static void zero(const vec&,double*f,double*s2){ *f=0; *s2=1; }
static void candidate(int d,bool sym){ symbolic=sym; brief=!DEEP&&d>1;
  int inner=DEEP?vf_pick("inner",1,2):1; static const double BL[3][3]={{0,-1,5},{-100,0.3,2},{0.7,-3,-8}},BW[3][3]={{1,4,0.5},{200,0.01,1},{1e-3,7,64}}; int bx=brief||(sym&&!DEEP)?d%2:vf_pick("box",0,DEEP?2:1); vec lb(d),ub(d); for(int i=0;i<d;i++){ lb(i)=BL[bx][i]; ub(i)=lb(i)+BW[bx][i]; } Bounds b(lb,ub); Optimizer O; bool gt[1]; double t[1]; vf_dim=d; vf_values.assign(1,1.0); vf_study(O,d,b,0,gt,t,vf_evaluate); if(!brief&&vf_flag("discrete")) O.setParameterToDiscrete(d-1,(ub(d-1)-lb(d-1))/1.5); Havoc H; H.answer=anything; minimum=vf_range("minimum",-10,10); calls=0; inner2=2*inner; maxfree=2*inner+1+2*d; accept=brief||sym?0:vf_pick("halvings",0,1); O.setMaximumNumberOfInnerIterations(inner); O.objFun.surrogate=&H; O.ifSurrogatesAreInitialized=true; O.initializeOptimizerSettings(); O.iterGradientEILoop=1; vec c(d),x0(d); for(int i=0;i<d;i++){ c(i)=vf_range("c",0,1); vf_assume(c(i)<=1.0/d); } O.globalOptimalDesign.designParametersNormalized=c; O.globalOptimalDesign.trueValue=minimum; O.globalOptimalDesign.isDesignFeasible=true; O.trLength=vf_range("L",0.001,1);
  O.findTheMostPromisingDesignToBeSimulated(); O.objFun.evaluateDesign(O.currentBestDesign); CHECK(vf_designs.size()==1); vec x=vf_designs[0]; for(int i=0;i<d;i++) CHECKM(x(i)>=lb(i)-1e-6&&x(i)<=ub(i)+1e-6,"the evaluated design lies in the box"); vf_reach("end");
}
// @entry c02_candidate prop=C02 mode=real time=150 qtime=10000
// @bounds 1..2 parameters, boxes with bounds of different sizes (2, thorough 3), best design at an arbitrary place of the box, every trust region length in [0.001,1], every random draw, 1 (thorough 2) candidates per search, every order of their acquisition values, zero, small or large slope of the acquisition function in each parameter, line search accepting the first or second step; last parameter discrete or not; in the quick tier two parameters come with one box, no discrete parameter and slopes 0 and +-1
VF_HARNESS(c02_candidate){ candidate(vf_pick("d",1,2),false); }
// @entry c02_deviation prop=C02 mode=real time=150 qtime=10000
// @bounds as c02_candidate for one parameter, with one box in the quick tier and arbitrary predicted deviations in [0,3] at the candidates and around them
VF_HARNESS(c02_deviation){ candidate(1,true); }
// @entry c02_perturb prop=C02,C30 mode=real time=100 qtime=10000
// @bounds 1..3 parameters, every sample inside every sub-box of [0,1], perturbation factors 0.01 and 0.5, every random draw; gradient updates with every gradient and step size
VF_HARNESS(c02_perturb){
  int d=vf_pick("d",1,3); vec lo(d),hi(d),c(d),g(d); for(int i=0;i<d;i++){ lo(i)=vf_range("lo",0,1); hi(i)=vf_range("hi",0,1); c(i)=vf_range("c",0,1); vf_assume(lo(i)<hi(i)); vf_assume(lo(i)<=c(i)); vf_assume(c(i)<=hi(i)); g(i)=vf_range("g",-1000,1000); } DesignForBayesianOptimization D(d,0); if(vf_flag("gradient")){ D.dv=c; D.gradientUpdateDesignVector(g,lo,hi,vf_range("step",0,1)); } else if(vf_flag("around")) D.generateRandomDesignVectorAroundASample(c,lo,hi,vf_flag("wide")?0.5:0.01); else D.generateRandomDesignVector(lo,hi); CHECK(D.dv.getSize()==(unsigned)d); for(int i=0;i<d;i++) CHECKM(D.dv(i)>=lo(i)&&D.dv(i)<=hi(i),"candidates stay between the given bounds"); vf_reach("end");
}
