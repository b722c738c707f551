// C25: settings of internal optimizers and of surrogate model tests
#include "data.h"
#include "InternalOptimizers/INCLUDE/ea_optimizer.hpp"
#include "SurrogateModels/INCLUDE/surrogate_model_tester.hpp"
static int count; static double counted(double*x){ return 3.0+x[0]+0.125*(++count%3); }
// @entry c25_ea prop=C25 mode=real time=150
// @bounds evolutionary optimizer of 0..2 parameters: initial population 0..3, new individuals 0..2, deaths 0..4, generations 0..3 and evaluations 1..6 set in any combination, bounds set or not; consistent ones: populations of at least two individuals before and after every generation
VF_HARNESS(c25_ea){
  vf_random_fixed=1; int n0=vf_pick("initial",0,3),nn=vf_pick("new",0,2),nd=vf_pick("deaths",0,4),g=vf_pick("generations",0,3),mx=vf_pick("evaluations",1,6); int d=1; bool bounds=true; if(n0==2&&nn==2&&nd==1){ d=vf_pick("dimension",0,2); bounds=vf_flag("bounds"); } EAOptimizer O; count=0; bool refused=false;
  try{ if(d) O.setDimension(d); if(bounds) O.setBounds(-1.0,2.0); O.setMutationProbability(0.25); O.setInitialPopulationSize(n0); O.setNumberOfNewIndividualsInAGeneration(nn); O.setNumberOfDeathsInAGeneration(nd); O.setNumberOfGenerations(g); O.setMaximumNumberOfGeneratedIndividuals(mx); O.setObjectiveFunction(counted); O.optimize(); }catch(std::exception&){ refused=true; }
  bool ok=n0>1&&nn>0&&g>0&&d>0&&bounds; int size=n0,made=n0; for(int i=0;ok&&i<g;i++){ size+=nn; made+=nn; size-=nd; if(size<2) ok=false; if(made>=mx) break; }
  if(ok){ CHECKM(!refused,"consistent settings are accepted"); CHECKM(count==made,"the optimization is completed"); vf_reach("completed"); } else { CHECKM(refused&&count==0,"inconsistent settings are refused before anything is evaluated"); vf_reach("refused"); }
}
// @entry c25_probability prop=C25 mode=fp time=60
// @bounds mutation probabilities and ratios of validation samples: all doubles
VF_HARNESS(c25_probability){
  double p=vf_double("p"); EAOptimizer O; bool t=vf_throws([&]{ O.setMutationProbability(p); }); CHECKM(t!=((p>0)&(p<1)),"mutation probabilities lie between 0 and 1"); SurrogateModelTester T; THROWS(T.setRatioValidationSamples(0.5)); T.setSurrogateModel(ORDINARY_KRIGING); T.bindSurrogateModels(); bool r=vf_throws([&]{ T.setRatioValidationSamples(p); }); CHECKM(r!=((p>=0)&(p<=1)),"ratios lie in [0,1]"); vf_reach("end");
}
// @entry c25_search prop=C25 mode=fp time=60
// @bounds bounds of internal optimizers: all doubles, 1..2 parameters, number, std::vector and vec variants, sizes 0..3 against dimension 1..2, bounds before the dimension
VF_HARNESS(c25_search){
  int d=vf_pick("d",0,2),v=vf_pick("variant",0,2); EAOptimizer O; if(d) O.setDimension(d); int n=v==0?d:vf_pick("size",0,3),m=v==0?d:vf_pick("size of upper",0,3); vf_assume(v==0||n==m||n==d||m==d); std::vector<double> l,u; for(int i=0;i<(v==0?1:n);i++) l.push_back(vf_double("lb")); for(int i=0;i<(v==0?1:m);i++) u.push_back(vf_double("ub")); bool ok=d>0&&n==d&&m==d; if(ok) for(size_t i=0;i<l.size();i++) ok=ok&(l[i]<u[i]);
  bool t=vf_throws([&]{ if(v==0) O.setBounds(l[0],u[0]); else if(v==1) O.setBounds(l,u); else { vec a(n),b(m); for(int i=0;i<n;i++) a(i)=l[i]; for(int i=0;i<m;i++) b(i)=u[i]; O.setBounds(a,b); } }); if(d==0&&v!=0&&n==0&&m==0) return; CHECKM(t!=ok,"bounds need the size of the problem and an order"); CHECK(O.areBoundsSet()==ok); vf_reach("end");
}
// @entry c25_tester prop=C25 mode=real time=60
// @bounds surrogate model tests of 1..2 parameters with one of model, binding, name, dimension, bounds, training file, test file missing; file names without or with another extension, with separators; empty names and zero budgets of internal optimizers
VF_HARNESS(c25_tester){
  int w=vf_pick("wrong",-1,6),d=vf_pick("d",1,2); SurrogateModelTester T; mat m(4,d+1),q(2,d+1); for(int i=0;i<4;i++) for(int j=0;j<=d;j++) m(i,j)=0.5*i*i-0.25*j*i; for(int i=0;i<2;i++) for(int j=0;j<=d;j++) q(i,j)=1.125+0.5*i*i-0.25*j; vf_write_file("train.csv",csv(m)); vf_write_file("test.csv",csv(q)); bool refused=false;
  try{ if(w!=0) T.setName("model"); if(w!=1) T.setDimension(d); if(w!=2) T.setSurrogateModel(LINEAR_REGRESSION); if(w!=3&&w!=2) T.bindSurrogateModels(); if(w!=4) T.setBoxConstraints(Bounds(vec(d,-10.0),vec(d,10.0))); if(w!=5) T.setFileNameTrainingData("train.csv"); if(w!=6) T.setFileNameTestData("test.csv"); T.setNumberOfTrainingIterations(1); T.performSurrogateModelTest(); }catch(std::exception&){ refused=true; }
  CHECKM(refused==(w>=0),w>=0?"incomplete settings are refused":"complete settings are accepted"); SurrogateModelTester S; THROWS(S.bindSurrogateModels()); THROWS(S.setFileNameTrainingData("")); THROWS(S.setFileNameTestData("test")); THROWS(S.setFileNameTrainingData("a/b.csv")); THROWS(S.setFileNameTestData("test.txt")); THROWS(S.setBoxConstraints(Bounds())); EAOptimizer O; THROWS(O.setMaxNumberOfFunctionEvaluations(0)); THROWS(O.setProblemName("")); THROWS(O.setFilenameOptimizationHistory("")); THROWS(O.setFilenameWarmStart("")); THROWS(O.setFilenameOptimizationResult("")); THROWS(O.setObjectiveFunction(nullptr)); vf_reach("end");
}
