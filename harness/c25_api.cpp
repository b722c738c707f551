// C25: settings of studies that are set up with the programming interface
#include "havoc.h"
#include "API/INCLUDE/rodeo.h"
struct Stop{};
static int calls,limit; static double value(const double*x){ double s=0; for(int i=0;i<2;i++) s+=(i+1)*x[i]*x[i]-x[i]; return s; }
static double evaluated(const double*x){ if(++calls>limit) throw Stop(); return value(x); }
enum { REFUSED, STARTED, FINISHED };
static int go(RobustDesignOptimizer&R,int lim){ calls=0; limit=lim; try{ R.run(); }catch(Stop&){ return STARTED; }catch(std::exception&){ return REFUSED; } return FINISHED; }
static double low[2]={-1,0.5},high[2]={2,0.75};
// @entry c25_api prop=C25 mode=real time=100
// @bounds every order of setting dimension, objective, constraint and bounds, every subset of them left out, constraint optional; designs of experiments of two samples
VF_HARNESS(c25_api){
  vf_random_fixed=1; bool used[4]={false,false,false,false}; RobustDesignOptimizer R; R.setName("study"); R.setCurrentWorkingDirectory("."); R.setDoEOn(2); R.setMaxNumberOfFunctionEvaluations(1); bool refused=false,late=false; int n=vf_pick("steps",0,4);
  for(int s=0;s<n;s++){ int k=vf_pick("setting",0,3); vf_assume(!used[k]); used[k]=true; if(k!=0&&!used[0]) late=true; try{ switch(k){ case 0: R.setDimension(2); break; case 1: R.setObjectiveFunction(evaluated,"objective","obj.csv"); break; case 2: R.addConstraint(evaluated,"con > -5","con.csv"); break; default: R.setBoxConstraints(low,high); } }catch(std::exception&){ refused=true; CHECKM(late,"complete and consistent settings are accepted"); } }
  bool complete=used[0]&used[1]&used[3]; if(refused){ vf_reach("refused by the setting"); return; } int r=go(R,0); if(!complete){ CHECKM(r==REFUSED&&calls==0,"incomplete settings are refused before anything is evaluated"); vf_reach("refused"); return; } if(late){ CHECKM(r!=FINISHED,"late dimension"); return; } CHECKM(r==STARTED,"complete settings are accepted"); vf_reach("started");
}
// @entry c25_mandatory prop=C25 mode=real time=100
// @bounds each of name, working directory, number of evaluations, number of samples, bounds and objective missing or invalid; two parameters, 0..1 constraint; the run is followed into its first evaluation after the design of experiments
VF_HARNESS(c25_mandatory){
  vf_random_fixed=1; RobustDesignOptimizer R; int nc=vf_pick("nc",0,1); int miss=vf_pick("missing",-1,7); bool thrown=false; auto tryit=[&](auto f){ try{ f(); return true; }catch(std::exception&){ thrown=true; return false; } };
  if(miss==0) CHECKM(!tryit([&]{ R.setName(""); }),"a name is needed"); else R.setName("study"); if(miss!=1) R.setCurrentWorkingDirectory("."); R.setDimension(2); if(miss!=2) R.setObjectiveFunction(evaluated,"objective","obj.csv"); if(nc) R.addConstraint(evaluated,"con < 100","con.csv"); if(miss!=3) R.setBoxConstraints(low,high); if(miss==4) R.setDoEOn(0); else R.setDoEOn(3); if(miss!=5) R.setMaxNumberOfFunctionEvaluations(2); if(miss==6) R.setMaxNumberOfFunctionEvaluations(0); if(miss==7) CHECKM(!tryit([&]{ R.setDoEStrategy("sobol"); }),"unknown strategies are refused");
  R.optimizer.setMaximumNumberOfInnerIterations(1); vf_untrain(R.optimizer); int lim=3+3*nc; int r=go(R,lim); if(miss>=1&&miss<=6){ CHECKM(r==REFUSED&&calls==0,"incomplete settings are refused before anything is evaluated"); vf_reach("refused"); } else { CHECKM(r==STARTED&&calls==lim+1,"complete settings are accepted"); vf_reach("started"); }
}
// @entry c25_arguments prop=C25 mode=real time=60
// @bounds empty names, null functions, empty file names, missing and invalid directories, zero dimension, changed dimension, repeated constraint names, unusable constraint expressions, strategies in any case; 1..2 parameters
VF_HARNESS(c25_arguments){
  RobustDesignOptimizer R; int k=vf_pick("case",0,19); bool ok=false; ObjectiveFunctionPtr f=evaluated; auto acc=[&](auto g){ try{ g(); return true; }catch(std::exception&){ return false; } }; bool a=false; if(k>=6) R.setDimension(2);
  switch(k){ case 0: a=acc([&]{ R.setDimension(0); }); break; case 1: a=acc([&]{ R.setCurrentWorkingDirectory(""); }); break; case 2: a=acc([&]{ R.setCurrentWorkingDirectory("nowhere"); }); break; case 3: a=acc([&]{ R.setDoEStrategy(""); }); break; case 4: a=acc([&]{ R.setDoEStrategy(vf_flag("lhs")?"lHs":"RANDOM"); }); ok=true; break; case 5: a=acc([&]{ R.setNameOfTrainingDataFile(""); }); break;
  case 6: a=acc([&]{ R.setObjectiveFunction(nullptr,"f","f.csv"); }); break; case 7: a=acc([&]{ R.setObjectiveFunction(f,"","f.csv"); }); break; case 8: a=acc([&]{ R.setObjectiveFunction(f,"f",""); }); break; case 9: a=acc([&]{ R.addConstraint(nullptr,"c > 0","c.csv"); }); break; case 10: a=acc([&]{ R.addConstraint(f,"","c.csv"); }); break; case 11: a=acc([&]{ R.addConstraint(f,"c > 0",""); }); break;
  case 12: R.addConstraint(f,"c > 0","c.csv"); a=acc([&]{ R.addConstraint(f,"c < 3","d.csv"); }); break; case 13: R.addConstraint(f,"c > 0","c.csv"); a=acc([&]{ R.addConstraint(f,"d < 3","d.csv"); }); ok=true; break; case 14: R.setBoxConstraints(low,high); a=acc([&]{ R.setDimension(1); }); break; case 15: R.setObjectiveFunction(f,"f","f.csv"); a=acc([&]{ R.setDimension(3); }); break; case 16: R.addConstraint(f,"c > 0","c.csv"); a=acc([&]{ R.setDimension(1); }); break; case 17: R.setBoxConstraints(low,high); a=acc([&]{ R.setDimension(2); }); ok=true; break; case 18: a=acc([&]{ R.setDimension(3); }); ok=true; break; default: a=acc([&]{ R.addConstraint(f,"c = 0","c.csv"); }); }
  CHECKM(a==ok,ok?"consistent settings are accepted":"inconsistent settings are refused"); vf_reach("end");
}
// @entry c25_bounds prop=C25 mode=fp time=60
// @bounds every pair of bounds (all doubles including NaN and infinities) for 1..2 parameters, set once or after other bounds; the last accepted bounds are those of the design of experiments
VF_HARNESS(c25_bounds){
  int d=vf_pick("d",1,2); RobustDesignOptimizer R; R.setDimension(d); bool again=vf_flag("again"),fun=vf_flag("function first"); if(fun) R.setObjectiveFunction(evaluated,"f","f.csv"); if(again) R.setBoxConstraints(low,high); double l[2],u[2]; bool ok=true; for(int i=0;i<d;i++){ l[i]=vf_double("lb"); u[i]=vf_double("ub"); ok=ok&(l[i]<u[i]); }
  bool t=vf_throws([&]{ R.setBoxConstraints(l,u); }); CHECKM(t!=ok,"bounds are accepted if each lower bound lies below its upper bound"); bool after=!t; double*pl=after?l:low,*pu=after?u:high; if(after||again){ CHECK((int)R.lowerBounds.size()==d&&(int)R.upperBounds.size()==d); for(int i=0;i<d;i++) CHECKM(vf_same(R.lowerBounds[i],pl[i])&vf_same(R.upperBounds[i],pu[i]),"the bounds in effect are the last accepted ones"); } vf_reach("end");
}
