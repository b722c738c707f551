// C11: bookkeeping of the evolutionary optimizer's population
#include "ea.h"
// @entry c11_ops prop=C11,C10 mode=real time=120 qtime=10000
// @bounds every sequence of 4 (thorough 5) operations (add, add a group of two, remove by identifier, remove by position, empty), at most 4 individuals, every objective value in [-1000,1000]
VF_HARNESS(c11_ops){
  EAPopulation P; P.setDimension(2); std::vector<unsigned> id; std::vector<double> J; unsigned next=1; int ops=DEEP?5:4;
  for(int k=0;k<ops;k++){ int op=vf_pick("op",0,4); if(op==0){ vf_assume(id.size()<4); double v=vf_range("J",-1000,1000); P.addIndividual(vf_individual(2,next,v)); id.push_back(next); J.push_back(v); next++; }
    else if(op==1){ vf_assume(id.size()<3); std::vector<EAIndividual> g; for(int q=0;q<2;q++){ double v=vf_range("J",-1000,1000); g.push_back(vf_individual(2,next,v)); id.push_back(next); J.push_back(v); next++; } P.addAGroupOfIndividuals(g); }
    else if(op==4){ P.reset(); id.clear(); J.clear(); }
    else { vf_assume(!id.empty()); int q=vf_pick("which",0,(int)id.size()-1); if(op==2) P.removeIndividualById(id[q]); else P.removeIndividual(q); id.erase(id.begin()+q); J.erase(J.begin()+q); }
    CHECK(P.getSize()==id.size()); CHECK(!P.hasRepeatedIDs()); for(size_t i=0;i<id.size();i++){ CHECKM(P.getIdOftheIndividual((unsigned)i)==id[i],"exactly the individual named is removed"); CHECKM(vf_same(P.getIndividual(id[i]).getObjectiveFunctionValue(),J[i]),"individuals keep their values"); CHECKM(vf_same(P.getIndividual(id[i]).getGenes()(1),id[i]+0.125),"and their genes"); }
    if(!id.empty()){ double mn=J[0],mx=J[0]; for(double v:J){ mn=vf_min(mn,v); mx=vf_max(mx,v); } EAIndividual b=P.getTheBestIndividual(),w=P.getTheWorstIndividual(); CHECKM(vf_same(b.getObjectiveFunctionValue(),mn),"the best individual has the smallest objective value"); CHECKM(vf_same(w.getObjectiveFunctionValue(),mx),"the worst individual has the largest objective value"); }
  }
  vf_reach("end");
}
static void properties(EAPopulation&P,const std::vector<double>&J){
  int n=(int)J.size(); NOTHROW(P.updatePopulationProperties()); double sr=0,sd=0; std::vector<double> f,r,dp; for(int i=0;i<n;i++){ EAIndividual I=P.getIndividual(i+1); f.push_back(I.getFitnessValue()); r.push_back(I.getReproductionProbability()); dp.push_back(I.getDeathProbability()); sr+=r[i]; sd+=dp[i]; }
  for(int i=0;i<n;i++){ CHECKM(f[i]>0&&f[i]<=1.0+1e-9,"fitness lies in (0,1]"); CHECKM((r[i]>0)&(r[i]<1),"reproduction probabilities are positive"); CHECKM((dp[i]>=0)&(dp[i]<=1),"death probabilities lie in [0,1]"); for(int j=0;j<n;j++){ bool better=J[i]<J[j]; CHECKM((!better)|(f[i]>=f[j]),"better individuals are at least as fit"); CHECKM((!better)|(r[i]>=r[j]),"and reproduce at least as likely"); CHECKM((!better)|(dp[i]<=dp[j]),"and die at most as likely"); } }
  CHECKM(vf_close(sr,1,1e-9),"reproduction probabilities sum to one"); CHECKM(vf_close(sd,1,1e-9),"death probabilities sum to one");
  for(int i=0;i<n;i++){ bool unique=true; for(int j=0;j<n;j++) if(j!=i) unique=unique&(J[i]<J[j]); CHECKM((!unique|(dp[i]==0)),"the best individual does not die"); }
}
// @entry c11_fitness prop=C11 mode=real time=120 qtime=15000
// @bounds populations of 2..3 (thorough 4) individuals with every combination of objective values in [-1000,1000] (equal values and all zero included)
VF_HARNESS(c11_fitness){
  int n=vf_pick("n",2,DEEP?4:3); EAPopulation P; P.setDimension(1); std::vector<double> J; for(int i=0;i<n;i++){ double v=vf_range("J",-1000,1000); J.push_back(v); P.addIndividual(vf_individual(1,i+1,v)); } properties(P,J); vf_reach("end");
}
// @entry c11_nearly prop=C11 mode=fp time=120 qtime=15000
// @bounds populations of 2 individuals with adjacent or equal doubles as objective values of 8 magnitudes, in any order
VF_HARNESS(c11_nearly){
  static const double V[8]={1,-1,1e6,-1e6,1e-3,123456.789,-1e10,3e-7}; int k=vf_pick("value",0,7),w=vf_pick("which",0,2); EAPopulation P; P.setDimension(1); std::vector<double> J; for(int i=0;i<2;i++){ double v=V[k]; if(i==w){ long b; __builtin_memcpy(&b,&v,8); b++; __builtin_memcpy(&v,&b,8); } J.push_back(v); P.addIndividual(vf_individual(1,i+1,v)); } NOTHROW(P.updatePopulationProperties()); for(int i=0;i<2;i++){ EAIndividual I=P.getIndividual(i+1); CHECK(I.getFitnessValue()>0&&I.getFitnessValue()<=1); CHECK(I.getReproductionProbability()>0&&I.getReproductionProbability()<1); CHECK(I.getDeathProbability()>=0&&I.getDeathProbability()<=1); } vf_reach("end");
}
// @entry c11_probabilities prop=C11 mode=real time=120 qtime=15000
// @bounds populations of 2..3 (thorough 4) individuals with every combination of fitness values in [0.01,1]
VF_HARNESS(c11_probabilities){
  int n=vf_pick("n",2,DEEP?4:3); EAPopulation P; P.setDimension(1); std::vector<double> f; for(int i=0;i<n;i++){ EAIndividual I=vf_individual(1,i+1,i); double v=vf_range("fitness",0.01,1); f.push_back(v); I.setFitnessValue(v); P.addIndividual(I); } P.updateReproductionProbabilities(); P.updateDeathProbabilities(); double sr=0,sd=0; std::vector<double> r,dp; for(int i=0;i<n;i++){ EAIndividual I=P.getIndividual(i+1); r.push_back(I.getReproductionProbability()); dp.push_back(I.getDeathProbability()); sr+=r[i]; sd+=dp[i]; }
  for(int i=0;i<n;i++){ CHECKM(r[i]>0&&r[i]<1,"reproduction probabilities are positive"); CHECKM(dp[i]>=0&&dp[i]<=1,"death probabilities lie in [0,1]"); for(int j=0;j<n;j++){ CHECKM(!(f[i]>=f[j])||r[i]>=r[j]-1e-9,"fitter individuals reproduce at least as likely"); CHECKM(!(f[i]>f[j])||dp[i]<=dp[j]+1e-9,"and die at most as likely"); } bool unique=true; for(int j=0;j<n;j++) if(j!=i) unique=unique&(f[i]>f[j]); CHECKM(!unique||dp[i]==0,"the fittest individual does not die"); }
  CHECKM(vf_close(sr,1,1e-9),"reproduction probabilities sum to one"); CHECKM(vf_close(sd,1,1e-9),"death probabilities sum to one"); vf_reach("end");
}
// @entry c11_restart prop=C11 mode=real time=60 qtime=10000
// @bounds restart file of a population of 1..3 individuals with every objective value in [-100,100] and arbitrary genes read into a population which held others before
VF_HARNESS(c11_restart){
  int n=vf_pick("n",1,3),m=vf_pick("earlier",0,2); EAPopulation P,Q; P.setDimension(2); Q.setDimension(2); std::vector<double> J; std::vector<vec> G; for(int i=0;i<n;i++){ double v=vf_range("J",-100,100); EAIndividual I=vf_individual(2,7*i+3,v); vec g=vf_vec(2,"gene",-10,10); I.setGenes(g); I.setFitnessValue(0.5); I.setReproductionProbabilityValue(0.25); I.setDeathProbabilityValue(0.125); J.push_back(v); G.push_back(g); P.addIndividual(I); } P.writeToCSV("restart.csv"); for(int i=0;i<m;i++) Q.addIndividual(vf_individual(2,100+i,vf_range("old",-200,200))); Q.readFromCSV("restart.csv"); CHECK(Q.getSize()==(unsigned)n); double mn=J[0],mx=J[0]; for(int i=0;i<n;i++){ mn=vf_min(mn,J[i]); mx=vf_max(mx,J[i]); EAIndividual I=Q.getIndividual(7*i+3); CLOSE(I.getObjectiveFunctionValue(),J[i],1e-6); for(int j=0;j<2;j++) CLOSE(I.getGenes()(j),G[i](j),1e-6); CHECK(I.getFitnessValue()==0.5&&I.getReproductionProbability()==0.25&&I.getDeathProbability()==0.125); } CLOSE(Q.getTheBestIndividual().getObjectiveFunctionValue(),mn,1e-6); CLOSE(Q.getTheWorstIndividual().getObjectiveFunctionValue(),mx,1e-6); vf_reach("end");
}
// @entry c11_extreme prop=C11 mode=real time=60 qtime=10000
// @bounds populations of 1..3 individuals of which any have the value of a failed evaluation (largest finite number), the others every value in [-100,100]; one individual removed
VF_HARNESS(c11_extreme){
  int n=vf_pick("n",1,3); EAPopulation P; P.setDimension(1); std::vector<double> J; for(int i=0;i<n;i++){ double v=vf_flag("failed")?std::numeric_limits<double>::max():vf_range("J",-100,100); J.push_back(v); P.addIndividual(vf_individual(1,5*i+4,v)); } int gone=-1; if(n>1&&vf_flag("remove")){ gone=vf_pick("which",0,n-1); P.removeIndividual(gone); }
  double mn=0,mx=0; bool first=true; for(int i=0;i<n;i++) if(i!=gone){ if(first){ mn=mx=J[i]; first=false; } else { mn=vf_min(mn,J[i]); mx=vf_max(mx,J[i]); } } NOTHROW(P.getTheBestIndividual()); NOTHROW(P.getTheWorstIndividual()); CHECKM(vf_same(P.getTheBestIndividual().getObjectiveFunctionValue(),mn),"the best individual has the smallest objective value"); CHECKM(vf_same(P.getTheWorstIndividual().getObjectiveFunctionValue(),mx),"the worst individual has the largest objective value"); vf_reach("end");
}
