// C11: population after generations of the evolutionary optimizer
#include "ea.h"
static std::vector<double> table; static size_t calls;
static double evaluate(double*){ return table[calls++]; }
static void order(int n){ static const double V[8]={-7,-2.5,0.5,3,4,9,20,50}; std::vector<bool> used(n,false); table.clear(); for(int i=0;i<n;i++){ int k=vf_pick("rank",0,n-1); vf_assume(!used[k]); used[k]=true; table.push_back(V[k]); } }
static void consistent(EAOptimizer&O,int n){
  EAPopulation&P=O.population; CHECK((int)P.getSize()==n); CHECKM(!P.hasRepeatedIDs(),"identifiers are pairwise different"); double mn=1e300,mx=-1e300,sr=0; for(int i=0;i<n;i++) for(int j=0;j<i;j++) CHECKM(P.getIdOftheIndividual(i)!=P.getIdOftheIndividual(j),"identifiers are pairwise different"); for(int i=0;i<n;i++){ EAIndividual I=P.getIndividual(P.getIdOftheIndividual(i)); double f=I.getObjectiveFunctionValue(); mn=vf_min(mn,f); mx=vf_max(mx,f); sr+=I.getReproductionProbability(); CHECK(I.getFitnessValue()>0&&I.getFitnessValue()<=1+1e-9); CHECK(I.getDeathProbability()>=0&&I.getDeathProbability()<=1); } CHECKM(P.getTheBestIndividual().getObjectiveFunctionValue()==mn,"recorded minimum"); CHECKM(P.getTheWorstIndividual().getObjectiveFunctionValue()==mx,"recorded maximum"); CLOSE(sr,1,1e-9);
}
// @entry c11_generation prop=C11 mode=real time=120 qtime=10000
// @bounds 2..3 initial individuals, one generation of 1 (thorough 1..2) children and 0..1 deaths, every order of the objective values, every random draw deciding who reproduces and dies (at most one repeated choice of parents per child)
VF_HARNESS(c11_generation){ int n0=vf_pick("n",2,3),add=DEEP?vf_pick("add",1,2):1,die=vf_pick("die",0,1); vec lo(1,0.0),hi(1,1.0); EAOptimizer O; O.setDimension(1); O.setBounds(lo,hi); O.setMutationProbability(0.5); O.setInitialPopulationSize(n0); O.setNumberOfNewIndividualsInAGeneration(add); O.setNumberOfDeathsInAGeneration(die); O.setNumberOfGenerations(1); O.setMaximumNumberOfGeneratedIndividuals(1000); O.setObjectiveFunction(evaluate); order(n0+add); vf_random_limit=n0+add*6+die; O.initializePopulation(); consistent(O,n0); O.generateANewGeneration(); consistent(O,n0+add-die); vf_reach("end"); }
// @entry c11_warm prop=C11 mode=real time=120 qtime=10000
// @bounds run continued from the restart file of a run with 2 initial individuals and one child: one further generation of one child, 3 orders of the objective values (thorough: every order and 0..1 deaths) and every random draw deciding who reproduces and dies (at most one repeated choice of parents per child)
VF_HARNESS(c11_warm){ vec lo(1,0.0),hi(1,1.0); calls=0; EAOptimizer O,Q; EAOptimizer*S[2]={&O,&Q}; for(int i=0;i<2;i++){ EAOptimizer&X=*S[i]; X.setDimension(1); X.setBounds(lo,hi); X.setMutationProbability(0.5); X.setInitialPopulationSize(2); X.setNumberOfNewIndividualsInAGeneration(1); X.setNumberOfDeathsInAGeneration(DEEP?vf_pick("die",0,1):0); X.setNumberOfGenerations(1); X.setMaximumNumberOfGeneratedIndividuals(1000); X.setFilenameWarmStart("restart.csv"); X.setObjectiveFunction(evaluate); } if(DEEP) order(4); else { static const double T[3][4]={{-7,3,0.5,4},{4,2,9,-1},{1,5,-2,-4}}; int t=vf_pick("order",0,2); table.assign(T[t],T[t]+4); } vf_random_limit=2+6+1+6+1; O.optimize(); int n=(int)O.getPopulationSize(); O.writeWarmRestartFile(); Q.setWarmStartOn(); Q.setNumberOfDeathsInAGeneration(0); Q.optimize(); consistent(Q,n+1); vf_reach("end"); }
