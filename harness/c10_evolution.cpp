// C10: individuals of the evolutionary optimizer stay in bounds, the best one evaluated is returned
#include "ea.h"
static std::vector<vec> genes; static std::vector<double> values; static std::vector<double> table; static int dim; static vec lower,upper;
static double evaluate(double*x){ vec v(dim); for(int i=0;i<dim;i++) v(i)=x[i]; genes.push_back(v); double f=table[values.size()]; values.push_back(f); for(int i=0;i<dim;i++) CHECKM(x[i]>=lower(i)&&x[i]<=upper(i),"individuals are evaluated inside the bounds"); return f; }
static void box(int d){ static const double L[2][2]={{0,-3},{-100,2}},U[2][2]={{1,5},{-99.5,1e3}}; int b=vf_pick("box",0,1); dim=d; lower=vec(d); upper=vec(d); for(int i=0;i<d;i++){ lower(i)=L[b][i]; upper(i)=U[b][i]; } genes.clear(); values.clear(); }
// distinct objective values in an arbitrary order
static void order(int n){ static const double V[8]={-7,-2.5,0.5,3,4,9,20,50}; std::vector<bool> used(n,false); table.clear(); for(int i=0;i<n;i++){ int k=vf_pick("rank",0,n-1); vf_assume(!used[k]); used[k]=true; table.push_back(V[k]); } }
// @entry c10_child prop=C10 mode=real time=100 qtime=10000
// @bounds 1..2 parameters, 2 boxes, every pair of parents inside the box, every random draw (normal ones within 10 deviations), mutation probabilities 0.1 and 0.9
VF_HARNESS(c10_child){
  int d=vf_pick("d",1,2); box(d); EAOptimizer O; O.setDimension(d); O.setBounds(lower,upper); O.setMutationProbability(vf_flag("often")?0.9:0.1); EAIndividual A(d),B(d); vec a(d),b(d); for(int i=0;i<d;i++){ a(i)=vf_range("mother",lower(i),upper(i)); b(i)=vf_range("father",lower(i),upper(i)); } A.setGenes(a); B.setGenes(b); A.setId(1); B.setId(2); vec c=O.crossOver(std::make_pair(A,B)); CHECK(c.getSize()==(unsigned)d); for(int i=0;i<d;i++) CHECKM(c(i)>=lower(i)&&c(i)<=upper(i),"children lie inside the bounds"); vec m=a; O.applyMutation(m); for(int i=0;i<d;i++) CHECKM(m(i)>=lower(i)&&m(i)<=upper(i),"mutations stay inside the bounds"); B.setId(1); THROWS(O.crossOver(std::make_pair(A,B))); vf_reach("end");
}
static void run(EAOptimizer&O,int d,int n0,int add,int die,int gens){ box(d); O.setDimension(d); O.setBounds(lower,upper); O.setMutationProbability(0.5); O.setInitialPopulationSize(n0); O.setNumberOfNewIndividualsInAGeneration(add); O.setNumberOfDeathsInAGeneration(die); O.setNumberOfGenerations(gens); O.setMaximumNumberOfGeneratedIndividuals(1000); O.setObjectiveFunction(evaluate); order(n0+add*gens); vf_random_limit=n0*d+gens*(add*(2+3*d+1)+die); O.optimize(); }
static void result(EAOptimizer&O,int n0,int add,int die,int gens){
  CHECKM((int)values.size()==n0+add*gens,"every individual is evaluated once"); CHECKM((int)O.getPopulationSize()==n0+gens*(add-die),"size of the population"); size_t b=0; for(size_t i=1;i<values.size();i++) if(values[i]<values[b]) b=i; CHECKM(O.getBestObjectiveFunctionValue()==values[b],"the best individual evaluated is returned"); vec x=O.getBestDesignVector(); for(int i=0;i<dim;i++) CHECKM(vf_same(x(i),genes[b](i)),"with the genes that produced its value");
}
// @entry c10_optimize prop=C10 mode=real time=150 qtime=10000
// @bounds runs with 2..3 initial individuals and one generation of one child and 0..1 deaths (thorough: also two generations, or two children and two deaths), 2 boxes in one dimension, every order of the objective values of the individuals, every random draw of initial genes and of the choice of who reproduces and dies (at most one repeated choice of parents per child)
VF_HARNESS(c10_optimize){ int n0=vf_pick("n",2,3),add=DEEP?vf_pick("add",1,2):1,gens=DEEP?vf_pick("generations",1,3-add):1,die=vf_pick("die",0,add); EAOptimizer O; run(O,1,n0,add,die,gens); result(O,n0,add,die,gens); vf_reach("end"); }
