// C05: optimization history
#include "data.h"
#include "Optimizers/INCLUDE/optimization_history.hpp"
static Design design(int d,int nc,vec&row){ Design D(d); D.setNumberOfConstraints(nc); for(int j=0;j<d;j++) row(j)=D.designParameters(j)=vf_range("x",-100,100); row(d)=D.trueValue=vf_range("f",-100,100); for(int j=0;j<nc;j++) row(d+1+j)=D.constraintTrueValues(j)=vf_range("c",-100,100); row(d+nc+1)=D.improvementValue=vf_range("imp",0,100); D.isDesignFeasible=vf_flag("feasible"); row(d+nc+2)=D.isDesignFeasible?1.0:0.0; D.estimatedValue=7; D.ID=5; return D; }
// @entry c05_append prop=C05 mode=real time=150 qtime=10000
// @bounds 0..2 initial rows, 1..2 designs added, 1..3 parameters (named or not), 0..3 constraints, all values in [-100,100]
VF_HARNESS(c05_append){
  int N=vf_pick("N",0,2),k=vf_pick("k",1,2),d=vf_pick("d",1,3),nc=vf_pick("nc",0,3); bool nm=vf_flag("names"); int m=d+nc+3; OptimizationHistory h; h.setDimension(d); h.setObjectiveFunctionName("objective"); std::vector<std::string> names; for(int i=0;i<nc;i++) h.addConstraintName("con"+std::to_string(i)); if(nm){ names.push_back("len"); if(d>1) names.push_back("aa"); if(d>2) names.push_back("b"); h.setParameterNames(names); } else { names.push_back("x1"); if(d>1) names.push_back("x2"); if(d>2) names.push_back("x3"); }
  mat R(N+k,m); mat H0(N,m); for(int i=0;i<N;i++) for(int j=0;j<m;j++) R(i,j)=H0(i,j)=vf_range("h",-100,100); if(N>0){ h.setData(H0); mat g=h.getData(); CHECK(g.getNRows()==(unsigned)N); }
  for(int t=0;t<k;t++){ vec row(m); Design D=design(d,nc,row); h.updateOptimizationHistory(D); for(int j=0;j<m;j++) R(N+t,j)=row(j); mat g=h.getData(); CHECKM(g.getNRows()==(unsigned)(N+t+1)&&g.getNCols()==(unsigned)m,"exactly one row is appended"); for(int i=0;i<=N+t;i++) for(int j=0;j<m;j++) CHECKM(vf_same(g(i,j),R(i,j)),i<N+t?"earlier rows are unchanged":"the new row holds parameters, objective, constraints, improvement and feasibility"); }
  std::vector<std::string> L=vf_lines(vf_read_file("optimizationHistory.csv")); CHECKM(L.size()==(size_t)(N+k+1),"one header line and one line per row"); std::vector<std::string> H=vf_split(L[0],','); CHECK(H.size()==(size_t)m); for(int j=0;j<d;j++) CHECKM(H[j]==names[j],"parameter names"); CHECK(H[d]=="Objective"); for(int i=0;i<nc;i++) CHECKM(H[d+1+i]=="con"+std::to_string(i),"constraint names"); CHECK(H[m-2]=="Improvement"&&H[m-1]=="Feasibility"); for(int i=0;i<N+k;i++){ std::vector<std::string> c=vf_split(L[1+i],','); CHECK(c.size()==(size_t)m); for(int j=0;j<m;j++) CHECKM(vf_close(std::stod(c[j]),R(i,j),1e-3),"values in the file"); } vec o=h.getObjectiveFunctionValues(),f=h.getFeasibilityValues(); for(int i=0;i<N+k;i++) CHECK(vf_same(o(i),R(i,d))&&vf_same(f(i),R(i,m-1))); vf_reach("end");
}
// @entry c05_reject prop=C05 mode=real time=30
// @bounds histories and designs with wrong numbers of columns, parameters and names
VF_HARNESS(c05_reject){
  int d=vf_pick("d",1,2),nc=vf_pick("nc",0,2),w=vf_pick("w",1,8); OptimizationHistory h; mat H(2,w); THROWS(h.setData(H)); h.setDimension(d); for(int i=0;i<nc;i++) h.addConstraintName("con"+std::to_string(i)); THROWS(h.addConstraintName("")); if(nc>0) THROWS(h.addConstraintName("con0")); if(w!=d+nc+3){ THROWS(h.setData(H)); CHECK(h.getData().isEmpty()); } else NOTHROW(h.setData(H)); THROWS(h.setData(mat(0,d+nc+3))); Design D(d+1); D.setNumberOfConstraints(nc); unsigned n0=h.getData().getNRows(); THROWS(h.updateOptimizationHistory(D)); CHECK(h.getData().getNRows()==n0); THROWS(h.setParameterNames(std::vector<std::string>(d+1,"a"))); THROWS(h.setParameterNames({})); if(d==2) THROWS(h.setParameterNames({"a","a"})); OptimizationHistory e; e.setDimension(d); THROWS(e.saveOptimizationHistoryFile()); vf_reach("end");
}
