// C04: the reported optimum is the best entry of the history
#include "data.h"
#include "Optimizers/INCLUDE/globalOptimalDesign.hpp"
static double item(const std::string&s,size_t&p,const char*tag){ std::string o=std::string("<")+tag+">"; size_t a=s.find(o,p); vf_assert(a!=std::string::npos,"report has the expected element"); a+=o.size(); size_t b=s.find("</",a); p=b; return std::stod(s.substr(a,b-a)); }
static mat rows(int N,int d,int nc){ mat H=vf_mat(N,d+nc+3,"h",-50,50); for(int i=0;i<N;i++) H(i,d+nc+2)=vf_flag("feasible")?1.0:0.0; return H; }
static void expect(GlobalOptimalDesign&g,const mat&H,int N,int d,int nc,const vec&lb,const vec&ub){ bool any=false; for(int i=0;i<N;i++) if(H(i,d+nc+2)>0.5) any=true; CHECKM(g.isDesignFeasible==any,"flagged feasible exactly when a feasible design was evaluated"); int k=g.ID; CHECKM(k>=0&&k<N,"an evaluated design"); if(any) CHECKM(H(k,d+nc+2)>0.5,"the reported design is feasible"); for(int i=0;i<N;i++) if(!any||H(i,d+nc+2)>0.5) CHECKM(H(k,d)<=H(i,d),"no better design was evaluated"); for(int j=0;j<d;j++){ CHECKM(vf_same(g.designParameters(j),H(k,j)),"parameters of that entry"); CHECKM(vf_close(g.designParametersNormalized(j),norm1(H(k,j),lb(j),ub(j),d),1e-9),"normalized parameters of that entry"); } CHECKM(vf_same(g.trueValue,H(k,d)),"objective value of that entry"); CHECK(g.constraintTrueValues.getSize()==(unsigned)nc); for(int j=0;j<nc;j++) CHECKM(vf_same(g.constraintTrueValues(j),H(k,d+1+j)),"constraint values of that entry"); CHECKM(vf_same(g.improvementValue,H(k,d+nc+1)),"improvement of that entry"); }
// @entry c04_history prop=C04 mode=real time=200
// @bounds histories of 1..4 rows (then a second one with one row more), 1..3 parameters, 0..2 constraints, all feasibility patterns, all values in [-50,50]
VF_HARNESS(c04_history){
  int N=vf_pick("N",1,4),d=vf_pick("d",1,3),nc=vf_pick("nc",0,2); vec lb(d,-2.0),ub(d,3.0); if(d>1) ub(1)=7; if(d>2) lb(2)=-3.5; GlobalOptimalDesign g; g.setDimension(d); if(nc>0) g.setNumberOfConstraints(nc); g.setBoxConstraints(Bounds(lb,ub)); mat H=rows(N,d,nc); g.setGlobalOptimalDesignFromHistoryFile(H); expect(g,H,N,d,nc,lb,ub); if(N<(d==1?4:3)){ vec r(d+nc+3); for(int j=0;j<d+nc+2;j++) r(j)=vf_range("r",-50,50); r(d+nc+2)=vf_flag("feasible")?1.0:0.0; mat H2(N+1,d+nc+3); for(int i=0;i<=N;i++) for(int j=0;j<d+nc+3;j++) H2(i,j)=i<N?H(i,j):r(j); g.setGlobalOptimalDesignFromHistoryFile(H2); expect(g,H2,N+1,d,nc,lb,ub); vf_reach("second"); } vf_reach("end");
}
// @entry c04_report prop=C04 mode=real time=60 qtime=10000
// @bounds one history row, 1..3 parameters, 0..3 constraints, feasible or not, all values in [-1000,1000]
VF_HARNESS(c04_report){
  int d=vf_pick("d",1,3),nc=vf_pick("nc",0,3); bool f=vf_flag("feasible"); vec lb(d,-2000.0),ub(d,2000.0); GlobalOptimalDesign g; g.setDimension(d); if(nc>0) g.setNumberOfConstraints(nc); g.setBoxConstraints(Bounds(lb,ub)); mat H=vf_mat(1,d+nc+3,"h",-1000,1000); H(0,d+nc+2)=f?1:0; g.setGlobalOptimalDesignFromHistoryFile(H); if(vf_flag("old")) vf_write_file("globalOptimalDesign.xml","old text that is much longer than nothing <ObjectiveFunction>7</ObjectiveFunction>"); g.saveToXMLFile(); std::string s=vf_read_file("globalOptimalDesign.xml"); CHECKM(s.find("old text")==std::string::npos,"the report replaces the earlier one");
  size_t p=0; CHECK(item(s,p,"DesignID")==0.0); p=0; CHECKM(vf_close(item(s,p,"ObjectiveFunction"),H(0,d),1e-6),"objective value in the report"); p=s.find("<DesignParameters>"); size_t e=s.find("</DesignParameters>"); CHECK(p!=std::string::npos&&e!=std::string::npos); for(int j=0;j<d;j++) CHECKM(vf_close(item(s,p,"item"),H(0,j),1e-6),"parameters in the report"); CHECK(p<e); CHECK(s.find("<item>",p)>e); p=s.find("<ConstraintValues>"); CHECK((p!=std::string::npos)==(nc>0)); if(nc>0) for(int j=0;j<nc;j++) CHECKM(vf_close(item(s,p,"item"),H(0,d+1+j),1e-6),"constraint values in the report"); CHECK(nc==0||s.find("<item>",p)==std::string::npos); CHECKM((s.find("<Feasibility>YES</Feasibility>")!=std::string::npos)==f&&(s.find("<Feasibility>NO</Feasibility>")!=std::string::npos)==!f,"feasibility in the report"); vf_reach("end");
}
// @entry c04_digits prop=C04 mode=real time=60
// @bounds one history row, one parameter, 0..1 constraint, values of 6 scales (concrete, as printed numbers are), relative tolerance 1e-8
VF_HARNESS(c04_digits){
  static const double Y[6]={1.234567e-9,-3.75e-7,0.0123456789,-8.0000000125,123456.789012345,-9.87654321e9}; int nc=vf_pick("nc",0,1); vec lb(1,-2e10),ub(1,2e10); GlobalOptimalDesign g; g.setDimension(1); if(nc>0) g.setNumberOfConstraints(nc); g.setBoxConstraints(Bounds(lb,ub)); mat H(1,nc+4); H(0,nc+3)=1; for(int j=0;j<=nc+1;j++) H(0,j)=Y[vf_pick("scale",0,5)]; g.setGlobalOptimalDesignFromHistoryFile(H); g.saveToXMLFile(); std::string s=vf_read_file("globalOptimalDesign.xml");
  size_t p=0; CHECKM(vf_close(item(s,p,"ObjectiveFunction"),H(0,1),1e-8*vf_absd(H(0,1))),"the report holds the objective value, whatever its scale"); p=s.find("<DesignParameters>"); CHECKM(vf_close(item(s,p,"item"),H(0,0),1e-8*vf_absd(H(0,0))),"the report holds the parameters, whatever their scale"); if(nc){ p=s.find("<ConstraintValues>"); CHECKM(vf_close(item(s,p,"item"),H(0,2),1e-8*vf_absd(H(0,2))),"the report holds the constraint values, whatever their scale"); } vf_reach("end");
}
