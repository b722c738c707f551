// C26: designs of experiments
#include "loop.h"
#include "API/INCLUDE/rodeo.h"
static std::vector<vec> seen[3]; static std::vector<double> given[3];
template<int K> static double fun(const double*x){ vec v(vf_dim); for(int i=0;i<vf_dim;i++) v(i)=x[i]; double f=vf_range("f",-1000,1000); seen[K].push_back(v); given[K].push_back(f); return f; }
static const double L[2][3]={{-1,0.25,-300},{2,-7,0}},U[2][3]={{1,0.5,500},{2.5,-6,1}};
static void table(const char*file,int K,int d,int n,const vec&lb,const vec&ub){ std::vector<std::string> l=vf_lines(vf_read_file(file)); CHECKM((int)l.size()==n,"exactly the requested number of rows"); CHECKM((int)seen[K].size()==n,"one evaluation per row"); for(int i=0;i<n;i++){ std::vector<std::string> c=vf_split(l[i],','); CHECKM((int)c.size()==d+1,"parameters and value"); for(int j=0;j<d;j++){ double x=std::stod(c[j]); CHECKM(vf_close(x,seen[K][i](j),1e-4),"the design that has been evaluated"); CHECKM(x>=lb(j)-1e-4&&x<=ub(j)+1e-4,"inside the box"); CHECKM(vf_close(x,seen[0][i](j),1e-4),"the same design in all files"); } CHECKM(vf_close(std::stod(c[d]),given[K][i],1e-4),"the value of this function at this design"); } }
// @entry c26_tables prop=C26 mode=real time=150 qtime=10000
// @bounds 1..4 samples, 1..3 parameters, 0..2 constraints, 2 boxes, random or Latin hypercube designs, every random draw of up to 3 (4) numbers (fixed draws beyond), every value of every function in [-1000,1000], training file named once, twice or renamed
VF_HARNESS(c26_tables){
  int d=vf_pick("d",1,3),n=vf_pick("n",1,4),nc=vf_pick("nc",0,2),bx=vf_pick("box",0,1); bool lhs=vf_flag("lhs"); int ren=nc==0?vf_pick("rename",0,2):0; if(d*n>(DEEP?4:3)) vf_random_fixed=1; vf_dim=d; for(int k=0;k<3;k++){ seen[k].clear(); given[k].clear(); } vec lb(d),ub(d); double l[3],u[3]; for(int i=0;i<d;i++){ lb(i)=l[i]=L[bx][i]; ub(i)=u[i]=U[bx][i]; } RobustDesignOptimizer R; R.setDimension(d); if(ren==1) R.setNameOfTrainingDataFile("early.csv"); R.setObjectiveFunction(fun<0>,"objective","obj.csv"); if(nc>0) R.addConstraint(fun<1>,"first > 1","con1.csv"); if(nc>1) R.addConstraint(fun<2>,"second < 0","con2.csv"); R.setBoxConstraints(l,u); if(ren==2) R.setNameOfTrainingDataFile("late.csv"); R.setDoEStrategy(lhs?"LHS":"Random"); R.setDoEOn(n); NOTHROW(R.performDoE());
  const char*file=ren==2?"late.csv":"obj.csv"; CHECKM(R.optimizer.objFun.getFileNameTrainingData()==file,"the optimization reads the training file of the design of experiments"); table(file,0,d,n,lb,ub); if(nc>0) table("con1.csv",1,d,n,lb,ub); if(nc>1) table("con2.csv",2,d,n,lb,ub); CHECK(vf_file_exists("con1.csv")==(nc>0)&&vf_file_exists("con2.csv")==(nc>1)); vf_reach("end");
}
// @entry c26_strata prop=C26 mode=real time=150 qtime=10000
// @bounds Latin hypercubes of 1..4 (5) samples of one parameter or 1..3 of two, every box with bounds in [-100,100] (two parameters: 2 boxes), every random draw and every shuffle, both interfaces
VF_HARNESS(c26_strata){
  int d=vf_pick("d",1,2),n=vf_pick("n",1,d==2?3:(DEEP?5:4)); bool std_=vf_flag("std vectors"); vec lb(d),ub(d); int bx=d==2?vf_pick("box",0,1):0; for(int i=0;i<d;i++){ lb(i)=d==1?vf_range("lb",-100,100):L[bx][i]; ub(i)=d==1?vf_range("ub",-100,100):U[bx][i]; vf_assume(lb(i)<ub(i)); } mat m(n,d); if(std_){ std::vector<double> a(d),b(d); for(int i=0;i<d;i++){ a[i]=lb(i); b[i]=ub(i); } m.fillRandomLHS(a,b); } else m.fillRandomLHS(lb,ub); CHECK((int)m.getNRows()==n&&(int)m.getNCols()==d);
  for(int j=0;j<d;j++){ double h=(ub(j)-lb(j))/n; for(int k=0;k<n;k++){ bool hit=false; for(int i=0;i<n;i++) hit=hit|((m(i,j)>=lb(j)+k*h-1e-9)&(m(i,j)<=lb(j)+(k+1)*h+1e-9)); CHECKM(hit,"every stratum holds a sample"); } for(int i=0;i<n;i++) CHECKM(m(i,j)>=lb(j)-1e-9&&m(i,j)<=ub(j)+1e-9,"inside the box"); } vf_reach("end");
}
// @entry c26_random prop=C26 mode=real time=60 qtime=10000
// @bounds random designs of 1..3 (4) samples of 1..2 parameters, every box with bounds in [-100,100], every random draw, both interfaces
VF_HARNESS(c26_random){
  int d=vf_pick("d",1,2),n=vf_pick("n",1,DEEP?4:3); bool std_=vf_flag("std vectors"); vec lb=vf_vec(d,"lb",-100,100),ub=vf_vec(d,"ub",-100,100); bool ok=true; for(int i=0;i<d;i++) ok=ok&(lb(i)<ub(i)); vf_assume(ok); mat m(n,d); if(std_){ std::vector<double> a(d),b(d); for(int i=0;i<d;i++){ a[i]=lb(i); b[i]=ub(i); } m.fillRandom(a,b); } else m.fillRandom(lb,ub); for(int i=0;i<n;i++) for(int j=0;j<d;j++) CHECKM((m(i,j)>=lb(j))&(m(i,j)<=ub(j)),"inside the box"); vf_reach("end");
}
static double tiny(const double*x){ static const double V[4]={1.234567e-8,-3.75e-7,0.0123456789,-8.0000000125}; vec v(1); v(0)=x[0]; double f=V[vf_pick("f",0,3)]; seen[0].push_back(v); given[0].push_back(f); seen[1].push_back(v); given[1].push_back(f); return f; }
// @entry c26_digits prop=C26 mode=real time=60
// @bounds 1..2 (3) samples of one parameter in a box of width 3e-7 or 3, function values of 4 scales, with and without constraint; fixed random draws (printed numbers are concrete), relative tolerance 1e-8
VF_HARNESS(c26_digits){
  vf_random_fixed=1; int n=vf_pick("n",1,DEEP?3:2); bool con=vf_flag("constraint"); double s=vf_flag("small")?1e-7:1.0; for(int k=0;k<3;k++){ seen[k].clear(); given[k].clear(); } vf_dim=1; double l[1]={s},u[1]={4*s}; RobustDesignOptimizer R; R.setDimension(1); R.setObjectiveFunction(tiny,"objective","obj.csv"); if(con) R.addConstraint(tiny,"first > 1","con.csv"); R.setBoxConstraints(l,u); R.setDoEStrategy("Random"); R.setDoEOn(n); NOTHROW(R.performDoE());
  for(int k=0;k<(con?2:1);k++){ std::vector<std::string> L_=vf_lines(vf_read_file(k?"con.csv":"obj.csv")); CHECK((int)L_.size()==n); for(int i=0;i<n;i++){ std::vector<std::string> c=vf_split(L_[i],','); CHECK(c.size()==2u); double x=seen[0][k*n+i](0),f=given[0][k*n+i]; CHECKM(vf_close(std::stod(c[0]),x,1e-8*x),"the file holds the design that has been evaluated, whatever its scale"); CHECKM(vf_close(std::stod(c[1]),f,1e-8*vf_absd(f)),"the file holds the value that has been computed, whatever its scale"); } } vf_reach("end");
}
