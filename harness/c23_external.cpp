// C23: evaluations by external programs
#include "opt.h"
static int code,output,runs; static double value; static std::vector<std::string> commands; static std::string seen,dvfile,outfile;
static int program(const char*c){ runs++; commands.push_back(c); seen=vf_file_exists(dvfile)?vf_read_file(dvfile):std::string(); if(code<0) return code; if(output==1) vf_write_file(outfile,vf_num(value)+"\n"); if(output==2) vf_write_file(outfile,""); if(output==3) vf_write_file(outfile,"error\n"); if(output==4) vf_write_file(outfile,"  "+vf_num(value)+"  \n"); return code; }
// @entry c23_external prop=C23 mode=real time=100 qtime=10000
// @bounds objective or constraint of 1..2 parameters evaluated by a program (plain name, path or python script) once or twice; program cannot be started, exits with code 0, 1, 3 or 255, writes nothing, an empty file, text or any number; output of an earlier evaluation present or not; every design in [-1000,1000]
VF_HARNESS(c23_external){
  int d=vf_pick("d",1,2); bool con=vf_flag("constraint"); int kind=vf_pick("program",0,2); static const char*exe[3]={"simulate","./bin/simulate","simulate.py"}; static const char*cmd[3]={"./simulate","./bin/simulate","python simulate.py"}; vec lb(d,-2000.0),ub(d,2000.0); Bounds b(lb,ub); ObjectiveFunctionDefinition def=vf_def(con?"constraint0":"objective"); def.executableName=exe[kind]; dvfile=def.designVectorFilename; outfile=def.outputFilename; ObjectiveFunction F; ConstraintFunction C; if(con){ C=vf_constraint(d,b,0,true,0.0); C.setParametersByDefinition(def); } else { F=vf_objective(d,b); F.setParametersByDefinition(def); } vf_external_handler=program; runs=0; static const int CODE[5]={-1,0,1,3,255}; code=CODE[vf_pick("code",0,4)]; output=vf_pick("output",0,4); value=vf_range("value",-1e6,1e6); if(vf_flag("stale")) vf_write_file(outfile,"4.25\n");
  Design D(d); D.setNumberOfConstraints(1); for(int i=0;i<d;i++) D.designParameters(i)=vf_range("x",-1000,1000); D.trueValue=77; D.constraintTrueValues(0)=78; bool threw=false; try { if(con) C.evaluateDesign(D); else F.evaluateDesign(D); } catch(const std::exception&){ threw=true; }
  CHECKM(runs==1,"the program is run once"); CHECKM(commands[0]==cmd[kind],"by its own name"); std::vector<std::string> L=vf_lines(seen); CHECKM((int)L.size()==d,"the program finds one value per parameter"); for(int i=0;i<d;i++) CHECKM(vf_close(std::stod(L[i]),D.designParameters(i),1e-9),"the program is given the parameters of the design"); if(code==0&&(output==1||output==4)){ CHECKM(!threw,"a complete evaluation is accepted"); CLOSE(con?D.constraintTrueValues(0):D.trueValue,value,1e-6); CHECK(con?D.trueValue==77:D.constraintTrueValues(0)==78); } else { CHECKM(threw,"a failed evaluation ends in an exception"); CHECKM(D.trueValue==77&&D.constraintTrueValues(0)==78,"and leaves no value behind"); } vf_reach("end");
}
static double F0(const double*x){ return x[0]*2+1; }
static int last; static std::string files[3]; static double fresh[3];
static int programs(const char*c){ std::string s(c); runs++; int q=s=="./exe_objective"?0:s=="./exe_constraint0"?1:s=="./exe_constraint1"?2:-1; CHECKM(q>=0,"a program of the study"); if(q<0) return 0; if(code==q&&output==0) return 0; if(code==q&&output==1) return 9; if(code==q&&output==2) return -1; vf_write_file(files[q],vf_num(fresh[q])+"\n"); return 0; }
// @entry c23_study prop=C23 mode=real time=100 qtime=10000
// @bounds objective and 0..2 constraints of a study evaluated by programs of their own for one design, at most one of them failing (no output, error exit, cannot be started), every value in [-100,100]
VF_HARNESS(c23_study){
  int d=1,nc=vf_pick("nc",0,2); vec lb(d,0.0),ub(d,4.0); Bounds b(lb,ub); Optimizer O; bool gt[2]={true,false}; double t[2]={0,0}; vf_study(O,d,b,nc,gt,t); files[0]="objective.dat"; files[1]="constraint0.dat"; files[2]="constraint1.dat"; for(int q=0;q<=nc;q++){ fresh[q]=vf_range("value",-100,100); if(vf_flag("stale")) vf_write_file(files[q],"1.5\n"); } code=vf_pick("failing",-1,nc); output=code<0?0:vf_pick("how",0,2); runs=0; vf_external_handler=programs; Design D(d); D.setNumberOfConstraints(nc); D.designParameters(0)=vf_range("x",0,4); bool threw=false; try { O.objFun.evaluateDesign(D); for(int q=0;q<nc;q++) O.constraintFunctions[q].evaluateDesign(D); } catch(const std::exception&){ threw=true; } CHECKM(threw==(code>=0),"exception exactly when an evaluation fails"); if(code!=0) CLOSE(D.trueValue,fresh[0],1e-6); for(int q=0;q<nc;q++) if(code<0||code>q+1) CLOSE(D.constraintTrueValues(q),fresh[q+1],1e-6); vf_reach("end");
}
// @entry c23_pointer prop=C23 mode=real time=60
// @bounds objective and constraint given as functions, and a user defined constraint function, 1..2 parameters in [-1000,1000], every value they return
VF_HARNESS(c23_pointer){
  int d=vf_pick("d",1,2); vec lb(d,-2000.0),ub(d,2000.0); Bounds b(lb,ub); ObjectiveFunction F=vf_objective(d,b); F.setFunctionPtr((ObjectiveFunctionPtr)F0); ConstraintFunction C=vf_constraint(d,b,1,true,0.0); C.setFunctionPtr((ObjectiveFunctionPtr)F0); Design D(d); D.setNumberOfConstraints(2); D.trueValue=5; for(int i=0;i<d;i++) D.designParameters(i)=vf_range("x",-1000,1000); F.evaluateDesign(D); CLOSE(D.trueValue,2*D.designParameters(0)+1,1e-9); C.evaluateDesign(D); CLOSE(D.constraintTrueValues(1),2*D.designParameters(0)+1,1e-9); CHECK(D.constraintTrueValues(0)==0); Design W(d+1); W.setNumberOfConstraints(2); THROWS(F.evaluateDesign(W)); THROWS(C.evaluateDesign(W)); Design N(d); THROWS(C.evaluateDesign(N)); vf_udf=[](int k,const double*x){ return 100.0*k+x[0]; }; ConstraintFunction U=vf_constraint(d,b,1,true,0.0); U.setUseExplicitFunctionOn(); U.evaluateDesign(D); CLOSE(D.constraintTrueValues(1),100+D.designParameters(0),1e-9); vf_reach("end");
}
// @entry c23_several prop=C23 mode=real time=60
// @bounds 1..3 numbers read from the output of a program which wrote 0..4 of them, separated by line breaks or blanks, with or without a line break at the end, followed by nothing or by text, every value in [-1e6,1e6]
VF_HARNESS(c23_several){
  int want=vf_pick("want",1,3),have=vf_pick("have",0,4); bool line=vf_flag("line"),last=vf_flag("last"),text=vf_flag("text"); double v[4]; std::string s; for(int i=0;i<have;i++){ v[i]=vf_range("value",-1e6,1e6); if(i) s+=line?"\n":" "; s+=vf_num(v[i]); } if(text) s+=" failed"; if(last) s+="\n"; vf_write_file("several.dat",s); ObjectiveFunction F; vec r; bool threw=false; try { r=F.readOutput("several.dat",want); } catch(const std::exception&){ threw=true; } CHECKM(threw==(have<want),"an incomplete output is not accepted"); if(!threw){ CHECK((int)r.getSize()==want); for(int i=0;i<want;i++) CLOSE(r(i),v[i],1e-9); } vf_reach("end");
}
