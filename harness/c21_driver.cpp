// C21: from a configuration file to an optimization problem
#include "opt.h"
#include "Driver/INCLUDE/driver_xml.hpp"
static std::string el(const char*k,const std::string&v,bool nl=true){ return std::string("<")+k+"> "+v+" </"+k+">"+(nl?"\n":""); }
static std::string general(int d,const std::string&more=""){ return "<general_settings>\n<name> STUDY </name>\n<type> Optimization </type>\n"+el("dimension",std::to_string(d))+el("number_of_function_evaluations","7")+more+"</general_settings>\n"; }
static std::string parameters(int d){ std::string s="<optimization_parameters>\n"; for(int i=0;i<d;i++) s+="<parameter>\n"+el("name","x"+std::to_string(i+1))+el("type","REAL")+el("lower_bound","-1")+el("upper_bound","2")+"</parameter>\n"; return s+"</optimization_parameters>\n"; }
static std::string objective(){ return "<objective_function>\n"+el("name","Obj")+el("executable_filename","run.py")+el("output_filename","obj.dat")+el("training_data_filename","obj.csv")+el("design_vector_filename","dv.dat")+"</objective_function>\n"; }
static bool read(Driver&D,const std::string&s){ vf_write_file("study.xml","<optimization_study>\n"+s+"</optimization_study>\n"); D.setConfigFileName("study.xml"); return !vf_throws([&]{ D.readConfigurationFile(); }); }
// @entry c21_parameters prop=C21 mode=real time=150 qtime=10000
// @bounds 1..2 (3) parameters, each real, continuous, discrete or integer with bounds and increment anywhere in [-100,100]; declared dimension right or wrong; an entry of one parameter absent or its type unknown
VF_HARNESS(c21_parameters){
  static const char*T[6]={"REAL","continuous","Discrete","int","binary",""}; int d=vf_pick("d",1,DEEP?3:2),wrong=vf_flag("wrong dimension"),miss=vf_pick("missing",0,4),who=miss?vf_pick("which parameter",0,d-1):0,flat=vf_flag("one line"); if(wrong&&miss) return; std::vector<int> t(d); std::vector<double> lb(d),ub(d),in(d); std::string s="<optimization_parameters>"; bool ok=!wrong;
  for(int i=0;i<d;i++){ t[i]=vf_pick("type",0,miss==0?4:3); lb[i]=vf_range("lb",-100,100); ub[i]=vf_range("ub",-100,100); in[i]=vf_range("increment",-100,100); bool disc=t[i]==2||t[i]==3,m=miss&&who==i; if(t[i]==4) ok=false; if(m&&(miss!=4||disc)) ok=false; std::string p=m&&miss==1?"":el("name","p"+std::to_string(i),!flat); p+=el("upper_bound",vf_num(ub[i]),!flat); if(disc&&!(m&&miss==4)) p+=el("increment",vf_num(in[i]),!flat); if(!(m&&miss==2)) p+=el("type",T[t[i]],!flat); if(!(m&&miss==3)) p+=el("lower_bound",vf_num(lb[i]),!flat); s+="<parameter>"+p+"</parameter>"; if(!flat) s+="\n"; }
  s+="</optimization_parameters>\n"; bool fit=true,edge=false; for(int i=0;i<d;i++){ double w=ub[i]-lb[i]; fit=fit&(w>0); edge=edge|(w<=0&&w>=0); if(t[i]==2||t[i]==3){ fit=fit&(in[i]>0)&(in[i]<=w); } } vf_assume(!edge);
  Driver D; bool done=read(D,general(wrong?d+1:d)+s+objective()); if(!ok) CHECKM(!done,"incomplete parameters are rejected"); else CHECKM(done==fit,"exactly consistent parameters are accepted"); if(!done){ THROWS(D.run()); vf_reach("rejected"); return; }
  Optimizer&O=D.optimizationStudy; CHECKM(O.dimension==(unsigned)d,"dimension"); CHECKM(O.lowerBounds.getSize()==(unsigned)d&&O.upperBounds.getSize()==(unsigned)d,"one pair of bounds per parameter"); unsigned k=0; for(int i=0;i<d;i++){ CHECKM(vf_close(O.lowerBounds(i),lb[i],1e-9)&&vf_close(O.upperBounds(i),ub[i],1e-9),"bounds in file order"); if(t[i]==2||t[i]==3){ CHECKM(k<O.indicesForDiscreteVariables.size()&&O.indicesForDiscreteVariables[k]==i&&vf_close(O.incrementsForDiscreteVariables[k],in[i],1e-9),"discrete parameter with its increment"); k++; } } CHECKM(O.indicesForDiscreteVariables.size()==k&&O.incrementsForDiscreteVariables.size()==k&&O.numberOfDiscreteVariables==k,"no other discrete parameters"); vec l=O.objFun.boxConstraints.getLowerBounds(),u=O.objFun.boxConstraints.getUpperBounds(); for(int i=0;i<d;i++) CHECKM(vf_close(l(i),lb[i],1e-9)&&vf_close(u(i),ub[i],1e-9),"bounds of the objective function"); CHECK(O.history.parameterNames.size()==(size_t)d); for(int i=0;i<d;i++) CHECKM(O.history.parameterNames[i]=="p"+std::to_string(i),"parameter names in file order"); vf_reach("accepted");
}
// @entry c21_constraints prop=C21 mode=real time=150 qtime=10000
// @bounds 0..2 (3) constraints with targets in [-1000,1000], four spellings of the type or an unknown one, external or user defined, own surrogate type and number of training iterations present or not, one of seven entries absent, one line or one line per entry
VF_HARNESS(c21_constraints){
  static const char*T[6]={"lt","LT","gt","GT","le","TT"}; int n=vf_pick("n",0,DEEP?3:2),miss=n?vf_pick("missing",0,8):0,who=miss?vf_pick("which constraint",0,n-1):0,lay=miss&&!DEEP?1+who%2:vf_pick("layout",0,2); std::string s; std::vector<int> t(n),u(n),it(n),mo(n); std::vector<double> v(n); bool ok=true;
  for(int i=0;i<n;i++){ bool m=miss&&who==i; t[i]=m&&miss==8?4+vf_pick("unknown type",0,1):vf_pick("type",0,1)*2+(i&1); u[i]=miss!=3&&((!miss||m||DEEP)?vf_flag("user defined"):i==0); it[i]=miss==0||DEEP?vf_flag("training iterations"):m; mo[i]=!u[i]&&miss==0&&(DEEP?vf_flag("model"):it[i]!=(i&1)); v[i]=vf_range("target",-1000,1000); bool nl=lay>0; std::string k=std::to_string(i),p; if(!(m&&miss==1)) p+=el("name","C"+k,nl); if(!(m&&miss==2)) p+=el("constraint_type",T[t[i]],nl); if(!(m&&miss==3)) p+=el("constraint_value",vf_num(v[i]),nl); if(u[i]) p+=el("user_defined_function","yes",nl); else { if(!(m&&miss==4)) p+=el("design_vector_filename","dv"+k,nl); if(!(m&&miss==5)) p+=el("output_filename","out"+k,nl); if(!(m&&miss==6)) p+=el("training_data_filename","data"+k,nl); if(!(m&&miss==7)) p+=el("executable_filename","exe"+k,nl); } if(it[i]) p+=el("number_of_training_iterations",std::to_string(100+i),nl); if(mo[i]) p+=el("surrogate_model_type","universal_kriging",nl); if(m&&miss!=7&&(miss<4||miss==8||!u[i])) ok=false; s+="<constraint_function>"+std::string(lay==1?"\n":"")+p+"</constraint_function>"+(lay==0?"":"\n"); }
  Driver D; bool done=read(D,general(2)+parameters(2)+objective()+s+"\n"); CHECKM(done==ok,"exactly complete constraints are accepted"); if(!done){ THROWS(D.run()); vf_reach("rejected"); return; }
  Optimizer&O=D.optimizationStudy; CHECKM(O.constraintFunctions.size()==(size_t)n&&O.numberOfConstraints==(unsigned)n,"every constraint"); for(int i=0;i<n;i++){ ConstraintFunction&c=O.constraintFunctions[i]; std::string k=std::to_string(i); CHECKM(c.getID()==i,"identifiers in file order"); CHECKM(c.definitionConstraint.constraintName=="C"+k&&c.getName()=="C"+k,"name"); CHECKM(c.getInequalityType()==(t[i]<2?"<":">"),"inequality"); CHECKM(vf_close(c.getInequalityTargetValue(),v[i],1e-9),"target value"); CHECKM(c.isUserDefinedFunction()==(u[i]!=0),"user defined or not"); CHECK(c.dim==2&&c.ifParameterBoundsAreSet); if(!u[i]){ CHECKM(c.definition.designVectorFilename=="dv"+k&&c.definition.outputFilename=="out"+k&&c.definition.nameHighFidelityTrainingData=="data"+k,"files"); CHECKM(c.definition.executableName==(miss==7&&who==i?"":"exe"+k),"executable"); CHECKM(c.definition.modelHiFi==(mo[i]?UNIVERSAL_KRIGING:ORDINARY_KRIGING),"surrogate model"); } if(it[i]) CHECKM(c.numberOfIterationsForSurrogateTraining==(unsigned)(100+i),"number of training iterations"); else CHECKM(c.numberOfIterationsForSurrogateTraining==O.objFun.numberOfIterationsForSurrogateTraining,"default number of training iterations"); } vf_reach("accepted");
}
// @entry c21_objective prop=C21 mode=fp time=60
// @bounds objective section with one of seven entries absent, five surrogate types, the gradient entries present, absent or with the output file repeated, training iterations present or not
VF_HARNESS(c21_objective){
  static const char*M[6]={"","kriging","Universal_Kriging","gradient_enhanced","TANGENT_ENHANCED","neural"}; static const SURROGATE_MODEL W[5]={ORDINARY_KRIGING,ORDINARY_KRIGING,UNIVERSAL_KRIGING,GRADIENT_ENHANCED,TANGENT_ENHANCED}; int miss=vf_pick("missing",0,5),m=vf_pick("model",0,5),g=m==3?vf_pick("gradient",0,3):0; bool it=vf_flag("iterations"); std::string s="<objective_function>\n"; if(miss!=1) s+=el("name","Obj"); if(miss!=2) s+=el("executable_filename","run.py"); if(miss!=3) s+=el("output_filename","obj.dat"); if(miss!=4) s+=el("training_data_filename","obj.csv"); if(miss!=5) s+=el("design_vector_filename","dv.dat"); if(m) s+=el("surrogate_model_type",M[m]); if(it) s+=el("number_of_training_iterations","321"); if(g!=1) s+=el("executable_filename_gradient","grad.py"); if(g!=2) s+=el("output_filename_gradient",g==3?"obj.dat":"grad.dat"); s+="</objective_function>\n";
  Driver D; bool done=read(D,general(2)+parameters(2)+s); CHECKM(done==(miss==0&&m!=5&&g==0),"exactly a complete objective function is accepted"); if(!done){ THROWS(D.run()); vf_reach("rejected"); return; } const ObjectiveFunction&f=D.optimizationStudy.objFun; CHECKM(f.definition.name=="Obj"&&f.definition.executableName=="run.py"&&f.definition.outputFilename=="obj.dat"&&f.definition.nameHighFidelityTrainingData=="obj.csv"&&f.definition.designVectorFilename=="dv.dat","files and executable of the objective function"); CHECKM(f.definition.modelHiFi==W[m],"surrogate model"); CHECK(f.dim==2&&D.optimizationStudy.constraintFunctions.empty()); if(m==3) CHECKM(f.definition.executableNameGradient=="grad.py"&&f.definition.outputGradientFilename=="grad.dat","gradient evaluation"); ObjectiveFunction f0; CHECKM(f.numberOfIterationsForSurrogateTraining==(it?321u:f0.numberOfIterationsForSurrogateTraining),"number of training iterations"); vf_reach("accepted");
}
// @entry c21_general prop=C21 mode=fp time=60
// @bounds general settings with name, type, dimension, number of evaluations, inner iterations and threads each present or absent, numbers 0, negative or positive; section order swapped or not; a section absent
VF_HARNESS(c21_general){
  static const char*N[4]={"0","-3","12","1"}; int ty=vf_pick("type",0,3),dim=vf_pick("dimension",0,3),ev=vf_pick("evaluations",0,3); bool nm=vf_flag("name"),in=vf_flag("inner"),th=vf_flag("threads"); int gone=ty==1&&dim==2&&ev==3?vf_pick("section absent",0,3):0; bool swap=vf_flag("order"); static const char*DV[4]={"","0","2","-1"}; std::string g="<general_settings>\n"; if(nm) g+=el("name","MyStudy"); if(ty) g+=el("type",ty==1?"OPTIMIZATION":ty==2?"optimization":"surrogate_test"); if(dim) g+=el("dimension",DV[dim]); if(ev) g+=el("number_of_function_evaluations",N[ev]); if(in) g+=el("max_number_of_inner_iterations","55"); if(th) g+=el("number_of_threads","3"); g+="</general_settings>\n"; if(gone==1) g=""; std::string p=gone==2?"":parameters(2),o=gone==3?"":objective(),s=swap?o+p+g:g+p+o;
  Driver D; THROWS(D.readConfigurationFile()); THROWS(D.run()); bool done=read(D,s); if(ty==3){ CHECK(done); THROWS(D.run()); vf_reach("other"); return; } CHECKM(done==(ty!=0&&dim==2&&ev>1&&gone==0),"exactly complete general settings are accepted"); if(!done){ THROWS(D.run()); vf_reach("rejected"); return; } Optimizer&O=D.optimizationStudy; CHECKM(O.dimension==2,"dimension"); CHECKM(O.maxNumberOfSamples==(ev==2?12u:1u),"number of function evaluations"); CHECKM(O.iterMaxAcquisitionFunction==(in?55u:20000u),"number of inner iterations"); Optimizer O0; CHECKM(O.numberOfThreads==(th?3u:O0.numberOfThreads),"number of threads"); if(nm) CHECKM(O.name=="MyStudy","name of the study"); CHECK(!O.name.empty()); vf_reach("accepted");
}
