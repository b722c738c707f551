// C22: constraint expressions
#include "opt.h"
#include "API/INCLUDE/rodeo.h"
static double fun(const double*x){ return x[0]; }
static bool blank(char c){ return c==' '||(c>=9&&c<=13); }
static std::string strip(const std::string&s){ size_t a=0,b=s.size(); while(a<b&&blank(s[a])) a++; while(b>a&&blank(s[b-1])) b--; return s.substr(a,b-a); }
static bool operatorChar(char c){ return c=='<'||c=='>'||c=='='||c=='!'; }
struct Meaning { bool valid=false,spaced=false; std::string name,op,value; };
static Meaning meaning(const std::string&s){ Meaning m; size_t i=0; while(i<s.size()&&!operatorChar(s[i])) i++; if(i==s.size()) return m; size_t j=i; while(j<s.size()&&operatorChar(s[j])) j++; m.name=strip(s.substr(0,i)); m.op=s.substr(i,j-i); m.value=strip(s.substr(j)); bool w=!m.name.empty()&&!m.value.empty(); for(char c:m.name) if(blank(c)) w=false; m.valid=w&&(m.op=="<"||m.op==">"); m.spaced=m.valid&&blank(s[i-1])&&j<s.size()&&blank(s[j]); return m; }
// decimal number without exponent: [sign] digits [. digits], at least one digit
static bool decimal(const std::string&v,double&x){ size_t i=0; bool neg=false; if(i<v.size()&&(v[i]=='-'||v[i]=='+')) neg=v[i++]=='-'; int n=0; x=0; while(i<v.size()&&v[i]>='0'&&v[i]<='9'){ x=x*10+(v[i++]-'0'); n++; } if(i<v.size()&&v[i]=='.'){ i++; double f=0.1; while(i<v.size()&&v[i]>='0'&&v[i]<='9'){ x+=f*(v[i++]-'0'); f/=10; n++; } } if(neg) x=-x; return n>0&&i==v.size(); }
// @entry c22_register prop=C22 mode=real time=120 qtime=10000
// @bounds 0..2 earlier constraints and one more expression out of 3 names, 9 operators, 10 values (or any number in [-1000,1000]), 3 spacings and 3 trailing texts
VF_HARNESS(c22_register){
  static const char*N[3]={"C1","mass_flow",""},*O[9]={"<",">","<=",">=","=","==","","!=","<>"},*V[9]={"","abc","--1","1e3","-.5","5abc",".","0x10","1e"}; static const double W[9]={0,0,0,1000,-0.5,0,0,0,0}; int before=vf_pick("earlier",0,2); RobustDesignOptimizer R; R.setDimension(2); for(int i=0;i<before;i++) R.addConstraint(fun,i?"other > -2":"first < 7.5",i?"b.csv":"a.csv");
  int in=vf_pick("name",0,2),io=vf_pick("operator",0,8),iv=in==2||io>1?9:vf_pick("value",0,9),sp=vf_pick("spaces",0,2),tr=iv>=9||iv==3?vf_pick("after",0,2):0; double v=iv==9?vf_range("v",-1000,1000):W[iv]; std::string num=iv==9?vf_num(v):V[iv],gap=sp==0?" ":sp==1?" \t ":""; std::string s=(sp==1?"  ":"")+std::string(N[in])+gap+O[io]+gap+num+(tr==0?(sp==1?" \n":""):tr==1?" 2":"x"); bool good=in<2&&io<2&&(iv==9||iv==3||iv==4)&&tr==0;
  bool t=vf_throws([&]{ R.addConstraint(fun,s,"c.csv"); }); if(!good) CHECKM(t,"wrong expressions are rejected"); else if(sp<2) CHECKM(!t,"well-formed expressions are accepted");
  size_t n=before+(t?0:1); CHECKM(R.numberOfConstraints==n&&R.constraintFunctionPtr.size()==n&&R.constraintsTrainingDataFilename.size()==n&&R.optimizer.constraintFunctions.size()==n&&R.optimizer.numberOfConstraints==n,"a rejected expression registers nothing, an accepted one one constraint"); for(int i=0;i<before;i++){ ConstraintFunction&c=R.optimizer.constraintFunctions[i]; CHECKM(c.getID()==i&&c.getName()==(i?"other":"first")&&c.getInequalityType()==(i?">":"<")&&vf_close(c.getInequalityTargetValue(),i?-2:7.5,1e-12),"earlier constraints are kept"); } if(t){ vf_reach("rejected"); return; } ConstraintFunction&c=R.optimizer.constraintFunctions[before]; CHECKM(c.getName()==N[in]&&c.definitionConstraint.constraintName==N[in],"name"); CHECKM(c.getInequalityType()==O[io],"direction"); CHECKM(vf_close(c.getInequalityTargetValue(),v,1e-9),"target"); CHECKM(c.getID()==before,"order"); CHECKM(R.constraintsTrainingDataFilename[before]=="c.csv"&&c.getFileNameTrainingData()=="c.csv","training data file"); double f=vf_range("f",-2000,2000); double r=c.getInequalityTargetValue(); if(f!=r) CHECKM(c.checkFeasibility(f)==(io==0?f<r:f>r),"feasible side"); vf_reach("registered");
}
// @entry c22_text prop=C22 mode=fp time=150
// @bounds every text of 0..5 (6) characters out of C, 5, <, >, blank, minus, point and (up to 4 characters, thorough 6) = and tab
VF_HARNESS(c22_text){
  int n=vf_pick("n",0,DEEP?6:5); std::string s(n,' '); for(int i=0;i<n;i++){ char c=(char)vf_int("c",1,127); vf_assume((c=='<')|(c==' ')|(c=='5')|(c=='C')|(c=='>')|(c=='.')|(c=='-')|((c=='=')&(DEEP||n<5))|((c=='\t')&(DEEP||n<5))); s[i]=c; } Meaning m=meaning(s); double x=0; bool dec=m.valid&&decimal(m.value,x); std::string u=strip(s); size_t k=0; bool odd0=false; while(k<u.size()&&!blank(u[k])){ odd0=odd0||operatorChar(u[k]); k++; } odd0=odd0&&k<u.size(); // names with operator characters
  ParsedConstraintExpression e; bool t=vf_throws([&]{ e=parseExpression(s); }); if(odd0); else if(!dec) CHECKM(t,"wrong expressions are rejected"); else { if(m.spaced) CHECKM(!t,"well-formed expressions are accepted"); if(!t) CHECKM(e.name==m.name&&e.inequality==m.op&&vf_close(e.value,x,1e-9),"meaning"); }
  ConstraintDefinition d; bool td=vf_throws([&]{ d.setDefinition(s); }); std::string nm; for(char c:m.name) if(!blank(c)) nm.push_back(c); if(!dec){ bool odd=m.op.find('=')!=std::string::npos; for(char c:m.name) odd=odd||blank(c); for(char c:m.value) odd=odd||blank(c); if(!odd) CHECKM(td,"wrong definitions are rejected"); } else { CHECKM(!td,"well-formed definitions are accepted"); CHECKM(d.constraintName==nm&&d.inequalityType==m.op&&vf_close(d.value,x,1e-9),"meaning of the definition"); } vf_reach("end");
}
