// rsym: symbolic executor for LLVM IR (LLVM 18) on top of z3.
//
//   rsym MODULE.bc --entry FN [--mode real|fp] [--out FILE] [--time S] [--qtime MS]
//
// Executes FN with every value produced by the vf_* input functions symbolic, explores all feasible
// paths, and decides every vf_assert by an SMT query over the path condition.  See /verif/DESIGN.md.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <unistd.h>
#include <z3++.h>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <deque>
#include <string>
#include <memory>
#include <chrono>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <functional>
#include <algorithm>
using namespace llvm;
using std::string; using std::vector;
typedef z3::expr Ex;

static double now(){ using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

struct Unsupported { string why; };
struct PathEnd { string why; };           // silent end of path (assume false, normal exit)
struct Forked {};                          // not used for control; placeholder
[[noreturn]] static void unsup(const string&w){ throw Unsupported{w}; }

static bool REAL=true;                     // numeric mode
static z3::context *C=nullptr;
static double g_qtime_ms=20000, g_time_s=600;
static double g_deadline=0;

// ------------------------------------------------------------------ values
struct SymNode { Ex e; SymNode(const Ex&x):e(x){} };
typedef std::shared_ptr<const SymNode> SP;
struct Val {
  enum K:uint8_t {UNDEF,INT,DBL,SINT,SDBL,AGG} k=UNDEF;
  unsigned w=0;
  union { uint64_t i; double d; };
  SP s; std::shared_ptr<vector<Val>> agg;
  Val():i(0){}
  static Val I(uint64_t v,unsigned w){ Val r; r.k=INT; r.w=w; r.i= w>=64? v : (v & ((1ULL<<w)-1)); return r; }
  static Val P(uint64_t v){ return I(v,64); }
  static Val D(double v,unsigned w=64){ Val r; r.k=DBL; r.w=w; r.d=v; return r; }
  static Val SI(const Ex&e,unsigned w){ Val r; r.k=SINT; r.w=w; r.s=std::make_shared<SymNode>(e); return r; }
  static Val SD(const Ex&e){ Val r; r.k=SDBL; r.w=64; r.s=std::make_shared<SymNode>(e); return r; }
  static Val A(vector<Val> v){ Val r; r.k=AGG; r.agg=std::make_shared<vector<Val>>(std::move(v)); return r; }
  bool sym() const { return k==SINT||k==SDBL; }
  bool isSymDeep() const { if(sym()) return true; if(k==AGG) for(auto&x:*agg) if(x.isSymDeep()) return true; return false; }
};
static inline int64_t sx(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ULL<<(w-1); v&=((1ULL<<w)-1); return (int64_t)((v^m)-m); }

// ------------------------------------------------------------------ exact reals
static string bigPow2(unsigned n){ vector<int> d{1}; for(unsigned i=0;i<n;i++){ int c=0; for(auto&x:d){ int t=x*2+c; x=t%10; c=t/10;} if(c) d.push_back(c);} string s; for(auto it=d.rbegin();it!=d.rend();++it) s+=char('0'+*it); return s; }
static Ex realLit(double d){
  static std::unordered_map<uint64_t,Ex> cache; uint64_t b; memcpy(&b,&d,8);
  auto it=cache.find(b); if(it!=cache.end()) return it->second;
  int e; double m=frexp(d,&e); long long mi=(long long)ldexp(m,53); e-=53;
  while(mi && (mi%2)==0){ mi/=2; e++; }
  Ex r=C->real_val(std::to_string(mi).c_str());
  if(mi && e>0){ if(e<=8) r=C->real_val(std::to_string(mi*(1LL<<e)).c_str()); else r=(r*C->real_val(bigPow2(e).c_str())).simplify(); }
  else if(mi && e<0) r=C->real_val((std::to_string(mi)+"/"+bigPow2(-e)).c_str());
  cache.emplace(b,r); return r;
}
static Ex RM(){ static Ex r=C->fpa_rounding_mode(); return r; }
static z3::sort F64(){ static z3::sort s=C->fpa_sort<64>(); return s; }
static Ex dblLit(double d){ return REAL? realLit(d) : C->fpa_val(d); }
static bool special(double d){ return std::isnan(d)||std::isinf(d); }

static bool isTrue(const Ex&e){ return e.is_true(); }
static bool isFalse(const Ex&e){ return e.is_false(); }
static Ex Not(const Ex&e){ if(e.is_true()) return C->bool_val(false); if(e.is_false()) return C->bool_val(true); if(e.is_not()) return e.arg(0); return !e; }

static Ex toBV(const Val&v,unsigned w);
static Val mkB(const Ex&e0){ Ex e=e0.simplify(); if(e.is_true()) return Val::I(1,1); if(e.is_false()) return Val::I(0,1); return Val::SI(e,1); }
static Val mkI(const Ex&e0,unsigned w){ if(w==1) return mkB(e0); Ex e=e0.simplify(); if(e.is_numeral()){ uint64_t u; if(Z3_get_numeral_uint64(*C,e,(uint64_t*)&u)) return Val::I(u,w);} return Val::SI(e,w); }
static Ex fpToBits(const Ex&e){ return Ex(*C,Z3_mk_fpa_to_ieee_bv(*C,e)); }
static Val bitsOf(const Val&v){ // double value -> 64-bit integer value
  if(v.k==Val::DBL){ uint64_t b; if(v.w==32){ float f=(float)v.d; uint32_t x; memcpy(&x,&f,4); return Val::I(x,32);} memcpy(&b,&v.d,8); return Val::I(b,64);} 
  if(v.k==Val::SDBL){ if(REAL) unsup("bit pattern of a symbolic real"); return mkI(fpToBits(v.s->e),64);} return v; }
static Ex toBool(const Val&v){ if(v.k==Val::INT) return C->bool_val(v.i&1); if(v.k==Val::SINT&&v.w==1) return v.s->e; if(v.k==Val::UNDEF) return C->bool_val(false); unsup("toBool"); }
static Ex toBV(const Val&v0,unsigned w){ Val v=v0; if(v.k==Val::DBL||v.k==Val::SDBL) v=bitsOf(v); if(v.k==Val::UNDEF) return C->bv_val(0,w); if(v.k==Val::INT) return C->bv_val((uint64_t)v.i,w); if(v.k==Val::SINT){ if(v.w==1) return z3::ite(v.s->e,C->bv_val(1,w),C->bv_val(0,w)); return v.s->e;} unsup("toBV"); }
static Val asDbl(const Val&v){ // reinterpret 64-bit value as double
  if(v.k==Val::DBL||v.k==Val::SDBL) return v; if(v.k==Val::INT){ if(v.w==32){ uint32_t x=v.i; float f; memcpy(&f,&x,4); return Val::D(f,32);} double d; memcpy(&d,&v.i,8); return Val::D(d);} if(v.k==Val::UNDEF) return Val::D(0);
  if(v.k==Val::SINT){ if(REAL) unsup("symbolic bits as real"); return Val::SD(Ex(*C,Z3_mk_fpa_to_fp_bv(*C,v.s->e,F64()))); } unsup("asDbl"); }
static Ex toF(const Val&v0){ Val v=asDbl(v0); if(v.k==Val::DBL){ if(REAL&&special(v.d)) unsup("special value in real term"); return dblLit(v.d);} return v.s->e; }

// ------------------------------------------------------------------ memory
struct Cell { Val v; unsigned n; };
struct Obj { uint64_t base=0,size=0; vector<uint8_t> b; std::map<uint64_t,Cell> cells; bool ro=false; uint8_t kind=0; /*0 global 1 heap 2 stack*/ bool freed=false; string name; };
typedef std::shared_ptr<Obj> OP;

static Module *M; static const DataLayout *DL;
struct FnInfo { Function*F; std::unordered_map<const Value*,unsigned> idx; unsigned n=0; bool repo=false; string dem; uint64_t entered=0; };
static std::unordered_map<const Function*,FnInfo*> FI;
static std::map<uint64_t,Function*> fnByAddr; static std::unordered_map<const Function*,uint64_t> fnAddr;
static std::unordered_map<const GlobalVariable*,uint64_t> gvAddr;
static std::map<uint64_t,OP> roObjs;

struct Frame { FnInfo*fi; BasicBlock*bb=nullptr,*prev=nullptr; BasicBlock::iterator it; vector<Val> r; vector<uint64_t> allocas; Instruction*call=nullptr; vector<Val> varargs; };
struct Fail2 { string kind,msg; };
struct UFApp { string f; Ex a; Ex b; Ex r; bool two; };
struct SymIn { string name; int kind; /*0 dbl 1 int*/ Val v; };
struct Token { Val v; int fmt; int prec; SP parsed; };
// OpenMP threads of a parallel region: their stacks, what they wait for, and the accesses they made to memory that existed before the region
struct Thr { vector<Frame> st; uint64_t excObj=0,excTI=0; vector<std::pair<uint64_t,uint64_t>> caught; int wait=0; /*0 runs 1 lock 2 barrier 3 iteration 9 done*/ uint64_t lock=0; std::set<uint64_t> locks; int guard=0; };
struct Acc { int thr; bool wr; uint8_t mask; std::set<uint64_t> locks; const Instruction*at; };
struct Par { vector<Thr> t; int cur=0; vector<Frame> parent; uint64_t heap0=0,stack0=0; std::map<uint64_t,vector<Acc>> acc; std::map<uint64_t,int> owner; std::shared_ptr<Val> pend; int64_t dLo=0,dHi=0,dInc=1,dChunk=1; bool dOpen=false; unsigned dUse=0; vector<unsigned> dSeen; std::set<uint64_t> singles; vector<uint64_t> nSingle; };
struct State {
  std::shared_ptr<Par> par,seq; int ompMax=1,ompSet=0; std::map<std::pair<uint64_t,int>,uint64_t> tls;
  std::map<uint64_t,OP> mem; vector<Frame> st; vector<Ex> pc; std::unordered_set<unsigned> pcids;
  std::map<unsigned,std::pair<Ex,Ex>> asg; bool asgOK=true; std::shared_ptr<z3::model> mdl;
  uint64_t heapTop=0x600000000000ULL, stackTop=0x700000000000ULL;
  vector<UFApp> ufs; vector<SymIn> ins; std::map<string,unsigned> nameCnt;
  uint64_t excObj=0,excTI=0; vector<std::pair<uint64_t,uint64_t>> caught; std::map<uint64_t,uint64_t> excType;
  vector<std::pair<string,Val>> obs; vector<Token> toks; std::map<std::pair<unsigned,int>,int> tokIdx; std::map<uint64_t,int> dummy;
  uint64_t steps=0; unsigned depth=0; unsigned fresh=0; bool unwinding=false;
};
static std::deque<State*> work;
static State*S; // current

// ------------------------------------------------------------------ statistics/results
struct Violation { string kind,msg,loc; vector<string> inputs; vector<string> ufs; };
static uint64_t nQueries=0,nCache=0,nSat=0,nUnsat=0,nUnk=0,nObl=0,nDis=0,nOblUnk=0,nPaths=0,nForks=0,nInst=0,nTrivial=0;
static double tSolve=0; static vector<Violation> viol; static std::map<string,uint64_t> incon; static std::map<string,uint64_t> reached;
static vector<string> pathModels; static unsigned maxViol=4; static std::set<string> violKeys; static unsigned wantTraces=0; static std::map<string,uint64_t> oblBy;
static string solverName;

// ------------------------------------------------------------------ solver
static std::unordered_map<unsigned,vector<unsigned>> varCache; static vector<Ex> keepAlive;
static std::unordered_map<unsigned,Ex> varById;
static const vector<unsigned>& varsOf(const Ex&e){
  unsigned id=Z3_get_ast_id(*C,e); auto it=varCache.find(id); if(it!=varCache.end()) return it->second;
  std::set<unsigned> vs; std::unordered_set<unsigned> seen; vector<Ex> stk{e};
  while(!stk.empty()){ Ex x=stk.back(); stk.pop_back(); if(!x.is_app()) continue; unsigned xi=Z3_get_ast_id(*C,x); if(!seen.insert(xi).second) continue;
    if(xi!=id){ auto c=varCache.find(xi); if(c!=varCache.end()){ vs.insert(c->second.begin(),c->second.end()); continue; } }
    unsigned n=x.num_args(); if(n==0){ if(x.decl().decl_kind()==Z3_OP_UNINTERPRETED){ vs.insert(xi); varById.emplace(xi,x);} } for(unsigned i=0;i<n;i++) stk.push_back(x.arg(i)); }
  keepAlive.push_back(e); return varCache[id]=vector<unsigned>(vs.begin(),vs.end());
}
enum R {SAT,UNSAT,UNK};
struct CRes { R r; vector<std::pair<Ex,Ex>> m; };
static std::map<vector<unsigned>,CRes> qcache;
static vector<Ex> slice(const State&st,const vector<Ex>&cond){
  std::unordered_set<unsigned> vs; for(auto&c:cond) for(auto v:varsOf(c)) vs.insert(v);
  vector<char> in(st.pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<st.pc.size();i++) if(!in[i]){ auto&v=varsOf(st.pc[i]); bool hit=v.empty(); for(auto x:v) if(vs.count(x)){hit=true;break;} if(hit){ in[i]=1; ch=true; for(auto x:v) vs.insert(x);} } }
  vector<Ex> r; for(size_t i=0;i<st.pc.size();i++) if(in[i]) r.push_back(st.pc[i]); return r;
}
static R rawCheck(const vector<Ex>&cs,const vector<unsigned>&vars,vector<std::pair<Ex,Ex>>*m,double ms){
  double t0=now(); R r=UNK; nQueries++;
  double left=(g_deadline-t0)*1000; if(left<200) left=200; if(ms>left) ms=left;
  try{
    for(int attempt=0;attempt<3&&r==UNK;attempt++){
      z3::solver s = attempt==0? z3::solver(*C) : attempt==1? (REAL? z3::tactic(*C,"qfnra-nlsat").mk_solver(): z3::tactic(*C,"qffp").mk_solver()) : (REAL? (z3::tactic(*C,"simplify")&z3::tactic(*C,"solve-eqs")&z3::tactic(*C,"smt")).mk_solver() : z3::solver(*C,z3::solver::simple()));
      z3::params p(*C); p.set("timeout",(unsigned)(attempt==0?ms*0.5:ms*0.25)); try{ s.set(p);}catch(z3::exception&){}
      for(auto&c:cs) s.add(c);
      z3::check_result cr; try{ cr=s.check(); }catch(z3::exception&e){ cr=z3::unknown; }
      if(cr==z3::sat){ r=SAT; if(m){ z3::model mo=s.get_model(); m->clear(); for(auto v:vars){ Ex x=varById.at(v); Ex val=mo.eval(x,true); m->push_back({x,val}); } } }
      else if(cr==z3::unsat) r=UNSAT;
      if(now()>g_deadline) break;
    }
  }catch(z3::exception&e){ r=UNK; }
  tSolve+=now()-t0; if(r==SAT) nSat++; else if(r==UNSAT) nUnsat++; else nUnk++;
  return r;
}
static string locOf(State&st);
static R query(State&st,const vector<Ex>&cond,vector<std::pair<Ex,Ex>>*m,double ms=0){
  if(ms<=0) ms=g_qtime_ms;
  vector<Ex> cs=slice(st,cond); for(auto&c:cond) cs.push_back(c);
  vector<unsigned> key; for(auto&c:cs) key.push_back(Z3_get_ast_id(*C,c)); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  auto it=qcache.find(key); if(it!=qcache.end()){ nCache++; if(m) *m=it->second.m; return it->second.r; }
  std::set<unsigned> vs; for(auto&c:cs){ for(auto v:varsOf(c)) vs.insert(v); keepAlive.push_back(c);} 
  vector<unsigned> vars(vs.begin(),vs.end()); CRes cr; double q0=now(); cr.r=rawCheck(cs,vars,&cr.m,ms); static const char*slow=getenv("RSYM_SLOW"); if(slow&&now()-q0>atof(slow)){ fprintf(stderr,"SLOW %.1fs res=%d n=%zu vars=%zu %s\n",now()-q0,(int)cr.r,cs.size(),vars.size(),locOf(st).c_str()); if(getenv("RSYM_SLOWQ")){ for(auto&c:cs) fprintf(stderr,"   %s\n",Z3_ast_to_string(*C,c)); } } if(cr.r!=UNK||true) qcache[key]=cr; if(m) *m=cr.m; return cr.r;
}
static void setAsg(State&st,const vector<std::pair<Ex,Ex>>&m){ for(auto&p:m){ unsigned id=Z3_get_ast_id(*C,p.first); auto it=st.asg.find(id); if(it!=st.asg.end()) it->second=p; else st.asg.emplace(id,p);} st.mdl.reset(); }
static z3::model& modelOf(State&st){ if(!st.mdl){ st.mdl=std::make_shared<z3::model>(*C); 
    for(auto&kv:st.asg){ z3::func_decl d=kv.second.first.decl(); Ex v=kv.second.second; st.mdl->add_const_interp(d,v);} } return *st.mdl; }
static int evalB(State&st,const Ex&e){ // 1 true 0 false -1 unknown
  if(!st.asgOK) return -1; try{ Ex r=modelOf(st).eval(e,true); if(r.is_true()) return 1; if(r.is_false()) return 0; r=r.simplify(); if(r.is_true()) return 1; if(r.is_false()) return 0; }catch(z3::exception&){} return -1; }
static void complete(State&st,const Ex&e){ // give explicit values to variables not yet assigned
  for(auto v:varsOf(e)) if(!st.asg.count(v)){ Ex x=varById.at(v); Ex val=modelOf(st).eval(x,true); st.asg.emplace(v,std::make_pair(x,val)); } }
static void addPC(State&st,const Ex&e){ if(e.is_true()) return; unsigned id=Z3_get_ast_id(*C,e); if(st.pcids.insert(id).second){ st.pc.push_back(e); keepAlive.push_back(e);} }
// add a constraint that must hold; kills the path if infeasible
static void assumeEx(State&st,const Ex&e0){
  Ex e=e0.simplify(); if(e.is_true()) return; if(e.is_false()) throw PathEnd{"assume"};
  if(e.decl().decl_kind()==Z3_OP_AND){ // split conjunctions for better slicing
    if(evalB(st,e)==1){ complete(st,e); for(unsigned i=0;i<e.num_args();i++) addPC(st,e.arg(i)); return; } }
  if(st.pcids.count(Z3_get_ast_id(*C,e))) return;
  if(evalB(st,e)==1){ complete(st,e); addPC(st,e); return; }
  vector<std::pair<Ex,Ex>> m; R r=query(st,{e},&m);
  if(r==UNSAT) throw PathEnd{"assume"};
  if(r==SAT){ setAsg(st,m); } else st.asgOK=false;
  if(e.decl().decl_kind()==Z3_OP_AND) for(unsigned i=0;i<e.num_args();i++) addPC(st,e.arg(i)); else addPC(st,e);
}
static State* clone(State&st){ State*n=new State(st); if(st.par) n->par=std::make_shared<Par>(*st.par); if(st.seq) n->seq=std::make_shared<Par>(*st.seq); n->mdl.reset(); n->depth++; nForks++; for(auto&kv:n->mem) (void)kv; return n; }
// decide a symbolic condition for the current state, forking the other side (which re-executes the current instruction)
static bool branch(State&st,const Ex&c0){
  Ex c=c0.simplify(); if(c.is_true()) return true; if(c.is_false()) return false;
  Ex nc=Not(c); unsigned id=Z3_get_ast_id(*C,c), nid=Z3_get_ast_id(*C,nc);
  if(st.pcids.count(id)) return true; if(st.pcids.count(nid)) return false;
  int ev=evalB(st,c); vector<std::pair<Ex,Ex>> m;
  if(ev>=0){ bool side=ev==1; Ex other=side?nc:c, mine=side?c:nc; complete(st,c);
    R r=query(st,{other},&m); if(r==UNSAT){ keepAlive.push_back(mine); st.pcids.insert(Z3_get_ast_id(*C,mine)); return side; }
    State*n=clone(st); if(r==SAT) setAsg(*n,m); else n->asgOK=false; addPC(*n,other); work.push_back(n); addPC(st,mine); return side; }
  vector<std::pair<Ex,Ex>> m2; R rt=query(st,{c},&m), rf=query(st,{nc},&m2);
  if(rt==UNSAT&&rf==UNSAT) throw PathEnd{"infeasible"};
  if(rf==UNSAT){ if(rt==SAT){ setAsg(st,m);} addPC(st,c); return true; }
  if(rt==UNSAT){ if(rf==SAT){ setAsg(st,m2);} addPC(st,nc); return false; }
  State*n=clone(st); if(rf==SAT){ setAsg(*n,m2);} addPC(*n,nc); work.push_back(n);
  if(rt==SAT){ setAsg(st,m);} addPC(st,c); return true;
}
static bool truth(State&st,const Val&v){ if(v.k==Val::INT) return v.i&1; if(v.k==Val::UNDEF) return false; if(v.k==Val::SINT){ if(v.w==1) return branch(st,v.s->e); return branch(st,v.s->e!=C->bv_val(0,v.w)); } unsup("truth"); }
static bool exprDouble(const Ex&v0,double*out){ Ex v=v0; try{
  if(v.is_fpa()){ if(Z3_fpa_is_numeral_nan(*C,v)){ *out=NAN; return true;} Ex b=fpToBits(v).simplify(); uint64_t u; if(!Z3_get_numeral_uint64(*C,b,&u)) return false; memcpy(out,&u,8); return true; }
  if(!v.is_numeral()&&!v.is_algebraic()) v=v.simplify();
  if(v.is_numeral()||v.is_algebraic()){ string s=Z3_get_numeral_decimal_string(*C,v,60); if(!s.empty()&&s.back()=='?') s.pop_back(); *out=strtod(s.c_str(),nullptr); return true; } }catch(z3::exception&){} return false; }
static bool valueOf(State&st,const Val&v,double*d,uint64_t*u){ // under current assignment
  if(v.k==Val::INT){ *u=v.i; return true;} if(v.k==Val::DBL){ *d=v.d; return true; } if(!v.sym()||!st.asgOK) return false;
  try{ Ex r=modelOf(st).eval(v.s->e,true).simplify(); if(v.k==Val::SDBL) return exprDouble(r,d); if(v.w==1){ *u=r.is_true(); return true;} return Z3_get_numeral_uint64(*C,r,u); }catch(z3::exception&){ return false; } }
static uint64_t concretize(State&st,const Val&v0){ Val v=v0; if(v.k==Val::INT) return v.i; if(v.k==Val::UNDEF) return 0; if(v.k==Val::DBL||v.k==Val::SDBL) v=bitsOf(v); if(v.k==Val::INT) return v.i;
  if(v.k!=Val::SINT) unsup("concretize"); if(v.w==1) return truth(st,v);
  for(int n=0;n<4096;n++){ uint64_t u; double d; if(!valueOf(st,v,&d,&u)){ // need a model
      vector<std::pair<Ex,Ex>> m; Ex t=(v.s->e==v.s->e); R r=query(st,{C->bv_const("!cz",v.w)==v.s->e},&m); if(r==UNSAT) throw PathEnd{"infeasible"}; if(r!=SAT) unsup("cannot concretize (solver unknown)"); z3::model mo(*C); for(auto&p:m){ z3::func_decl dd=p.first.decl(); Ex vv=p.second; mo.add_const_interp(dd,vv);} Ex rr=mo.eval(v.s->e,true).simplify(); if(!Z3_get_numeral_uint64(*C,rr,&u)) unsup("concretize"); }
    if(branch(st,v.s->e==C->bv_val(u,v.w))) return u; }
  unsup("concretize: too many values"); }

// ------------------------------------------------------------------ reporting
static string esc(const string&s){ string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c;} return o; }
static string locOf(State&st){ string out; int n=0; for(auto it=st.st.rbegin();it!=st.st.rend()&&n<6;++it){ if(it->bb==nullptr) continue; auto i=it->it; if(i==it->bb->end()) continue; if(auto dl=i->getDebugLoc()){ const DILocation*L=dl.get(); string f=L->getFilename().str(); auto p=f.rfind('/'); if(p!=string::npos) f=f.substr(p+1); if(n) out+=" < "; out+=f+":"+std::to_string(L->getLine()); n++; if(const DILocation*IA=L->getInlinedAt()){ string g=IA->getFilename().str(); auto q=g.rfind('/'); if(q!=string::npos) g=g.substr(q+1); out+=" < "+g+":"+std::to_string(IA->getLine()); n++; } } } return out; }
static vector<string> dumpInputs(State&st,const std::map<unsigned,std::pair<Ex,Ex>>&asg){
  z3::model mo(*C); for(auto&kv:asg){ z3::func_decl d=kv.second.first.decl(); Ex v=kv.second.second; mo.add_const_interp(d,v);} 
  vector<string> out; for(auto&in:st.ins){ char b[256]; if(in.kind==0){ double d=0; if(in.v.k==Val::DBL) d=in.v.d; else exprDouble(mo.eval(in.v.s->e,true).simplify(),&d); uint64_t u; memcpy(&u,&d,8); snprintf(b,256,"d %s %016llx %.17g",in.name.c_str(),(unsigned long long)u,d);} else { uint64_t u=0; if(in.v.k==Val::INT) u=in.v.i; else { Ex r=mo.eval(in.v.s->e,true).simplify(); if(in.v.w==1) u=r.is_true(); else Z3_get_numeral_uint64(*C,r,&u);} snprintf(b,256,"i %s %lld",in.name.c_str(),(long long)sx(u,in.v.w)); } out.push_back(b);} 
  return out; }
static void report(State&st,const string&kind,const string&msg,const std::map<unsigned,std::pair<Ex,Ex>>&asg){
  string loc=locOf(st); string key=kind+"|"+msg; 
  Violation v; v.kind=kind; v.msg=msg; v.loc=loc; v.inputs=dumpInputs(st,asg);
  unsigned same=0; for(auto&x:viol) if(x.kind+"|"+x.msg==key) same++; if(same>=maxViol) return; viol.push_back(v);
}
static void reportHere(State&st,const string&kind,const string&msg){
  if(!st.asgOK){ vector<std::pair<Ex,Ex>> m; vector<Ex> cs=st.pc; std::set<unsigned> vs; for(auto&c:cs) for(auto v:varsOf(c)) vs.insert(v); R r=rawCheck(cs,vector<unsigned>(vs.begin(),vs.end()),&m,g_qtime_ms); if(r==UNSAT) return; if(r!=SAT){ incon["possible "+kind+": "+msg+" (path feasibility unknown)"]++; return;} setAsg(st,m); st.asgOK=true; }
  report(st,kind,msg,st.asg); }
struct Fail { string kind,msg; };
[[noreturn]] static void fail(const string&k,const string&m){ throw Fail{k,m}; }

// ------------------------------------------------------------------ races between the threads of a parallel region
static string locOfInst(const Instruction*i){ if(i) if(auto dl=i->getDebugLoc()){ const DILocation*L=dl.get(); string f=L->getFilename().str(); auto p=f.rfind('/'); if(p!=string::npos) f=f.substr(p+1); return f+":"+std::to_string(L->getLine()); } return "?"; }
static std::set<uint64_t> tlsOriginals;
static void logAcc(State&st,uint64_t a,uint64_t n,bool wr,const Obj&o){
  Par&p=*st.par; Thr&t=p.t[p.cur]; if((t.guard&255)||a>=p.stack0||(a>=p.heap0&&a<0x700000000000ULL)||o.ro) return;
  if(o.kind==0&&(o.name.compare(0,3,"vf_")==0||o.name.compare(0,4,"_ZGV")==0||o.name.find("vf_")!=string::npos)) return;
  if(tlsOriginals.count(o.base)) return;
  for(auto&kv:st.tls) if(kv.second==o.base) return;
  const Instruction*at=&*st.st.back().it; uint64_t e=a+n;
  for(uint64_t g=a&~7ULL;g<e;g+=8){ uint8_t m=0; for(int k=0;k<8;k++) if(g+k>=a&&g+k<e) m|=1<<k; auto&v=p.acc[g]; bool dup=false;
    for(auto&r:v){ if(r.thr==p.cur){ if(r.wr==wr&&r.mask==m&&r.locks==t.locks) dup=true; continue; }
      if(!(r.mask&m)||(!wr&&!r.wr)) continue; bool common=false; for(auto l:r.locks) if(t.locks.count(l)) common=true; if(common) continue;
      throw Fail2{"race",string("threads of a parallel region ")+(wr?"write":"read")+" and "+(r.wr?"write":"read")+" the same memory without a common lock ("+locOfInst(at)+" and "+locOfInst(r.at)+", "+(o.kind==0?llvm::demangle(o.name):o.name)+")"}; }
    if(!dup) v.push_back(Acc{p.cur,wr,m,t.locks,at}); } }
// ------------------------------------------------------------------ memory access
static uint64_t allocObj(State&st,uint64_t size,uint8_t kind,const string&name,int fill=0xCB){
  auto o=std::make_shared<Obj>(); uint64_t&top= kind==2? st.stackTop: st.heapTop; o->base=top; o->size=size; o->b.assign(size,(uint8_t)fill); o->kind=kind; o->name=name; top+=((size+15)/16)*16+64; st.mem[o->base]=o; return o->base; }
static OP* findObj(State&st,uint64_t a){ auto it=st.mem.upper_bound(a); if(it!=st.mem.begin()){ --it; if(a<it->second->base+std::max<uint64_t>(it->second->size,1)) return &it->second; } auto jt=roObjs.upper_bound(a); if(jt!=roObjs.begin()){ --jt; if(a<jt->second->base+std::max<uint64_t>(jt->second->size,1)) return &jt->second; } return nullptr; }
static bool atomicAcc=false;
struct AtomicScope { bool on; AtomicScope(bool b=true):on(b){ if(on) atomicAcc=true; } ~AtomicScope(){ if(on) atomicAcc=false; } };
static OP* access(State&st,uint64_t a,uint64_t n,bool wr){
  OP*o=findObj(st,a); if(!o){ char b[128]; snprintf(b,128,"%s of %llu bytes at invalid address %s",wr?"write":"read",(unsigned long long)n,a<4096?"(null)":"(outside every object)"); fail("memory",b);} 
  Obj&ob=**o; if(ob.freed) fail("memory",string(wr?"write to":"read of")+" freed memory "+ob.name); if(a+n>ob.base+ob.size){ char b[200]; snprintf(b,200,"%s of %llu bytes at offset %llu of an object of %llu bytes",wr?"write":"read",(unsigned long long)n,(unsigned long long)(a-ob.base),(unsigned long long)ob.size); fail("memory",b);} 
  if(st.par&&!atomicAcc) logAcc(st,a,n,wr,ob);
  if(wr){ if(ob.ro) fail("memory","write to read-only "+ob.name); if(o->use_count()>1){ *o=std::make_shared<Obj>(ob); } }
  return o; }
static Val byteOf(const Cell&c,unsigned k){ // k-th byte of a cell value
  Val v=c.v; if(v.k==Val::DBL||v.k==Val::SDBL) v=bitsOf(v); if(v.k==Val::INT) return Val::I((v.i>>(8*k))&255,8); if(v.k==Val::SINT){ if(v.w==1) return k==0? mkI(toBV(v,8),8):Val::I(0,8); unsigned hi=8*k+7; if(hi>=v.w){ unsigned lo=8*k; if(lo>=v.w) return Val::I(0,8); return mkI(z3::zext(v.s->e.extract(v.w-1,lo),8-(v.w-lo)),8);} return mkI(v.s->e.extract(hi,8*k),8);} if(v.k==Val::UNDEF) return Val::I(0,8); unsup("byteOf"); }
static void splitCells(Obj&o,uint64_t off,uint64_t n){ // remove cells overlapping [off,off+n), keeping outside bytes
  if(o.cells.empty()) return; auto it=o.cells.lower_bound(off>=16?off-16:0); vector<std::pair<uint64_t,Cell>> re;
  while(it!=o.cells.end()&&it->first<off+n){ uint64_t s=it->first,e=s+it->second.n; if(e<=off){ ++it; continue;} 
    if(s<off||e>off+n){ for(uint64_t p=s;p<e;p++) if(p<off||p>=off+n) re.push_back({p,Cell{byteOf(it->second,p-s),1}}); }
    it=o.cells.erase(it); }
  for(auto&x:re){ if(x.second.v.k==Val::INT) o.b[x.first]=(uint8_t)x.second.v.i; else o.cells[x.first]=x.second; } }
static void storeBytes(State&st,uint64_t a,const Val&v,unsigned n){
  OP*op=access(st,a,n,true); Obj&o=**op; uint64_t off=a-o.base; splitCells(o,off,n);
  if(v.k==Val::INT){ uint64_t x=v.i; for(unsigned i=0;i<n;i++) o.b[off+i]= i<8? (uint8_t)(x>>(8*i)):0; return; }
  if(v.k==Val::DBL){ if(n==4){ float f=(float)v.d; memcpy(&o.b[off],&f,4);} else memcpy(&o.b[off],&v.d,8); return; }
  if(v.k==Val::UNDEF){ for(unsigned i=0;i<n;i++) o.b[off+i]=0xCB; return; }
  o.cells[off]=Cell{v,n}; }
static Val loadBytes(State&st,uint64_t a,unsigned n,unsigned bits){ // integer-typed load of n bytes
  OP*op=access(st,a,n,false); Obj&o=**op; uint64_t off=a-o.base; bool any=false; 
  if(!o.cells.empty()){ auto it=o.cells.lower_bound(off>=16?off-16:0); while(it!=o.cells.end()&&it->first<off+n){ if(it->first+it->second.n>off){ any=true; if(it->first==off&&it->second.n==n){ const Val&v=it->second.v; if(v.k==Val::SINT&&v.w!=bits){ if(bits<v.w) { if(bits==1) return mkB(toBV(v,v.w).extract(0,0)==C->bv_val(1,1)); return mkI(toBV(v,v.w).extract(bits-1,0),bits);} if(v.w==1) return mkI(toBV(v,bits),bits); return mkI(z3::zext(v.s->e,bits-v.w),bits);} return v; } } ++it; } }
  if(!any){ uint64_t x=0; if(n>8) unsup("wide load"); for(unsigned i=0;i<n;i++) x|=(uint64_t)o.b[off+i]<<(8*i); return Val::I(x,bits); }
  // mixed
  vector<Val> bs; for(unsigned i=0;i<n;i++){ uint64_t p=off+i; auto it=o.cells.upper_bound(p); Val bv=Val::I(o.b[p],8); if(it!=o.cells.begin()){ --it; if(it->first+it->second.n>p) bv=byteOf(it->second,p-it->first);} bs.push_back(bv);} 
  Ex e=toBV(bs[n-1],8); for(int i=(int)n-2;i>=0;i--) e=z3::concat(e,toBV(bs[i],8)); if(bits<8*n){ if(bits==1) return mkB(e.extract(0,0)==C->bv_val(1,1)); e=e.extract(bits-1,0);} return mkI(e,bits); }
static Val loadTy(State&st,uint64_t a,Type*t){
  if(t->isIntegerTy()){ unsigned w=t->getIntegerBitWidth(); unsigned n=(w+7)/8; if(w>64){ unsigned k=(w+63)/64; vector<Val> ps; for(unsigned i=0;i<k;i++) ps.push_back(loadBytes(st,a+8*i,8,64)); Val r=Val::A(ps); r.w=w; return r; } Val v=loadBytes(st,a,n,w); return v; }
  if(t->isPointerTy()) return loadBytes(st,a,8,64);
  if(t->isDoubleTy()) return asDbl(loadBytes(st,a,8,64));
  if(t->isFloatTy()){ Val v=loadBytes(st,a,4,32); if(v.k==Val::SINT) unsup("symbolic float"); return asDbl(v);} 
  if(t->isStructTy()){ auto*s=cast<StructType>(t); auto*L=DL->getStructLayout(s); vector<Val> r; for(unsigned i=0;i<s->getNumElements();i++) r.push_back(loadTy(st,a+L->getElementOffset(i),s->getElementType(i))); return Val::A(r);} 
  if(t->isArrayTy()){ vector<Val> r; uint64_t n=t->getArrayNumElements(), es=DL->getTypeAllocSize(t->getArrayElementType()); for(uint64_t i=0;i<n;i++) r.push_back(loadTy(st,a+i*es,t->getArrayElementType())); return Val::A(r);} 
  if(auto*vt=dyn_cast<FixedVectorType>(t)){ vector<Val> r; uint64_t es=DL->getTypeStoreSize(vt->getElementType()); if(vt->getElementType()->isIntegerTy(1)) unsup("vector of i1 load"); for(unsigned i=0;i<vt->getNumElements();i++) r.push_back(loadTy(st,a+i*es,vt->getElementType())); return Val::A(r);} 
  unsup("load type"); }
static void storeTy(State&st,uint64_t a,const Val&v,Type*t){
  if(t->isIntegerTy()){ unsigned w=t->getIntegerBitWidth(); if(w>64){ for(unsigned i=0;i<v.agg->size();i++) storeBytes(st,a+8*i,(*v.agg)[i],8); return; } unsigned n=(w+7)/8; Val x=v; if(w==1&&v.k==Val::SINT) x=Val::SI(toBV(v,8),8); storeBytes(st,a,x,n); return; }
  if(t->isPointerTy()){ storeBytes(st,a,v,8); return; }
  if(t->isDoubleTy()){ storeBytes(st,a,v,8); return; }
  if(t->isFloatTy()){ Val x=v; if(x.k==Val::DBL) x.w=32; storeBytes(st,a,x,4); return; }
  if(v.k==Val::UNDEF) return;
  if(t->isStructTy()){ auto*s=cast<StructType>(t); auto*L=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) storeTy(st,a+L->getElementOffset(i),(*v.agg)[i],s->getElementType(i)); return; }
  if(t->isArrayTy()){ uint64_t n=t->getArrayNumElements(), es=DL->getTypeAllocSize(t->getArrayElementType()); for(uint64_t i=0;i<n;i++) storeTy(st,a+i*es,(*v.agg)[i],t->getArrayElementType()); return; }
  if(auto*vt=dyn_cast<FixedVectorType>(t)){ uint64_t es=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++) storeTy(st,a+i*es,(*v.agg)[i],vt->getElementType()); return; }
  unsup("store type"); }
static uint64_t resolve(State&st,const Val&p,uint64_t n){ // symbolic address -> concrete (forking)
  if(p.k==Val::INT) return p.i; if(p.k==Val::UNDEF) return 0; if(p.k!=Val::SINT) unsup("address kind");
  uint64_t u; double d; if(valueOf(st,p,&d,&u)){ OP*o=findObj(st,u); if(o){ uint64_t b=(*o)->base,e=b+(*o)->size; Ex inb=z3::uge(p.s->e,C->bv_val(b,64))&&z3::ule(p.s->e,C->bv_val(e>=n?e-n:e,64)); if(!branch(st,inb)) return concretize(st,p); } else { // outside everything: report once
      addPC(st,p.s->e==C->bv_val(u,64)); return u; } }
  return concretize(st,p); }
static void copyMem(State&st,uint64_t d,uint64_t s,uint64_t n){ if(!n) return; OP so=*access(st,s,n,false); uint64_t so_off=s-so->base; vector<uint8_t> tmp(so->b.begin()+so_off,so->b.begin()+so_off+n); vector<std::pair<uint64_t,Cell>> cs; 
  if(!so->cells.empty()){ auto it=so->cells.lower_bound(so_off>=16?so_off-16:0); for(;it!=so->cells.end()&&it->first<so_off+n;++it){ uint64_t b=it->first,e=b+it->second.n; if(e<=so_off) continue; if(b>=so_off&&e<=so_off+n) cs.push_back({b-so_off,it->second}); else for(uint64_t p=b;p<e;p++) if(p>=so_off&&p<so_off+n){ cs.push_back({p-so_off,Cell{byteOf(it->second,p-b),1}}); } } }
  OP*dop=access(st,d,n,true); Obj&o=**dop; uint64_t off=d-o.base; splitCells(o,off,n); memcpy(&o.b[off],tmp.data(),n); for(auto&c:cs){ if(c.second.v.k==Val::INT) for(unsigned k=0;k<c.second.n;k++) o.b[off+c.first+k]=(uint8_t)(c.second.v.i>>(8*k)); else o.cells[off+c.first]=c.second; } }
static string readStr(State&st,uint64_t a){ string s; for(int i=0;i<100000;i++){ Val v=loadBytes(st,a+i,1,8); uint64_t c=concretize(st,v); if(!c) return s; s+=(char)c; } unsup("long string"); }
static void writeStr(State&st,uint64_t a,const string&s,bool nul=true){ for(size_t i=0;i<s.size();i++) storeBytes(st,a+i,Val::I((uint8_t)s[i],8),1); if(nul) storeBytes(st,a+s.size(),Val::I(0,8),1); }

// ------------------------------------------------------------------ constants
static std::unordered_map<const Constant*,Val> constCache;
static FnInfo* info(Function*F){ auto it=FI.find(F); if(it!=FI.end()) return it->second; auto*fi=new FnInfo; fi->F=F; for(auto&A:F->args()) fi->idx[&A]=fi->n++; for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()) fi->idx[&I]=fi->n++; fi->dem=llvm::demangle(F->getName().str()); if(auto*sp=F->getSubprogram()){ string f=sp->getFilename().str(); string dir=sp->getDirectory().str(); if(!f.empty()&&f[0]!='/') f=dir+"/"+f; fi->repo= f.find("/repo/src")!=string::npos|| f.find("/../repo/")!=string::npos; const char*rp=getenv("RSYM_REPO"); if(rp&&f.find(rp)!=string::npos) fi->repo=true; } FI[F]=fi; return fi; }
static Val cval(const Constant*c);
static Val gepConst(const GEPOperator*g){ Val b=cval(cast<Constant>(g->getPointerOperand())); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) unsup("gep const"); return Val::P(b.i+off.getSExtValue()); }
static Val zeroOf(Type*t){ if(t->isIntegerTy()){ unsigned w=t->getIntegerBitWidth(); if(w>64){ vector<Val> p((w+63)/64,Val::I(0,64)); Val r=Val::A(p); r.w=w; return r;} return Val::I(0,w);} if(t->isPointerTy()) return Val::P(0); if(t->isDoubleTy()) return Val::D(0); if(t->isFloatTy()) return Val::D(0,32); if(t->isStructTy()){ vector<Val> r; for(unsigned i=0;i<t->getStructNumElements();i++) r.push_back(zeroOf(t->getStructElementType(i))); return Val::A(r);} if(t->isArrayTy()){ vector<Val> r; for(uint64_t i=0;i<t->getArrayNumElements();i++) r.push_back(zeroOf(t->getArrayElementType())); return Val::A(r);} if(auto*v=dyn_cast<FixedVectorType>(t)){ vector<Val> r; for(unsigned i=0;i<v->getNumElements();i++) r.push_back(zeroOf(v->getElementType())); return Val::A(r);} unsup("zero type"); }
static Val cval(const Constant*c){
  auto it=constCache.find(c); if(it!=constCache.end()) return it->second; Val r;
  if(auto*ci=dyn_cast<ConstantInt>(c)){ unsigned w=ci->getBitWidth(); if(w>64){ vector<Val> p; for(unsigned i=0;i<(w+63)/64;i++) p.push_back(Val::I(ci->getValue().extractBitsAsZExtValue(std::min(64u,w-64*i),64*i),64)); r=Val::A(p); r.w=w;} else r=Val::I(ci->getZExtValue(),w);} 
  else if(auto*cf=dyn_cast<ConstantFP>(c)){ if(cf->getType()->isFloatTy()) r=Val::D(cf->getValueAPF().convertToFloat(),32); else if(cf->getType()->isDoubleTy()) r=Val::D(cf->getValueAPF().convertToDouble()); else unsup("fp const type"); }
  else if(isa<ConstantPointerNull>(c)) r=Val::P(0);
  else if(isa<UndefValue>(c)){ r=Val(); Type*t=c->getType(); if(t->isIntegerTy()||t->isPointerTy()||t->isDoubleTy()||t->isFloatTy()) r=zeroOf(t); else { r=zeroOf(t);} }
  else if(isa<ConstantAggregateZero>(c)) r=zeroOf(c->getType());
  else if(auto*f=dyn_cast<Function>(c)){ r=Val::P(fnAddr.at(f)); }
  else if(auto*g=dyn_cast<GlobalVariable>(c)){ r=Val::P(gvAddr.at(g)); }
  else if(auto*a=dyn_cast<GlobalAlias>(c)) r=cval(a->getAliasee());
  else if(auto*ca=dyn_cast<ConstantDataSequential>(c)){ vector<Val> v; for(unsigned i=0;i<ca->getNumElements();i++) v.push_back(cval(ca->getElementAsConstant(i))); r=Val::A(v);} 
  else if(isa<ConstantStruct>(c)||isa<ConstantArray>(c)||isa<ConstantVector>(c)){ vector<Val> v; for(unsigned i=0;i<c->getNumOperands();i++) v.push_back(cval(cast<Constant>(c->getOperand(i)))); r=Val::A(v);} 
  else if(auto*ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: r=gepConst(cast<GEPOperator>(ce)); break;
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: r=cval(ce->getOperand(0)); if(r.k==Val::INT) r.w=64; break;
      case Instruction::PtrToInt: r=cval(ce->getOperand(0)); r=Val::I(r.i,ce->getType()->getIntegerBitWidth()); break;
      case Instruction::Trunc: r=cval(ce->getOperand(0)); r=Val::I(r.i,ce->getType()->getIntegerBitWidth()); break;
      case Instruction::Sub: r=Val::I(cval(ce->getOperand(0)).i-cval(ce->getOperand(1)).i,ce->getType()->getIntegerBitWidth()); break;
      case Instruction::Add: r=Val::I(cval(ce->getOperand(0)).i+cval(ce->getOperand(1)).i,ce->getType()->getIntegerBitWidth()); break;
      case Instruction::ICmp: { uint64_t a=cval(ce->getOperand(0)).i,b=cval(ce->getOperand(1)).i; auto p=ce->getPredicate(); if(p==CmpInst::ICMP_EQ) r=Val::I(a==b,1); else if(p==CmpInst::ICMP_NE) r=Val::I(a!=b,1); else unsup("ce icmp"); break; }
      default: { string s; raw_string_ostream os(s); ce->print(os); unsup("constexpr "+s); } } }
  else { string s; raw_string_ostream os(s); c->print(os); unsup("constant "+s); }
  constCache[c]=r; return r; }
static void storeConst(State&st,uint64_t a,const Constant*c){ Type*t=c->getType(); if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) return; 
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ OP*o=access(st,a,DL->getTypeStoreSize(t),true); StringRef raw=cd->getRawDataValues(); memcpy(&(*o)->b[a-(*o)->base],raw.data(),raw.size()); return; }
  if(isa<ConstantStruct>(c)){ auto*L=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<c->getNumOperands();i++) storeConst(st,a+L->getElementOffset(i),cast<Constant>(c->getOperand(i))); return; }
  if(isa<ConstantArray>(c)){ uint64_t es=DL->getTypeAllocSize(t->getArrayElementType()); for(unsigned i=0;i<c->getNumOperands();i++) storeConst(st,a+i*es,cast<Constant>(c->getOperand(i))); return; }
  storeTy(st,a,cval(c),t); }

// ------------------------------------------------------------------ arithmetic
static inline Val& reg(State&st,const Value*v){ Frame&f=st.st.back(); return f.r[f.fi->idx.at(v)]; }
// every thread but the first has its own copies of the thread_local variables
static Val tlsCopy(State&st,const GlobalVariable*g){ auto key=std::make_pair(gvAddr.at(g),st.par->cur); auto it=st.tls.find(key); if(it!=st.tls.end()) return Val::P(it->second); AtomicScope as; uint64_t p=allocObj(st,std::max<uint64_t>(1,DL->getTypeAllocSize(g->getValueType())),1,"thread_local",0); st.tls[key]=p; if(g->hasInitializer()) storeConst(st,p,g->getInitializer()); return Val::P(p); }
static Val get(State&st,const Value*v){ if(auto*c=dyn_cast<Constant>(v)){ if(st.par&&st.par->cur) if(auto*g=dyn_cast<GlobalVariable>(c)) if(g->isThreadLocal()) return tlsCopy(st,g); return cval(c); } if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return Val::I(0,64); return reg(st,v); }

static Val ibin(State&st,unsigned op,const Val&a0,const Val&b0,unsigned w){
  Val a=a0,b=b0; if(a.k==Val::AGG||b.k==Val::AGG){ if(w<=64) unsup("vector int op");
    // wide integers: only concrete 128-bit
    unsigned __int128 x=0,y=0; for(int i=1;i>=0;i--){ if((*a.agg)[i].k!=Val::INT||(*b.agg)[i].k!=Val::INT) unsup("symbolic wide int"); x=(x<<64)|(*a.agg)[i].i; y=(y<<64)|(*b.agg)[i].i; }
    unsigned __int128 r; switch(op){ case Instruction::Add:r=x+y;break; case Instruction::Sub:r=x-y;break; case Instruction::Mul:r=x*y;break; case Instruction::And:r=x&y;break; case Instruction::Or:r=x|y;break; case Instruction::Xor:r=x^y;break; case Instruction::Shl:r=x<<(unsigned)y;break; case Instruction::LShr:r=x>>(unsigned)y;break; case Instruction::UDiv:r=x/y;break; case Instruction::URem:r=x%y;break; default: unsup("wide op"); }
    Val rr=Val::A({Val::I((uint64_t)r,64),Val::I((uint64_t)(r>>64),64)}); rr.w=w; return rr; }
  if(a.k==Val::DBL||a.k==Val::SDBL){ // fabs/neg idioms on bit patterns
    a=bitsOf(a);} if(b.k==Val::DBL||b.k==Val::SDBL) b=bitsOf(b);
  if(a.k==Val::UNDEF) a=Val::I(0,w); if(b.k==Val::UNDEF) b=Val::I(0,w);
  if(a.k==Val::INT&&b.k==Val::INT){ uint64_t x=a.i,y=b.i; int64_t sxx=sx(x,w),sy=sx(y,w); uint64_t r=0;
    switch(op){ case Instruction::Add:r=x+y;break; case Instruction::Sub:r=x-y;break; case Instruction::Mul:r=x*y;break; case Instruction::UDiv: if(!y) fail("arith","division by zero"); r=x/y;break; case Instruction::URem: if(!y) fail("arith","division by zero"); r=x%y;break; case Instruction::SDiv: if(!sy) fail("arith","division by zero"); if(sy==-1) r=-x; else r=sxx/sy;break; case Instruction::SRem: if(!sy) fail("arith","division by zero"); if(sy==-1) r=0; else r=sxx%sy;break; case Instruction::And:r=x&y;break; case Instruction::Or:r=x|y;break; case Instruction::Xor:r=x^y;break; case Instruction::Shl:r= y>=64?0:x<<y;break; case Instruction::LShr:r= y>=64?0:x>>y;break; case Instruction::AShr:r= sxx>>(y>=63?63:y);break; default: unsup("ibin"); }
    return Val::I(r,w); }
  if(w==1){ Ex x=toBool(a),y=toBool(b); switch(op){ case Instruction::And:return mkB(x&&y); case Instruction::Or:return mkB(x||y); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: if(b.k==Val::INT&&b.i==1) return mkB(!x); return mkB(x!=y); case Instruction::Mul: return mkB(x&&y); default: unsup("i1 op"); } }
  Ex x=toBV(a,w),y=toBV(b,w);
  if(op==Instruction::UDiv||op==Instruction::URem||op==Instruction::SDiv||op==Instruction::SRem){ if(b.k==Val::SINT){ if(branch(st,y==C->bv_val(0,w))) fail("arith","division by zero"); } }
  switch(op){ case Instruction::Add:return mkI(x+y,w); case Instruction::Sub:return mkI(x-y,w); case Instruction::Mul:return mkI(x*y,w); case Instruction::UDiv:return mkI(z3::udiv(x,y),w); case Instruction::URem:return mkI(z3::urem(x,y),w); case Instruction::SDiv:return mkI(x/y,w); case Instruction::SRem:return mkI(z3::srem(x,y),w); case Instruction::And:return mkI(x&y,w); case Instruction::Or:return mkI(x|y,w); case Instruction::Xor:return mkI(x^y,w); case Instruction::Shl:return mkI(z3::shl(x,y),w); case Instruction::LShr:return mkI(z3::lshr(x,y),w); case Instruction::AShr:return mkI(z3::ashr(x,y),w); }
  unsup("ibin"); }
static Val icmp(State&st,CmpInst::Predicate p,const Val&a0,const Val&b0,unsigned w){
  Val a=a0,b=b0; if(a.k==Val::DBL||a.k==Val::SDBL){ a=bitsOf(a);} if(b.k==Val::DBL||b.k==Val::SDBL) b=bitsOf(b); if(a.k==Val::UNDEF) a=Val::I(0,w); if(b.k==Val::UNDEF) b=Val::I(0,w);
  if(a.k==Val::AGG||b.k==Val::AGG) unsup("icmp agg");
  if(a.k==Val::INT&&b.k==Val::INT){ uint64_t x=a.i,y=b.i; int64_t s=sx(x,w),t=sx(y,w); bool r=false; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_SLT:r=s<t;break; case CmpInst::ICMP_SLE:r=s<=t;break; case CmpInst::ICMP_SGT:r=s>t;break; case CmpInst::ICMP_SGE:r=s>=t;break; default: unsup("icmp"); } return Val::I(r,1); }
  if(w==1){ Ex x=toBool(a),y=toBool(b); switch(p){ case CmpInst::ICMP_EQ: return mkB(x==y); case CmpInst::ICMP_NE: return mkB(x!=y); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return mkB(!x&&y); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return mkB(x&&!y); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: return mkB(!x||y); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SLE: return mkB(x||!y); default: unsup("icmp"); } }
  Ex x=toBV(a,w),y=toBV(b,w); switch(p){ case CmpInst::ICMP_EQ:return mkB(x==y); case CmpInst::ICMP_NE:return mkB(x!=y); case CmpInst::ICMP_ULT:return mkB(z3::ult(x,y)); case CmpInst::ICMP_ULE:return mkB(z3::ule(x,y)); case CmpInst::ICMP_UGT:return mkB(z3::ugt(x,y)); case CmpInst::ICMP_UGE:return mkB(z3::uge(x,y)); case CmpInst::ICMP_SLT:return mkB(x<y); case CmpInst::ICMP_SLE:return mkB(x<=y); case CmpInst::ICMP_SGT:return mkB(x>y); case CmpInst::ICMP_SGE:return mkB(x>=y); default: unsup("icmp"); } }
static Val fcmp(CmpInst::Predicate p,const Val&a0,const Val&b0){
  Val a=asDbl(a0),b=asDbl(b0); if(p==CmpInst::FCMP_FALSE) return Val::I(0,1); if(p==CmpInst::FCMP_TRUE) return Val::I(1,1);
  if(a.k==Val::DBL&&b.k==Val::DBL){ double x=a.d,y=b.d; bool un=std::isnan(x)||std::isnan(y),r=false; switch(p){ case CmpInst::FCMP_OEQ:r=!un&&x==y;break; case CmpInst::FCMP_UEQ:r=un||x==y;break; case CmpInst::FCMP_ONE:r=!un&&x!=y;break; case CmpInst::FCMP_UNE:r=un||x!=y;break; case CmpInst::FCMP_OLT:r=!un&&x<y;break; case CmpInst::FCMP_ULT:r=un||x<y;break; case CmpInst::FCMP_OLE:r=!un&&x<=y;break; case CmpInst::FCMP_ULE:r=un||x<=y;break; case CmpInst::FCMP_OGT:r=!un&&x>y;break; case CmpInst::FCMP_UGT:r=un||x>y;break; case CmpInst::FCMP_OGE:r=!un&&x>=y;break; case CmpInst::FCMP_UGE:r=un||x>=y;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; default:break;} return Val::I(r,1);} 
  bool unord=CmpInst::isUnordered(p);
  if(REAL){ // symbolic reals are finite
    if(p==CmpInst::FCMP_ORD||p==CmpInst::FCMP_UNO){ bool nan=(a.k==Val::DBL&&std::isnan(a.d))||(b.k==Val::DBL&&std::isnan(b.d)); return Val::I(p==CmpInst::FCMP_UNO?nan:!nan,1);} 
    for(int side=0;side<2;side++){ const Val&s=side?b:a; if(s.k==Val::DBL&&special(s.d)){ if(std::isnan(s.d)) return Val::I(unord,1); bool big=s.d>0; bool lt= side? big : !big; // a<b ?
        switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return Val::I(0,1); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return Val::I(1,1); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return Val::I(lt,1); default: return Val::I(!lt,1);} } }
    Ex x=toF(a),y=toF(b); switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkB(x==y); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkB(x!=y); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkB(x<y); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkB(x<=y); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkB(x>y); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkB(x>=y); default: unsup("fcmp"); } }
  Ex x=toF(a),y=toF(b); Ex un=C->bool_val(false); auto nan=[&](const Ex&e){ return Ex(*C,Z3_mk_fpa_is_nan(*C,e)); }; un=(a.k==Val::DBL? C->bool_val(std::isnan(a.d)):nan(x))||(b.k==Val::DBL?C->bool_val(std::isnan(b.d)):nan(y));
  auto feq=[&]{ return Ex(*C,Z3_mk_fpa_eq(*C,x,y)); }; Ex r=C->bool_val(false);
  switch(p){ case CmpInst::FCMP_ORD: return mkB(!un); case CmpInst::FCMP_UNO: return mkB(un);
    case CmpInst::FCMP_OEQ: return mkB(feq()); case CmpInst::FCMP_UEQ: return mkB(un||feq()); case CmpInst::FCMP_ONE: return mkB(!un&&!feq()); case CmpInst::FCMP_UNE: return mkB(!feq());
    case CmpInst::FCMP_OLT: return mkB(Ex(*C,Z3_mk_fpa_lt(*C,x,y))); case CmpInst::FCMP_OLE: return mkB(Ex(*C,Z3_mk_fpa_leq(*C,x,y))); case CmpInst::FCMP_OGT: return mkB(Ex(*C,Z3_mk_fpa_gt(*C,x,y))); case CmpInst::FCMP_OGE: return mkB(Ex(*C,Z3_mk_fpa_geq(*C,x,y)));
    case CmpInst::FCMP_ULT: return mkB(!Ex(*C,Z3_mk_fpa_geq(*C,x,y))); case CmpInst::FCMP_ULE: return mkB(!Ex(*C,Z3_mk_fpa_gt(*C,x,y))); case CmpInst::FCMP_UGT: return mkB(!Ex(*C,Z3_mk_fpa_leq(*C,x,y))); case CmpInst::FCMP_UGE: return mkB(!Ex(*C,Z3_mk_fpa_lt(*C,x,y))); default: unsup("fcmp"); } }
static Ex freshVar(State&st,const char*pfx,z3::sort s){ string n=string("!")+pfx+"_"+std::to_string(st.fresh++)+"_"+std::to_string(st.depth); return C->constant(n.c_str(),s); }
static z3::sort DSORT(){ return REAL? C->real_sort(): F64(); }
static Val mkD(const Ex&e0){ // light simplification of double terms
  Ex e=e0.simplify(); if(REAL){ if(e.is_numeral()){ double d; if(exprDouble(e,&d)&&!special(d)){ Ex back=realLit(d); if(Z3_is_eq_ast(*C,back,e)) return Val::D(d);} } } else if(e.is_app()&&e.decl().decl_kind()==Z3_OP_FPA_NUM){ double d; if(exprDouble(e,&d)) return Val::D(d);} return Val::SD(e); }
static Val fneg(const Val&a0){ Val a=asDbl(a0); if(a.k==Val::DBL) return Val::D(-a.d,a.w); if(REAL) return mkD(-a.s->e); return mkD(-a.s->e); }
static Val fbin(State&st,unsigned op,const Val&a0,const Val&b0){
  if(a0.k==Val::AGG||b0.k==Val::AGG){ vector<Val> r; for(size_t i=0;i<a0.agg->size();i++) r.push_back(fbin(st,op,(*a0.agg)[i],(*b0.agg)[i])); return Val::A(r);} 
  Val a=asDbl(a0),b=asDbl(b0);
  if(a.k==Val::DBL&&b.k==Val::DBL){ double r; if(a.w==32){ float x=(float)a.d,y=(float)b.d,z; switch(op){ case Instruction::FAdd:z=x+y;break; case Instruction::FSub:z=x-y;break; case Instruction::FMul:z=x*y;break; case Instruction::FDiv:z=x/y;break; default:z=fmodf(x,y);} return Val::D(z,32);} switch(op){ case Instruction::FAdd:r=a.d+b.d;break; case Instruction::FSub:r=a.d-b.d;break; case Instruction::FMul:r=a.d*b.d;break; case Instruction::FDiv:r=a.d/b.d;break; default:r=fmod(a.d,b.d);} return Val::D(r);} 
  if(a.k==Val::DBL&&a.w==32||b.k==Val::DBL&&b.w==32) unsup("symbolic float");
  if(!REAL){ Ex x=toF(a),y=toF(b); Z3_ast r; switch(op){ case Instruction::FAdd:r=Z3_mk_fpa_add(*C,RM(),x,y);break; case Instruction::FSub:r=Z3_mk_fpa_sub(*C,RM(),x,y);break; case Instruction::FMul:r=Z3_mk_fpa_mul(*C,RM(),x,y);break; case Instruction::FDiv:r=Z3_mk_fpa_div(*C,RM(),x,y);break; default: unsup("frem"); } return mkD(Ex(*C,r)); }
  // real mode, at least one symbolic
  auto cst=[&](const Val&v,double d){ return v.k==Val::DBL&&v.d==d; };
  if((a.k==Val::DBL&&std::isnan(a.d))||(b.k==Val::DBL&&std::isnan(b.d))) return Val::D(NAN);
  bool ai=a.k==Val::DBL&&std::isinf(a.d), bi=b.k==Val::DBL&&std::isinf(b.d);
  switch(op){
    case Instruction::FAdd: if(ai) return a; if(bi) return b; if(cst(a,0)) return b; if(cst(b,0)) return a; return mkD(toF(a)+toF(b));
    case Instruction::FSub: if(ai) return a; if(bi) return Val::D(-b.d); if(cst(b,0)) return a; return mkD(toF(a)-toF(b));
    case Instruction::FMul: if(ai||bi){ const Val&s=ai?b:a; double inf=ai?a.d:b.d; if(branch(st,toF(s)>C->real_val(0))) return Val::D(inf); if(branch(st,toF(s)<C->real_val(0))) return Val::D(-inf); return Val::D(NAN);} if(cst(a,0)||cst(b,0)) return Val::D(0); if(cst(a,1)) return b; if(cst(b,1)) return a; return mkD(toF(a)*toF(b));
    case Instruction::FDiv: {
      if(bi) return Val::D(0); if(ai){ if(branch(st,toF(b)<C->real_val(0))) return Val::D(-a.d); return a; }
      if(b.k==Val::DBL){ if(b.d==0){ Ex x=toF(a); double s=std::signbit(b.d)?-1:1; if(branch(st,x>C->real_val(0))) return Val::D(s*INFINITY); if(branch(st,x<C->real_val(0))) return Val::D(-s*INFINITY); return Val::D(NAN);} if(b.d==1) return a; return mkD(toF(a)/toF(b)); }
      Ex y=toF(b); if(branch(st,y==C->real_val(0))){ if(a.k==Val::DBL){ if(a.d==0) return Val::D(NAN); return Val::D(a.d>0?INFINITY:-INFINITY);} Ex x=toF(a); if(branch(st,x>C->real_val(0))) return Val::D(INFINITY); if(branch(st,x<C->real_val(0))) return Val::D(-INFINITY); return Val::D(NAN);} 
      if(cst(a,0)) return Val::D(0);
      return mkD(toF(a)/y); }
    default: unsup("frem"); } }
static Val ite(State&st,const Ex&c,const Val&a,const Val&b,Type*t);
static Val fabsV(State&st,const Val&a0){ Val a=asDbl(a0); if(a.k==Val::DBL) return Val::D(fabs(a.d),a.w); if(REAL){ Ex e=a.s->e; return mkD(z3::ite(e>=C->real_val(0),e,-e)); } return mkD(Ex(*C,Z3_mk_fpa_abs(*C,a.s->e))); }
static long long truncToInt(State&st,const Val&v0,bool sgn,unsigned w){ // enumerate
  Val v=v0; for(int n=0;n<2048;n++){ double d; uint64_t u; if(!valueOf(st,v,&d,&u)) unsup("fptoint without model"); double k=std::trunc(d); Ex e=toF(v); Ex c=C->bool_val(true); Ex lk=dblLit(k);
    if(REAL){ if(k>0) c= e>=lk && e<dblLit(k+1); else if(k<0) c= e<=lk && e>dblLit(k-1); else c= e>dblLit(-1) && e<dblLit(1);} else { auto lt=[&](Ex a,Ex b){return Ex(*C,Z3_mk_fpa_lt(*C,a,b));}; auto le=[&](Ex a,Ex b){return Ex(*C,Z3_mk_fpa_leq(*C,a,b));}; if(k>0) c= le(lk,e)&&lt(e,dblLit(k+1)); else if(k<0) c= le(e,lk)&&lt(dblLit(k-1),e); else c= lt(dblLit(-1),e)&&lt(e,dblLit(1)); if(special(d)) unsup("fptoint of nan/inf"); }
    if(branch(st,c)) return (long long)k; }
  unsup("fptoint: too many values"); }
static Val fpToInt(State&st,const Val&v0,bool sgn,unsigned w){ Val v=asDbl(v0); if(v.k==Val::DBL){ if(std::isnan(v.d)) fail("arith","conversion of NaN to integer"); if(fabs(v.d)>1.8446744073709552e19) return Val::I(sgn?0x8000000000000000ULL:0,w); return Val::I(sgn? (uint64_t)(int64_t)v.d : (v.d<0? (uint64_t)(int64_t)v.d:(uint64_t)v.d),w);} return Val::I((uint64_t)truncToInt(st,v,sgn,w),w); }
static Val intToFp(State&st,const Val&v0,bool sgn,unsigned w,bool f32){ Val v=v0; if(v.k==Val::UNDEF) v=Val::I(0,w); if(v.k==Val::INT){ double d= sgn? (double)sx(v.i,w):(double)v.i; if(f32) return Val::D((float)d,32); return Val::D(d);} if(f32) unsup("symbolic float"); if(v.w==1){ Ex c=v.s->e; double one= sgn?-1.0:1.0; return mkD(z3::ite(c,dblLit(one),dblLit(0))); } if(REAL){ // exact through bv2int
    Ex e=v.s->e; if(e.is_app()&&e.decl().decl_kind()==Z3_OP_INT2BV&&e.arg(0).is_app()&&e.arg(0).decl().decl_kind()==Z3_OP_TO_INT) return mkD(e.arg(0).arg(0)); uint64_t u=concretize(st,v); return Val::D(sgn?(double)sx(u,w):(double)u); }
  return mkD(Ex(*C, sgn? Z3_mk_fpa_to_fp_signed(*C,RM(),v.s->e,F64()):Z3_mk_fpa_to_fp_unsigned(*C,RM(),v.s->e,F64()))); }
static Val ite(State&st,const Ex&c,const Val&a,const Val&b,Type*t){
  if(t->isDoubleTy()){ Val x=asDbl(a),y=asDbl(b); if(x.k==Val::DBL&&y.k==Val::DBL&&memcmp(&x.d,&y.d,8)==0) return x; if(REAL&&((x.k==Val::DBL&&special(x.d))||(y.k==Val::DBL&&special(y.d)))) return branch(st,c)?x:y; return mkD(z3::ite(c,toF(x),toF(y))); }
  if(t->isIntegerTy()&&a.k!=Val::SDBL&&b.k!=Val::SDBL&&a.k!=Val::DBL&&b.k!=Val::DBL&&a.k!=Val::AGG){ unsigned w=t->getIntegerBitWidth(); if(a.k==Val::INT&&b.k==Val::INT&&a.i==b.i) return a; if(w==1) return mkB((c&&toBool(a))||(!c&&toBool(b))); return mkI(z3::ite(c,toBV(a,w),toBV(b,w)),w); }
  if(t->isPointerTy()&&a.k==Val::INT&&b.k==Val::INT&&a.i==b.i) return a;
  return branch(st,c)?a:b; }

// ------------------------------------------------------------------ uninterpreted math functions with sound axioms
static double hostF(const string&f,double x,double y){ if(f=="exp") return exp(x); if(f=="log") return log(x); if(f=="log10") return log10(x); if(f=="log2") return log2(x); if(f=="exp2") return exp2(x); if(f=="erf") return erf(x); if(f=="erfc") return erfc(x); if(f=="sin") return sin(x); if(f=="cos") return cos(x); if(f=="tan") return tan(x); if(f=="atan") return atan(x); if(f=="tanh") return tanh(x); if(f=="pow") return pow(x,y); if(f=="sqrt") return sqrt(x); if(f=="cbrt") return cbrt(x); if(f=="log1p") return log1p(x); if(f=="expm1") return expm1(x); if(f=="hypot") return hypot(x,y); if(f=="fmod") return fmod(x,y); if(f=="atan2") return atan2(x,y); if(f=="acos") return acos(x); if(f=="asin") return asin(x); if(f=="sinh") return sinh(x); if(f=="cosh") return cosh(x); return NAN; }
// comparison helpers usable in both modes
static Ex LT(const Ex&a,const Ex&b){ return REAL? a<b : Ex(*C,Z3_mk_fpa_lt(*C,a,b)); }
static Ex LE(const Ex&a,const Ex&b){ return REAL? a<=b : Ex(*C,Z3_mk_fpa_leq(*C,a,b)); }
static Ex EQ(const Ex&a,const Ex&b){ return REAL? a==b : Ex(*C,Z3_mk_fpa_eq(*C,a,b)); }
static Ex ISNAN(const Ex&a){ return Ex(*C,Z3_mk_fpa_is_nan(*C,a)); }
static Val mathFn(State&st,const string&f,const Val&x0,const Val&y0,bool two){
  Val x=asDbl(x0),y= two?asDbl(y0):Val::D(0);
  if(x.k==Val::DBL&&y.k==Val::DBL) return Val::D(hostF(f,x.d,y.d));
  if(f=="pow"){ if(y.k==Val::DBL){ if(y.d==1) return x; if(y.d==2) return fbin(st,Instruction::FMul,x,x); if(y.d==0) return Val::D(1); if(y.d==3) return fbin(st,Instruction::FMul,fbin(st,Instruction::FMul,x,x),x); if(y.d==-1) return fbin(st,Instruction::FDiv,Val::D(1),x); if(y.d==0.5) return mathFn(st,"sqrt",x,Val(),false);} if(x.k==Val::DBL&&x.d==1) return Val::D(1); }
  if(f=="sqrt"&&!REAL) return mkD(Ex(*C,Z3_mk_fpa_sqrt(*C,RM(),x.s->e)));
  if(REAL){ if(x.k==Val::DBL&&special(x.d)) unsup("math function of special value"); if(two&&y.k==Val::DBL&&special(y.d)) unsup("math function of special value"); }
  Ex zero=dblLit(0), one=dblLit(1);
  if(REAL&&(f=="sqrt"||f=="log"||f=="log10"||f=="log2")){ Ex e=toF(x); if(branch(st,e<zero)) return Val::D(NAN); if(f!="sqrt"&&branch(st,e==zero)) return Val::D(-INFINITY); }
  if(REAL&&f=="pow"){ Ex e=toF(x); if(x.k==Val::SDBL&&branch(st,e<zero)){ unsup("pow of a negative symbolic base"); } if(x.k==Val::SDBL&&branch(st,e==zero)){ if(y.k==Val::DBL) return Val::D(pow(0.0,y.d)); if(branch(st,toF(y)>zero)) return Val::D(0); if(branch(st,toF(y)==zero)) return Val::D(1); return Val::D(INFINITY);} }
  Ex ex=toF(x), ey= two?toF(y):zero;
  if(f=="exp"&&REAL&&ex.simplify().is_numeral()) {}
  for(auto&u:st.ufs) if(u.f==f&&Z3_is_eq_ast(*C,u.a,ex)&&(!two||Z3_is_eq_ast(*C,u.b,ey))) return Val::SD(u.r);
  Ex r=freshVar(st,f.c_str(),DSORT()); vector<Ex> ax;
  if(!REAL){ // NaN propagation, then order axioms on ordered values
    if(!two) ax.push_back(z3::implies(ISNAN(ex),ISNAN(r))); if(f=="exp"||f=="erf"||f=="erfc"||f=="tanh"||f=="atan") ax.push_back(z3::implies(!ISNAN(ex),!ISNAN(r))); }
  auto leq=[&](const Ex&a,const Ex&b){ return LE(a,b); };
  if(f=="exp"||f=="exp2"){ ax.push_back(z3::implies(REAL?C->bool_val(true):!ISNAN(ex), REAL? r>zero : LE(zero,r))); ax.push_back(z3::implies(leq(ex,zero),leq(r,one))); ax.push_back(z3::implies(leq(zero,ex),leq(one,r))); if(REAL){ ax.push_back(z3::implies(ex==zero,r==one)); ax.push_back(z3::implies(ex<zero,r<one)); ax.push_back(z3::implies(ex>zero,r>one)); if(f=="exp") ax.push_back(r>=one+ex); } else ax.push_back(z3::implies(EQ(ex,zero),EQ(r,one))); }
  else if(f=="erf"||f=="tanh"){ ax.push_back(z3::implies(REAL?C->bool_val(true):!ISNAN(ex), LE(dblLit(-1),r)&&LE(r,one))); ax.push_back(z3::implies(leq(ex,zero),leq(r,zero))); ax.push_back(z3::implies(leq(zero,ex),leq(zero,r))); ax.push_back(z3::implies(EQ(ex,zero),EQ(r,zero))); }
  else if(f=="erfc"){ ax.push_back(z3::implies(REAL?C->bool_val(true):!ISNAN(ex), LE(zero,r)&&LE(r,dblLit(2)))); ax.push_back(z3::implies(leq(ex,zero),leq(one,r))); ax.push_back(z3::implies(leq(zero,ex),leq(r,one))); }
  else if(f=="sqrt"){ ax.push_back(r>=zero); ax.push_back(r*r==ex); }
  else if(f=="log"||f=="log10"||f=="log2"){ if(REAL){ ax.push_back(z3::implies(ex>one,r>zero)); ax.push_back(z3::implies(ex<one,r<zero)); ax.push_back(z3::implies(ex==one,r==zero)); if(f=="log") ax.push_back(r<=ex-one);} else { ax.push_back(z3::implies(LT(ex,zero),ISNAN(r))); ax.push_back(z3::implies(LE(one,ex),LE(zero,r))); ax.push_back(z3::implies(LE(zero,ex)&&LE(ex,one),LE(r,zero))); } }
  else if(f=="pow"){ Ex ge0=leq(zero,ex); ax.push_back(z3::implies(ge0,leq(zero,r))); ax.push_back(z3::implies(ge0&&leq(ex,one)&&leq(zero,ey),leq(r,one))); ax.push_back(z3::implies(leq(one,ex)&&leq(zero,ey),leq(one,r))); ax.push_back(z3::implies(EQ(ey,one)&&ge0,EQ(r,ex))); if(REAL){ ax.push_back(z3::implies(ex>zero,r>zero)); ax.push_back(z3::implies(ey==dblLit(2),r==ex*ex)); ax.push_back(z3::implies(ey==zero,r==one)); ax.push_back(z3::implies(ex<=one&&ey>=one,r<=ex)); ax.push_back(z3::implies(ex<=one&&ey<=dblLit(2)&&ey>=zero,r>=ex*ex)); } }
  else if(f=="sin"||f=="cos"){ ax.push_back(LE(dblLit(-1),r)&&LE(r,one)); }
  else if(f=="atan"){ ax.push_back(LE(dblLit(-1.5707963267948968),r)&&LE(r,dblLit(1.5707963267948968))); }
  bool mono= f=="exp"||f=="exp2"||f=="erf"||f=="tanh"||f=="atan"||f=="log"||f=="log10"||f=="log2"||f=="cbrt"||f=="log1p"||f=="expm1"; bool anti=f=="erfc"; bool strict=REAL&&(f=="exp"||f=="exp2"||f=="log"||f=="log10"||f=="log2"||f=="erf"||f=="tanh"||f=="atan");
  for(auto&u:st.ufs) if(u.f==f){ Ex same= two? (EQ(u.a,ex)&&EQ(u.b,ey)) : EQ(u.a,ex); ax.push_back(z3::implies(same,EQ(u.r,r)));
    if(mono){ if(strict){ ax.push_back(z3::implies(u.a<ex,u.r<r)); ax.push_back(z3::implies(u.a>ex,u.r>r)); } else { ax.push_back(z3::implies(LE(u.a,ex),LE(u.r,r))); ax.push_back(z3::implies(LE(ex,u.a),LE(r,u.r))); } }
    if(anti){ ax.push_back(z3::implies(LE(u.a,ex),LE(r,u.r))); ax.push_back(z3::implies(LE(ex,u.a),LE(u.r,r))); }
    if(f=="pow"){ Ex g=leq(zero,ex)&&leq(zero,u.a)&&leq(zero,ey); ax.push_back(z3::implies(g&&EQ(u.b,ey)&&LE(u.a,ex),LE(u.r,r))); ax.push_back(z3::implies(g&&EQ(u.b,ey)&&LE(ex,u.a),LE(r,u.r))); }
    if(f=="erf"||f=="tanh"||f=="atan") ax.push_back(z3::implies(EQ(u.a,REAL? -ex : Ex(*C,Z3_mk_fpa_neg(*C,ex))),EQ(u.r,REAL? -r : Ex(*C,Z3_mk_fpa_neg(*C,r)))));
    if(f=="sqrt"&&REAL){ ax.push_back(z3::implies(u.a<=ex,u.r<=r)); ax.push_back(z3::implies(u.a>=ex,u.r>=r)); } }
  // pick a starting assignment for r that is realistic
  { double dx,dy=0; uint64_t u; if(valueOf(st,x,&dx,&u)&&(!two||valueOf(st,y,&dy,&u))){ double v=hostF(f,dx,dy); if(!special(v)||!REAL){ Ex rv=r; varsOf(r); unsigned id=Z3_get_ast_id(*C,r); st.asg.emplace(id,std::make_pair(r,dblLit(v))); st.mdl.reset(); } } }
  st.ufs.push_back(UFApp{f,ex,ey,r,two});
  for(auto&a:ax) assumeEx(st,a);
  return Val::SD(r); }

// ------------------------------------------------------------------ text tokens for symbolic doubles
// token text: 98765.4<6 digits id>321 ; looks like a number to every scanner
static string tokenFor(State&st,const Val&v,int fmt,int prec){ unsigned id=Z3_get_ast_id(*C,v.s->e); keepAlive.push_back(v.s->e); auto key=std::make_pair(id,fmt*1000+prec); auto it=st.tokIdx.find(key); int k; if(it!=st.tokIdx.end()) k=it->second; else { k=st.toks.size(); st.toks.push_back(Token{v,fmt,prec,nullptr}); st.tokIdx[key]=k; } char b[40]; snprintf(b,40,"98765.4%06d321",k); return b; }
static int tokenAt(const string&s,size_t p){ if(s.compare(p,7,"98765.4")==0&&s.size()>=p+16&&s.compare(p+13,3,"321")==0){ int k=0; for(int i=0;i<6;i++){ char c=s[p+7+i]; if(c<'0'||c>'9') return -1; k=k*10+c-'0'; } return k; } return -1; }
static Val tokenValue(State&st,int k){ Token t=st.toks.at(k); if(t.parsed) return Val::SD(t.parsed->e); bool exact= t.fmt==1? t.prec>=17 : t.prec>=17; if(exact){ return t.v; }
  Ex v=t.v.s->e; Ex r=freshVar(st,"txt",DSORT()); { double d; uint64_t u; if(valueOf(st,t.v,&d,&u)){ varsOf(r); unsigned id=Z3_get_ast_id(*C,r); st.asg.emplace(id,std::make_pair(r,dblLit(d))); st.mdl.reset(); } }
  if(REAL){ Ex av=z3::ite(v>=C->real_val(0),v,-v); Ex b=dblLit(0); if(t.fmt==1) b=C->real_val(("5/1"+string(t.prec+1,'0')).c_str()); else { int p=t.prec<1?1:t.prec; if(t.fmt==2) p=t.prec+1; b=av*C->real_val(("5/1"+string(p,'0')).c_str()); } assumeEx(st,r-v<=b); assumeEx(st,v-r<=b); assumeEx(st,z3::implies(v>=C->real_val(0),r>=C->real_val(0))); assumeEx(st,z3::implies(v<=C->real_val(0),r<=C->real_val(0))); }
  else { unsup("rounded text value in fp mode"); }
  st.toks[k].parsed=std::make_shared<SymNode>(r); return Val::SD(r); }
static string fmtDouble(double d,int fmt,int prec){ char b[512]; if(fmt==1) snprintf(b,512,"%.*f",prec,d); else if(fmt==2) snprintf(b,512,"%.*e",prec,d); else snprintf(b,512,"%.*g",prec,d); return b; }

// ------------------------------------------------------------------ exceptions
static std::map<uint64_t,const GlobalVariable*> tiByAddr;
static bool derives(uint64_t ti,uint64_t base,int depth=0){ if(ti==base) return true; if(depth>12) return false; auto it=tiByAddr.find(ti); if(it==tiByAddr.end()) return false; const GlobalVariable*g=it->second; auto bt=tiByAddr.find(base); if(bt!=tiByAddr.end()&&bt->second->getName()==g->getName()) return true; if(!g->hasInitializer()) return false; auto*cs=dyn_cast<ConstantStruct>(g->getInitializer()); if(!cs) return false; unsigned n=cs->getNumOperands(); for(unsigned i=2;i<n;i++){ if(cs->getOperand(i)->getType()->isPointerTy()){ uint64_t b=cval(cs->getOperand(i)).i; if(derives(b,base,depth+1)) return true; } } return false; }
static int tiId(uint64_t ti){ static std::map<uint64_t,int> ids; auto it=ids.find(ti); if(it!=ids.end()) return it->second; int k=ids.size()+1; ids[ti]=k; return k; }
static string tiName(uint64_t ti){ auto it=tiByAddr.find(ti); if(it==tiByAddr.end()) return "?"; return llvm::demangle(it->second->getName().str()); }

static void popFrame(State&st){ for(auto a:st.st.back().allocas) st.mem.erase(a); st.st.pop_back(); }
static void enterBlock(State&st,BasicBlock*to){ Frame&f=st.st.back(); BasicBlock*from=f.bb; vector<std::pair<unsigned,Val>> up; for(auto&I:*to){ auto*p=dyn_cast<PHINode>(&I); if(!p) break; up.push_back({f.fi->idx.at(p),get(st,p->getIncomingValueForBlock(from))}); } for(auto&u:up) f.r[u.first]=u.second; f.prev=from; f.bb=to; f.it=to->getFirstNonPHI()->getIterator(); }
// unwinding: current frame's callee threw. exc in st.excObj/excTI
static string exceptionText(State&st,uint64_t obj,uint64_t ti);
static void unwind(State&st){
  for(;;){ if(st.st.empty()) fail("exception","uncaught exception"); Frame&f=st.st.back(); Instruction*ci=&*f.it; // the call/invoke being executed in this frame
    if(auto*inv=dyn_cast<InvokeInst>(ci)){ LandingPadInst*lp=inv->getUnwindDest()->getLandingPadInst(); int sel=-1; for(unsigned i=0;i<lp->getNumClauses();i++){ if(lp->isCatch(i)){ Constant*c=lp->getClause(i); uint64_t t=cval(c).i; if(t==0){ sel=tiId(0); break;} if(derives(st.excTI,t)){ sel=tiId(t); break; } } else { // filter
            Constant*c=lp->getClause(i); bool ok=false; auto*at=cast<ArrayType>(c->getType()); for(uint64_t k=0;k<at->getNumElements();k++){ uint64_t t=cval(cast<Constant>(c->getAggregateElement(k))).i; if(t==0||derives(st.excTI,t)) ok=true; } if(!ok){ sel=-2-(int)i; break; } } }
      if(sel==-1&&lp->isCleanup()) sel=0; if(sel!=-1){ enterBlock(st,inv->getUnwindDest()); Frame&g=st.st.back(); g.r[g.fi->idx.at(lp)]=Val::A({Val::P(st.excObj),Val::I((uint64_t)(uint32_t)sel,32)}); g.it=std::next(lp->getIterator()); return; } }
    if(st.st.size()==1){ fail("exception","uncaught exception "+tiName(st.excTI)+exceptionText(st,st.excObj,st.excTI)); }
    popFrame(st); } }
static string exceptionText(State&st,uint64_t obj,uint64_t ti){ (void)st;(void)obj;(void)ti; return ""; }

// ------------------------------------------------------------------ calls
typedef std::function<Val(State&,CallBase&,vector<Val>&)> Ext;
static std::unordered_map<string,Ext> ext;
static std::unordered_set<string> extUsed;
static Function* theFn(CallBase&cb){ return dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts()); }
static void pushCall(State&st,Function*F,vector<Val>&args,Instruction*call){ FnInfo*fi=info(F); fi->entered++; if(st.st.size()>400) unsup("call depth"); st.st.emplace_back(); Frame&f=st.st.back(); f.fi=fi; f.r.resize(fi->n); unsigned i=0; for(auto&A:F->args()){ f.r[fi->idx.at(&A)]= i<args.size()?args[i]:Val(); i++; } for(;i<args.size();i++) f.varargs.push_back(args[i]); f.call=call; f.bb=&F->getEntryBlock(); f.it=f.bb->begin(); }
static void finishCall(State&st,CallBase&cb,const Val&r){ // result of a call computed inline in the current frame
  Frame&f=st.st.back(); if(!cb.getType()->isVoidTy()) f.r[f.fi->idx.at(&cb)]=r; if(auto*inv=dyn_cast<InvokeInst>(&cb)) enterBlock(st,inv->getNormalDest()); else ++f.it; }
struct Thrown {};
struct Redirect {}; // callee frame pushed by an external handler

static string formatPrintf(State&st,const string&fmt,vector<Val>&a){ string out; size_t k=0; auto next=[&]()->Val{ if(k>=a.size()) unsup("printf args"); return a[k++]; };
  for(size_t i=0;i<fmt.size();i++){ if(fmt[i]!='%'){ out+=fmt[i]; continue;} if(fmt[i+1]=='%'){ out+='%'; i++; continue;} size_t j=i+1; string spec="%"; while(j<fmt.size()&&strchr("-+ #0123456789.*lhzjt",fmt[j])){ if(fmt[j]=='*'){ spec+=std::to_string((int)sx(concretize(st,next()),32)); } else if(!strchr("lhzjt",fmt[j])) spec+=fmt[j]; j++; } char c=fmt[j]; char b[600]; bool lng=fmt.substr(i,j-i).find_first_of("lzjt")!=string::npos;
    if(c=='d'||c=='i'){ Val v=next(); long long x=sx(concretize(st,v),lng?64:32); snprintf(b,600,(spec+"lld").c_str(),x); out+=b; }
    else if(c=='u'||c=='x'||c=='X'||c=='o'){ Val v=next(); uint64_t x=concretize(st,v); if(!lng) x&=0xffffffff; snprintf(b,600,(spec+"ll"+c).c_str(),(unsigned long long)x); out+=b; }
    else if(c=='c'){ out+=(char)concretize(st,next()); }
    else if(c=='s'){ string s=readStr(st,concretize(st,next())); auto p=spec.find('.'); if(p!=string::npos) s=s.substr(0,atoi(spec.c_str()+p+1)); out+=s; }
    else if(c=='p'){ snprintf(b,600,"0x%llx",(unsigned long long)concretize(st,next())); out+=b; }
    else if(strchr("fFgGeE",c)){ Val v=asDbl(next()); int prec=6; auto p=spec.find('.'); if(p!=string::npos) prec=atoi(spec.c_str()+p+1); if(v.k==Val::DBL){ snprintf(b,600,(spec+c).c_str(),v.d); out+=b;} else out+=tokenFor(st,v,(c=='f'||c=='F')?1:(c=='e'||c=='E')?2:0,prec); }
    else unsup(string("printf %")+c); i=j; }
  return out; }
static Val strtodModel(State&st,uint64_t p,uint64_t endp){ // concretises characters
  string s; for(int i=0;i<4000;i++){ Val v=loadBytes(st,p+i,1,8); uint64_t c=concretize(st,v); if(!c) break; s+=(char)c; if(s.size()>60&&(isspace(c)||c==',')) break; }
  char*e; double d=strtod(s.c_str(),&e); size_t n=e-s.c_str(); if(endp) storeBytes(st,endp,Val::P(p+n),8); size_t q=0; while(q<s.size()&&isspace((unsigned char)s[q])) q++; bool neg=false; if(q<s.size()&&(s[q]=='-'||s[q]=='+')){ neg=s[q]=='-'; q++; } int k=tokenAt(s,q); if(k>=0&&n==q+16){ Val v=tokenValue(st,k); return neg?fneg(v):v; } return Val::D(d); }
static Ex boolOf(State&st,const Val&v){ if(v.k==Val::INT) return C->bool_val(v.i!=0); if(v.k==Val::SINT){ if(v.w==1) return v.s->e; return v.s->e!=C->bv_val(0,v.w);} return C->bool_val(false); }
static string inName(State&st,const string&n){ return n; }
static void checkAssert(State&st,const Ex&c0,const string&msg){
  Ex c=c0.simplify(); nObl++; oblBy[msg]++; if(c.is_true()){ nDis++; nTrivial++; return; }
  Ex nc=Not(c);
  if(!c.is_false()&&st.pcids.count(Z3_get_ast_id(*C,c))){ nDis++; return; }
  int ev=evalB(st,c); vector<std::pair<Ex,Ex>> m;
  if(ev==0&&st.asgOK){ reportHere(st,"assert",msg); }
  else if(c.is_false()){ reportHere(st,"assert",msg); throw PathEnd{"assert false"}; }
  else { R r=query(st,{nc},&m,g_qtime_ms*3); if(r==UNSAT){ nDis++; keepAlive.push_back(c); st.pcids.insert(Z3_get_ast_id(*C,c)); return; } if(r==SAT){ if(st.asgOK){ auto a=st.asg; for(auto&p:m){ unsigned id=Z3_get_ast_id(*C,p.first); auto it=a.find(id); if(it!=a.end()) it->second=p; else a.emplace(id,p);} report(st,"assert",msg,a);} else { State*n=clone(st); addPC(*n,nc); reportHere(*n,"assert",msg); delete n; } } else { nOblUnk++; incon["assert undecided: "+msg]++; } }
  if(c.is_false()) throw PathEnd{"assert false"}; assumeEx(st,c); }

static void initExt(){
  auto noop=[](State&,CallBase&cb,vector<Val>&)->Val{ Type*t=cb.getType(); return t->isVoidTy()?Val():zeroOf(t); };
  for(const char*n:{"printf","puts","putchar","fflush","fprintf","fputs","fputc","fwrite","perror","__cxa_atexit","pthread_mutex_lock","pthread_mutex_unlock","pthread_mutex_init","pthread_mutex_destroy","usleep","sleep","srand","setlocale","pthread_once","fclose","vprintf","vfprintf","atexit"}) ext[n]=noop;
  ext["vf_double"]=[](State&st,CallBase&,vector<Val>&a)->Val{ string n=readStr(st,concretize(st,a[0])); unsigned k=st.ins.size(); Ex e=C->constant(("in"+std::to_string(k)+"_"+n).c_str(),DSORT()); varsOf(e); Val v=Val::SD(e); st.ins.push_back({n,0,v}); return v; };
  ext["vf_int"]=[](State&st,CallBase&cb,vector<Val>&a)->Val{ string n=readStr(st,concretize(st,a[0])); unsigned k=st.ins.size(); int64_t lo=sx(concretize(st,a[1]),32),hi=sx(concretize(st,a[2]),32); Ex e=C->bv_const(("in"+std::to_string(k)+"_"+n).c_str(),32); varsOf(e); Val v=Val::SI(e,32); st.ins.push_back({n,1,v}); unsigned id=Z3_get_ast_id(*C,e); st.asg.emplace(id,std::make_pair(e,C->bv_val((uint64_t)(uint32_t)lo,32))); st.mdl.reset(); assumeEx(st,e>=C->bv_val((uint64_t)(uint32_t)lo,32)); assumeEx(st,e<=C->bv_val((uint64_t)(uint32_t)hi,32)); return v; };
  ext["vf_concrete"]=[](State&st,CallBase&cb,vector<Val>&a)->Val{ uint64_t u=concretize(st,a[0]); return Val::I(u,32); };
  ext["vf_assume"]=[](State&st,CallBase&,vector<Val>&a)->Val{ assumeEx(st,boolOf(st,a[0])); return Val(); };
  ext["vf_assert"]=[](State&st,CallBase&,vector<Val>&a)->Val{ string m=readStr(st,concretize(st,a[1])); checkAssert(st,boolOf(st,a[0]),m); return Val(); };
  ext["vf_reach"]=[](State&st,CallBase&,vector<Val>&a)->Val{ string m=readStr(st,concretize(st,a[0])); if(!reached.count(m)&&!st.asgOK){ vector<std::pair<Ex,Ex>> mm; std::set<unsigned> vs; for(auto&c:st.pc) for(auto v:varsOf(c)) vs.insert(v); R r=rawCheck(st.pc,vector<unsigned>(vs.begin(),vs.end()),&mm,g_qtime_ms); if(r==UNSAT) throw PathEnd{"infeasible"}; if(r==SAT){ setAsg(st,mm); st.asgOK=true; reached[m]++; } } else reached[m]++; return Val(); };
  ext["vf_observe"]=[](State&st,CallBase&,vector<Val>&a)->Val{ st.obs.push_back({readStr(st,concretize(st,a[0])),asDbl(a[1])}); return Val(); };
  ext["vf_end"]=[](State&,CallBase&,vector<Val>&)->Val{ throw PathEnd{"end"}; };
  ext["vf_is_symbolic"]=[](State&,CallBase&,vector<Val>&a)->Val{ return Val::I(a[0].k==Val::SDBL,32); };
  ext["vf_is_engine"]=[](State&,CallBase&,vector<Val>&)->Val{ return Val::I(1,32); };
  ext["vf_mode_real"]=[](State&,CallBase&,vector<Val>&)->Val{ return Val::I(REAL,32); };
  ext["vf_fmt_double"]=[](State&st,CallBase&,vector<Val>&a)->Val{ // (buf, double, fmt, prec) -> length
    uint64_t buf=concretize(st,a[0]); Val v=asDbl(a[1]); int fmt=concretize(st,a[2]),prec=sx(concretize(st,a[3]),32); string s= v.k==Val::DBL? fmtDouble(v.d,fmt,prec):tokenFor(st,v,fmt,prec); writeStr(st,buf,s); return Val::I(s.size(),32); };
  ext["vf_debug"]=[](State&st,CallBase&,vector<Val>&a)->Val{ fprintf(stderr,"[debug] %s",readStr(st,concretize(st,a[0])).c_str()); for(size_t i=1;i<a.size();i++){ if(a[i].k==Val::INT) fprintf(stderr," %lld",(long long)a[i].i); else if(a[i].k==Val::DBL) fprintf(stderr," %.17g",a[i].d); else if(a[i].sym()) fprintf(stderr," %s",a[i].s->e.to_string().c_str()); } fprintf(stderr,"\n"); return Val(); };
  auto alloc=[](State&st,CallBase&,vector<Val>&a)->Val{ uint64_t n=concretize(st,a[0]); if(n>(1u<<26)) { // absurd request: behaves like a failed allocation
      fail("memory","allocation of "+std::to_string(n)+" bytes"); } return Val::P(allocObj(st,n,1,"heap")); };
  ext["malloc"]=ext["_Znwm"]=ext["_Znam"]=ext["_ZnwmSt11align_val_t"]=alloc; ext["_ZnwmRKSt9nothrow_t"]=ext["_ZnamRKSt9nothrow_t"]=alloc;
  ext["calloc"]=[](State&st,CallBase&,vector<Val>&a)->Val{ uint64_t n=concretize(st,a[0])*concretize(st,a[1]); return Val::P(allocObj(st,n,1,"heap",0)); };
  auto fr=[](State&st,CallBase&,vector<Val>&a)->Val{ uint64_t p=concretize(st,a[0]); if(!p) return Val(); OP*o=findObj(st,p); if(!o||(*o)->base!=p||(*o)->kind!=1) fail("memory","invalid free"); if((*o)->freed) fail("memory","double free"); auto n=std::make_shared<Obj>(); n->base=(*o)->base; n->size=(*o)->size; n->kind=1; n->freed=true; n->name="heap"; *o=n; return Val(); };
  for(const char*n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) ext[n]=fr;
  ext["realloc"]=[](State&st,CallBase&,vector<Val>&a)->Val{ uint64_t p=concretize(st,a[0]),n=concretize(st,a[1]); uint64_t q=allocObj(st,n,1,"heap"); if(p){ OP*o=findObj(st,p); if(!o) fail("memory","invalid realloc"); copyMem(st,q,p,std::min<uint64_t>(n,(*o)->size)); auto x=std::make_shared<Obj>(**o); x->freed=true; *findObj(st,p)=x; } return Val::P(q); };
  ext["abort"]=[](State&,CallBase&,vector<Val>&)->Val{ fail("abort","abort() called"); };
  ext["_ZSt9terminatev"]=[](State&,CallBase&,vector<Val>&)->Val{ fail("abort","std::terminate() called"); };
  ext["__cxa_pure_virtual"]=[](State&,CallBase&,vector<Val>&)->Val{ fail("abort","pure virtual call"); };
  ext["exit"]=ext["_exit"]=ext["quick_exit"]=[](State&,CallBase&,vector<Val>&)->Val{ fail("abort","exit() called"); };
  ext["__assert_fail"]=[](State&st,CallBase&,vector<Val>&a)->Val{ fail("abort","assertion failed: "+readStr(st,concretize(st,a[0]))); };
  ext["memcpy"]=ext["memmove"]=[](State&st,CallBase&,vector<Val>&a)->Val{ uint64_t n=concretize(st,a[2]); copyMem(st,resolve(st,a[0],n),resolve(st,a[1],n),n); return a[0]; };
  ext["memset"]=[](State&st,CallBase&,vector<Val>&a)->Val{ uint64_t n=concretize(st,a[2]); uint64_t d=resolve(st,a[0],n); if(n){ if(a[1].k==Val::INT){ OP*o=access(st,d,n,true); splitCells(**o,d-(*o)->base,n); memset(&(*o)->b[d-(*o)->base],(int)(a[1].i&255),n);} else for(uint64_t i=0;i<n;i++) storeBytes(st,d+i,mkI(toBV(a[1],a[1].w).extract(7,0),8),1);} return a[0]; };
  ext["__cxa_allocate_exception"]=[](State&st,CallBase&,vector<Val>&a)->Val{ return Val::P(allocObj(st,std::max<uint64_t>(8,concretize(st,a[0])),1,"exception")); };
  ext["__cxa_free_exception"]=noop;
  ext["__cxa_throw"]=[](State&st,CallBase&,vector<Val>&a)->Val{ st.excObj=a[0].i; st.excTI=a[1].i; st.excType[st.excObj]=st.excTI; unwind(st); throw Thrown{}; };
  ext["__cxa_rethrow"]=[](State&st,CallBase&,vector<Val>&a)->Val{ if(st.caught.empty()) fail("abort","rethrow without exception"); st.excObj=st.caught.back().first; st.excTI=st.caught.back().second; unwind(st); throw Thrown{}; };
  ext["__cxa_begin_catch"]=[](State&st,CallBase&,vector<Val>&a)->Val{ st.caught.push_back({a[0].i,st.excType[a[0].i]}); return a[0]; };
  ext["__cxa_end_catch"]=[](State&st,CallBase&,vector<Val>&a)->Val{ if(!st.caught.empty()) st.caught.pop_back(); return Val(); };
  ext["__cxa_get_exception_ptr"]=[](State&st,CallBase&,vector<Val>&a)->Val{ return a[0]; };
  ext["__cxa_uncaught_exceptions"]=ext["_ZSt18uncaught_exceptionv"]=noop;
  ext["__cxa_guard_acquire"]=[](State&st,CallBase&,vector<Val>&a)->Val{ Val v=loadBytes(st,a[0].i,1,8); if(v.i) return Val::I(0,32); if(st.par) st.par->t[st.par->cur].guard++; return Val::I(1,32); };
  ext["__cxa_guard_release"]=[](State&st,CallBase&,vector<Val>&a)->Val{ storeBytes(st,a[0].i,Val::I(1,8),1); if(st.par) st.par->t[st.par->cur].guard--; return Val(); };
  ext["__cxa_guard_abort"]=noop;
  ext["__dynamic_cast"]=[](State&st,CallBase&,vector<Val>&a)->Val{ uint64_t p=concretize(st,a[0]); if(!p) return Val::P(0); uint64_t vt=loadBytes(st,p,8,64).i; uint64_t ti=loadBytes(st,vt-8,8,64).i; int64_t off=(int64_t)loadBytes(st,vt-16,8,64).i; if(derives(ti,a[2].i)) return Val::P(p+off); return Val::P(0); };
  ext["snprintf"]=[](State&st,CallBase&,vector<Val>&a)->Val{ string f=readStr(st,concretize(st,a[2])); vector<Val> r(a.begin()+3,a.end()); string s=formatPrintf(st,f,r); uint64_t n=concretize(st,a[1]); if(n){ string t=s.substr(0,n-1); writeStr(st,concretize(st,a[0]),t);} return Val::I(s.size(),32); };
  ext["sprintf"]=[](State&st,CallBase&,vector<Val>&a)->Val{ string f=readStr(st,concretize(st,a[1])); vector<Val> r(a.begin()+2,a.end()); string s=formatPrintf(st,f,r); writeStr(st,concretize(st,a[0]),s); return Val::I(s.size(),32); };
  ext["vsnprintf"]=[](State&st,CallBase&,vector<Val>&a)->Val{ string f=readStr(st,concretize(st,a[2])); uint64_t va=concretize(st,a[3]); uint64_t area=loadBytes(st,va+8,8,64).i; vector<Val> r; OP*o=findObj(st,area); uint64_t n0=o?((*o)->base+(*o)->size-area)/8:0; for(uint64_t i=0;i<n0;i++) r.push_back(loadBytes(st,area+8*i,8,64)); string s=formatPrintf(st,f,r); uint64_t n=concretize(st,a[1]); if(n){ string t=s.substr(0,n-1); writeStr(st,concretize(st,a[0]),t);} return Val::I(s.size(),32); };
  ext["vf_strtod"]=[](State&st,CallBase&,vector<Val>&a)->Val{ return strtodModel(st,concretize(st,a[0]),concretize(st,a[1])); };
  ext["atof"]=[](State&st,CallBase&,vector<Val>&a)->Val{ return strtodModel(st,concretize(st,a[0]),0); };
  ext["strtof"]=[](State&st,CallBase&,vector<Val>&a)->Val{ Val v=strtodModel(st,concretize(st,a[0]),concretize(st,a[1])); if(v.k!=Val::DBL) unsup("strtof symbolic"); v.w=32; v.d=(float)v.d; return v; };
  ext["strtold"]=ext["vf_strtod"];
  for(const char*f:{"exp","log","log10","log2","exp2","erf","erfc","sin","cos","tan","atan","tanh","sqrt","cbrt","log1p","expm1","acos","asin","sinh","cosh"}){ string n=f; ext[n]=[n](State&st,CallBase&,vector<Val>&a)->Val{ return mathFn(st,n,a[0],Val(),false); }; }
  for(const char*f:{"pow","hypot","atan2"}){ string n=f; ext[n]=[n](State&st,CallBase&,vector<Val>&a)->Val{ return mathFn(st,n,a[0],a[1],true); }; }
  ext["fabs"]=[](State&st,CallBase&,vector<Val>&a)->Val{ return fabsV(st,a[0]); };
  auto mm=[](bool mx){ return [mx](State&st,CallBase&,vector<Val>&a)->Val{ Val x=asDbl(a[0]),y=asDbl(a[1]); if(x.k==Val::DBL&&y.k==Val::DBL) return Val::D(mx?fmax(x.d,y.d):fmin(x.d,y.d)); if(REAL){ if(x.k==Val::DBL&&std::isnan(x.d)) return y; if(y.k==Val::DBL&&std::isnan(y.d)) return x; Val c=fcmp(mx?CmpInst::FCMP_OGT:CmpInst::FCMP_OLT,x,y); if(c.k==Val::INT) return c.i?x:y; if((x.k==Val::DBL&&special(x.d))||(y.k==Val::DBL&&special(y.d))) return branch(st,c.s->e)?x:y; return mkD(z3::ite(c.s->e,toF(x),toF(y))); } return mkD(Ex(*C, mx? Z3_mk_fpa_max(*C,toF(x),toF(y)):Z3_mk_fpa_min(*C,toF(x),toF(y)))); }; };
  ext["fmax"]=mm(true); ext["fmin"]=mm(false);
  auto rnd=[](const string n){ return [n](State&st,CallBase&,vector<Val>&a)->Val{ Val x=asDbl(a[0]); if(x.k==Val::DBL){ double d=x.d; if(n=="floor") d=floor(d); else if(n=="ceil") d=ceil(d); else if(n=="trunc") d=trunc(d); else if(n=="round") d=round(d); else d=nearbyint(d); return Val::D(d);} 
      if(!REAL){ Z3_ast rm= n=="floor"?Z3_mk_fpa_rtn(*C): n=="ceil"?Z3_mk_fpa_rtp(*C): n=="trunc"?Z3_mk_fpa_rtz(*C): n=="round"?Z3_mk_fpa_rna(*C): Z3_mk_fpa_rne(*C); return mkD(Ex(*C,Z3_mk_fpa_round_to_integral(*C,rm,x.s->e))); }
      Ex e=x.s->e; Val y=x; double shift=0; // reduce to floor by enumeration
      for(int k=0;k<2048;k++){ double d; uint64_t u; if(!valueOf(st,x,&d,&u)) unsup("round without model"); double q; Ex c=C->bool_val(true); if(n=="floor"){ q=floor(d); c= e>=dblLit(q)&&e<dblLit(q+1);} else if(n=="ceil"){ q=ceil(d); c= e<=dblLit(q)&&e>dblLit(q-1);} else if(n=="trunc"){ q=trunc(d); if(q>0) c= e>=dblLit(q)&&e<dblLit(q+1); else if(q<0) c= e<=dblLit(q)&&e>dblLit(q-1); else c= e<dblLit(1)&&e>dblLit(-1);} else { q=round(d); if(q>0) c= e>=dblLit(q-0.5)&&e<dblLit(q+0.5); else if(q<0) c= e<=dblLit(q+0.5)&&e>dblLit(q-0.5); else c= e<dblLit(0.5)&&e>dblLit(-0.5);} if(branch(st,c)) return Val::D(q); } unsup("round: too many values"); }; };
  for(const char*f:{"floor","ceil","trunc","round","rint","nearbyint"}) ext[f]=rnd(f);
  auto lround_=[](State&st,CallBase&cb,vector<Val>&a)->Val{ vector<Val> b{a[0]}; Val r=ext["round"](st,cb,b); return fpToInt(st,r,true,64); }; ext["lround"]=ext["llround"]=lround_;
  ext["copysign"]=[](State&st,CallBase&,vector<Val>&a)->Val{ Val x=fabsV(st,a[0]),s=asDbl(a[1]); Val neg=fcmp(CmpInst::FCMP_OLT,s,Val::D(0)); if(s.k==Val::DBL) return std::signbit(s.d)?fneg(x):x; return truth(st,neg)?fneg(x):x; };
  ext["fmod"]=[](State&st,CallBase&cb,vector<Val>&a)->Val{ Val x=asDbl(a[0]),y=asDbl(a[1]); if(x.k==Val::DBL&&y.k==Val::DBL) return Val::D(fmod(x.d,y.d)); Val q=fbin(st,Instruction::FDiv,x,y); vector<Val> v{q}; Val t=ext["trunc"](st,cb,v); return fbin(st,Instruction::FSub,x,fbin(st,Instruction::FMul,t,y)); };
  ext["rand"]=[](State&st,CallBase&,vector<Val>&a)->Val{ unsigned k=st.ins.size(); if(REAL){ Ex u=C->real_const(("in"+std::to_string(k)+"_rand").c_str()); varsOf(u); Ex e=Ex(*C,Z3_mk_int2bv(*C,32,Ex(*C,Z3_mk_real2int(*C,u)))); Val v=Val::SI(e,32); st.ins.push_back({"rand",1,v}); assumeEx(st,u>=C->real_val(0)&&u<=C->real_val(2147483647)); return v; } /* real mode: the draw relaxed to the reals */ Ex e=C->bv_const(("in"+std::to_string(k)+"_rand").c_str(),32); varsOf(e); Val v=Val::SI(e,32); st.ins.push_back({"rand",1,v}); assumeEx(st,e>=C->bv_val(0,32)); return v; };
  ext["time"]=ext["clock"]=[](State&,CallBase&,vector<Val>&)->Val{ return Val::I(1000,64); };
  ext["getpid"]=[](State&,CallBase&,vector<Val>&)->Val{ return Val::I(4242,32); };
  ext["getenv"]=ext["secure_getenv"]=[](State&,CallBase&,vector<Val>&)->Val{ return Val::P(0); };
}

static Val intrinsic(State&st,CallBase&cb,Intrinsic::ID id,vector<Val>&a,bool&handled){
  handled=true; unsigned w=cb.getType()->isIntegerTy()?cb.getType()->getIntegerBitWidth():0;
  auto callExt=[&](const char*n){ return ext[n](st,cb,a); };
  switch(id){
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::sideeffect: case Intrinsic::vaend: case Intrinsic::assume: return Val();
    case Intrinsic::invariant_start: return Val::P(0);
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return callExt("memcpy");
    case Intrinsic::memset: return callExt("memset");
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: return a[0];
    case Intrinsic::ssa_copy: return a[0];
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::is_constant: return Val::I(0,1);
    case Intrinsic::objectsize: return Val::I(~0ULL,w);
    case Intrinsic::trap: case Intrinsic::ubsantrap: fail("abort","trap");
    case Intrinsic::eh_typeid_for: { return Val::I(tiId(a[0].i),32); }
    case Intrinsic::stacksave: return Val::P(0); case Intrinsic::stackrestore: return Val();
    case Intrinsic::fabs: if(a[0].k==Val::AGG) unsup("vector fabs"); return fabsV(st,a[0]);
    case Intrinsic::sqrt: return callExt("sqrt"); case Intrinsic::exp: return callExt("exp"); case Intrinsic::exp2: return callExt("exp2"); case Intrinsic::log: return callExt("log"); case Intrinsic::log10: return callExt("log10"); case Intrinsic::log2: return callExt("log2"); case Intrinsic::sin: return callExt("sin"); case Intrinsic::cos: return callExt("cos"); case Intrinsic::pow: return callExt("pow");
    case Intrinsic::powi: { long long n=sx(concretize(st,a[1]),32); Val r=Val::D(1); for(long long i=0;i<std::llabs(n);i++) r=fbin(st,Instruction::FMul,r,a[0]); return n<0? fbin(st,Instruction::FDiv,Val::D(1),r):r; }
    case Intrinsic::ldexp: { long long n=sx(concretize(st,a[1]),32); return fbin(st,Instruction::FMul,a[0],Val::D(ldexp(1.0,(int)n))); }
    case Intrinsic::floor: return callExt("floor"); case Intrinsic::ceil: return callExt("ceil"); case Intrinsic::trunc: return callExt("trunc"); case Intrinsic::round: return callExt("round"); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return callExt("rint");
    case Intrinsic::lround: case Intrinsic::llround: return callExt("lround");
    case Intrinsic::maxnum: case Intrinsic::maximum: return callExt("fmax"); case Intrinsic::minnum: case Intrinsic::minimum: return callExt("fmin"); case Intrinsic::copysign: return callExt("copysign");
    case Intrinsic::fmuladd: case Intrinsic::fma: return fbin(st,Instruction::FAdd,fbin(st,Instruction::FMul,a[0],a[1]),a[2]);
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { CmpInst::Predicate p= id==Intrinsic::umin?CmpInst::ICMP_ULT: id==Intrinsic::umax?CmpInst::ICMP_UGT: id==Intrinsic::smin?CmpInst::ICMP_SLT:CmpInst::ICMP_SGT; Val c=icmp(st,p,a[0],a[1],w); if(c.k==Val::INT) return c.i?a[0]:a[1]; return ite(st,c.s->e,a[0],a[1],cb.getType()); }
    case Intrinsic::abs: { Val c=icmp(st,CmpInst::ICMP_SLT,a[0],Val::I(0,w),w); Val n=ibin(st,Instruction::Sub,Val::I(0,w),a[0],w); if(c.k==Val::INT) return c.i?n:a[0]; return ite(st,c.s->e,n,a[0],cb.getType()); }
    case Intrinsic::ctpop: { uint64_t x=concretize(st,a[0]); return Val::I(__builtin_popcountll(x),w); }
    case Intrinsic::ctlz: { uint64_t x=concretize(st,a[0]); return Val::I(x? __builtin_clzll(x)-(64-w): w,w); }
    case Intrinsic::cttz: { uint64_t x=concretize(st,a[0]); return Val::I(x? __builtin_ctzll(x): w,w); }
    case Intrinsic::bswap: { uint64_t x=concretize(st,a[0]); return Val::I(__builtin_bswap64(x)>>(64-w),w); }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t x=concretize(st,a[0]),y=concretize(st,a[1]),s=concretize(st,a[2])%w; if(id==Intrinsic::fshl) return Val::I(s? (x<<s)|(y>>(w-s)):x,w); return Val::I(s? (y>>s)|(x<<(w-s)):y,w); }
    case Intrinsic::usub_sat: { Val c=icmp(st,CmpInst::ICMP_UGT,a[0],a[1],w); Val d=ibin(st,Instruction::Sub,a[0],a[1],w); if(c.k==Val::INT) return c.i?d:Val::I(0,w); return ite(st,c.s->e,d,Val::I(0,w),cb.getType()); }
    case Intrinsic::uadd_sat: { Val s=ibin(st,Instruction::Add,a[0],a[1],w); Val c=icmp(st,CmpInst::ICMP_ULT,s,a[0],w); if(c.k==Val::INT) return c.i?Val::I(~0ULL,w):s; return ite(st,c.s->e,Val::I(~0ULL,w),s,cb.getType()); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned ww=cast<StructType>(cb.getType())->getElementType(0)->getIntegerBitWidth(); bool sg= id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow; unsigned op= (id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)?Instruction::Add:(id==Intrinsic::usub_with_overflow||id==Intrinsic::ssub_with_overflow)?Instruction::Sub:Instruction::Mul;
      Val r=ibin(st,op,a[0],a[1],ww); if(a[0].k==Val::INT&&a[1].k==Val::INT){ bool o; if(sg){ __int128 x=sx(a[0].i,ww),y=sx(a[1].i,ww),z= op==Instruction::Add?x+y:op==Instruction::Sub?x-y:x*y; o= z!=(__int128)sx(r.i,ww);} else { unsigned __int128 x=a[0].i,y=a[1].i; if(op==Instruction::Sub) o=x<y; else { unsigned __int128 z= op==Instruction::Add?x+y:x*y; o= z!=(unsigned __int128)r.i; } } return Val::A({r,Val::I(o,1)}); }
      Ex x=toBV(a[0],ww),y=toBV(a[1],ww); unsigned ex=op==Instruction::Mul?ww:1; Ex X= sg?z3::sext(x,ex):z3::zext(x,ex),Y= sg?z3::sext(y,ex):z3::zext(y,ex); Ex Z= op==Instruction::Add?X+Y:op==Instruction::Sub?X-Y:X*Y; Ex z= op==Instruction::Add?x+y:op==Instruction::Sub?x-y:x*y; Ex zz= sg?z3::sext(z,ex):z3::zext(z,ex); return Val::A({r,mkB(Z!=zz)}); }
    case Intrinsic::is_fpclass: { Val v=asDbl(a[0]); unsigned m=(unsigned)concretize(st,a[1]); if(v.k==Val::DBL){ double d=v.d; bool n=std::signbit(d); unsigned c; if(std::isnan(d)) c=3; else if(std::isinf(d)) c=n?4:0x200; else if(d==0) c=n?0x20:0x40; else if(std::fpclassify(d)==FP_SUBNORMAL) c=n?0x10:0x80; else c=n?8:0x100; return Val::I((m&c)!=0,1);} 
      if(REAL){ unsigned fin=m&0x1f8; if(fin==0x1f8) return Val::I(1,1); if(fin==0) return Val::I(0,1); Ex e=v.s->e; Ex r=C->bool_val(false); Ex z=C->real_val(0); if(m&(0x18)) r=r||e<z; if(m&0x180) r=r||e>z; if(m&0x60) r=r||e==z; return mkB(r);} 
      Ex e=v.s->e; Ex r=C->bool_val(false); Ex neg=Ex(*C,Z3_mk_fpa_is_negative(*C,e)); auto add=[&](unsigned bit,Ex c){ if(m&bit) r=r||c; }; if(m&3) r=r||ISNAN(e); Ex inf=Ex(*C,Z3_mk_fpa_is_infinite(*C,e)),nor=Ex(*C,Z3_mk_fpa_is_normal(*C,e)),sub=Ex(*C,Z3_mk_fpa_is_subnormal(*C,e)),ze=Ex(*C,Z3_mk_fpa_is_zero(*C,e)); add(4,inf&&neg); add(8,nor&&neg); add(0x10,sub&&neg); add(0x20,ze&&neg); add(0x40,ze&&!neg); add(0x80,sub&&!neg); add(0x100,nor&&!neg); add(0x200,inf&&!neg); return mkB(r); }
    case Intrinsic::vastart: { Frame&f=st.st.back(); uint64_t n=f.varargs.size(); uint64_t area=allocObj(st,std::max<uint64_t>(8*n,8),1,"va"); for(uint64_t i=0;i<n;i++){ Val v=f.varargs[i]; if(v.k==Val::INT) v.w=64; else if(v.k==Val::SINT&&v.w<64) v=mkI(z3::sext(toBV(v,v.w),64-v.w),64); storeBytes(st,area+8*i,v,8);} uint64_t va=a[0].i; storeBytes(st,va,Val::I(48,32),4); storeBytes(st,va+4,Val::I(176,32),4); storeBytes(st,va+8,Val::P(area),8); storeBytes(st,va+16,Val::P(0),8); return Val(); }
    case Intrinsic::vacopy: copyMem(st,a[0].i,a[1].i,24); return Val();
    case Intrinsic::vector_reduce_fadd: { Val r=a[0]; for(auto&x:*a[1].agg) r=fbin(st,Instruction::FAdd,r,x); return r; }
    default: break; }
  handled=false; return Val(); }

// ------------------------------------------------------------------ scheduler of parallel regions
static void swapThread(State&st,int k){ Par&p=*st.par; auto&c=p.t[p.cur]; std::swap(c.st,st.st); c.excObj=st.excObj; c.excTI=st.excTI; std::swap(c.caught,st.caught); p.cur=k; auto&n=p.t[k]; std::swap(n.st,st.st); st.excObj=n.excObj; st.excTI=n.excTI; std::swap(n.caught,st.caught); }
// Which thread continues.  A thread runs alone until it waits for a lock, a barrier or an iteration, or ends: between these points threads that
// share no unprotected memory (checked by logAcc) commute.  When all wait, every thread that can continue is tried (input "schedule").
static int nextThread(State&st){ Par&p=*st.par; 
  for(size_t k=0;k<p.t.size();k++) if(p.t[k].wait==0) return (int)k;
  vector<int> c; bool all=true; for(size_t k=0;k<p.t.size();k++){ auto&t=p.t[k]; if(t.wait!=2&&t.wait!=9) all=false; if(t.wait==3||(t.wait==1&&!p.owner.count(t.lock))) c.push_back((int)k); }
  if(all){ for(size_t k=0;k<p.t.size();k++) if(p.t[k].wait==2) return (int)k; return -1; }
  if(c.empty()) fail("deadlock","no thread of the parallel region can continue");
  if(c.size()==1) return c[0];
  if(!p.pend){ unsigned k=st.ins.size(); Ex e=C->bv_const(("in"+std::to_string(k)+"_schedule").c_str(),32); varsOf(e); Val v=Val::SI(e,32); st.ins.push_back({"schedule",1,v}); p.pend=std::make_shared<Val>(v); unsigned id=Z3_get_ast_id(*C,e); st.asg.emplace(id,std::make_pair(e,C->bv_val(0,32))); st.mdl.reset(); assumeEx(st,z3::ult(e,C->bv_val((unsigned)c.size(),32))); }
  uint64_t u=concretize(st,*p.pend); p.pend.reset(); return c.at(u); }
// the current instruction of the current thread has been marked as waiting: continue with another thread
static void resume(State&st,int k){ Par&p=*st.par; if(p.t[k].wait==2){ p.acc.clear(); for(auto&t:p.t) if(t.wait==2) t.wait=20; } 
  if(k!=p.cur) swapThread(st,k); auto&t=p.t[k]; int w=t.wait; t.wait=0; if(w==20){ for(auto&x:p.t) if(x.wait==20) { x.wait=0; x.guard|=256; } }
  if(w==1){ p.owner[t.lock]=k; t.locks.insert(t.lock); }
  if(w==1||w==20) finishCall(st,*cast<CallBase>(&*st.st.back().it),Val());
  else if(w==0&&(t.guard&256)){ t.guard&=~256; finishCall(st,*cast<CallBase>(&*st.st.back().it),Val()); }
  else if(w==3) t.guard|=512; }
static void blockOn(State&st,int why,uint64_t lock){ Par&p=*st.par; auto&t=p.t[p.cur]; t.wait=why; t.lock=lock; int k=nextThread(st); resume(st,k); throw Thrown{}; }
static void threadDone(State&st){ Par&p=*st.par; p.t[p.cur].wait=9; int k=nextThread(st); popFrame(st); if(k>=0){ resume(st,k); return; }
  st.st=p.parent; st.par.reset(); finishCall(st,*cast<CallBase>(&*st.st.back().it),Val()); }
static void initOmp(){
  ext["vf_set_threads"]=[](State&st,CallBase&,vector<Val>&a)->Val{ st.ompMax=(int)concretize(st,a[0]); return Val(); };
  ext["omp_set_num_threads"]=[](State&st,CallBase&,vector<Val>&a)->Val{ st.ompSet=(int)concretize(st,a[0]); return Val(); };
  auto team=[](State&st){ int n=st.ompSet>0?st.ompSet:1; return n<st.ompMax?n:st.ompMax; };
  ext["omp_get_max_threads"]=[team](State&st,CallBase&,vector<Val>&)->Val{ return Val::I(team(st),32); };
  ext["omp_get_num_threads"]=[](State&st,CallBase&,vector<Val>&)->Val{ return Val::I(st.par?st.par->t.size():1,32); };
  ext["omp_get_thread_num"]=ext["__kmpc_global_thread_num"]=[](State&st,CallBase&,vector<Val>&)->Val{ return Val::I(st.par?st.par->cur:0,32); };
  ext["omp_in_parallel"]=[](State&st,CallBase&,vector<Val>&)->Val{ return Val::I(st.par?1:0,32); };
  ext["__kmpc_push_num_threads"]=[](State&st,CallBase&,vector<Val>&a)->Val{ return Val(); };
  ext["__kmpc_fork_call"]=[team](State&st,CallBase&cb,vector<Val>&a)->Val{ uint64_t fa=concretize(st,a[2]); auto it=fnByAddr.find(fa); if(it==fnByAddr.end()) unsup("parallel region"); Function*F=it->second; int n=st.par?1:team(st);
    auto mk=[&](int id){ uint64_t g=allocObj(st,8,1,"thread id",0); storeBytes(st,g,Val::I(id,32),4); vector<Val> v{Val::P(g),Val::P(g)}; for(size_t i=3;i<a.size();i++) v.push_back(a[i]); return v; };
    if(n<=1){ auto v=mk(0); pushCall(st,F,v,&cb); throw Thrown{}; }
    auto p=std::make_shared<Par>(); vector<vector<Val>> av; for(int i=0;i<n;i++) av.push_back(mk(i)); p->parent=st.st; st.st.clear(); p->heap0=st.heapTop; p->stack0=st.stackTop; p->dSeen.assign(n,0); p->nSingle.assign(n,0);
    for(int i=0;i<n;i++){ p->t.emplace_back(); pushCall(st,F,av[i],nullptr); p->t[i].st=st.st; st.st.clear(); } std::swap(st.st,p->t[0].st); st.par=p; throw Thrown{}; };
  ext["__kmpc_critical"]=ext["__kmpc_critical_with_hint"]=[](State&st,CallBase&,vector<Val>&a)->Val{ if(!st.par) return Val(); blockOn(st,1,concretize(st,a[2])); return Val(); };
  ext["__kmpc_end_critical"]=[](State&st,CallBase&,vector<Val>&a)->Val{ if(!st.par) return Val(); uint64_t l=concretize(st,a[2]); st.par->owner.erase(l); st.par->t[st.par->cur].locks.erase(l); return Val(); };
  ext["__kmpc_barrier"]=[](State&st,CallBase&,vector<Val>&a)->Val{ if(!st.par) return Val(); blockOn(st,2,0); return Val(); };
  auto lk=[](bool on){ return [on](State&st,CallBase&cb,vector<Val>&a)->Val{ if(st.par){ auto&t=st.par->t[st.par->cur]; if(on) t.locks.insert(a[0].i); else t.locks.erase(a[0].i); } return cb.getType()->isVoidTy()?Val():Val::I(0,32); }; };
  ext["pthread_mutex_lock"]=ext["omp_set_lock"]=ext["omp_set_nest_lock"]=lk(true); ext["pthread_mutex_unlock"]=ext["omp_unset_lock"]=ext["omp_unset_nest_lock"]=lk(false);
  auto red=[](bool on){ return [on](State&st,CallBase&cb,vector<Val>&a)->Val{ if(st.par){ auto&t=st.par->t[st.par->cur]; if(on) t.locks.insert(7); else t.locks.erase(7); } return cb.getType()->isVoidTy()?Val():Val::I(1,32); }; };
  ext["__kmpc_reduce"]=ext["__kmpc_reduce_nowait"]=red(true); ext["__kmpc_end_reduce"]=ext["__kmpc_end_reduce_nowait"]=red(false);
  ext["__kmpc_master"]=ext["__kmpc_masked"]=[](State&st,CallBase&,vector<Val>&)->Val{ return Val::I(!st.par||st.par->cur==0,32); };
  ext["__kmpc_single"]=[](State&st,CallBase&,vector<Val>&)->Val{ if(!st.par) return Val::I(1,32); uint64_t k=st.par->nSingle[st.par->cur]++; return Val::I(st.par->singles.insert(k).second,32); };
  ext["__kmpc_end_master"]=ext["__kmpc_end_masked"]=ext["__kmpc_end_single"]=ext["__kmpc_for_static_fini"]=ext["__kmpc_serialized_parallel"]=ext["__kmpc_end_serialized_parallel"]=ext["__kmpc_flush"]=[](State&,CallBase&,vector<Val>&)->Val{ return Val(); };
  auto stat=[](unsigned w){ return [w](State&st,CallBase&,vector<Val>&a)->Val{ AtomicScope as; auto ld=[&](int i){ return sx(concretize(st,loadBytes(st,a[i].i,w/8,w)),w); }; auto sto=[&](int i,int64_t v){ storeBytes(st,a[i].i,Val::I((uint64_t)v,w),w/8); };
    int64_t kind=sx(concretize(st,a[2]),32),l=ld(4),u=ld(5),inc=sx(concretize(st,a[7]),w),ch=sx(concretize(st,a[8]),w); int T=st.par?(int)st.par->t.size():1,id=st.par?st.par->cur:0; int64_t trip=inc>0?(u-l)/inc+1:(l-u)/(-inc)+1; if((inc>0&&u<l)||(inc<0&&l<u)) trip=0;
    if(kind==33||kind==(33|(1<<29))||kind==(33|(1<<30))){ if(ch<1) ch=1; sto(6,ch*inc*T); sto(4,l+ch*inc*id); sto(5,l+ch*inc*id+ch*inc-inc); storeBytes(st,a[3].i,Val::I(trip>0&&id==(int)(((trip-1)/ch)%T),32),4); }
    else { int64_t small=trip/T,ex=trip%T,first=id*small+std::min<int64_t>(id,ex),cnt=small+(id<ex); sto(6,trip); sto(4,l+first*inc); sto(5,l+(first+cnt-1)*inc); storeBytes(st,a[3].i,Val::I(cnt>0&&first+cnt==trip,32),4); }
    return Val(); }; };
  ext["__kmpc_for_static_init_4"]=ext["__kmpc_for_static_init_4u"]=stat(32); ext["__kmpc_for_static_init_8"]=ext["__kmpc_for_static_init_8u"]=stat(64);
  // dynamic schedules: every thread that asks for an iteration may get the next one
  auto dinit=[](unsigned w){ return [w](State&st,CallBase&,vector<Val>&a)->Val{ if(!st.par){ st.seq=std::make_shared<Par>(); st.seq->dSeen.assign(1,0); } Par&p=st.par?*st.par:*st.seq; unsigned k=++p.dSeen[p.cur]; if(k>p.dUse){ p.dUse=k; p.dLo=sx(concretize(st,a[3]),w); p.dHi=sx(concretize(st,a[4]),w); p.dInc=sx(concretize(st,a[5]),w); p.dChunk=std::max<int64_t>(1,sx(concretize(st,a[6]),w)); } return Val(); }; };
  ext["__kmpc_dispatch_init_4"]=ext["__kmpc_dispatch_init_4u"]=dinit(32); ext["__kmpc_dispatch_init_8"]=ext["__kmpc_dispatch_init_8u"]=dinit(64);
  auto dnext=[](unsigned w){ return [w](State&st,CallBase&,vector<Val>&a)->Val{ Par&p=st.par?*st.par:*st.seq; if(st.par){ auto&t=p.t[p.cur]; if(!(t.guard&512)) blockOn(st,3,0); t.guard&=~512; } AtomicScope as; bool more= p.dInc>0? p.dLo<=p.dHi : p.dLo>=p.dHi; if(!more) return Val::I(0,32); int64_t lo=p.dLo,hi=lo+(p.dChunk-1)*p.dInc; if(p.dInc>0?hi>p.dHi:hi<p.dHi) hi=p.dHi; p.dLo=hi+p.dInc; auto sto=[&](int i,int64_t v){ storeBytes(st,a[i].i,Val::I((uint64_t)v,w),w/8); }; storeBytes(st,a[2].i,Val::I(hi==p.dHi,32),4); sto(3,lo); sto(4,hi); sto(5,p.dInc); return Val::I(1,32); }; };
  ext["__kmpc_dispatch_next_4"]=ext["__kmpc_dispatch_next_4u"]=dnext(32); ext["__kmpc_dispatch_next_8"]=ext["__kmpc_dispatch_next_8u"]=dnext(64);
  ext["__kmpc_dispatch_fini_4"]=ext["__kmpc_dispatch_fini_8"]=ext["__kmpc_dispatch_deinit"]=[](State&,CallBase&,vector<Val>&)->Val{ return Val(); };
}
static std::set<string> unsupExt;
static void doCall(State&st,CallBase&cb){
  Function*F=theFn(cb); vector<Val> args; unsigned n=cb.arg_size(); args.reserve(n); for(unsigned i=0;i<n;i++){ Value*v=cb.getArgOperand(i); if(v->getType()->isMetadataTy()){ args.push_back(Val()); continue;} args.push_back(get(st,v)); }
  if(cb.isInlineAsm()){ finishCall(st,cb,cb.getType()->isVoidTy()?Val():zeroOf(cb.getType())); return; }
  if(!F){ Val p=get(st,cb.getCalledOperand()); uint64_t a=concretize(st,p); auto it=fnByAddr.find(a); if(it==fnByAddr.end()) fail("memory","call through an invalid function pointer"); F=it->second; }
  if(F->isIntrinsic()){ bool h; Val r=intrinsic(st,cb,F->getIntrinsicID(),args,h); if(!h) unsup("intrinsic "+F->getName().str()); finishCall(st,cb,r); return; }
  string nm=F->getName().str(); auto it=ext.find(nm);
  if(it!=ext.end()){ try{ Val r=it->second(st,cb,args); finishCall(st,cb,r);}catch(Thrown&){} return; }
  if(F->isDeclaration()){ unsupExt.insert(nm); unsup("external function "+llvm::demangle(nm)); }
  // byval arguments
  for(unsigned i=0;i<n;i++) if(cb.isByValArgument(i)){ Type*t=cb.getParamByValType(i); uint64_t sz=DL->getTypeAllocSize(t); uint64_t p=allocObj(st,sz,1,"byval"); copyMem(st,p,args[i].i,sz); args[i]=Val::P(p); }
  pushCall(st,F,args,&cb); }
static void doRet(State&st,const Val&v){ if(st.par&&st.st.size()==1){ threadDone(st); return; } Instruction*call=st.st.back().call; popFrame(st); if(st.st.empty()) throw PathEnd{"done"}; if(!call) throw PathEnd{"done"}; finishCall(st,*cast<CallBase>(call),v); }

static Val vecMap2(State&st,const Val&a,const Val&b,std::function<Val(const Val&,const Val&)> f){ vector<Val> r; for(size_t i=0;i<a.agg->size();i++) r.push_back(f((*a.agg)[i],(*b.agg)[i])); return Val::A(r); }
static void step(State&st){
  Frame&f=st.st.back(); Instruction&I=*f.it; nInst++; st.steps++;
  auto set=[&](const Val&v){ Frame&g=st.st.back(); g.r[g.fi->idx.at(&I)]=v; ++g.it; };
  switch(I.getOpcode()){
    case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); uint64_t n=concretize(st,get(st,A.getArraySize())); uint64_t sz=DL->getTypeAllocSize(A.getAllocatedType())*n; uint64_t p=allocObj(st,sz,2,A.getName().str()); st.st.back().allocas.push_back(p); set(Val::P(p)); return; }
    case Instruction::Load: { auto&L=cast<LoadInst>(I); AtomicScope as(L.isAtomic()); uint64_t a=resolve(st,get(st,L.getPointerOperand()),DL->getTypeStoreSize(L.getType())); set(loadTy(st,a,L.getType())); return; }
    case Instruction::Store: { auto&L=cast<StoreInst>(I); AtomicScope as(L.isAtomic()); Type*t=L.getValueOperand()->getType(); uint64_t a=resolve(st,get(st,L.getPointerOperand()),DL->getTypeStoreSize(t)); storeTy(st,a,get(st,L.getValueOperand()),t); ++f.it; return; }
    case Instruction::GetElementPtr: { auto&G=cast<GetElementPtrInst>(I); Val b=get(st,G.getPointerOperand()); if(b.k==Val::AGG) unsup("vector gep"); bool symb=b.k==Val::SINT; uint64_t off=0; Ex se=C->bv_val(0,64); bool ss=false;
      for(auto gi=gep_type_begin(G),e=gep_type_end(G);gi!=e;++gi){ Value*op=gi.getOperand(); if(StructType*sty=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); } else { uint64_t es=DL->getTypeAllocSize(gi.getIndexedType()); Val ix=get(st,op); unsigned w=op->getType()->getIntegerBitWidth(); if(ix.k==Val::SDBL||ix.k==Val::DBL) ix=bitsOf(ix); if(ix.k==Val::INT) off+=es*(uint64_t)sx(ix.i,w); else if(ix.k==Val::UNDEF){} else { Ex x=toBV(ix,w); if(w<64) x=z3::sext(x,64-w); se=se+x*C->bv_val(es,64); ss=true; } } }
      if(!symb&&!ss) set(Val::P(b.i+off)); else { Ex x=toBV(b,64)+C->bv_val(off,64); if(ss) x=x+se; set(mkI(x,64)); } return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Val a=get(st,I.getOperand(0)),b=get(st,I.getOperand(1)); if(auto*vt=dyn_cast<FixedVectorType>(I.getType())){ unsigned w=vt->getElementType()->getIntegerBitWidth(); set(vecMap2(st,a,b,[&](const Val&x,const Val&y){return ibin(st,I.getOpcode(),x,y,w);})); return; } set(ibin(st,I.getOpcode(),a,b,I.getType()->getIntegerBitWidth())); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { if(I.getOpcode()==Instruction::FRem){ vector<Val> a{get(st,I.getOperand(0)),get(st,I.getOperand(1))}; CallBase*cb=nullptr; set(ext["fmod"](st,*cb,a)); return; } set(fbin(st,I.getOpcode(),get(st,I.getOperand(0)),get(st,I.getOperand(1)))); return; }
    case Instruction::FNeg: { Val a=get(st,I.getOperand(0)); if(a.k==Val::AGG){ vector<Val> r; for(auto&x:*a.agg) r.push_back(fneg(x)); set(Val::A(r)); return;} set(fneg(a)); return; }
    case Instruction::ICmp: { auto&c=cast<ICmpInst>(I); Type*t=c.getOperand(0)->getType(); Val a=get(st,c.getOperand(0)),b=get(st,c.getOperand(1)); if(t->isVectorTy()){ Type*e=cast<FixedVectorType>(t)->getElementType(); unsigned w=e->isPointerTy()?64:e->getIntegerBitWidth(); set(vecMap2(st,a,b,[&](const Val&x,const Val&y){return icmp(st,c.getPredicate(),x,y,w);})); return;} unsigned w=t->isPointerTy()?64:t->getIntegerBitWidth(); if(w==64&&(a.k==Val::SDBL||b.k==Val::SDBL)&&REAL){ // integer comparison of double bit patterns: only equality with zero pattern etc. is meaningful
        } set(icmp(st,c.getPredicate(),a,b,w)); return; }
    case Instruction::FCmp: { auto&c=cast<FCmpInst>(I); Val a=get(st,c.getOperand(0)),b=get(st,c.getOperand(1)); if(a.k==Val::AGG){ set(vecMap2(st,a,b,[&](const Val&x,const Val&y){return fcmp(c.getPredicate(),x,y);})); return;} set(fcmp(c.getPredicate(),a,b)); return; }
    case Instruction::Select: { Val c=get(st,I.getOperand(0)),a=get(st,I.getOperand(1)),b=get(st,I.getOperand(2)); if(c.k==Val::AGG){ vector<Val> r; Type*et=cast<FixedVectorType>(I.getType())->getElementType(); for(size_t i=0;i<c.agg->size();i++){ Val ci=(*c.agg)[i]; r.push_back(ci.k==Val::INT? (ci.i?(*a.agg)[i]:(*b.agg)[i]) : ite(st,ci.s->e,(*a.agg)[i],(*b.agg)[i],et)); } set(Val::A(r)); return;} if(c.k!=Val::SINT){ set((c.k==Val::INT&&(c.i&1))?a:b); return;} set(ite(st,c.s->e,a,b,I.getType())); return; }
    case Instruction::Br: { auto&b=cast<BranchInst>(I); if(b.isUnconditional()){ enterBlock(st,b.getSuccessor(0)); return;} bool t=truth(st,get(st,b.getCondition())); enterBlock(st,b.getSuccessor(t?0:1)); return; }
    case Instruction::Switch: { auto&s=cast<SwitchInst>(I); Val c=get(st,s.getCondition()); if(c.k==Val::INT){ BasicBlock*d=s.getDefaultDest(); for(auto&cs:s.cases()) if(cs.getCaseValue()->getZExtValue()==c.i){ d=cs.getCaseSuccessor(); break;} enterBlock(st,d); return;} unsigned w=s.getCondition()->getType()->getIntegerBitWidth(); Ex e=toBV(c,w); for(auto&cs:s.cases()) if(branch(st,e==C->bv_val(cs.getCaseValue()->getZExtValue(),w))){ enterBlock(st,cs.getCaseSuccessor()); return;} enterBlock(st,s.getDefaultDest()); return; }
    case Instruction::Ret: { auto&r=cast<ReturnInst>(I); doRet(st,r.getReturnValue()?get(st,r.getReturnValue()):Val()); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(st,cast<CallBase>(I)); return;
    case Instruction::Resume: { Val v=get(st,I.getOperand(0)); st.excObj=(*v.agg)[0].i; st.excTI=st.excType[st.excObj]; if(st.st.size()==1) fail("exception","uncaught exception "+tiName(st.excTI)); popFrame(st); unwind(st); return; }
    case Instruction::Unreachable: fail("abort","unreachable code reached (undefined behaviour)");
    case Instruction::ExtractValue: { auto&e=cast<ExtractValueInst>(I); Val v=get(st,e.getAggregateOperand()); for(unsigned i:e.indices()){ if(v.k!=Val::AGG) unsup("extractvalue"); Val t=(*v.agg)[i]; v=t; } set(v); return; }
    case Instruction::InsertValue: { auto&e=cast<InsertValueInst>(I); Val v=get(st,e.getAggregateOperand()); if(v.k==Val::UNDEF) v=zeroOf(I.getType()); std::function<Val(Val,unsigned)> ins=[&](Val a,unsigned d)->Val{ if(d==e.getNumIndices()) return get(st,e.getInsertedValueOperand()); vector<Val> c=*a.agg; c[e.getIndices()[d]]=ins(c[e.getIndices()[d]],d+1); Val r=Val::A(c); return r; }; set(ins(v,0)); return; }
    case Instruction::ExtractElement: { Val v=get(st,I.getOperand(0)); uint64_t i=concretize(st,get(st,I.getOperand(1))); set((*v.agg).at(i)); return; }
    case Instruction::InsertElement: { Val v=get(st,I.getOperand(0)); if(v.k==Val::UNDEF) v=zeroOf(I.getType()); uint64_t i=concretize(st,get(st,I.getOperand(2))); vector<Val> c=*v.agg; c.at(i)=get(st,I.getOperand(1)); set(Val::A(c)); return; }
    case Instruction::ShuffleVector: { auto&s=cast<ShuffleVectorInst>(I); Val a=get(st,I.getOperand(0)),b=get(st,I.getOperand(1)); vector<Val> r; size_t n=a.agg->size(); for(int m:s.getShuffleMask()) r.push_back(m<0? (*a.agg)[0]: (size_t)m<n?(*a.agg)[m]:(*b.agg)[m-n]); set(Val::A(r)); return; }
    case Instruction::PHI: unsup("phi");
    case Instruction::Freeze: set(get(st,I.getOperand(0))); return;
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { Val v=get(st,I.getOperand(0)); bool isv=I.getType()->isVectorTy(); auto one=[&](Val v,Type*ts,Type*td)->Val{ unsigned a=ts->getIntegerBitWidth(),b=td->getIntegerBitWidth(); if(a>64||b>64){ if(v.k==Val::INT){ uint64_t lo= I.getOpcode()==Instruction::SExt?(uint64_t)sx(v.i,a):v.i; Val r=Val::A({Val::I(lo,64),Val::I(I.getOpcode()==Instruction::SExt&&(int64_t)lo<0?~0ULL:0,64)}); r.w=b; return r;} if(v.k==Val::AGG&&b<=64) { Val x=(*v.agg)[0]; if(x.k==Val::INT) return Val::I(x.i,b); return mkI(toBV(x,64).extract(b-1,0),b);} unsup("wide cast"); }
        if(v.k==Val::DBL||v.k==Val::SDBL) v=bitsOf(v); if(v.k==Val::UNDEF) return Val::I(0,b); if(v.k==Val::INT){ if(I.getOpcode()==Instruction::SExt) return Val::I((uint64_t)sx(v.i,a),b); return Val::I(v.i,b);} if(I.getOpcode()==Instruction::Trunc){ if(b==1) return mkB(toBV(v,a).extract(0,0)==C->bv_val(1,1)); return mkI(toBV(v,a).extract(b-1,0),b);} if(a==1){ if(I.getOpcode()==Instruction::SExt) return mkI(z3::ite(v.s->e,C->bv_val((uint64_t)~0ULL,b),C->bv_val(0,b)),b); return mkI(toBV(v,b),b);} return mkI(I.getOpcode()==Instruction::SExt? z3::sext(v.s->e,b-a):z3::zext(v.s->e,b-a),b); };
      if(isv){ vector<Val> r; for(auto&x:*v.agg) r.push_back(one(x,cast<FixedVectorType>(I.getOperand(0)->getType())->getElementType(),cast<FixedVectorType>(I.getType())->getElementType())); set(Val::A(r)); } else set(one(v,I.getOperand(0)->getType(),I.getType())); return; }
    case Instruction::BitCast: { Val v=get(st,I.getOperand(0)); Type*t=I.getType(); Type*s=I.getOperand(0)->getType(); if(t->isDoubleTy()&&!s->isVectorTy()) set(asDbl(v)); else if(t->isIntegerTy()&&s->isDoubleTy()) set(v.k==Val::DBL?bitsOf(v):v); else if(t->isFloatTy()) set(asDbl(v)); else if(t->isIntegerTy()&&s->isFloatTy()) set(bitsOf(v)); else if(s->isVectorTy()||t->isVectorTy()){ // through memory
          uint64_t p=allocObj(st,DL->getTypeStoreSize(t),1,"bc"); storeTy(st,p,v,s); Val r=loadTy(st,p,t); st.mem.erase(p); set(r);} else set(v); return; }
    case Instruction::IntToPtr: case Instruction::PtrToInt: { Val v=get(st,I.getOperand(0)); if(v.k==Val::INT){ unsigned w=I.getType()->isPointerTy()?64:I.getType()->getIntegerBitWidth(); set(Val::I(v.i,w)); } else set(v); return; }
    case Instruction::AddrSpaceCast: set(get(st,I.getOperand(0))); return;
    case Instruction::FPToSI: case Instruction::FPToUI: set(fpToInt(st,get(st,I.getOperand(0)),I.getOpcode()==Instruction::FPToSI,I.getType()->getIntegerBitWidth())); return;
    case Instruction::SIToFP: case Instruction::UIToFP: if(I.getType()->isVectorTy()){ Val v=get(st,I.getOperand(0)); vector<Val> r; unsigned w=cast<FixedVectorType>(I.getOperand(0)->getType())->getElementType()->getIntegerBitWidth(); for(auto&x:*v.agg) r.push_back(intToFp(st,x,I.getOpcode()==Instruction::SIToFP,w,false)); set(Val::A(r)); return; } set(intToFp(st,get(st,I.getOperand(0)),I.getOpcode()==Instruction::SIToFP,I.getOperand(0)->getType()->getIntegerBitWidth(),I.getType()->isFloatTy())); return;
    case Instruction::FPExt: { Val v=asDbl(get(st,I.getOperand(0))); v.w=64; set(v); return; }
    case Instruction::FPTrunc: { Val v=asDbl(get(st,I.getOperand(0))); if(v.k!=Val::DBL) unsup("symbolic float"); set(Val::D((float)v.d,32)); return; }
    case Instruction::LandingPad: unsup("landingpad");
    case Instruction::Fence: ++f.it; return;
    case Instruction::AtomicRMW: { AtomicScope as; auto&A=cast<AtomicRMWInst>(I); Type*t=A.getType(); uint64_t p=resolve(st,get(st,A.getPointerOperand()),8); Val o=loadTy(st,p,t),v=get(st,A.getValOperand()),n; unsigned w=t->isIntegerTy()?t->getIntegerBitWidth():64; switch(A.getOperation()){ case AtomicRMWInst::Xchg:n=v;break; case AtomicRMWInst::Add:n=ibin(st,Instruction::Add,o,v,w);break; case AtomicRMWInst::Sub:n=ibin(st,Instruction::Sub,o,v,w);break; case AtomicRMWInst::And:n=ibin(st,Instruction::And,o,v,w);break; case AtomicRMWInst::Or:n=ibin(st,Instruction::Or,o,v,w);break; default: unsup("atomicrmw"); } storeTy(st,p,n,t); set(o); return; }
    case Instruction::AtomicCmpXchg: { AtomicScope as; auto&A=cast<AtomicCmpXchgInst>(I); Type*t=A.getCompareOperand()->getType(); uint64_t p=resolve(st,get(st,A.getPointerOperand()),8); Val o=loadTy(st,p,t),e=get(st,A.getCompareOperand()); unsigned w=t->isIntegerTy()?t->getIntegerBitWidth():64; bool eq=truth(st,icmp(st,CmpInst::ICMP_EQ,o,e,w)); if(eq) storeTy(st,p,get(st,A.getNewValOperand()),t); set(Val::A({o,Val::I(eq,1)})); return; }
    case Instruction::VAArg: unsup("va_arg");
    default: unsup(string("instruction ")+I.getOpcodeName()); } }

// ------------------------------------------------------------------ driver
static void setupGlobals(State&st){
  uint64_t a=0x10000; for(auto&F:*M){ fnAddr[&F]=a; fnByAddr[a]=&F; a+=16; if(F.hasExternalWeakLinkage()&&F.isDeclaration()){ fnByAddr.erase(fnAddr[&F]); fnAddr[&F]=0; } }
  uint64_t g=0x20000000; for(auto&G:M->globals()){ uint64_t sz=G.getValueType()->isSized()?(uint64_t)DL->getTypeAllocSize(G.getValueType()):64; if(G.hasExternalWeakLinkage()&&G.isDeclaration()){ gvAddr[&G]=0; continue; } if(G.isDeclaration()&&sz<64) sz=64; gvAddr[&G]=g; auto o=std::make_shared<Obj>(); o->base=g; o->size=sz; o->b.assign(sz,0); o->name=G.getName().str(); o->ro=false; g+=((sz+63)/64)*64+64; st.mem[o->base]=o; if(G.getName().starts_with("_ZTI")) tiByAddr[o->base]=&G; }
  for(auto&G:M->globals()) if(G.hasInitializer()&&gvAddr[&G]){ try{ storeConst(st,gvAddr[&G],G.getInitializer()); }catch(Unsupported&u){ fprintf(stderr,"global %s: %s\n",G.getName().str().c_str(),u.why.c_str()); } }
  for(auto&G:M->globals()) if(G.isThreadLocal()&&gvAddr[&G]) tlsOriginals.insert(gvAddr[&G]);
  for(auto&G:M->globals()) if(G.isConstant()&&gvAddr[&G]){ auto o=st.mem[gvAddr[&G]]; o->ro=true; roObjs[o->base]=o; st.mem.erase(o->base); } }
static string jstr(const string&s){ return "\""+esc(s)+"\""; }
static bool g_done=false;
static void runState(State*st0){ State*st=st0; S=st; string end; 
  try{ while(true){ if((nInst&1023)==0&&now()>g_deadline){ incon["time limit"]++; end="time"; break; } step(*st); } }
  catch(PathEnd&p){ end=p.why; }
  catch(Unsupported&u){ incon["unsupported: "+u.why+" @ "+locOf(*st)]++; end="unsup"; }
  catch(Fail2&f){ end="fail"; nObl++; oblBy["no "+f.kind]++; reportHere(*st,f.kind,f.msg); }
  catch(Fail&f){ end="fail"; nObl++; oblBy["no "+f.kind+" failure"]++; reportHere(*st,f.kind,f.msg); }
  catch(z3::exception&e){ incon[string("z3: ")+e.msg()]++; end="z3"; }
  catch(std::out_of_range&e){ incon[string("engine: out_of_range @ ")+locOf(*st)]++; end="engine"; }
  if(end=="done"||end=="end"){ nPaths++; if(pathModels.size()<wantTraces&&st->asgOK){ string o="{\"inputs\":["; auto in=dumpInputs(*st,st->asg); for(size_t i=0;i<in.size();i++) o+=(i?",":"")+jstr(in[i]); o+="],\"obs\":["; for(size_t i=0;i<st->obs.size();i++){ double d=NAN; uint64_t u; bool ok=valueOf(*st,st->obs[i].second,&d,&u); char b[64]; snprintf(b,64,"%.17g",d); o+=string(i?",":"")+"["+jstr(st->obs[i].first)+","+jstr(ok?b:"?")+"]"; } o+="]}"; pathModels.push_back(o);} }
  else if(end=="assume"||end=="infeasible"||end=="assert false"){} 
  delete st; }
int main(int argc,char**argv){
  string file,entry,out="-"; for(int i=1;i<argc;i++){ string s=argv[i]; if(s=="--entry") entry=argv[++i]; else if(s=="--mode") REAL=string(argv[++i])=="real"; else if(s=="--out") out=argv[++i]; else if(s=="--time") g_time_s=atof(argv[++i]); else if(s=="--qtime") g_qtime_ms=atof(argv[++i]); else if(s=="--traces") wantTraces=atoi(argv[++i]); else if(s=="--maxviol") maxViol=atoi(argv[++i]); else file=s; }
  double t0=now(); g_deadline=t0+g_time_s; LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(file,err,ctx); if(!mod){ err.print("rsym",errs()); return 3; } M=mod.get(); DL=&M->getDataLayout();
  z3::context zc; C=&zc; Z3_global_param_set("memory_max_size","6000"); initExt(); initOmp();
  Function*E=M->getFunction(entry); if(!E){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 4; }
  State*st=new State; try{ setupGlobals(*st);}catch(Unsupported&u){ fprintf(stderr,"setup: %s\n",u.why.c_str()); return 5; }
  // static constructors, then the entry
  string initFail; if(auto*gc=M->getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())){ vector<std::pair<uint64_t,Function*>> cs; for(auto&op:ca->operands()){ auto*s=cast<ConstantStruct>(op); if(auto*f=dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(),f}); } std::stable_sort(cs.begin(),cs.end(),[](auto&a,auto&b){return a.first<b.first;});
      for(auto&c:cs){ vector<Val> none; S=st; pushCall(*st,c.second,none,nullptr); try{ while(true) step(*st);}catch(PathEnd&){}catch(Unsupported&u){ fprintf(stderr,"ctor %s: %s\n",c.second->getName().str().c_str(),u.why.c_str()); st->st.clear(); }catch(Fail&f){ fprintf(stderr,"ctor %s: %s\n",c.second->getName().str().c_str(),f.msg.c_str()); st->st.clear(); } } }
  for(auto&p:FI) p.second->entered=0; nInst=0;
  vector<Val> none; pushCall(*st,E,none,nullptr); work.push_back(st);
  // labels of reachability witnesses present in the code reachable from the entry
  std::set<string> labels; { std::set<Function*> seen; vector<Function*> stk{E}; while(!stk.empty()){ Function*F=stk.back(); stk.pop_back(); if(!seen.insert(F).second) continue; for(auto&B:*F) for(auto&I:B) if(auto*cb=dyn_cast<CallBase>(&I)) if(Function*G=theFn(*cb)){ if(G->getName()=="vf_reach"){ if(auto*gv=dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if(gv->hasInitializer()) if(auto*cd=dyn_cast<ConstantDataSequential>(gv->getInitializer())) labels.insert(cd->isCString()?cd->getAsCString().str():""); } else if(!G->isDeclaration()) stk.push_back(G); } } }
  uint64_t dropped=0; while(!work.empty()){ if(now()>g_deadline){ dropped=work.size(); incon["time limit"]+=dropped; break; } State*s=work.back(); work.pop_back(); runState(s); }
  string o="{\n"; auto kv=[&](const char*k,double v){ char b[128]; snprintf(b,128,"  \"%s\": %.17g,\n",k,v); o+=b; };
  kv("paths",nPaths); kv("forks",nForks); kv("instructions",nInst); kv("queries",nQueries); kv("cache_hits",nCache); kv("sat",nSat); kv("unsat",nUnsat); kv("unknown",nUnk); kv("solver_s",tSolve); kv("wall_s",now()-t0); kv("obligations",nObl); kv("discharged",nDis); kv("undecided",nOblUnk); kv("trivial",nTrivial); kv("states_dropped",dropped);
  o+="  \"mode\": "+jstr(REAL?"real":"fp")+",\n  \"entry\": "+jstr(entry)+",\n  \"functions\": ["; bool first=true; std::set<string> names; for(auto&p:FI) if(p.second->entered&&p.second->repo) names.insert(p.second->dem); for(auto&n:names){ o+=(first?"":",")+jstr(n); first=false; } o+="],\n";
  o+="  \"obligation_kinds\": {"; first=true; for(auto&p:oblBy){ o+=(first?"":",")+jstr(p.first)+":"+std::to_string(p.second); first=false; } o+="},\n";
  o+="  \"reach_missing\": ["; first=true; for(auto&l:labels) if(!reached.count(l)){ o+=(first?"":",")+jstr(l); first=false; } o+="],\n  \"reached\": ["; first=true; for(auto&l:reached){ o+=(first?"":",")+jstr(l.first); first=false; } o+="],\n";
  o+="  \"inconclusive\": {"; first=true; for(auto&p:incon){ o+=(first?"":",")+jstr(p.first)+":"+std::to_string(p.second); first=false; } o+="},\n  \"traces\": ["; first=true; for(auto&t:pathModels){ o+=(first?"":",")+t; first=false; } o+="],\n  \"violations\": ["; first=true; for(auto&v:viol){ o+=string(first?"":",")+"\n    {\"kind\":"+jstr(v.kind)+",\"msg\":"+jstr(v.msg)+",\"loc\":"+jstr(v.loc)+",\"inputs\":["; for(size_t i=0;i<v.inputs.size();i++) o+=(i?",":"")+jstr(v.inputs[i]); o+="]}"; first=false; } o+="]\n}\n";
  if(out=="-") fputs(o.c_str(),stdout); else { FILE*f=fopen(out.c_str(),"w"); fputs(o.c_str(),f); fclose(f);} fflush(stdout); _exit(0); }
