// C13: vector container and arithmetic
#include "common.h"
#ifdef VF_DEEP
#define N 4
#else
#define N 3
#endif
#define R 1e3
// @entry c13_copy prop=C13 mode=fp time=60
// @bounds size 0..3 (4), every double
VF_HARNESS(c13_copy){
  int n=vf_pick("n",0,N),m=vf_pick("m",0,N); vec a=vf_vecn(n,"a"); vec keep(n); for(int i=0;i<n;i++) keep(i)=a(i);
  vec b(a); vec c=vf_vecn(m,"c"); c=a; c=c; a=a;
  CHECK(b.getSize()==(unsigned)n); CHECK(c.getSize()==(unsigned)n); CHECK(a.getSize()==(unsigned)n);
  for(int i=0;i<n;i++){ CHECKM((b(i)==keep(i))&(c(i)==keep(i))&(a(i)==keep(i)),"copy equals the source"); }
  for(int i=0;i<n;i++){ a(i)=a(i)+1; } for(int i=0;i<n;i++) CHECKM((b(i)==keep(i))&(c(i)==keep(i)),"copies do not share storage");
  vec d; d=b; b.reset(); CHECK(b.getSize()==0); CHECK(b.isEmpty()); for(int i=0;i<n;i++) CHECKM(d(i)==keep(i),"copy survives its source");
  d.swap(c); CHECK(d.getSize()==(unsigned)n); vec e(m); e.swap(d); CHECK(e.getSize()==(unsigned)n); CHECK(d.getSize()==(unsigned)m); for(int i=0;i<n;i++) CHECKM(e(i)==keep(i),"swap moves contents");
  vf_reach("end");
}
// @entry c13_resize prop=C13 mode=fp time=60
// @bounds size 0..3 (4), new size 0..4 (5), every double
VF_HARNESS(c13_resize){
  int n=vf_pick("n",0,N),m=vf_pick("m",0,N+1); vec a=vf_vecn(n,"a"); vec k(a); double def=vf_number("def"); bool givendef=vf_flag("g");
  if(givendef) a.resize(m,def); else a.resize(m);
  CHECK(a.getSize()==(unsigned)m); for(int i=0;i<m;i++) CHECKM(a(i)==(i<n?k(i):givendef?def:0.0),"resize keeps the leading entries and fills the rest");
  double v=vf_number("v"); vec b(a); b.push_back(v); CHECK(b.getSize()==(unsigned)m+1); for(int i=0;i<m;i++) CHECKM(b(i)==a(i),"push_back keeps entries"); CHECKM(b(m)==v,"push_back appends");
  std::vector<double> s=a.toStdVector(); CHECK(s.size()==(size_t)m); for(int i=0;i<m;i++) CHECKM(s[i]==a(i),"toStdVector"); vec f=vf_vecn(n,"f"); f.fromStdVector(s); CHECK(f.getSize()==(unsigned)m); for(int i=0;i<m;i++) CHECKM(f(i)==a(i),"fromStdVector");
  a.fill(v); for(int i=0;i<m;i++) CHECKM(a(i)==v,"fill"); a.fillWithIntegersAscendingOrder(); for(int i=0;i<m;i++) CHECKM(a(i)==i+1,"fillWithIntegersAscendingOrder");
  vec w(m,v); CHECK(w.getSize()==(unsigned)m); for(int i=0;i<m;i++) CHECKM(w(i)==v,"constructor with value"); vec z(m); for(int i=0;i<m;i++) CHECKM(z(i)==0,"constructor zero");
  vf_reach("end");
}
// @entry c13_append prop=C13 mode=fp time=60
// @bounds sizes 0..3 (4), every position -3..5, every double
VF_HARNESS(c13_append){
  int n=vf_pick("n",0,N),m=vf_pick("m",0,N),p=vf_pick("p",-3,N+2); vec a=vf_vecn(n,"a"),b=vf_vecn(m,"b"),k(a);
  if(p==-3){ a.appendVector(b); p=-1; } else { bool bad=p<-1||p>n; bool t=vf_throws([&]{ a.appendVector(b,p); }); CHECKM(t==bad,"appendVector rejects exactly bad positions"); if(bad){ vf_reach("bad"); CHECK(a.getSize()==(unsigned)n); for(int i=0;i<n;i++) CHECKM(a(i)==k(i),"rejected append changes nothing"); return; } }
  if(p==-1) p=n; CHECK(a.getSize()==(unsigned)(n+m));
  for(int i=0;i<n+m;i++) CHECKM(a(i)==(i<p?k(i):i<p+m?b(i-p):k(i-m)),"appendVector inserts at the position"); vf_reach("good");
  int q=vf_pick("q",-1,2*N); vec c(a); bool bad=q<0||q>=n+m; bool t=vf_throws([&]{ c.copyVector(b,q); }); CHECKM(t==bad,"copyVector rejects exactly bad positions"); CHECK(c.getSize()==(unsigned)(n+m)); for(int i=0;i<n+m;i++) CHECKM(c(i)==(!bad&&i>=q&&i<q+m?b(i-q):a(i)),"copyVector overwrites in place only");
}
// @entry c13_access prop=C13 mode=fp time=60
// @bounds size 0..3 (4), index and slice length 0..5 and 2^31, every double
VF_HARNESS(c13_access){
  int n=vf_pick("n",0,N); unsigned i=vf_pick("i",0,N+2); if(i==N+2) i=vf_flag("neg")?4294967295u:2147483648u; vec a=vf_vecn(n,"a"); const vec&ca=a; vec k(a); bool bad=i>=(unsigned)n;
  double x=0,y=0,z=0,v=vf_number("v"); CHECKM(vf_throws([&]{ x=a(i); })==bad,"operator() bounds"); CHECKM(vf_throws([&]{ y=ca(i); })==bad,"const operator() bounds"); CHECKM(vf_throws([&]{ z=a.get(i); })==bad,"get bounds");
  if(!bad) CHECKM((x==k(i))&(y==k(i))&(z==k(i)),"element access"); CHECKM(vf_throws([&]{ a.set(i,v); })==bad,"set bounds"); for(int j=0;j<n;j++) CHECKM(a(j)==((unsigned)j==i?v:k(j)),"set changes one entry");
  vec h,t; bool bs=i>(unsigned)n; CHECKM(vf_throws([&]{ h=k.head(i); })==bs,"head bounds"); CHECKM(vf_throws([&]{ t=k.tail(i); })==bs,"tail bounds");
  if(!bs){ vf_reach("slice"); CHECK(h.getSize()==i); CHECK(t.getSize()==i); for(unsigned j=0;j<i;j++){ CHECKM(h(j)==k(j),"head"); CHECKM(t(j)==k(n-i+j),"tail"); } }
}
// @entry c13_arith prop=C13 mode=real time=60
// @bounds size 0..3 (4), entries in [-1000,1000], exact real arithmetic, tolerance 1e-8
VF_HARNESS(c13_arith){
  int n=vf_pick("n",0,N),m=vf_pick("m",0,N); vec a=vf_vec(n,"a",-R,R),b=vf_vec(m,"b",-R,R); double s=vf_range("s",-R,R),t=vf_range("t",-R,R);
  if(n!=m){ THROWS(a+b); THROWS(a-b); THROWS(vec::scaleAndAdd(a,s,b)); THROWS(vec::scaleAndAddNoLib(a,s,b)); THROWS(vec::dotProduct(a,b)); THROWS(a.dot(b)); THROWS(a.dotNoLib(b)); THROWS(a<b); THROWS(a>b); CHECK(!a.is_equal(b)); vf_reach("mismatch"); return; }
  vec p=a+b,q=a-b,r=a*s,u=a+s,w=a-s,x=vec::scaleAndAdd(a,s,t),y=vec::scaleAndAdd(a,s,b),z=vec::scaleAndAddNoLib(a,s,b);
  CHECK(p.getSize()==(unsigned)n&&q.getSize()==(unsigned)n&&r.getSize()==(unsigned)n&&u.getSize()==(unsigned)n&&w.getSize()==(unsigned)n&&x.getSize()==(unsigned)n&&y.getSize()==(unsigned)n&&z.getSize()==(unsigned)n);
  double sum=0,prod=1,dot=0; bool lt=true,gt=true;
  for(int i=0;i<n;i++){ CLOSE(p(i),a(i)+b(i),1e-8); CLOSE(q(i),a(i)-b(i),1e-8); CLOSE(r(i),a(i)*s,1e-8); CLOSE(u(i),a(i)+s,1e-8); CLOSE(w(i),a(i)-s,1e-8); CLOSE(x(i),s*a(i)+t,1e-8); CLOSE(y(i),s*a(i)+b(i),1e-8); CLOSE(z(i),s*a(i)+b(i),1e-8); sum+=a(i); prod*=a(i); dot+=a(i)*b(i); lt=lt&(a(i)<b(i)); gt=gt&(a(i)>b(i)); }
  CLOSE(a.sum(),sum,1e-8); CLOSE(a.product()-prod,0,1e-3); CLOSE(vec::dotProduct(a,b),dot,1e-8); CLOSE(a.dot(b),dot,1e-8); CLOSE(a.dotNoLib(b),dot,1e-8); CHECKM((a<b)==lt,"< is elementwise"); CHECKM((a>b)==gt,"> is elementwise");
  vf_observe("sum",a.sum()); vf_observe("dot",a.dot(b)); vf_reach("arith");
}
// @entry c13_norm prop=C13 mode=real time=60
// @bounds size 0..3 (4), entries in [-1000,1000], exact real arithmetic, tolerance 1e-7
VF_HARNESS(c13_norm){
  int n=vf_pick("n",0,N),k=vf_pick("k",0,2); vec a=vf_vec(n,"a",-R,R); NormType ty=k==0?L1:k==1?L2:LINF; double e=0,mx=0; for(int i=0;i<n;i++){ double v=vf_absd(a(i)); if(k==0) e+=v; else if(k==1) e+=a(i)*a(i); else e=v>e?v:e; mx=v>mx?v:mx; }
  double r=a.norm(ty); if(k==1){ CHECKM(r>=0,"norm non-negative"); CLOSE(r*r,e,1e-5); } else CLOSE(r,e,1e-8); vf_observe("norm",r);
  bool zero=!(mx>0); vec u; bool th=vf_throws([&]{ u=a.unitVector(ty); }); if(mx>1e-3||zero) CHECKM(th==zero,"unitVector rejects exactly the zero vector"); if(!th&&mx>1e-3){ vf_reach("unit"); CHECK(u.getSize()==(unsigned)n); for(int i=0;i<n;i++) CLOSE(u(i)*r,a(i),1e-7); }
}
// @entry c13_predicates prop=C13 mode=fp time=60
// @bounds size 0..3 (4), every double including NaN and infinities
VF_HARNESS(c13_predicates){
  int n=vf_pick("n",0,N); vec a(n),b(n); bool nan=false; for(int i=0;i<n;i++){ a(i)=vf_double("a"); b(i)=vf_double("b"); nan=nan|(a(i)!=a(i)); }
  CHECKM(a.has_nan()==nan,"has_nan"); if(nan){ vf_reach("nan"); return; } double tol=vf_range("tol",0,1); for(int i=0;i<n;i++) vf_assume((vf_absd(a(i))<=1e6)&(vf_absd(b(i))<=1e6));
  bool eq=true,z=true,hz=false; for(int i=0;i<n;i++){ double d=a(i)-b(i); eq=eq&(vf_absd(d)<=tol); z=z&(vf_absd(a(i))<=tol); hz=hz|(vf_absd(a(i))<=tol); }
  CHECKM(a.is_equal(b,tol)==eq,"is_equal"); CHECKM(a.is_zero(tol)==z,"is_zero"); CHECKM(a.has_zeros(tol)==hz,"has_zeros"); vf_reach("end");
}
// @entry c13_random prop=C13 mode=fp time=60
// @bounds size 0..3, every outcome of the random generator, finite limits
VF_HARNESS(c13_random){
  int n=vf_pick("n",0,3); vec a(n); a.fillRandom(); for(int i=0;i<n;i++) CHECKM((a(i)>=0)&(a(i)<=1),"fillRandom in [0,1]"); double l=vf_range("l",-1e6,1e6),u=vf_range("u",-1e6,1e6); bool t=vf_throws([&]{ a.fillRandom(l,u); }); CHECKM(t==(l>u),"fillRandom(a,b) rejects exactly a>b"); if(!t) for(int i=0;i<n;i++) CHECKM((a(i)>=l)&(a(i)<=u),"fillRandom(a,b) in range");
  vec lo=vf_vec(n,"lo",-1e6,1e6),hi=vf_vec(n,"hi",-1e6,1e6); bool bad=false; for(int i=0;i<n;i++) bad=bad|(lo(i)>hi(i)); t=vf_throws([&]{ a.fillRandom(lo,hi); }); CHECKM(t==bad,"fillRandom(lo,hi) rejects exactly lo>hi"); if(!t){ vf_reach("vec"); for(int i=0;i<n;i++) CHECKM((a(i)>=lo(i))&(a(i)<=hi(i)),"fillRandom(lo,hi) in range"); vec g=vec::generateRandomVectorBetween(lo,hi); CHECK(g.getSize()==(unsigned)n); for(int i=0;i<n;i++) CHECKM((g(i)>=lo(i))&(g(i)<=hi(i)),"generateRandomVectorBetween in range"); }
  THROWS(a.fillRandom(vec(n+1),vec(n))); THROWS(a.fillRandom(vec(n),vec(n+1))); THROWS(vec::generateRandomVectorBetween(vec(n),vec(n+1)));
}
