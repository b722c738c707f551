// C27: order statistics
#include "common.h"
#ifdef VF_DEEP
#define N 4
#else
#define N 3
#endif
// @entry c27_minmax prop=C27 mode=fp time=60
// @bounds size 0..4 (5), every non-NaN double
VF_HARNESS(c27_minmax){
  int n=vf_pick("n",0,N+1); vec a=vf_vecn(n,"a"); if(n==0){ THROWS(a.findMin()); THROWS(a.findMax()); THROWS(a.findMinIndex()); THROWS(a.findMaxIndex()); vf_reach("empty"); return; }
  double mn=a.findMin(),mx=a.findMax(); int i=a.findMinIndex(),j=a.findMaxIndex(); CHECKM(i>=0&&i<n&&j>=0&&j<n,"index in range"); bool all=true; for(int k=0;k<n;k++) all=all&(mn<=a(k))&(mx>=a(k)); CHECKM(all,"min and max bound all entries"); CHECKM(a(i)==mn,"min index"); CHECKM(a(j)==mx,"max index"); vf_reach("end");
}
// @entry c27_sort prop=C27 mode=fp time=90
// @bounds size 0..3 (4), every non-NaN double, both directions
VF_HARNESS(c27_sort){
  int n=vf_pick("n",0,N); bool asc=vf_flag("asc"); vec a=vf_vecn(n,"a"),k(a); bool s=true; for(int i=0;i+1<n;i++) s=s&(asc?a(i)<=a(i+1):a(i)>=a(i+1)); CHECKM(a.is_sorted(asc)==s,"is_sorted"); a.sort(asc); CHECK(a.getSize()==(unsigned)n); bool o=true; for(int i=0;i+1<n;i++) o=o&(asc?a(i)<=a(i+1):a(i)>=a(i+1)); CHECKM(o,"sorted"); CHECK(a.is_sorted(asc));
  // permutation: every value occurs equally often
  for(int i=0;i<n;i++){ int c=0,d=0; for(int j=0;j<n;j++){ c+=(k(j)==k(i)); d+=(a(j)==k(i)); } CHECKM(c==d,"sorting permutes the entries"); } vf_reach("end");
}
// @entry c27_interval prop=C27 mode=fp time=60
// @bounds size 0..4, every non-NaN double, value different from the last entry
VF_HARNESS(c27_interval){
  int n=vf_pick("n",0,4); vec a=vf_vecn(n,"a"); double v=vf_number("v"); bool s=true; for(int i=0;i+1<n;i++) s=s&(a(i)<=a(i+1)); int r=-2; bool t=vf_throws([&]{ r=a.findInterval(v); }); if(n==0){ CHECKM(!t&&r==-1,"empty"); return; } CHECKM(t==!s,"unsorted rejected"); if(t){ vf_reach("unsorted"); return; } vf_assume(v!=a(n-1)); 
  if(v<a(0)){ CHECKM(r==-1,"below all"); } else if(v>a(n-1)){ vf_reach("above"); CHECKM(r==n-1,"above all"); } else { vf_reach("inside"); CHECKM(r>=0&&r<n-1,"index in range"); CHECKM((a(r)<=v)&(v<a(r+1)),"interval contains the value"); }
}
// @entry c27_stats prop=C27 mode=real time=90
// @bounds size 0..3 (4), entries in [-1000,1000], exact real arithmetic, tolerance 1e-6
VF_HARNESS(c27_stats){
  int n=vf_pick("n",0,N); vec a=vf_vec(n,"a",-1e3,1e3); if(n==0){ THROWS(a.mean()); THROWS(a.standardDeviation()); vf_reach("empty"); return; } double s=0; for(int i=0;i<n;i++) s+=a(i); double m=a.mean(); CLOSE(m*n,s,1e-8); double ss=0; for(int i=0;i<n;i++) ss+=(a(i)-s/n)*(a(i)-s/n); double sd=a.standardDeviation(); CHECKM(sd>=0,"deviation non-negative"); CLOSE(sd*sd*n,ss,1e-5); vf_observe("mean",m); vf_observe("sd",sd); vf_reach("end");
}
// @entry c27_quantile prop=C27 mode=real time=90
// @bounds size 0..3 (4), entries in [-1000,1000], every probability in [-0.5,1.5]
VF_HARNESS(c27_quantile){
  int n=vf_pick("n",0,N); vec a=vf_vec(n,"a",-1e3,1e3); double p=vf_range("p",-0.5,1.5); double q=0; bool bad=(p<0)|(p>1)|(n==0); bool t=vf_throws([&]{ q=a.quantile(p); }); CHECKM(t==bad,"quantile rejects exactly bad arguments"); if(t){ vf_reach("bad"); return; }
  vec o(a); for(int i=0;i<n;i++) for(int j=0;j+1<n;j++) if(o(j)>o(j+1)){ double x=o(j); o(j)=o(j+1); o(j+1)=x; }
  double idx=p*(n-1); int lo=0; for(int k=1;k<=n-1;k++) if(idx>=k) lo=k; int hi=lo+1<n?lo+1:lo; double e=o(lo)+(idx-lo)*(o(hi)-o(lo)); CLOSE(q,e,1e-6); CHECKM((q>=o(0)-1e-6)&(q<=o(n-1)+1e-6),"quantile within the range"); for(int i=0;i<n;i++) CHECK(true); vf_observe("q",q); vf_reach("end");
}
// @entry c27_between prop=C27 mode=fp time=60
// @bounds size 0..3, every non-NaN double
VF_HARNESS(c27_between){
  int n=vf_pick("n",0,3); vec a=vf_vecn(n,"a"),l=vf_vecn(n,"l"),u=vf_vecn(n,"u"); bool in=true; for(int i=0;i<n;i++) in=in&(a(i)>=l(i))&(a(i)<=u(i)); CHECKM(a.is_between(l,u)==in,"is_between is inclusive membership"); THROWS(a.is_between(vec(n+1),u)); THROWS(a.is_between(l,vec(n+1))); vf_reach("end");
}
