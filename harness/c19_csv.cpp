// C19: numeric CSV files
#include "data.h"
static double half(int p){ double h=0.5; for(int i=0;i<p;i++) h/=10; return h*1.001; }
// @entry c19_matrix prop=C19 mode=real time=60 qtime=10000
// @bounds 1..3 x 1..3 matrices, entries in [-1000,1000], precisions 1, 6, 9, 12, with and without header; wrong header sizes
VF_HARNESS(c19_matrix){
  int r=vf_pick("r",1,3),c=vf_pick("c",1,3),pk=vf_pick("prec",0,3); int p=pk==0?1:pk==1?6:pk==2?9:12; mat m=vf_mat(r,c,"m",-1000,1000); std::vector<std::string> h; bool hd=vf_flag("header"); if(hd) for(int j=0;j<c;j++) h.push_back("col"+std::to_string(j)); m.saveAsCSV("a.csv",p,h); std::vector<std::string> L=vf_lines(vf_read_file("a.csv")); CHECKM(L.size()==(size_t)(r+(hd?1:0)),"one line per row and one header line"); if(hd){ std::vector<std::string> H=vf_split(L[0],','); CHECK(H.size()==(size_t)c); for(int j=0;j<c;j++) CHECKM(H[j]==h[j],"header names in column order"); vf_reach("header"); } for(int i=0;i<r;i++) CHECKM(vf_split(L[i+(hd?1:0)],',').size()==(size_t)c,"one field per entry");
  mat b; if(vf_flag("reuse")) b=mat(2,5); b.readFromCSV("a.csv",hd); CHECKM(b.getNRows()==(unsigned)r&&b.getNCols()==(unsigned)c,"same shape"); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECKM(vf_close(b(i,j),m(i,j),half(p)),"same entries to the written precision"); if(hd) THROWS(b.readFromCSV("a.csv",false)); std::vector<std::string> bad(c+1,"x"); THROWS(m.saveAsCSV("b.csv",p,bad)); vf_observe("m",b(0,0)); vf_reach("end");
}
// @entry c19_vector prop=C19 mode=real time=60 qtime=10000
// @bounds vectors of 1..4 entries in [-1000,1000]
VF_HARNESS(c19_vector){
  int n=vf_pick("n",1,4); vec v=vf_vec(n,"v",-1000,1000); v.saveToCSV("v.csv"); vec b(vf_flag("reuse")?2:0); b.readFromCSV("v.csv"); CHECK(b.getSize()==(unsigned)n); for(int i=0;i<n;i++) CHECKM(vf_close(b(i),v(i),0.01),"same entries to the written precision"); THROWS(b.readFromCSV("missing.csv")); vf_write_file("bad.csv",vf_flag("first")?"abc\n1\n":"1\nabc\n2\n"); THROWS(b.readFromCSV("bad.csv")); CHECK(b.getSize()==(unsigned)n); vf_observe("v",b(0)); vf_reach("end");
}
// @entry c19_append prop=C19 mode=real time=60 qtime=10000
// @bounds up to 2 rows appended to a file of 0..2 rows of 1..3 columns (file missing, with or without a final line break), entries in [-1000,1000], precisions 6 and 12
VF_HARNESS(c19_append){
  int r=vf_pick("r",0,2),c=vf_pick("c",1,3),k=vf_pick("k",1,2),p=vf_flag("p12")?12:6; mat m(r+k,c); for(int i=0;i<r+k;i++) for(int j=0;j<c;j++) m(i,j)=vf_range("m",-1000,1000); std::string before; if(r>0){ mat f(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) f(i,j)=m(i,j); before=csv(f); if(vf_flag("nolinebreak")){ before.erase(before.size()-1); vf_reach("no final line break"); } vf_write_file("a.csv",before); }
  for(int t=0;t<k;t++){ vec v(c); for(int j=0;j<c;j++) v(j)=m(r+t,j); v.appendToCSV("a.csv",p); } std::string after=vf_read_file("a.csv"); CHECKM(after.compare(0,before.size(),before)==0,"earlier text untouched"); mat b; b.readFromCSV("a.csv"); CHECKM(b.getNRows()==(unsigned)(r+k)&&b.getNCols()==(unsigned)c,"one line more per appended row"); for(int i=0;i<r+k;i++) for(int j=0;j<c;j++) CHECKM(vf_close(b(i,j),m(i,j),half(i<r?12:p)),"entries of all rows"); vec w(c+1); THROWS(w.appendToCSV("a.csv",p)); CHECK(vf_read_file("a.csv")==after); vf_reach("end");
}
// @entry c19_reject prop=C19 mode=real time=60 qtime=10000
// @bounds files of 1..3 rows of 1..3 columns with one field replaced by text, one field missing or one field more; missing and empty files, files with only a header
VF_HARNESS(c19_reject){
  int r=vf_pick("r",1,3),c=vf_pick("c",1,3),i0=vf_pick("i",0,2),j0=vf_pick("j",0,2),k=vf_pick("kind",0,5); vf_assume(i0<r&&j0<c); mat m=vf_mat(r,c,"m",-100,100); bool hd=vf_flag("header"); std::string s; bool bad=true; if(hd) s="a,b,c\n"; if(k==0){ vf_assume(r>1); } if(k==2) vf_assume(r>1&&c>1);
  for(int i=0;i<r;i++){ int cc=c; if(i==i0&&k==0) cc=c+1; if(i==i0&&k==2) cc=c-1; for(int j=0;j<cc;j++){ if(j) s+=","; if(i==i0&&j==j0&&k==1) s+="abc"; else if(i==i0&&j==j0&&k==5) s+=vf_flag("space")?" ":"-"; else s+=vf_num(m(i,j<c?j:0)); } s+="\n"; } if(k==3) s=hd?"a,b,c\n":""; if(k==4) vf_remove_file("a.csv"); else vf_write_file("a.csv",s);
  mat b(1,2); b(0,0)=3; b(0,1)=4; THROWS(b.readFromCSV("a.csv",hd)); CHECKM(b.getNRows()==1&&b.getNCols()==2&&b(0,0)==3&&b(0,1)==4,"malformed files never produce data"); vf_reach("end");
}
