// C12: matrix row/column operations
#include "common.h"
#ifdef VF_DEEP
#define D 3
#else
#define D 2
#endif
static mat anymat(int r,int c){ mat m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=vf_number("m"); return m; }
static bool sameAs(const mat&a,const mat&b){ if(a.getNRows()!=b.getNRows()||a.getNCols()!=b.getNCols()) return false; bool s=true; for(unsigned i=0;i<a.getNRows();i++) for(unsigned j=0;j<a.getNCols();j++) s=s&(a(i,j)==b(i,j)); return s; }
// @entry c12_access prop=C12 mode=fp time=60
// @bounds 0..2 (3) x 0..2 (3), index 0..4, every double; layout, copy, move, assignment, reset, resize, fill
VF_HARNESS(c12_access){
  int r=vf_pick("r",0,D),c=vf_pick("c",0,D); mat m=anymat(r,c); CHECK(m.getNRows()==(unsigned)r&&m.getNCols()==(unsigned)c&&m.getSize()==(unsigned)(r*c)); CHECK(m.isEmpty()==(r*c==0));
  unsigned i=vf_pick("i",0,D+1),j=vf_pick("j",0,D+1); bool bad=i>=(unsigned)r||j>=(unsigned)c; double x=0,y=0; const mat&cm=m; CHECKM(vf_throws([&]{ x=m(i,j); })==bad,"element access bounds"); CHECKM(vf_throws([&]{ y=cm(i,j); })==bad,"const element access bounds"); if(!bad) CHECK(x==y);
  mat k(m); mat a; a=m; a=a; mat mv(std::move(a)); CHECKM(sameAs(k,m)&sameAs(mv,m),"copies are equal"); CHECK(a.getNRows()==0&&a.getNCols()==0); mat ma=anymat(1,2); ma=std::move(mv); CHECKM(sameAs(ma,k),"move assignment"); CHECK(mv.getNRows()==0);
  double v=vf_number("v"); if(!bad){ m(i,j)=v; for(int p=0;p<r;p++) for(int q=0;q<c;q++) CHECKM((p==(int)i&&q==(int)j)?m(p,q)==v:m(p,q)==k(p,q),"a write changes one entry"); CHECKM(sameAs(ma,k),"copies do not share storage"); vf_reach("write"); }
  mat f(r,c,v); for(int p=0;p<r;p++) for(int q=0;q<c;q++) CHECKM(f(p,q)==v,"constructor with value"); f.fill(x); for(int p=0;p<r;p++) for(int q=0;q<c;q++) CHECKM(f(p,q)==x,"fill"); f.reset(); CHECK(f.getNRows()==0&&f.getNCols()==0&&f.isEmpty());
}
// @entry c12_resize prop=C12 mode=fp time=60
// @bounds 0..2 (3) x 0..2 (3) to 0..3 x 0..3, every double
VF_HARNESS(c12_resize){
  int r=vf_pick("r",0,D),c=vf_pick("c",0,D),nr=vf_pick("nr",0,3),nc=vf_pick("nc",0,3); mat m=anymat(r,c),k(m); m.resize(nr,nc); CHECK(m.getNRows()==(unsigned)nr&&m.getNCols()==(unsigned)nc);
  for(int p=0;p<nr;p++) for(int q=0;q<nc;q++) CHECKM(m(p,q)==(p<r&&q<c?k(p,q):0.0),"resize keeps the common block and zero-fills"); vf_reach("end");
}
// @entry c12_rows prop=C12 mode=fp time=60
// @bounds 0..2 (3) x 0..2 (3), row length 0..3, position -3..4, every double
VF_HARNESS(c12_rows){
  int r=vf_pick("r",0,D),c=vf_pick("c",0,D),n=vf_pick("n",0,D+1),p=vf_pick("p",-3,D+2); mat m=anymat(r,c),k(m); vec v=vf_vecn(n,"v");
  bool bad=p<-1||p>r||(r>0&&n!=c); bool t=vf_throws([&]{ m.addRow(v,p); }); if(r>0&&(c>0||n==c)||r==0) CHECKM(t==bad,"addRow rejects exactly bad positions and sizes"); if(t){ vf_reach("rejected"); return; }
  if(p==-1) p=r; int cc=r==0?n:c; CHECKM(m.getNRows()==(unsigned)r+1&&m.getNCols()==(unsigned)cc,"addRow dimensions"); for(int i=0;i<r+1;i++) for(int j=0;j<cc;j++) CHECKM(m(i,j)==(i<p?k(i,j):i==p?v(j):k(i-1,j)),"addRow inserts the row and shifts the rest"); vf_reach("added");
}
// @entry c12_cols prop=C12 mode=fp time=60
// @bounds 0..2 (3) x 0..2 (3), column length 0..3, position -3..4, every double
VF_HARNESS(c12_cols){
  int r=vf_pick("r",0,D),c=vf_pick("c",0,D),n=vf_pick("n",0,D+1),p=vf_pick("p",-3,D+2); mat m=anymat(r,c),k(m); vec v=vf_vecn(n,"v");
  bool bad=p<-1||p>c||(c>0&&n!=r); bool t=vf_throws([&]{ m.addColumn(v,p); }); if(c>0&&(r>0||n==r)||c==0) CHECKM(t==bad,"addColumn rejects exactly bad positions and sizes"); if(t){ vf_reach("rejected"); return; }
  if(p==-1) p=c; int rr=c==0?n:r; CHECKM(m.getNCols()==(unsigned)c+1&&m.getNRows()==(unsigned)rr,"addColumn dimensions"); for(int i=0;i<rr;i++) for(int j=0;j<c+1;j++) CHECKM(m(i,j)==(j<p?k(i,j):j==p?v(i):k(i,j-1)),"addColumn inserts the column and shifts the rest"); vf_reach("added");
}
// @entry c12_delete prop=C12 mode=fp time=60
// @bounds 0..3 x 1..2, row index -3..4, every double
VF_HARNESS(c12_delete){
  int r=vf_pick("r",0,3),c=vf_pick("c",1,2),p=vf_pick("p",-3,4); mat m=anymat(r,c),k(m); bool bad=p<-1||p>=r||r==0; bool t=vf_throws([&]{ m.deleteRow(p); }); CHECKM(t==bad,"deleteRow rejects exactly bad indices"); if(t){ vf_reach("rejected"); CHECKM(sameAs(m,k),"rejected delete changes nothing"); return; }
  if(p==-1) p=r-1; CHECKM(m.getNRows()==(unsigned)r-1,"deleteRow removes one row"); if(r>1) CHECK(m.getNCols()==(unsigned)c); for(int i=0;i<r-1;i++) for(int j=0;j<c;j++) CHECKM(m(i,j)==(i<p?k(i,j):k(i+1,j)),"deleteRow keeps the others in order"); vf_reach("deleted");
}
// @entry c12_deleterows prop=C12 mode=fp time=60
// @bounds 0..3 x 1..2, up to 3 indices in -1..3 (in any order, repeated or not), every double
VF_HARNESS(c12_deleterows){
  int r=vf_pick("r",0,3),c=vf_pick("c",1,2),n=vf_pick("k",0,3); mat m=anymat(r,c),k(m); std::vector<int> ix; bool bad=false; bool del[4]={0,0,0,0}; for(int i=0;i<n;i++){ int x=vf_pick("ix",-1,3); ix.push_back(x); if(x<0||x>=r) bad=true; else del[x]=true; }
  bool t=vf_throws([&]{ m.deleteRows(ix); }); CHECKM(t==bad,"deleteRows rejects exactly bad indices"); if(t){ vf_reach("rejected"); CHECKM(sameAs(m,k),"rejected delete changes nothing"); return; }
  int o=0; for(int i=0;i<r;i++) if(!del[i]){ CHECK(m.getNRows()>(unsigned)o); for(int j=0;j<c;j++) CHECKM(m(o,j)==k(i,j),"deleteRows keeps the others in order"); o++; } CHECKM(m.getNRows()==(unsigned)o,"deleteRows removes each named row once"); vf_reach("deleted");
}
// @entry c12_getset prop=C12 mode=fp time=60
// @bounds 0..2 (3) x 0..2 (3), index -3..4, every double
VF_HARNESS(c12_getset){
  int r=vf_pick("r",0,D),c=vf_pick("c",0,D),p=vf_pick("p",-3,D+1); mat m=anymat(r,c),k(m); vec g,h; bool br=p<-1||p>=r||r==0,bc=p<-1||p>=c||c==0;
  CHECKM(vf_throws([&]{ g=m.getRow(p); })==br,"getRow bounds"); CHECKM(vf_throws([&]{ h=m.getCol(p); })==bc,"getCol bounds"); if(!br){ int q=p==-1?r-1:p; CHECK(g.getSize()==(unsigned)c); for(int j=0;j<c;j++) CHECKM(g(j)==m(q,j),"getRow"); } if(!bc){ int q=p==-1?c-1:p; CHECK(h.getSize()==(unsigned)r); for(int i=0;i<r;i++) CHECKM(h(i)==m(i,q),"getCol"); }
  int n=vf_pick("n",0,D+1); vec v=vf_vecn(n,"v"); bool t=vf_throws([&]{ m.setRow(v,(unsigned)p); }); CHECKM(t==(p<0||p>=r||n!=c),"setRow rejects bad index or size"); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECKM(m(i,j)==(!t&&i==p?v(j):k(i,j)),"setRow writes that row only");
  m=k; t=vf_throws([&]{ m.setCol(v,(unsigned)p); }); CHECKM(t==(p<0||p>=c||n!=r),"setCol rejects bad index or size"); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECKM(m(i,j)==(!t&&j==p?v(i):k(i,j)),"setCol writes that column only"); vf_reach("end");
}
// @entry c12_slice prop=C12 mode=fp time=60
// @bounds 1..2 (3) x 1..2 (3), all corner combinations 0..3, every double
VF_HARNESS(c12_slice){
  int r=vf_pick("r",1,D),c=vf_pick("c",1,D); unsigned a=vf_pick("a",0,D),b=vf_pick("b",0,D),e=vf_pick("e",0,D),f=vf_pick("f",0,D); mat m=anymat(r,c),s; bool bad=a>=(unsigned)r||b>=(unsigned)r||e>=(unsigned)c||f>=(unsigned)c||b<a||f<e; CHECKM(vf_throws([&]{ s=m.submat(a,b,e,f); })==bad,"submat bounds"); if(bad){ vf_reach("bad"); return; }
  CHECK(s.getNRows()==b-a+1&&s.getNCols()==f-e+1); for(unsigned i=0;i<s.getNRows();i++) for(unsigned j=0;j<s.getNCols();j++) CHECKM(s(i,j)==m(a+i,e+j),"submat entries"); vf_reach("good");
}
// @entry c12_concat prop=C12 mode=fp time=60
// @bounds both matrices 0..2 x 0..2, every double
VF_HARNESS(c12_concat){
  int r=vf_pick("r",0,2),c=vf_pick("c",0,2),r2=vf_pick("r2",0,2),c2=vf_pick("c2",0,2); mat a=anymat(r,c),b=anymat(r2,c2),s; 
  bool t=vf_throws([&]{ s=a.concatenateRowWise(b); }); if(r==0){ CHECKM(!t&&sameAs(s,b),"concatenating onto nothing gives the other matrix"); } else if(r2==0){ CHECKM(!t&&sameAs(s,a),"concatenating nothing changes nothing"); } else { CHECKM(t==(c!=c2),"row-wise concatenation needs equal column numbers"); if(!t){ vf_reach("row"); CHECK(s.getNRows()==(unsigned)(r+r2)&&s.getNCols()==(unsigned)c); for(int i=0;i<r+r2;i++) for(int j=0;j<c;j++) CHECKM(s(i,j)==(i<r?a(i,j):b(i-r,j)),"row-wise concatenation"); } }
  mat u; t=vf_throws([&]{ u=a.concatenateColumnWise(b); }); if(c==0){ CHECKM(!t&&sameAs(u,b),"concatenating onto nothing gives the other matrix"); } else if(c2==0){ CHECKM(!t&&sameAs(u,a),"concatenating nothing changes nothing"); } else { CHECKM(t==(r!=r2),"column-wise concatenation needs equal row numbers"); if(!t){ vf_reach("col"); CHECK(u.getNRows()==(unsigned)r&&u.getNCols()==(unsigned)(c+c2)); for(int i=0;i<r;i++) for(int j=0;j<c+c2;j++) CHECKM(u(i,j)==(j<c?a(i,j):b(i,j-c)),"column-wise concatenation"); } }
}
// @entry c12_shape prop=C12 mode=fp time=90
// @bounds 0..2 (3) x 0..2 (3), every double; transpose, diagonal, symmetry and equality tests, epsilon on the diagonal, identity
VF_HARNESS(c12_shape){
  int r=vf_pick("r",0,D),c=vf_pick("c",0,D); mat m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=vf_range("m",-1e6,1e6); mat t=m.transpose(); CHECK(t.getNRows()==(unsigned)c&&t.getNCols()==(unsigned)r); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECKM(t(j,i)==m(i,j),"transpose");
  vec d; bool th=vf_throws([&]{ d=m.diag(); }); CHECKM(th==(r!=c||r==0),"diag needs a non-empty square matrix"); if(!th){ CHECK(d.getSize()==(unsigned)r); for(int i=0;i<r;i++) CHECKM(d(i)==m(i,i),"diag"); }
  double tol=vf_range("tol",-0.5,1); bool sym=r==c; if(sym) for(int i=0;i<r;i++) for(int j=i+1;j<c;j++) sym=sym&(vf_absd(m(i,j)-m(j,i))<=tol); bool q=false; th=vf_throws([&]{ q=m.isSymmetric(tol); }); CHECKM(th==(tol<0),"negative tolerance rejected"); if(!th){ CHECKM(q==sym,"isSymmetric"); vf_reach("sym"); }
  vf_assume(tol>=0); mat b(r,c); bool eq=true; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ b(i,j)=vf_range("b",-1e6,1e6); eq=eq&(vf_absd(m(i,j)-b(i,j))<=tol); } CHECKM(m.isEqual(b,tol)==eq,"isEqual"); CHECK(!m.isEqual(mat(r+1,c),tol)); CHECK(!m.isEqual(mat(r,c+1),tol));
  mat e(r,c); if(r==c){ e.eye(); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECKM(e(i,j)==(i==j?1.0:0.0),"eye"); } else THROWS(e.eye());
}
// @entry c12_eps prop=C12 mode=real time=60
// @bounds 0..2 (3) x 0..2 (3), entries in [-1000,1000], exact real arithmetic
VF_HARNESS(c12_eps){
  int r=vf_pick("r",0,D),c=vf_pick("c",0,D); mat m=vf_mat(r,c,"m",-1e3,1e3),k(m); double e=vf_range("e",-10,10); m.addEpsilonToDiagonal(e); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CLOSE(m(i,j),k(i,j)+(i==j?e:0.0),1e-9);
  int r2=vf_pick("r2",0,2),c2=vf_pick("c2",0,2); mat b=vf_mat(r2,c2,"b",-1e3,1e3); bool mis=r!=r2||c!=c2; mat s,d,p; CHECKM(vf_throws([&]{ s=k+b; })==mis,"+ needs equal shapes"); CHECKM(vf_throws([&]{ d=k-b; })==mis,"- needs equal shapes"); if(!mis) for(int i=0;i<r;i++) for(int j=0;j<c;j++){ CLOSE(s(i,j),k(i,j)+b(i,j),1e-9); CLOSE(d(i,j),k(i,j)-b(i,j),1e-9); } 
  mat sc=k*e; CHECK(sc.getNRows()==(unsigned)r&&sc.getNCols()==(unsigned)c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CLOSE(sc(i,j),k(i,j)*e,1e-8);
  bool mm=c!=r2; mat q,w; CHECKM(vf_throws([&]{ p=k*b; })==mm,"* needs matching inner dimension"); CHECKM(vf_throws([&]{ q=k.matMatProduct(b); })==mm,"matMatProduct needs matching inner dimension"); if(!mm){ vf_reach("prod"); w=k.matMatProductNaive(b); CHECK(p.getNRows()==(unsigned)r&&p.getNCols()==(unsigned)c2); CHECK(q.getNRows()==(unsigned)r&&q.getNCols()==(unsigned)c2); for(int i=0;i<r;i++) for(int j=0;j<c2;j++){ double x=0; for(int l=0;l<c;l++) x+=k(i,l)*b(l,j); if(c>0){ CLOSE(p(i,j),x,1e-7); CLOSE(q(i,j),x,1e-7); } CLOSE(w(i,j),x,1e-7); } }
  vec v=vf_vec(r2,"v",-1e3,1e3),y; CHECKM(vf_throws([&]{ y=k.matVecProduct(v); })==mm,"matVecProduct needs matching size"); if(!mm){ CHECK(y.getSize()==(unsigned)r); vec z=k.matVecProductNaive(v); for(int i=0;i<r;i++){ double x=0; for(int l=0;l<c;l++) x+=k(i,l)*v(l); CLOSE(z(i),x,1e-7); if(c>0) CLOSE(y(i),x,1e-7); } }
}
// @entry c12_find prop=C12 mode=fp time=90
// @bounds 0..2 (3) x 0..2, vector length 0..3, finite entries, every tolerance in [0,1]
VF_HARNESS(c12_find){
  int r=vf_pick("r",0,D),c=vf_pick("c",0,2),n=vf_pick("n",0,3); mat m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=vf_range("m",-1e6,1e6); vec v=vf_vec(n,"v",-1e6,1e6); double tol=vf_range("tol",0,1); int ix=-5; bool in=m.isRowInMatrix(v,tol); bool t=vf_throws([&]{ ix=m.findRowIndex(v,tol); }); if(n!=c){ CHECKM(t,"findRowIndex needs matching size"); CHECKM(!in,"a row of other length is not in the matrix"); vf_reach("mis"); return; } CHECK(!t);
  int first=-1; for(int i=r-1;i>=0;i--){ bool ok=true; for(int j=0;j<c;j++) ok=ok&(vf_absd(m(i,j)-v(j))<=tol); if(ok) first=i; } CHECKM(in==(first>=0),"isRowInMatrix"); CHECKM(ix==first,"findRowIndex gives the first matching row"); vf_reach("end");
}
// @entry c12_shuffle prop=C12 mode=fp time=60
// @bounds 0..3 rows x 1..2 columns with tagged rows, every shuffle
VF_HARNESS(c12_shuffle){
  int r=vf_pick("r",0,3),c=vf_pick("c",1,2); mat m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=10*i+j; m.shuffleRows(); CHECK(m.getNRows()==(unsigned)r&&m.getNCols()==(unsigned)c); int cnt[3]={0,0,0}; for(int i=0;i<r;i++){ int k=(int)(m(i,0)/10); CHECK(k>=0&&k<r); cnt[k]++; for(int j=0;j<c;j++) CHECKM(m(i,j)==10*k+j,"rows stay intact"); } for(int i=0;i<r;i++) CHECKM(cnt[i]==1,"every row survives once"); vf_reach("end");
}
