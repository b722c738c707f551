// C20: configuration text
#include "data.h"
#include "Driver/INCLUDE/string_functions.hpp"
#include "Driver/INCLUDE/xml_functions.hpp"
#include "Driver/INCLUDE/configkey.hpp"
static inline std::string text(int n,const char*nm){ std::string s(n,' '); for(int i=0;i<n;i++) s[i]=(char)vf_int(nm,1,127); return s; }
static inline int low(int c){ return c+32*((c>='A')&(c<='Z')); }
static bool eqi(const std::string&a,const char*b){ size_t n=__builtin_strlen(b); if(a.size()!=n) return false; bool r=true; for(size_t i=0;i<n;i++) r=r&(low(a[i])==low(b[i])); return r; }
static bool any(const std::string&a,std::initializer_list<const char*> l){ bool r=false; for(const char*b:l) r=r|eqi(a,b); return r; }
// @entry c20_words prop=C20 mode=fp time=60
// @bounds two words of 0..3 (4) characters, every 7-bit character
VF_HARNESS(c20_words){
#ifdef VF_DEEP
  int M=4;
#else
  int M=3;
#endif
  int n=vf_pick("n",0,M),m=vf_pick("m",0,M); std::string a=text(n,"a"),b=text(m,"b"); bool same=n==m&&n>0; if(n==m) for(int i=0;i<n;i++) same=same&(low(a[i])==low(b[i])); bool r=::isEqual(a,b); CHECKM(r==same,"comparison ignores case only"); CHECK(::isEqual(b,a)==r); vf_reach("end");
}
// @entry c20_switch prop=C20 mode=fp time=60
// @bounds words of 0..9 characters, every 7-bit character
VF_HARNESS(c20_switch){
  int n=vf_pick("n",0,9); std::string a=text(n,"a"); bool on=any(a,{"yes","y","on","true","enable","enabled"}),off=any(a,{"no","n","off","false","disable","disabled"}); CHECKM(checkIfOn(a)==on,"exactly the ON words are recognised"); CHECKM(checkIfOff(a)==off,"exactly the OFF words are recognised"); vf_reach("end");
}
// @entry c20_chars prop=C20 mode=fp time=60
// @bounds words of 0..4 characters, every 7-bit character
VF_HARNESS(c20_chars){
  int n=vf_pick("n",0,4); std::string a=text(n,"a"); std::string l=toLower(a); CHECK(l.size()==(size_t)n); for(int i=0;i<n;i++) CHECK(l[i]==low(a[i])); std::string t=removeSpacesFromString(a); size_t k=0; for(int i=0;i<n;i++) if(!(a[i]==' '||(a[i]>=9&&a[i]<=13))){ CHECKM(k<t.size()&&t[k]==a[i],"all characters but white space are kept in order"); k++; } CHECK(k==t.size()); vf_reach("end");
}
static size_t at(const std::string&s,const std::string&t,size_t from){ for(size_t i=from;i+t.size()<=s.size();i++){ size_t j=0; while(j<t.size()&&s[i+j]==t[j]) j++; if(j==t.size()) return i; } return std::string::npos; }
static std::string strip(const std::string&s){ std::string r; for(char c:s) if(!(c==' '||(c>=9&&c<=13))) r.push_back(c); return r; }
// 0: absent, 1: one closed element, 2: malformed
static int element(const std::string&s,const std::string&k,std::string&content){ std::string o="<"+k+">",c="</"+k+">"; size_t p=at(s,o,0); if(p==std::string::npos) return 0; size_t e=at(s,c,p+o.size()); if(e==std::string::npos) return 2; if(at(s,o,p+o.size())!=std::string::npos) return 2; content=s.substr(p+o.size(),e-p-o.size()); return 1; }
// @entry c20_string prop=C20 mode=fp time=200
// @bounds texts of 0..11 (13) characters, every 7-bit character, one-letter keyword
VF_HARNESS(c20_string){
#ifdef VF_DEEP
  int M=13;
#else
  int M=11;
#endif
  int n=vf_pick("n",0,M); std::string s=text(n,"c"),c; int k=element(s,"A",c); std::string r; bool t=vf_throws([&]{ r=getStringValueFromXML(s,"A"); }); if(k==0){ CHECKM(!t&&r.empty(),"absent keyword yields the not-found value"); vf_reach("absent"); } else if(k==2){ CHECKM(t,"unclosed or repeated keyword is rejected"); vf_reach("malformed"); } else { CHECK(!t); CHECKM(r==strip(c),"the text between the tags without white space"); vf_reach("value"); }
  bool t2=vf_throws([&]{ r=extractContentBetweenKeys(s,"A"); }); CHECK(t2==(k!=1)); if(!t2) CHECK(r==c); vf_reach("end");
}
// @entry c20_number prop=C20 mode=real time=120 qtime=10000
// @bounds a number with every value in [-1000,1000] or one of 10 other contents (three of them a number followed by other text), element absent, closed, unclosed, repeated (before or after its end) or nested in other text
VF_HARNESS(c20_number){
  double v=vf_range("v",-1000,1000); int c=vf_pick("content",0,10),k=vf_pick("shape",0,5); std::string t=c==0?vf_num(v):c==1?" "+vf_num(v)+"\n":c==2?"abc":c==3?"":c==4?"  ":c==5?"-":c==6?"1e9999":c==7?"\t0.0 ":c==8?vf_num(v)+"abc":c==9?vf_num(v)+"e":"3,5"; bool good=c<2||c==7; double w=c==7?0.0:v; std::string o="<key>",e="</key>",s; bool absent=k==0,bad=(k==2)|(k==3)|(k==5);
  s=k==0?"<other>"+t+"</other>":k==1?o+t+e:k==2?"<x>1</x>"+o+t:k==3?o+t+e+"\n"+o+"2"+e:k==4?"<a>5</a><key2>6</key2>\n"+o+t+e+"\n<b>7</b>":o+o+t+e; double r=0; bool th=vf_throws([&]{ r=getDoubleValueFromXML(s,"key"); }); if(absent) CHECKM(!th&&r==10E-14,"not-found value"); else if(bad||!good) CHECKM(th,"malformed element or number is rejected"); else { CHECKM(!th&&vf_close(r,w,1e-9),"converted value"); vf_reach("value"); }
  Keyword q; q.setName("key"); q.setType("double"); bool tk=vf_throws([&]{ q.getValueFromXMLString(s); }); CHECK(tk==th); if(!tk){ bool set=!vf_throws([&]{ q.returnErrorIfNotSet(); }); if(absent||!vf_close(w,0,1e-12)||c==7) CHECKM(set==!absent,"a keyword is set exactly when it is present"); if(set) CHECKM(vf_close(q.getDoubleValue(),w,1e-9),"keyword value"); THROWS(q.getIntValue()); THROWS(q.getStringValue()); THROWS(q.getDoubleValueVector()); THROWS(q.getStringValueVector()); }
  vf_reach("end");
}
// @entry c20_int prop=C20 mode=fp time=60
// @bounds 13 contents, element absent, closed, unclosed or repeated
VF_HARNESS(c20_int){
  static const char*T[13]={"0","-7"," 42 \n","2147483647","2147483648","abc","","  ","-","5abc","2.5","1 x","7,8"}; static const int W[4]={0,-7,42,2147483647}; int c=vf_pick("content",0,12),k=vf_pick("shape",0,4); std::string t=T[c],o="<key>",e="</key>",s=k==0?t:k==1?"<a>1</a>"+o+t+e+"<b>2</b>":k==2?o+t:k==3?o+t+e+o+t+e:o+o+t+e; int r=0; bool th=vf_throws([&]{ r=getIntegerValueFromXML(s,"key"); }); if(k==0) CHECKM(!th&&r==-10000000,"not-found value"); else if(k>1||c>3) CHECKM(th,"malformed element or number is rejected"); else CHECKM(!th&&r==W[c],"converted value");
  Keyword q; q.setName("key"); q.setType("int"); bool tk=vf_throws([&]{ q.getValueFromXMLString(s); }); CHECK(tk==th); if(!tk){ CHECK(vf_throws([&]{ q.returnErrorIfNotSet(); })==(k==0)); CHECKM(q.getIntValue()==(k==0?-10000000:r),"keyword value"); THROWS(q.getDoubleValue()); } Keyword z; THROWS(z.setName("")); z.setType("int"); THROWS(z.getValueFromXMLString(s)); THROWS(z.setType("integer")); vf_reach("end");
}
// @entry c20_lists prop=C20 mode=real time=120 qtime=10000
// @bounds lists of 0..3 items in [-1000,1000] or words, one item non-numeric, empty or followed by other text, list absent, closed, unclosed, repeated, or preceded by other text with a stray closing tag
VF_HARNESS(c20_lists){
  int n=vf_pick("n",0,3),k=vf_pick("shape",0,5),b=vf_pick("bad",0,3),kind=vf_pick("empty",0,2); bool nl=vf_flag("newlines"); vec v=vf_vec(n,"v",-1000,1000); if(b>n) b=0; std::string in,iw; static const char*W[3]={"alpha","b e ta"," g "}; static const char*WS[3]={"alpha","beta","g"}; for(int i=0;i<n;i++){ in+=std::string("<item>")+(b==i+1?(kind==1?"":kind==2?vf_num(v(i))+"x":"abc"):vf_num(v(i)))+"</item>"+(nl?"\n ":""); iw+=std::string("<item>")+W[i]+"</item>"+(nl?"\n":""); }
  std::string o="<list>",e="</list>"; auto wrap=[&](const std::string&t){ return k==0?"<other>"+t+"</other>":k==1?o+t+e:k==2?"<x>1</x>"+o+t:k==3?o+t+e+o+"<item>9</item>"+e:k==4?"</list><y><item>5</item></y>"+o+t+e+"<z><item>6</item></z>":o+"\n"+t+e; }; bool bad=(k==2)|(k==3); std::vector<double> r; bool th=vf_throws([&]{ r=getDoubleVectorValuesFromXML(wrap(in),"list"); });
  if(k==0) CHECKM(!th&&r.empty(),"absent list is empty"); else if(bad||b) CHECKM(th,"malformed list is rejected"); else { CHECKM(!th&&r.size()==(size_t)n,"all items"); for(int i=0;i<n;i++) CHECKM(vf_close(r[i],v(i),1e-9),"items in order"); if(n>0) vf_reach("list"); Keyword q; q.setName("list"); q.setType("doubleVector"); NOTHROW(q.getValueFromXMLString(wrap(in))); CHECK(q.getDoubleValueVector().size()==(size_t)n); for(int i=0;i<n;i++) CHECK(vf_close(q.getDoubleValueVectorAt(i),v(i),1e-9)); THROWS(q.getDoubleValueVectorAt(n)); THROWS(q.getStringValue()); }
  std::vector<std::string> s; bool ts=vf_throws([&]{ s=getStringVectorValuesFromXML(wrap(iw),"list"); }); if(k==0) CHECK(!ts&&s.empty()); else if(bad) CHECKM(ts,"malformed list of words is rejected"); else { CHECK(!ts&&s.size()==(size_t)n); for(int i=0;i<n;i++) CHECKM(s[i]==WS[i],"words in order"); Keyword q; q.setName("list"); q.setType("stringVector"); NOTHROW(q.getValueFromXMLString(wrap(iw))); for(int i=0;i<n;i++) CHECK(q.getStringValueVectorAt(i)==WS[i]); THROWS(q.getStringValueVectorAt(n)); }
  THROWS(getDoubleVectorValuesFromXML("","list")); THROWS(getDoubleVectorValuesFromXML("x","")); THROWS(getStringVectorValuesFromXML("","list")); THROWS(getStringVectorValuesFromXML("x","")); vf_reach("end");
}
// @entry c20_contents prop=C20 mode=fp time=120
// @bounds 0..3 sections of 0..2 arbitrary characters (no '<'), separated by other text, the last one closed or not
VF_HARNESS(c20_contents){
  int n=vf_pick("n",0,3); bool open=vf_flag("unclosed"); std::string s="<a>1</a>"; std::vector<std::string> W; for(int i=0;i<n;i++){ std::string t=text(vf_pick("len",0,2),"c"); for(char c:t) vf_assume(c!='<'); W.push_back(t); s+="<sec>"+t+(open&&i==n-1?"":"</sec>")+"\n"; } std::vector<std::string> r; bool th=vf_throws([&]{ r=extractContents(s,"sec"); }); if(open&&n>0) W.pop_back(); if(th) CHECKM(open&&n>0,"only an unclosed section is rejected"); else { CHECKM(r.size()==W.size(),"an unclosed section contributes nothing"); for(size_t i=0;i<W.size();i++) CHECKM(r[i]==W[i],"sections in order"); } vf_reach("end");
}
// @entry c20_write prop=C20 mode=real time=60 qtime=10000
// @bounds values in [-1000,1000], vectors of 0..3 entries; generated elements are read back
VF_HARNESS(c20_write){
  double v=vf_range("v",-1000,1000); int n=vf_pick("n",0,3),k=vf_pick("k",-100,100); vec x=vf_vec(n,"x",-1000,1000); CHECKM(vf_close(getDoubleValueFromXML(generateXml(std::string("key"),v),"key"),v,0.51e-6),"number written as element"); CHECK(getIntegerValueFromXML(generateXml(std::string("key"),k),"key")==k); CHECK(getStringValueFromXML(generateXml(std::string("key"),std::string("word")),"key")=="word"); if(n==0) THROWS(generateXmlVector(std::string("key"),x)); else { std::string t=generateXmlVector(std::string("key"),x); std::vector<double> r=getDoubleVectorValuesFromXML(t,"key"); CHECK(r.size()==(size_t)n); for(int i=0;i<n;i++) CHECKM(vf_close(r[i],x(i),0.51e-6),"vector written as list in order"); } vf_reach("end");
}
