// In-memory model of the iostream library for symbolic execution (char only, "C" locale).
#pragma once
#include <iosfwd>
#include <string>
#include <string_view>
#include <stdexcept>
#include <system_error>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <ctime>
extern "C" int vf_fmt_double(char*,double,int,int);
// model file system (rt/rt.cpp)
struct VfFile { std::string name,data; bool exists=true; };
VfFile* vf_fs_find(const char*name); VfFile* vf_fs_create(const char*name); bool vf_fs_can_write(const char*name);
namespace std {
  class ios_base { public:
    typedef unsigned fmtflags; static constexpr fmtflags boolalpha=1,dec=2,fixed=4,hex=8,internal=16,left=32,oct=64,right=128,scientific=256,showbase=512,showpoint=1024,showpos=2048,skipws=4096,unitbuf=8192,uppercase=16384,adjustfield=left|right|internal,basefield=dec|oct|hex,floatfield=scientific|fixed;
    typedef unsigned iostate; static constexpr iostate goodbit=0,badbit=1,eofbit=2,failbit=4;
    typedef unsigned openmode; static constexpr openmode app=1,ate=2,binary=4,in=8,out=16,trunc=32;
    typedef int seekdir; static constexpr seekdir beg=0,cur=1,end=2;
    class failure : public runtime_error { public: explicit failure(const string&s):runtime_error(s){} };
    struct Init { Init(){} };
    fmtflags _f=dec|skipws; streamsize _prec=6,_w=0; char _fill=' ';
    fmtflags flags()const{return _f;} fmtflags flags(fmtflags f){auto o=_f;_f=f;return o;} fmtflags setf(fmtflags f){auto o=_f;_f|=f;return o;} fmtflags setf(fmtflags f,fmtflags m){auto o=_f;_f=(_f&~m)|(f&m);return o;} void unsetf(fmtflags f){_f&=~f;}
    streamsize precision()const{return _prec;} streamsize precision(streamsize p){auto o=_prec;_prec=p;return o;} streamsize width()const{return _w;} streamsize width(streamsize p){auto o=_w;_w=p;return o;}
    static bool sync_with_stdio(bool=true){return true;}
    virtual ~ios_base(){} };
  template<class C,class T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; typedef int int_type;
    string _d; size_t _g=0; string _name; bool _isfile=false,_out=false,_open=false,_sink=false; size_t _committed=0;
    virtual ~basic_streambuf(){}
    int sgetc(){ return _g<_d.size()? (unsigned char)_d[_g]:-1; } int sbumpc(){ return _g<_d.size()? (unsigned char)_d[_g++]:-1; } int snextc(){ if(_g<_d.size()) _g++; return sgetc(); } int in_avail(){ return (int)(_d.size()-_g);} 
    int sputc(char c){ if(!_sink) _d.push_back(c); return (unsigned char)c; } streamsize sputn(const char*s,streamsize n){ if(!_sink) _d.append(s,n); return n; } int pubsync(){ commit(); return 0; }
    int sungetc(){ if(_g>0){ _g--; return (unsigned char)_d[_g]; } return -1; }
    void commit(){ if(_isfile&&_out&&_open&&!_sink){ VfFile*f=vf_fs_find(_name.c_str()); if(f&&_d.size()>_committed){ f->data.append(_d,_committed,string::npos); _committed=_d.size(); } } }
    string str()const{ return _d; } void str(const string&s){ _d=s; _g=0; } };
  template<class C,class T> class basic_ios : public ios_base { public: typedef C char_type; typedef T traits_type; typedef int int_type; typedef streamoff off_type; typedef streamoff pos_type;
    iostate _st=0; iostate _ex=0; basic_streambuf<C,T> _own; basic_streambuf<C,T>*_b=&_own; 
    basic_ios(){} explicit basic_ios(basic_streambuf<C,T>*b){ if(b) _b=b; else _st=badbit; } basic_ios(const basic_ios&)=delete;
    void vf_move(basic_ios&o){ _st=o._st; _ex=o._ex; _f=o._f; _prec=o._prec; _w=o._w; _fill=o._fill; _own=o._own; o._own._open=false; o._own._isfile=false; }
    bool good()const{return _st==0;} bool eof()const{return _st&eofbit;} bool fail()const{return _st&(failbit|badbit);} bool bad()const{return _st&badbit;} explicit operator bool()const{return !fail();} bool operator!()const{return fail();} iostate rdstate()const{return _st;}
    void clear(iostate s=0){ _st=s; chk(); } void setstate(iostate s){ _st|=s; chk(); } void chk(){ if(_st&_ex) throw failure("basic_ios::clear: iostream error"); } iostate exceptions()const{return _ex;} void exceptions(iostate e){_ex=e; chk();}
    char fill()const{return _fill;} char fill(char c){char o=_fill;_fill=c;return o;} basic_streambuf<C,T>* rdbuf()const{return _b;} basic_streambuf<C,T>* rdbuf(basic_streambuf<C,T>*b){ auto o=_b; _b=b; _st= b?0:badbit; return o; } basic_ios& copyfmt(const basic_ios&o){ _f=o._f;_prec=o._prec;_w=o._w;_fill=o._fill; return *this; }
    template<class L> void imbue(const L&){} void* tie(){return nullptr;} void* tie(void*){return nullptr;} };
  template<class C,class T> class basic_ostream : virtual public basic_ios<C,T> { public:
    typedef basic_ostream Self; basic_ostream(){} explicit basic_ostream(basic_streambuf<C,T>*b){ this->_b=b; }
    struct sentry { bool ok; explicit sentry(basic_ostream&o){ ok=o.good(); } explicit operator bool()const{return ok;} };
    Self& vf_pad(const char*s,size_t n){ if(!this->good()){ this->setstate(ios_base::failbit); return *this; } if(this->_b->_isfile&&!this->_b->_open){ this->setstate(ios_base::badbit); return *this; } streamsize w=this->_w; this->_w=0; if((streamsize)n<w){ string p(w-n,this->_fill); if(this->_f&ios_base::left){ this->_b->sputn(s,n); this->_b->sputn(p.data(),p.size()); } else { this->_b->sputn(p.data(),p.size()); this->_b->sputn(s,n); } } else this->_b->sputn(s,n); return *this; }
    Self& write(const char*s,streamsize n){ this->_b->sputn(s,n); return *this; } Self& put(char c){ if(this->good()) this->_b->sputc(c); return *this; } Self& flush(){ this->_b->commit(); return *this; } streamoff tellp(){ return (streamoff)this->_b->_d.size(); } Self& seekp(streamoff){ return *this; } Self& seekp(streamoff,ios_base::seekdir){ return *this; }
    Self& vf_ll(long long v){ if(this->_f&(ios_base::hex|ios_base::oct)) return vf_ull((unsigned long long)v); string s=to_string(v); if((this->_f&ios_base::showpos)&&v>=0) s="+"+s; return vf_pad(s.data(),s.size()); }
    Self& vf_ull(unsigned long long v){ if(this->_f&ios_base::hex){ char b[20]; int n=0; do{ b[n++]="0123456789abcdef"[v&15]; v>>=4; }while(v); string s; while(n) s.push_back(b[--n]); return vf_pad(s.data(),s.size()); } string s=to_string(v); return vf_pad(s.data(),s.size()); }
    Self& operator<<(int v){return vf_ll(v);} Self& operator<<(long v){return vf_ll(v);} Self& operator<<(long long v){return vf_ll(v);} Self& operator<<(short v){return vf_ll(v);} Self& operator<<(unsigned v){return vf_ull(v);} Self& operator<<(unsigned long v){return vf_ull(v);} Self& operator<<(unsigned long long v){return vf_ull(v);} Self& operator<<(unsigned short v){return vf_ull(v);} 
    Self& operator<<(bool v){ if(this->_f&ios_base::boolalpha) return v? vf_pad("true",4):vf_pad("false",5); return vf_pad(v?"1":"0",1);} 
    Self& operator<<(double v){ char b[400]; int fmt= (this->_f&ios_base::fixed)?1:(this->_f&ios_base::scientific)?2:0; int n=vf_fmt_double(b,v,fmt,(int)(fmt==0&&this->_prec==0?1:this->_prec)); return vf_pad(b,n);} Self& operator<<(float v){return *this<<(double)v;} Self& operator<<(long double v){return *this<<(double)v;}
    Self& operator<<(const void*p){ return vf_pad("0x1",3);} Self& operator<<(nullptr_t){ return vf_pad("nullptr",7);} 
    Self& operator<<(basic_streambuf<C,T>*b){ if(b){ if(b->_g<b->_d.size()) this->_b->sputn(b->_d.data()+b->_g,b->_d.size()-b->_g); else this->setstate(ios_base::failbit); b->_g=b->_d.size(); } else this->setstate(ios_base::badbit); return *this; }
    Self& operator<<(Self&(*f)(Self&)){ return f(*this);} Self& operator<<(basic_ios<C,T>&(*f)(basic_ios<C,T>&)){ f(*this); return *this;} Self& operator<<(ios_base&(*f)(ios_base&)){ f(*this); return *this;} };
  inline ostream& operator<<(ostream&o,const string&s){ return o.vf_pad(s.data(),s.size()); }
  inline ostream& operator<<(ostream&o,string_view s){ return o.vf_pad(s.data(),s.size()); }
  inline ostream& operator<<(ostream&o,const char*s){ if(!s){ o.setstate(ios_base::badbit); return o;} return o.vf_pad(s,strlen(s)); }
  inline ostream& operator<<(ostream&o,char c){ return o.vf_pad(&c,1); }
  inline ostream& operator<<(ostream&o,unsigned char c){ char d=(char)c; return o.vf_pad(&d,1); }
  inline ostream& operator<<(ostream&o,signed char c){ char d=(char)c; return o.vf_pad(&d,1); }
  inline ostream& operator<<(ostream&o,const error_code&e){ return o<<e.value(); }
  template<class O,class V> inline typename enable_if<is_base_of<ios_base,O>::value&&!is_lvalue_reference<O>::value,O&&>::type operator<<(O&&o,const V&v){ o<<v; return static_cast<O&&>(o); }
  template<class C,class T> basic_ostream<C,T>& endl(basic_ostream<C,T>&o){ o.put('\n'); o.flush(); return o; }
  template<class C,class T> basic_ostream<C,T>& ends(basic_ostream<C,T>&o){ o.put(0); return o; }
  template<class C,class T> basic_ostream<C,T>& flush(basic_ostream<C,T>&o){ o.flush(); return o; }
  inline ios_base& fixed(ios_base&b){ b.setf(ios_base::fixed,ios_base::floatfield); return b; } inline ios_base& scientific(ios_base&b){ b.setf(ios_base::scientific,ios_base::floatfield); return b; } inline ios_base& defaultfloat(ios_base&b){ b.unsetf(ios_base::floatfield); return b; } inline ios_base& boolalpha(ios_base&b){ b.setf(ios_base::boolalpha); return b; } inline ios_base& noboolalpha(ios_base&b){ b.unsetf(ios_base::boolalpha); return b; } inline ios_base& left(ios_base&b){ b.setf(ios_base::left,ios_base::adjustfield); return b; } inline ios_base& right(ios_base&b){ b.setf(ios_base::right,ios_base::adjustfield); return b; } inline ios_base& internal(ios_base&b){ return b; } inline ios_base& hex(ios_base&b){ b.setf(ios_base::hex,ios_base::basefield); return b; } inline ios_base& dec(ios_base&b){ b.setf(ios_base::dec,ios_base::basefield); return b; } inline ios_base& oct(ios_base&b){ b.setf(ios_base::oct,ios_base::basefield); return b; } inline ios_base& showpos(ios_base&b){ b.setf(ios_base::showpos); return b; } inline ios_base& noshowpos(ios_base&b){ b.unsetf(ios_base::showpos); return b; } inline ios_base& showpoint(ios_base&b){ return b; } inline ios_base& noshowpoint(ios_base&b){ return b; } inline ios_base& skipws(ios_base&b){ b.setf(ios_base::skipws); return b; } inline ios_base& noskipws(ios_base&b){ b.unsetf(ios_base::skipws); return b; } inline ios_base& uppercase(ios_base&b){ return b; } inline ios_base& nouppercase(ios_base&b){ return b; } inline ios_base& unitbuf(ios_base&b){ return b; }
  struct _VfSetp{int n;}; struct _VfSetw{int n;}; struct _VfSetf{char c;}; inline _VfSetp setprecision(int n){return {n};} inline _VfSetw setw(int n){return {n};} inline _VfSetf setfill(char c){return {c};}
  inline ostream& operator<<(ostream&o,_VfSetp p){ o.precision(p.n<0?6:p.n); return o; } inline ostream& operator<<(ostream&o,_VfSetw p){ o.width(p.n); return o; } inline ostream& operator<<(ostream&o,_VfSetf p){ o.fill(p.c); return o; }
  struct _VfPutTime{}; inline _VfPutTime put_time(const tm*,const char*){ return {}; } inline ostream& operator<<(ostream&o,_VfPutTime){ return o<<"2026-01-01 00:00:00"; }
  struct _VfQuoted{ string s; }; inline _VfQuoted quoted(const string&s){ return {s}; } inline ostream& operator<<(ostream&o,const _VfQuoted&q){ return o<<'"'<<q.s<<'"'; }
  template<class C,class T> class basic_istream : virtual public basic_ios<C,T> { public: typedef basic_istream Self; streamsize _gc=0; basic_istream(){} explicit basic_istream(basic_streambuf<C,T>*b){ this->_b=b; }
    struct sentry { bool ok; explicit sentry(basic_istream&i,bool noskip=false){ ok=i.vf_begin(!noskip); } explicit operator bool()const{return ok;} };
    static bool vf_ws(int c){ return c==' '||c=='\n'||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
    bool vf_begin(bool skip){ if(!this->good()){ this->setstate(ios_base::failbit); return false; } if(this->_b->_isfile&&!this->_b->_open){ this->setstate(ios_base::failbit); return false;} if(skip&&(this->_f&ios_base::skipws)){ while(vf_ws(this->_b->sgetc())) this->_b->sbumpc(); if(this->_b->sgetc()<0){ this->setstate(ios_base::eofbit|ios_base::failbit); return false; } } return true; }
    bool vf_number(string&t){ if(!vf_begin(true)) return false; for(;;){ int c=this->_b->sgetc(); if(c<0){ this->setstate(ios_base::eofbit); break; } bool digit=c>='0'&&c<='9'; bool sign=(c=='-'||c=='+')&&(t.empty()||t.back()=='e'||t.back()=='E'); if(digit||sign||c=='.'||((c=='e'||c=='E')&&!t.empty())) { t.push_back((char)c); this->_b->sbumpc(); } else break; } return true; }
    template<class N> Self& vf_int_in(N&v){ if(!vf_begin(true)) return *this; string t; for(;;){ int c=this->_b->sgetc(); if(c<0){ this->setstate(ios_base::eofbit); break; } if((c>='0'&&c<='9')||((c=='-'||c=='+')&&t.empty())){ t.push_back((char)c); this->_b->sbumpc(); } else break; } char*e; long long x=strtoll(t.c_str(),&e,10); if(t.empty()||*e||e==t.c_str()){ v=0; this->setstate(ios_base::failbit);} else v=(N)x; return *this; }
    Self& operator>>(double&v){ string t; if(!vf_number(t)) return *this; char*e; double x=strtod(t.c_str(),&e); if(t.empty()||*e||e==t.c_str()){ v=0; this->setstate(ios_base::failbit);} else v=x; return *this; } Self& operator>>(float&v){ double d=0; *this>>d; v=(float)d; return *this; }
    Self& operator>>(int&v){return vf_int_in(v);} Self& operator>>(long&v){return vf_int_in(v);} Self& operator>>(long long&v){return vf_int_in(v);} Self& operator>>(unsigned&v){return vf_int_in(v);} Self& operator>>(unsigned long&v){return vf_int_in(v);} Self& operator>>(unsigned long long&v){return vf_int_in(v);} Self& operator>>(short&v){return vf_int_in(v);} Self& operator>>(bool&v){ int i=0; vf_int_in(i); v=i!=0; return *this; }
    Self& operator>>(Self&(*f)(Self&)){ return f(*this);} Self& operator>>(ios_base&(*f)(ios_base&)){ f(*this); return *this;} 
    int get(){ _gc=0; if(!vf_begin(false)) return -1; int c=this->_b->sbumpc(); if(c<0) this->setstate(ios_base::eofbit|ios_base::failbit); else _gc=1; return c; } Self& get(char&c){ int x=get(); if(x>=0) c=(char)x; return *this; } int peek(){ if(!this->good()) return -1; int c=this->_b->sgetc(); if(c<0) this->setstate(ios_base::eofbit); return c; } Self& unget(){ this->_st&=~ios_base::eofbit; this->_b->sungetc(); return *this; } Self& putback(char){ return unget(); }
    Self& ignore(streamsize n=1,int d=-1){ for(streamsize i=0;i<n;i++){ int c=this->_b->sbumpc(); if(c<0){ this->setstate(ios_base::eofbit); break; } if(c==d) break; } return *this; } Self& read(char*s,streamsize n){ _gc=0; for(streamsize i=0;i<n;i++){ int c=this->_b->sbumpc(); if(c<0){ this->setstate(ios_base::eofbit|ios_base::failbit); break; } s[i]=(char)c; _gc++; } return *this; } streamsize gcount()const{return _gc;} 
    Self& getline(char*s,streamsize n,char d='\n'){ string t; if(vf_begin(false)){ bool any=false; for(;;){ int c=this->_b->sbumpc(); if(c<0){ this->setstate(any?ios_base::eofbit:(ios_base::eofbit|ios_base::failbit)); break;} any=true; if(c==d) break; t.push_back((char)c);} } size_t k=t.size()<(size_t)n?t.size():n-1; memcpy(s,t.data(),k); s[k]=0; return *this; }
    streamoff tellg(){ return this->fail()?-1:(streamoff)this->_b->_g; } Self& seekg(streamoff p){ this->_st&=~ios_base::eofbit; if(!this->fail()) this->_b->_g=(size_t)p; return *this; } Self& seekg(streamoff p,ios_base::seekdir d){ this->_st&=~ios_base::eofbit; if(!this->fail()) this->_b->_g= d==0?p: d==1? this->_b->_g+p : this->_b->_d.size()+p; return *this; } };
  inline istream& operator>>(istream&i,string&s){ s.clear(); if(!i.vf_begin(true)) return i; bool any=false; streamsize w=i.width(0); for(;;){ int c=i.rdbuf()->sgetc(); if(c<0){ i.setstate(ios_base::eofbit); break; } if(istream::vf_ws(c)) break; s.push_back((char)c); any=true; i.rdbuf()->sbumpc(); if(w&&(streamsize)s.size()>=w) break; } if(!any) i.setstate(ios_base::failbit); return i; }
  inline istream& operator>>(istream&i,char&c){ if(i.vf_begin(true)){ int x=i.rdbuf()->sbumpc(); if(x<0) i.setstate(ios_base::eofbit|ios_base::failbit); else c=(char)x; } return i; }
  inline istream& operator>>(istream&i,_VfSetw p){ i.width(p.n); return i; } inline istream& operator>>(istream&i,_VfSetp p){ i.precision(p.n); return i; }
  template<class C,class T> basic_istream<C,T>& ws(basic_istream<C,T>&i){ while(basic_istream<C,T>::vf_ws(i.rdbuf()->sgetc())) i.rdbuf()->sbumpc(); if(i.rdbuf()->sgetc()<0) i.setstate(ios_base::eofbit); return i; }
  template<class I,class V> inline typename enable_if<is_base_of<ios_base,I>::value&&!is_lvalue_reference<I>::value,I&&>::type operator>>(I&&i,V&v){ i>>v; return static_cast<I&&>(i); }
  inline istream& getline(istream&i,string&s,char d){ s.clear(); if(!i.vf_begin(false)) return i; auto*b=i.rdbuf(); size_t g=b->_g; const string&data=b->_d; size_t n=data.size(); bool any=false; while(true){ if(g>=n){ i.setstate(any?ios_base::eofbit:(ios_base::eofbit|ios_base::failbit)); break; } char c=data[g++]; any=true; if(c==d) break; s.push_back(c);} b->_g=g; return i; }
  inline istream& getline(istream&i,string&s){ return getline(i,s,'\n'); } inline istream& getline(istream&&i,string&s,char d){ return getline(i,s,d);} inline istream& getline(istream&&i,string&s){ return getline(i,s,'\n'); }
  template<class C,class T> class basic_iostream : public basic_istream<C,T>, public basic_ostream<C,T> {};
inline namespace __cxx11 {
  template<class C,class T,class A> class basic_ostringstream : public basic_ostream<C,T> { public: basic_ostringstream(){} explicit basic_ostringstream(ios_base::openmode){} explicit basic_ostringstream(const string&s,ios_base::openmode m=ios_base::out){ this->_own.str(m&(ios_base::app|ios_base::ate)?s:string()); } basic_ostringstream(basic_ostringstream&&o){ this->vf_move(o);} string str()const{ return this->_own.str(); } void str(const string&s){ this->_own.str(""); this->_own._d=s; } string_view view()const{return this->_own._d;} };
  template<class C,class T,class A> class basic_istringstream : public basic_istream<C,T> { public: basic_istringstream(){} explicit basic_istringstream(const string&s,ios_base::openmode=ios_base::in){ this->_own.str(s); } basic_istringstream(basic_istringstream&&o){ this->vf_move(o);} string str()const{ return this->_own.str(); } void str(const string&s){ this->_own.str(s); } };
  template<class C,class T,class A> class basic_stringstream : public basic_iostream<C,T> { public: basic_stringstream(){} explicit basic_stringstream(ios_base::openmode){} explicit basic_stringstream(const string&s,ios_base::openmode m=ios_base::in|ios_base::out){ this->_own.str(s); } basic_stringstream(basic_stringstream&&o){ this->vf_move(o);} string str()const{ return this->_own.str(); } void str(const string&s){ this->_own.str(s); } };
}
  template<class C,class T> class basic_filebuf : public basic_streambuf<C,T> {};
  template<class C,class T> struct _VfFileOps { static bool isLog(const string&n){ return n.size()>4&&n.compare(n.size()-4,4,".log")==0; }
    static void open(basic_ios<C,T>&s,const string&n,ios_base::openmode m){ auto&b=s._own; if(b._open){ s.setstate(ios_base::failbit); return; } b._d.clear(); b._g=0; b._committed=0; b._name=n; b._isfile=true; b._out=(m&(ios_base::out|ios_base::app))!=0; b._open=false; b._sink=false; s._st=0; if(b._out){ if(isLog(n)){ b._sink=true; b._open=true; return; } if(!vf_fs_can_write(n.c_str())){ s.setstate(ios_base::failbit); return; } VfFile*f=vf_fs_find(n.c_str()); if((m&ios_base::in)&&!(m&(ios_base::trunc|ios_base::app))){ if(!f){ s.setstate(ios_base::failbit); return; } } if(!f) f=vf_fs_create(n.c_str()); else if(!(m&ios_base::app)&&!(m&ios_base::in)) f->data.clear(); else if(m&ios_base::trunc) f->data.clear(); if(m&ios_base::in){ b._d=f->data; b._committed=b._d.size(); } b._open=true; } else { VfFile*f=vf_fs_find(n.c_str()); if(!f){ s.setstate(ios_base::failbit); return; } b._d=f->data; b._open=true; } }
    static void close(basic_ios<C,T>&s){ auto&b=s._own; if(!b._open){ s.setstate(ios_base::failbit); return; } b.commit(); b._open=false; } };
  template<class C,class T> class basic_ofstream : public basic_ostream<C,T> { public: basic_ofstream(){ this->_own._isfile=true; } explicit basic_ofstream(const char*n,ios_base::openmode m=ios_base::out){ open(n,m);} explicit basic_ofstream(const string&n,ios_base::openmode m=ios_base::out){ open(n,m);} basic_ofstream(basic_ofstream&&o){ this->vf_move(o);} basic_ofstream& operator=(basic_ofstream&&o){ if(is_open()) close(); this->vf_move(o); return *this; } ~basic_ofstream(){ if(this->_own._open){ this->_own.commit(); this->_own._open=false; } } void open(const string&n,ios_base::openmode m=ios_base::out){ _VfFileOps<C,T>::open(*this,n,m|ios_base::out);} void close(){ _VfFileOps<C,T>::close(*this);} bool is_open()const{return this->_own._open;} };
  template<class C,class T> class basic_ifstream : public basic_istream<C,T> { public: basic_ifstream(){ this->_own._isfile=true; } explicit basic_ifstream(const char*n,ios_base::openmode m=ios_base::in){ open(n,m);} explicit basic_ifstream(const string&n,ios_base::openmode m=ios_base::in){ open(n,m);} basic_ifstream(basic_ifstream&&o){ this->vf_move(o);} basic_ifstream& operator=(basic_ifstream&&o){ this->vf_move(o); return *this; } ~basic_ifstream(){ this->_own._open=false; } void open(const string&n,ios_base::openmode m=ios_base::in){ _VfFileOps<C,T>::open(*this,n,ios_base::in);} void close(){ _VfFileOps<C,T>::close(*this);} bool is_open()const{return this->_own._open;} };
  template<class C,class T> class basic_fstream : public basic_iostream<C,T> { public: basic_fstream(){ this->_own._isfile=true; } explicit basic_fstream(const string&n,ios_base::openmode m=ios_base::in|ios_base::out){ open(n,m);} ~basic_fstream(){ if(this->_own._open){ this->_own.commit(); this->_own._open=false; } } void open(const string&n,ios_base::openmode m=ios_base::in|ios_base::out){ _VfFileOps<C,T>::open(*this,n,m);} void close(){ _VfFileOps<C,T>::close(*this);} bool is_open()const{return this->_own._open;} };
  template<typename C,typename T> class istreambuf_iterator { public: typedef input_iterator_tag iterator_category; typedef C value_type; typedef ptrdiff_t difference_type; typedef const C* pointer; typedef C reference; basic_streambuf<C,T>*b=nullptr; istreambuf_iterator(){} istreambuf_iterator(basic_istream<C,T>&i):b(i.rdbuf()){} istreambuf_iterator(basic_streambuf<C,T>*x):b(x){} bool end()const{ return !b||b->sgetc()<0; } C operator*()const{ return (C)b->sgetc(); } istreambuf_iterator& operator++(){ b->sbumpc(); return *this; } istreambuf_iterator operator++(int){ auto o=*this; b->sbumpc(); return o; } bool equal(const istreambuf_iterator&o)const{ return end()==o.end(); } };
  template<class C,class T> bool operator==(const istreambuf_iterator<C,T>&a,const istreambuf_iterator<C,T>&b){ return a.equal(b);} template<class C,class T> bool operator!=(const istreambuf_iterator<C,T>&a,const istreambuf_iterator<C,T>&b){ return !a.equal(b);} 
  template<class V,class C=char,class T=char_traits<C>,class D=ptrdiff_t> class istream_iterator { public: typedef input_iterator_tag iterator_category; typedef V value_type; typedef D difference_type; typedef const V* pointer; typedef const V& reference; basic_istream<C,T>*i=nullptr; V v{}; istream_iterator(){} istream_iterator(basic_istream<C,T>&s):i(&s){ rd(); } void rd(){ if(i&&!(*i>>v)) i=nullptr; } const V& operator*()const{return v;} const V* operator->()const{return &v;} istream_iterator& operator++(){ rd(); return *this; } istream_iterator operator++(int){ auto o=*this; rd(); return o; } bool operator==(const istream_iterator&o)const{return i==o.i;} bool operator!=(const istream_iterator&o)const{return i!=o.i;} };
  template<class V,class C=char,class T=char_traits<C>> class ostream_iterator { public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference; basic_ostream<C,T>*o; const C*d; ostream_iterator(basic_ostream<C,T>&s,const C*x=nullptr):o(&s),d(x){} ostream_iterator& operator=(const V&v){ *o<<v; if(d) *o<<d; return *this; } ostream_iterator& operator*(){return *this;} ostream_iterator& operator++(){return *this;} ostream_iterator& operator++(int){return *this;} };
  extern ostream cout,cerr,clog; extern istream cin;
}
