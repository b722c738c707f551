// replaces libstdc++'s uniform_int_distribution: any value of the documented range
#ifndef _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#define _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#include <type_traits>
#include <limits>
extern "C" int vf_random_fixed; extern "C" double vf_next_fraction(void); extern "C" int vf_int(const char*,int,int);
template<class G> inline auto vf_touch_(G&g,int)->decltype(g._drawn++,void()){ g._drawn++; } template<class G> inline void vf_touch_(G&,long){} // a draw changes the state of the generator
namespace std {
  namespace __detail { template<typename _Tp> constexpr bool _Power_of_2(_Tp __x){ return ((__x-1)&__x)==0; } }
  template<typename _IntType=int> class uniform_int_distribution {
  public: typedef _IntType result_type;
    struct param_type { typedef uniform_int_distribution distribution_type; _IntType _a,_b; explicit param_type(_IntType a=0,_IntType b=std::numeric_limits<_IntType>::max()):_a(a),_b(b){} _IntType a()const{return _a;} _IntType b()const{return _b;} };
    explicit uniform_int_distribution(_IntType a,_IntType b=std::numeric_limits<_IntType>::max()):_p(a,b){}
    uniform_int_distribution():_p(0){}
    explicit uniform_int_distribution(const param_type&p):_p(p){}
    void reset(){} result_type a()const{return _p._a;} result_type b()const{return _p._b;} result_type min()const{return a();} result_type max()const{return b();} param_type param()const{return _p;} void param(const param_type&p){_p=p;}
    template<class G> result_type operator()(G&g){ return (*this)(g,_p); }
    template<class G> result_type operator()(G&g,const param_type&p){ vf_touch_(g,0); long long lo=(long long)p._a,hi=(long long)p._b; if(hi>2147483647LL||hi<lo) hi=2147483647LL; if(p._a==p._b) return p._a; if(vf_random_fixed) return (result_type)(lo+(long long)(vf_next_fraction()*(double)(hi-lo+1))); return (result_type)vf_int("rndint",(int)lo,(int)hi); }
    param_type _p; };
}
#endif
