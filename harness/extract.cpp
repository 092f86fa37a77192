// Key extractor monitor: every extractor applied to values, reference wrappers
// and chains of pointers must give exactly the designated object or function
// result, read or written; indices on extractors must behave as on plain keys.
#include "core.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/key_extractors.hpp>
#include <boost/multi_index/key.hpp>
#include <boost/ref.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <list>
#include <cstddef>
namespace vf{
namespace mi=boost::multi_index;
struct Trace{const void* self=nullptr;long calls=0;int fn=0;};
static Trace tr;
struct Pad{virtual ~Pad(){}long pad=17;};
struct T{
  int x;const int cx;double d;std::string s;
  T(int v=0):x(v),cx(v*3+1),d(v*0.5),s(std::to_string(v)){}
  T& operator=(const T& o){x=o.x;d=o.d;s=o.s;return *this;}
  T(const T&)=default;
  void t(int f)const volatile{tr.self=const_cast<const T*>(this);++tr.calls;tr.fn=f;}
  int f1()const{t(1);return x+1;}
  int& f2(){t(2);return x;}
  const std::string& f3()const{t(3);return s;}
  int f4(){t(4);return x+4;}
  int f5()const volatile{t(5);return x+5;}
  int f6()const&{t(6);return x+6;}
  int f7()const volatile&{t(7);return x+7;}
  int f8()volatile{t(8);return x+8;}
  int f9()&{t(9);return x+9;}
  int f10()volatile&{t(10);return x+10;}
  int n1()const noexcept{t(11);return x+11;}
  int& n2()noexcept{t(12);return x;}
  int n3()const volatile noexcept{t(13);return x+13;}
  int n4()const& noexcept{t(14);return x+14;}
  int n5()const volatile& noexcept{t(15);return x+15;}
  int n6()volatile noexcept{t(16);return x+16;}
  int n7()& noexcept{t(17);return x+17;}
  int n8()volatile& noexcept{t(18);return x+18;}
  virtual int v()const{t(19);return x+19;}
  static int sf(const T& q){q.t(20);return q.x+20;}
  static int& srw(T& q){q.t(21);return q.x;}
  virtual ~T(){}
};
inline bool operator==(const T& a,const T& b){return a.x==b.x;}
inline bool operator<(const T& a,const T& b){return a.x<b.x;}
inline std::size_t hash_value(const T& a){return (std::size_t)a.x;}
/* not at offset zero, so that conversions adjust pointers */
struct D:Pad,T{
  int y;D(int v=0):T(v),y(v+100){}
  int v()const override{t(22);return y+22;}
  int fy()const{tr.self=this;++tr.calls;tr.fn=23;return y;}
};
static int g_val(T q){tr.fn=30;++tr.calls;tr.self=nullptr;return q.x+30;}
static int g_cref(const T& q){q.t(31);return q.x+31;}
static int g_ref(T& q){q.t(32);return q.x+32;}
static const std::string& g_sref(const T& q){q.t(33);return q.s;}
static int& g_rw(T& q){q.t(34);return q.x;}
static int g_nx(const T& q)noexcept{q.t(35);return q.x+35;}
/* convertible and dereferenceable at once: the conversion decides */
struct Conv{T a,b;Conv(int v):a(v),b(v+5000){}operator const T&()const{return a;}const T& operator*()const{return b;}};
/* a smart pointer of its own, with only what a chained pointer needs */
template<class P>struct Smart{P p;explicit Smart(P q):p(q){}auto operator*()const->decltype(*p){return *p;}};

static void bad(const char* e,const char* h,const char* what){fail("extractor","%s applied to %s: %s",e,h,what);}
/* e: extractor; h: handle; o: designated T object; want: value; addr: designated object or null; fn: function */
template<class X,class H,class V>void probe(const char* en,const char* hn,X& ex,H&& h,const T& o,const V& want,const void* addr,int fn,bool copies=false){
  const X& e=ex;
  Trace before=tr;
  decltype(auto) r=e(h);
  ++ctx().evaluations;count(hn);
  if(!(r==want))bad(en,hn,"wrong key");
  if(addr&&(const void*)&r!=addr)bad(en,hn,"not the designated object");
  if(fn){
    if(tr.calls!=before.calls+1||tr.fn!=fn)bad(en,hn,"another function is called, or not once");
    if(!copies&&tr.self!=(const void*)&o)bad(en,hn,"called on another object");
  }
  else if(tr.calls!=before.calls)bad(en,hn,"a function is called");
  X copy(ex);const X& e2=copy;
  if(!(e2(h)==want))bad(en,hn,"a copy gives another key");
  seen(mix(std::hash<std::string>()(en),mix(std::hash<std::string>()(hn),(uint64_t)o.x)));
}
template<class X,class H,class V>void write(const char* en,const char* hn,X& ex,H&& h,T& o,const V& v,V T::*m){
  const X& e=ex;V old=o.*m;
  e(h)=v;
  ++ctx().evaluations;count("writes");
  if(!(o.*m==v))bad(en,hn,"writing does not reach the object");
  o.*m=old;
}
/* handles that a reading-and-writing extractor reads a const object through */
template<class X,class V>void basic_handles(const char* en,X& e,T& o,const V& want,const void* addr,int fn){
  const T& c=o;auto cr=boost::cref(o);
  probe(en,"const value",e,c,o,want,addr,fn);probe(en,"cref",e,cr,o,want,addr,fn);
}
/* const handles to the object */
template<class X,class V>void const_handles(const char* en,X& e,T& o,const V& want,const void* addr,int fn,bool copies=false){
  const T& c=o;const T* p=&o;const T* const* pp=&p;const T* const* const* ppp=&pp;
  auto sp=std::shared_ptr<const T>(&o,[](const T*){});auto up=std::unique_ptr<std::shared_ptr<const T>>(new std::shared_ptr<const T>(sp));
  auto bsp=boost::shared_ptr<const T>(&o,[](const T*){});
  auto cr=boost::cref(o);auto* pcr=&cr;Smart<const T*> sm(p);Smart<Smart<const T*>*> sm2(&sm);
  std::list<const T*> l(1,p);auto li=l.begin();auto lci=l.cbegin();
  auto spr=std::make_shared<boost::reference_wrapper<const T>>(cr);
  probe(en,"const value",e,c,o,want,addr,fn,copies);probe(en,"const pointer",e,p,o,want,addr,fn,copies);probe(en,"pointer chain",e,pp,o,want,addr,fn,copies);
  probe(en,"long pointer chain",e,ppp,o,want,addr,fn,copies);probe(en,"shared_ptr to const",e,sp,o,want,addr,fn,copies);probe(en,"unique_ptr to shared_ptr to const",e,up,o,want,addr,fn,copies);
  probe(en,"boost::shared_ptr to const",e,bsp,o,want,addr,fn,copies);probe(en,"cref",e,cr,o,want,addr,fn,copies);probe(en,"pointer to cref",e,pcr,o,want,addr,fn,copies);
  probe(en,"own smart pointer",e,sm,o,want,addr,fn,copies);probe(en,"own smart pointer chain",e,sm2,o,want,addr,fn,copies);probe(en,"list iterator",e,li,o,want,addr,fn,copies);
  probe(en,"list const_iterator",e,lci,o,want,addr,fn,copies);probe(en,"shared_ptr to cref",e,spr,o,want,addr,fn,copies);
}
template<class F>void mutable_handles_(T& o,F f){
  T* p=&o;T** pp=&p;T* const* pcp=&p;auto sp=std::shared_ptr<T>(&o,[](T*){});auto up=std::unique_ptr<std::shared_ptr<T>>(new std::shared_ptr<T>(sp));
  auto bsp=boost::shared_ptr<T>(&o,[](T*){});auto rw=boost::ref(o);auto* prw=&rw;const auto crw=boost::ref(o);Smart<T*> sm(p);Smart<Smart<T*>*> sm2(&sm);
  std::vector<T*> v(1,p);auto vi=v.begin();auto vci=v.cbegin();const std::shared_ptr<T> csp(sp);
  f("pointer",p);f("pointer to pointer",pp);f("pointer to const pointer",pcp);f("shared_ptr",sp);f("const shared_ptr",csp);f("unique_ptr to shared_ptr",up);f("boost::shared_ptr",bsp);f("ref",rw);
  f("const ref",crw);f("pointer to ref",prw);f("own smart pointer to mutable",sm);f("own smart pointer chain to mutable",sm2);f("vector iterator",vi);f("vector const_iterator",vci);
}
template<class X,class V>void mutable_handles(const char* en,X& e,T& o,const V& want,const void* addr,int fn,bool value=true,bool copies=false){
  if(value)probe(en,"value",e,o,o,want,addr,fn,copies);
  mutable_handles_(o,[&](const char* hn,auto& h){probe(en,hn,e,h,o,want,addr,fn,copies);});
}
template<class X,class V>void writes(const char* en,X& e,T& o,const V& v,V T::*m,bool value=true){
  if(value)write(en,"value",e,o,o,v,m);
  mutable_handles_(o,[&](const char* hn,auto& h){write(en,hn,e,h,o,v,m);});
}
template<class X,class V>void all(const char* en,T& o,const V& want,const void* addr,int fn,bool copies=false){
  X e;const_handles(en,e,o,want,addr,fn,copies);mutable_handles(en,e,o,want,addr,fn,true,copies);
}
template<class X,class V>void rw(const char* en,T& o,const V& want,const void* addr,int fn){
  X e;basic_handles(en,e,o,want,addr,fn);mutable_handles(en,e,o,want,addr,fn);
}
template<class X,class V>void only_mutable(const char* en,T& o,const V& want,const void* addr,int fn){X e;mutable_handles(en,e,o,want,addr,fn);}

static void probes(Rng& r){
  int v=r.range(-50,50);
  T plain(v);D der(v);
  lg("extractors on value %d",v);
  for(int w=0;w<2;++w){
    T& o=w?static_cast<T&>(der):plain;
    const void* ax=&o.x;const void* as=&o.s;const void* acx=&o.cx;
    {mi::identity<T> e;basic_handles("identity",e,o,o,&o,0);mutable_handles("identity",e,o,o,&o,0);
     mutable_handles_(o,[&](const char* hn,auto& h){const auto& ce=e;T* q=&ce(h);if(q!=&o)bad("identity",hn,"not the object itself");});}
    all<mi::identity<const T>>("identity<const>",o,o,&o,0);
    typedef mi::member<T,int,&T::x> M;typedef mi::member<T,const int,&T::cx> MC;typedef mi::member<T,std::string,&T::s> MS;
    typedef mi::member<T,const int,&T::x> MX;
    rw<M>("member",o,o.x,ax,0);all<MC>("member of const",o,o.cx,acx,0);rw<MS>("member string",o,o.s,as,0);all<MX>("member as const",o,o.x,ax,0);
    rw<BOOST_MULTI_INDEX_MEMBER(T,int,x)>("BOOST_MULTI_INDEX_MEMBER",o,o.x,ax,0);
    {M e;writes("member",e,o,v+77,&T::x);}{MS e;writes("member string",e,o,std::string("w"),&T::s);}
    {mi::identity<T> e;mutable_handles_(o,[&](const char* hn,auto& h){const auto& ce=e;int old=o.x;ce(h).x=old+9;if(o.x!=old+9)bad("identity",hn,"writing does not reach the object");o.x=old;});}
    typedef mi::const_mem_fun<T,int,&T::f1> F1;typedef mi::const_mem_fun<T,const std::string&,&T::f3> F3;
    all<F1>("const_mem_fun",o,o.x+1,nullptr,1);all<F3>("const_mem_fun by reference",o,o.s,as,3);
    all<BOOST_MULTI_INDEX_CONST_MEM_FUN(T,int,f1)>("BOOST_MULTI_INDEX_CONST_MEM_FUN",o,o.x+1,nullptr,1);
    all<mi::const_mem_fun_explicit<T,int,int(T::*)()const,&T::f1>>("const_mem_fun_explicit",o,o.x+1,nullptr,1);
    all<mi::cv_mem_fun<T,int,&T::f5>>("cv_mem_fun",o,o.x+5,nullptr,5);all<mi::cref_mem_fun<T,int,&T::f6>>("cref_mem_fun",o,o.x+6,nullptr,6);all<mi::cvref_mem_fun<T,int,&T::f7>>("cvref_mem_fun",o,o.x+7,nullptr,7);
    all<mi::const_mem_fun<T,int,&T::v>>("virtual const_mem_fun",o,w?der.y+22:o.x+19,nullptr,w?22:19);
    typedef mi::mem_fun<T,int&,&T::f2> F2;
    only_mutable<F2>("mem_fun by reference",o,o.x,ax,2);only_mutable<mi::mem_fun<T,int,&T::f4>>("mem_fun",o,o.x+4,nullptr,4);
    only_mutable<BOOST_MULTI_INDEX_MEM_FUN(T,int,f4)>("BOOST_MULTI_INDEX_MEM_FUN",o,o.x+4,nullptr,4);only_mutable<mi::mem_fun_explicit<T,int,int(T::*)(),&T::f4>>("mem_fun_explicit",o,o.x+4,nullptr,4);
    only_mutable<mi::volatile_mem_fun<T,int,&T::f8>>("volatile_mem_fun",o,o.x+8,nullptr,8);only_mutable<mi::ref_mem_fun<T,int,&T::f9>>("ref_mem_fun",o,o.x+9,nullptr,9);
    only_mutable<mi::vref_mem_fun<T,int,&T::f10>>("vref_mem_fun",o,o.x+10,nullptr,10);
    {F2 e;writes("mem_fun by reference",e,o,v+55,&T::x);}
    all<mi::global_fun<const T&,int,&g_cref>>("global_fun const&",o,o.x+31,nullptr,31);all<mi::global_fun<const T&,const std::string&,&g_sref>>("global_fun by reference",o,o.s,as,33);
    all<mi::global_fun<T,int,&g_val>>("global_fun by value",o,o.x+30,nullptr,30,true);all<mi::global_fun<const T&,int,&T::sf>>("global_fun static member",o,o.x+20,nullptr,20);
    only_mutable<mi::global_fun<T&,int,&g_ref>>("global_fun &",o,o.x+32,nullptr,32);only_mutable<mi::global_fun<T&,int&,&g_rw>>("global_fun & by reference",o,o.x,ax,34);
    {mi::global_fun<T&,int&,&T::srw> e;writes("global_fun & by reference",e,o,v+33,&T::x);}
#ifdef BOOST_MULTI_INDEX_KEY_SUPPORTED
    rw<mi::key<&T::x>>("key member",o,o.x,ax,0);all<mi::key<&T::cx>>("key const member",o,o.cx,acx,0);all<mi::key<&T::f1>>("key const fn",o,o.x+1,nullptr,1);all<mi::key<&T::f3>>("key const fn ref",o,o.s,as,3);
    all<mi::key<&T::f5>>("key cv",o,o.x+5,nullptr,5);all<mi::key<&T::f6>>("key cref",o,o.x+6,nullptr,6);all<mi::key<&T::f7>>("key cvref",o,o.x+7,nullptr,7);
    only_mutable<mi::key<&T::f2>>("key fn ref",o,o.x,ax,2);only_mutable<mi::key<&T::f4>>("key fn",o,o.x+4,nullptr,4);only_mutable<mi::key<&T::f8>>("key volatile",o,o.x+8,nullptr,8);
    only_mutable<mi::key<&T::f9>>("key ref",o,o.x+9,nullptr,9);only_mutable<mi::key<&T::f10>>("key vref",o,o.x+10,nullptr,10);
    all<mi::key<&T::n1>>("key noexcept const",o,o.x+11,nullptr,11);only_mutable<mi::key<&T::n2>>("key noexcept",o,o.x,ax,12);all<mi::key<&T::n3>>("key noexcept cv",o,o.x+13,nullptr,13);
    all<mi::key<&T::n4>>("key noexcept cref",o,o.x+14,nullptr,14);all<mi::key<&T::n5>>("key noexcept cvref",o,o.x+15,nullptr,15);only_mutable<mi::key<&T::n6>>("key noexcept volatile",o,o.x+16,nullptr,16);
    only_mutable<mi::key<&T::n7>>("key noexcept ref",o,o.x+17,nullptr,17);only_mutable<mi::key<&T::n8>>("key noexcept vref",o,o.x+18,nullptr,18);
    all<mi::key<g_cref>>("key function",o,o.x+31,nullptr,31);all<mi::key<g_nx>>("key noexcept function",o,o.x+35,nullptr,35);all<mi::key<&g_sref>>("key function ref",o,o.s,as,33);
    only_mutable<mi::key<&g_rw>>("key function rw",o,o.x,ax,34);all<mi::key<&T::v>>("key virtual",o,w?der.y+22:o.x+19,nullptr,w?22:19);
    {
      typedef mi::key<&T::x,&T::f3,g_nx> CK;
      static_assert(std::is_same<CK,mi::composite_key<T,mi::key<&T::x>,mi::key<&T::f3>,mi::key<g_nx>>>::value,"");
      CK k;T* p=&o;auto t=std::make_tuple(o.x,o.s,o.x+35);
      if(!(k(o)==t)||!(k(p)==t)||!(k(&p)==t)||!(k(boost::ref(o))==t)||!(k(boost::cref(o))==t))bad("key<...>","values and pointers","wrong composite key");
      typedef mi::key<&T::x,&D::y,&D::fy> CD;
      static_assert(std::is_same<CD::value_type,D>::value,"");
      CD kd;if(!(kd(der)==std::make_tuple(der.x,der.y,der.y)))bad("key<base,derived>","derived value","wrong composite key");
      ++ctx().evaluations;
    }
#endif
    if(w){
      /* extractors of the base applied to the derived object */
      M e;const M& ce=e;D* pd=&der;const D* pcd=&der;auto sd=std::shared_ptr<D>(&der,[](D*){});
      if(&ce(der)!=&der.x||&ce(pd)!=&der.x||&ce(sd)!=&der.x||&ce(const_cast<const D&>(der))!=&der.x)bad("member","derived object","not the member of its base");
      if(F1()(der)!=der.x+1||F1()(pd)!=der.x+1||tr.self!=(const void*)static_cast<T*>(&der))bad("const_mem_fun","derived object","not the base function");
      if(&mi::identity<T>()(pd)!=static_cast<T*>(pd))bad("identity","pointer to derived","not the base");
      mi::global_fun<const T&,int,&g_cref> g;if(g(der)!=der.x+31||g(sd)!=der.x+31)bad("global_fun","derived object","wrong key");
      ++ctx().evaluations;count("derived");
    }
    {
      Conv c(v);const Conv& cc=c;M e;
      if(e(cc)!=c.a.x||mi::identity<T>()(cc).x!=c.a.x||F1()(cc)!=c.a.x+1||mi::global_fun<const T&,int,&g_cref>()(cc)!=c.a.x+31)bad("extractors","convertible object","dereferenced instead of converted");
      ++ctx().evaluations;count("convertible");
    }
  }
}
/* ---------------------------------------------------- indices on extractors */
template<class V>struct Wrap;
template<>struct Wrap<T>{static T make(T& t){return t;}static const T& get(const T& t){return t;}static const bool shared=false;};
template<>struct Wrap<T*>{static T* make(T& t){return &t;}static const T& get(T* t){return *t;}static const bool shared=true;};
template<>struct Wrap<std::shared_ptr<T>>{static std::shared_ptr<T> make(T& t){return std::make_shared<T>(t);}static const T& get(const std::shared_ptr<T>& t){return *t;}static const bool shared=true;};
template<>struct Wrap<boost::reference_wrapper<T>>{static boost::reference_wrapper<T> make(T& t){return boost::ref(t);}static const T& get(boost::reference_wrapper<T> t){return t.get();}static const bool shared=true;};
template<class V,bool Mut>static void index(Rng& r,const char* name){
  typedef mi::member<T,int,&T::x> M;
  typedef mi::multi_index_container<V,mi::indexed_by<mi::ordered_non_unique<M>,mi::hashed_non_unique<mi::const_mem_fun<T,const std::string&,&T::f3>>,
    mi::ordered_non_unique<mi::identity<T>>,mi::ranked_non_unique<mi::global_fun<const T&,int,&g_cref>,std::greater<int>>,mi::hashed_non_unique<mi::identity<T>>,mi::sequenced<>>> C;
  C c;std::list<T> store;std::vector<int> model;
  int n=r.below(25);
  lg("index on %s with %d elements",name,n);
  for(int i=0;i<n;++i){
    store.emplace_back(r.range(-6,6));c.insert(Wrap<V>::make(store.back()));model.push_back(store.back().x);
    if(r.chance(1,3)){
      /* write through the key */
      auto& ix=c.template get<0>();auto it=ix.begin();std::advance(it,r.below((int)ix.size()));
      int old=Wrap<V>::get(*it).x,nw=r.range(-6,6);
      ix.modify_key(it,[&](int& k){k=nw;});
      model.erase(std::find(model.begin(),model.end(),old));model.push_back(nw);
      /* only the key changed: bring the dependent string in line */
      for(auto it2=ix.begin();it2!=ix.end();++it2)if(Wrap<V>::get(*it2).s!=std::to_string(Wrap<V>::get(*it2).x))
        ix.modify(it2,[](V& q){const_cast<T&>(Wrap<V>::get(q)).s=std::to_string(Wrap<V>::get(q).x);});
      count("modify_key");
    }
  }
  std::sort(model.begin(),model.end());
  std::vector<int> a,b,d;
  for(auto& e:c.template get<0>())a.push_back(Wrap<V>::get(e).x);
  for(auto& e:c.template get<2>())b.push_back(Wrap<V>::get(e).x);
  for(auto& e:c.template get<3>())d.push_back(Wrap<V>::get(e).x);
  std::reverse(d.begin(),d.end());
  if(a!=model||b!=model||d!=model)fail("extractor-index","index on %s is not ordered by the key",name);
  for(int k=-7;k<=7;++k){
    std::size_t m=(std::size_t)std::count(model.begin(),model.end(),k);
    if(c.template get<0>().count(k)!=m||c.template get<1>().count(std::to_string(k))!=m||c.template get<2>().count(T(k))!=m||c.template get<3>().count(k+31)!=m||c.template get<4>().count(T(k))!=m)
      fail("extractor-index","index on %s: key %d counted wrongly",name,k);
    ++ctx().evaluations;count(m?"index-hits":"index-misses");
  }
  uint64_t h=std::hash<std::string>()(name);for(int x:model)h=mix(h,(uint64_t)(unsigned)x);seen(h);
}
struct Pod{char c;int i;double d;const int k;};
static void offsets(Rng& r){
  Pod p{'a',r.below(100),1.5,r.below(9)};const Pod& cp=p;Pod* q=&p;const Pod* cq=&p;auto sp=std::shared_ptr<Pod>(&p,[](Pod*){});
  typedef mi::member_offset<Pod,int,offsetof(Pod,i)> MO;typedef mi::member_offset<Pod,const int,offsetof(Pod,k)> MK;
  MO e;MK k;
  if(&e(p)!=&p.i||&e(cp)!=&p.i||&e(q)!=&p.i||&e(&q)!=&p.i||&e(sp)!=&p.i||&e(boost::ref(p))!=&p.i||&e(boost::cref(p))!=&p.i)bad("member_offset","values and pointers","not the member");
  if(&k(cp)!=&p.k||&k(cq)!=&p.k||&k(&cq)!=&p.k||&k(sp)!=&p.k||&k(boost::ref(p))!=&p.k||&k(boost::cref(p))!=&p.k)bad("member_offset of const","values and pointers","not the member");
  e(q)=7;if(p.i!=7)bad("member_offset","pointer","writing does not reach the object");
  ++ctx().evaluations;count("offsets");
}
static void one(uint64_t k,Rng& r){
  offsets(r);
  probes(r);
  index<T,true>(r,"values");index<T*,true>(r,"pointers");index<std::shared_ptr<T>,true>(r,"shared pointers");index<boost::reference_wrapper<T>,true>(r,"reference wrappers");
  if(k<3)sample_log();
}
}
int main(int argc,char** argv){
  vf::init(argc,argv);
  return vf::run_cases([](uint64_t k,vf::Rng& r){vf::one(k,r);});
}
