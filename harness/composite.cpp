// Composite key monitor: comparison, equality and hashing of composite keys of
// each length against tuples of every kind and length, and lookups by prefixes
// in indices of each kind, against component-by-component recomputation.
#ifndef CFG
#define CFG 0
#endif
#include "core.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/tuple/tuple.hpp>
#include <boost/tuple/tuple_comparison.hpp>
#include <boost/functional/hash.hpp>
#include <tuple>
#include <string>
namespace vf{
namespace mi=boost::multi_index;
static const int MAXL=10;
struct E{int f[MAXL];int uid;E():uid(0){for(int& x:f)x=0;}};

struct Ops{long key=0,cmp=0,eq=0,hash=0;};
static Ops ops;
/* stateful components: each may negate or offset */
template<int I>struct F{
  typedef int result_type;int add;
  F(int a=0):add(a){}
  int operator()(const E& e)const{++ops.key;return e.f[I]+add;}
};
struct Cmp{int dir;Cmp(int d=1):dir(d){}
  template<class A,class B>bool operator()(const A& x,const B& y)const{++ops.cmp;return dir>0?x<y:y<x;}};
struct Eq{int m;Eq(int k=1000):m(k){} /* values equal modulo m */
  template<class A,class B>bool operator()(const A& x,const B& y)const{++ops.eq;return (long)x%m==(long)y%m;}};
struct Ha{int m;Ha(int k=1000):m(k){}
  template<class A>std::size_t operator()(const A& x)const{++ops.hash;return (std::size_t)((long)x%m)*0x9e3779b97f4a7c15ULL;}};

template<std::size_t,class T>using Rep=T;
template<class S>struct Ty;
template<std::size_t... I>struct Ty<std::index_sequence<I...>>{
  typedef mi::composite_key<E,F<(int)I>...> ck;
  typedef mi::composite_key_compare<Rep<I,Cmp>...> cmp;
  typedef mi::composite_key_equal_to<Rep<I,Eq>...> eq;
  typedef mi::composite_key_hash<Rep<I,Ha>...> hash;
  typedef boost::tuple<Rep<I,int>...> bt;
  typedef std::tuple<Rep<I,int>...> st;
  typedef boost::tuple<Rep<I,long>...> blt;
  typedef std::tuple<Rep<I,short>...> sst;
  typedef std::tuple<Rep<I,const int&>...> srt;
  static ck mk(const int* a){return ck(F<(int)I>(a[I])...);}
  static cmp mkc(const int* a){return cmp(Rep<I,Cmp>(a[I])...);}
  static eq mke(const int* a){return eq(Rep<I,Eq>(a[I])...);}
  static hash mkh(const int* a){return hash(Rep<I,Ha>(a[I])...);}
  static ck mk2(const int* a){return ck(typename ck::key_extractor_tuple(F<(int)I>(a[I])...));}
  static cmp mkc2(const int* a){return cmp(typename cmp::key_comp_tuple(Rep<I,Cmp>(a[I])...));}
  static eq mke2(const int* a){return eq(typename eq::key_eq_tuple(Rep<I,Eq>(a[I])...));}
  static hash mkh2(const int* a){return hash(typename hash::key_hasher_tuple(Rep<I,Ha>(a[I])...));}
  static bt b(const int* v){return bt(v[I]...);}
  static st s(const int* v){return st(v[I]...);}
  static blt bl(const int* v){return blt((long)v[I]...);}
  static sst ss(const int* v){return sst((short)v[I]...);}
  static srt sr(const int* v){return srt(v[I]...);}
};
template<int L>using T=Ty<std::make_index_sequence<L>>;

struct World{
  Rng& r;int add[MAXL],dir[MAXL],mod[MAXL],dom;
  explicit World(Rng& x):r(x){
    dom=2+r.below(4);
    for(int i=0;i<MAXL;++i){add[i]=r.chance(1,2)?0:r.below(3);dir[i]=r.chance(2,3)?1:-1;mod[i]=r.chance(1,2)?1000:2+r.below(2);}
  }
  void fill(int* v){int d=r.chance(1,2)?dom:2;for(int i=0;i<MAXL;++i)v[i]=r.below(d);}
  E rnd(){E e;fill(e.f);e.uid=(int)(r.next()&0x7fffffff);return e;}
  int key(const E& e,int i)const{return e.f[i]+add[i];}
  /* component-by-component oracle on plain vectors of values */
  static int natural(const int* x,const int* y,int n){for(int i=0;i<n;++i){if(x[i]<y[i])return -1;if(y[i]<x[i])return 1;}return 0;}
  int given(const int* x,const int* y,int n)const{for(int i=0;i<n;++i)if(x[i]!=y[i])return (x[i]<y[i])==(dir[i]>0)?-1:1;return 0;}
  bool same(const int* x,const int* y,int n)const{for(int i=0;i<n;++i)if(x[i]%mod[i]!=y[i]%mod[i])return false;return true;}
  void keys(const E& e,int* k)const{for(int i=0;i<MAXL;++i)k[i]=key(e,i);}
};
static void want(bool got,bool exp,const char* what,int l,int k){
  ++ctx().evaluations;
  if(got!=exp)fail("composite","%s, lengths %d and %d: %d instead of %d",what,l,k,(int)got,(int)exp);
}
/* natural operators between x (a composite_key_result) and y (result or tuple) */
template<class X,class Y>void ops_lt(const X& x,const Y& y,int c,const char* what,int l,int k){
  want(x<y,c<0,what,l,k);want(x>y,c>0,what,l,k);want(x<=y,c<=0,what,l,k);want(x>=y,c>=0,what,l,k);
  want(y<x,c>0,what,l,k);want(y>x,c<0,what,l,k);want(y<=x,c>=0,what,l,k);want(y>=x,c<=0,what,l,k);
}
template<class X,class Y>void ops_eq(const X& x,const Y& y,bool e,const char* what,int l,int k){
  want(x==y,e,what,l,k);want(y==x,e,what,l,k);want(x!=y,!e,what,l,k);want(y!=x,!e,what,l,k);
}
/* number of component calls needed at most */
template<class Fn>void bounded(int needed,const char* what,Fn f){
  Ops o=ops;f();
  long n=ops.key-o.key,m=ops.cmp-o.cmp+ops.eq-o.eq;
  if(m>2*needed)fail("composite-calls","%s makes %ld component comparisons where %d components decide",what,m,needed);
  if(n>4*needed)fail("composite-calls","%s extracts %ld keys where %d components decide",what,n,needed);
}
template<int L,int K>void pairs(World& w){
  E a=w.rnd(),b=w.rnd();
  if(w.r.chance(2,3)){int p=w.r.below(MAXL+1);for(int i=0;i<p;++i)b.f[i]=a.f[i];}
  int ka[MAXL],kb[MAXL];w.keys(a,ka);w.keys(b,kb);
  constexpr int M=L<K?L:K;
  auto ck=w.r.chance(1,2)?T<L>::mk(w.add):T<L>::mk2(w.add);auto ck2=T<K>::mk(w.add);
  auto cmp=w.r.chance(1,2)?T<L>::mkc(w.dir):T<L>::mkc2(w.dir);
  auto x=ck(a);auto y=ck2(b);
  int c=World::natural(ka,kb,M),g=w.given(ka,kb,M);
  int first=0;while(first<M&&ka[first]==kb[first])++first;
  int needed=std::min(M,first+1);
  auto bt=T<K>::b(kb);auto st=T<K>::s(kb);auto bl=T<K>::bl(kb);auto ss=T<K>::ss(kb);auto sr=T<K>::sr(kb);
  ops_lt(x,y,c,"operators of results",L,K);ops_lt(x,bt,c,"operators with boost::tuple",L,K);ops_lt(x,st,c,"operators with std::tuple",L,K);
  ops_lt(x,bl,c,"operators with boost::tuple of long",L,K);ops_lt(x,ss,c,"operators with std::tuple of short",L,K);ops_lt(x,sr,c,"operators with tuple of references",L,K);
  bounded(needed,"operator<",[&]{(void)(x<y);});bounded(needed,"operator<",[&]{(void)(bt<x);});
  auto cmp2=[&](const auto& z,const char* what){want(cmp(x,z),g<0,what,L,K);want(cmp(z,x),g>0,what,L,K);
    bounded(needed,what,[&]{(void)cmp(x,z);});bounded(needed,what,[&]{(void)cmp(z,x);});};
  cmp2(y,"composite_key_compare of results");cmp2(bt,"composite_key_compare with boost::tuple");cmp2(st,"composite_key_compare with std::tuple");
  cmp2(bl,"composite_key_compare with boost::tuple of long");cmp2(ss,"composite_key_compare with std::tuple of short");cmp2(sr,"composite_key_compare with tuple of references");
  if constexpr(K==1)cmp2(kb[0],"composite_key_compare with a single value");
  typedef decltype(x) R;
  std::less<R> sl;std::greater<R> sg;
  want(sl(x,bt),c<0,"std::less with boost::tuple",L,K);want(sl(bt,x),c>0,"std::less with boost::tuple",L,K);
  want(sl(x,st),c<0,"std::less with std::tuple",L,K);want(sl(st,x),c>0,"std::less with std::tuple",L,K);
  want(sg(x,bt),c>0,"std::greater with boost::tuple",L,K);want(sg(bt,x),c<0,"std::greater with boost::tuple",L,K);
  want(sg(x,st),c>0,"std::greater with std::tuple",L,K);want(sg(st,x),c<0,"std::greater with std::tuple",L,K);
  want(sl(x,y),c<0,"std::less",L,K);want(sg(x,y),c>0,"std::greater",L,K);
  want(mi::composite_key_result_less<R>()(x,y),c<0,"composite_key_result_less",L,K);
  want(mi::composite_key_result_greater<R>()(x,y),c>0,"composite_key_result_greater",L,K);
  if constexpr(K==1){want(sl(x,kb[0]),c<0,"std::less with a value",L,K);want(sl(kb[0],x),c>0,"std::less with a value",L,K);}
  if constexpr(L==K){
    bool e=World::natural(ka,kb,L)==0,q=w.same(ka,kb,L);
    ops_eq(x,y,e,"== of results",L,K);ops_eq(x,bt,e,"== with boost::tuple",L,K);ops_eq(x,st,e,"== with std::tuple",L,K);
    ops_eq(x,bl,e,"== with boost::tuple of long",L,K);ops_eq(x,ss,e,"== with std::tuple of short",L,K);
    bounded(needed,"operator==",[&]{(void)(x==y);});
    auto eq=w.r.chance(1,2)?T<L>::mke(w.mod):T<L>::mke2(w.mod);auto ha=w.r.chance(1,2)?T<L>::mkh(w.mod):T<L>::mkh2(w.mod);
    int fe=0;while(fe<L&&ka[fe]%w.mod[fe]==kb[fe]%w.mod[fe])++fe;
    int ne=std::min(L,fe+1);
    auto eq2=[&](const auto& z,const char* what){want(eq(x,z),q,what,L,K);want(eq(z,x),q,what,L,K);bounded(ne,what,[&]{(void)eq(x,z);});bounded(ne,what,[&]{(void)eq(z,x);});};
    eq2(y,"composite_key_equal_to of results");eq2(bt,"composite_key_equal_to with boost::tuple");eq2(st,"composite_key_equal_to with std::tuple");
    eq2(bl,"composite_key_equal_to with boost::tuple of long");eq2(ss,"composite_key_equal_to with std::tuple of short");
    want(std::equal_to<R>()(x,y),e,"std::equal_to",L,K);want(std::equal_to<R>()(x,bt),e,"std::equal_to with boost::tuple",L,K);
    want(std::equal_to<R>()(st,x),e,"std::equal_to with std::tuple",L,K);want(mi::composite_key_result_equal_to<R>()(bt,x),e,"composite_key_result_equal_to",L,K);
    std::size_t h=ha(y);
    want(ha(bt)==h,true,"composite_key_hash of boost::tuple",L,K);want(ha(st)==h,true,"composite_key_hash of std::tuple",L,K);
    want(ha(bl)==h,true,"composite_key_hash of boost::tuple of long",L,K);want(ha(ss)==h,true,"composite_key_hash of std::tuple of short",L,K);
    if(q)want(ha(x)==h,true,"hashes of equal composite keys",L,K);
    boost::hash<R> bh;std::size_t h2=bh(y);
    want(bh(bt)==h2,true,"boost::hash of boost::tuple",L,K);want(bh(st)==h2,true,"boost::hash of std::tuple",L,K);
    want(mi::composite_key_result_hash<R>()(bt)==h2,true,"composite_key_result_hash",L,K);
    if(e)want(bh(x)==h2,true,"boost::hash of equal composite keys",L,K);
    /* each component counts: flipping one changes the hash nearly always */
    {
      int i=w.r.below(L);E d=b;d.f[i]+=1;
      static std::map<int,std::pair<int,int>> per;auto& p=per[L*16+i];
      int o=(d.f[i]+w.add[i])%w.mod[i],n=(b.f[i]+w.add[i])%w.mod[i];
      if(o!=n){++p.second;if(ha(ck(d))!=h)++p.first;}
      if(p.second>=20&&p.first*2<p.second)fail("composite-hash","component %d of %d hardly affects the hash",i,L);
    }
    if(q&&!e)count("equal-modulo");
    count(e?"equal-pairs":"unequal-pairs");
  }
  count("pairs");
  seen(mix(mix((uint64_t)L*16+K,(uint64_t)(c+1)*3+(g+1)),(uint64_t)first*4+(w.dir[std::min(first,MAXL-1)]>0)));
}
template<int L,int K>void pairs_upto(World& w){pairs<L,K>(w);if constexpr(K>1)pairs_upto<L,K-1>(w);}

/* ------------------------------------------------------------ containers */
struct Plain{typedef E type;static E make(const E& e){return e;}static const E& get(const E& e){return e;}};
struct Ptr{typedef const E* type;static std::vector<std::unique_ptr<E>>& pool(){static auto* p=new std::vector<std::unique_ptr<E>>;return *p;}
  static const E* make(const E& e){pool().emplace_back(new E(e));return pool().back().get();}static const E& get(const E* e){return *e;}};
struct Sptr{typedef std::shared_ptr<E> type;static type make(const E& e){return std::make_shared<E>(e);}static const E& get(const type& e){return *e;}};
struct Rw{typedef boost::reference_wrapper<const E> type;static type make(const E& e){return boost::cref(*Ptr::make(e));}static const E& get(const type& e){return e.get();}};

template<int L,class W>struct Box{
  typedef typename T<L>::ck ck;typedef typename T<L>::cmp cmp;typedef typename T<L>::eq eq;typedef typename T<L>::hash ha;
  typedef typename W::type V;
  typedef mi::multi_index_container<V,mi::indexed_by<
    mi::ordered_non_unique<ck,cmp>,mi::hashed_non_unique<ck,ha,eq>,mi::ranked_non_unique<ck,cmp>,mi::ordered_non_unique<ck>,mi::hashed_non_unique<ck>,
    mi::ranked_non_unique<ck,std::greater<typename ck::result_type>>>> C;
};
template<class R>static std::vector<int> uids(R f,R l,const std::function<int(const typename std::iterator_traits<R>::value_type&)>& u){
  std::vector<int> v;for(;f!=l;++f)v.push_back(u(*f));return v;
}
template<int L,class W>struct Run{
  typedef Box<L,W> B;typedef typename B::C C;typedef typename B::V V;
  World& w;C c;
  std::vector<E> model;
  static typename C::ctor_args_list args(World& w){
    return boost::make_tuple(
      boost::make_tuple(T<L>::mk(w.add),T<L>::mkc(w.dir)),
      boost::make_tuple(std::size_t(0),T<L>::mk(w.add),T<L>::mkh(w.mod),T<L>::mke(w.mod)),
      boost::make_tuple(T<L>::mk(w.add),T<L>::mkc(w.dir)),
      boost::make_tuple(T<L>::mk(w.add),std::less<typename B::ck::result_type>()),
      boost::make_tuple(std::size_t(0),T<L>::mk(w.add),boost::hash<typename B::ck::result_type>(),std::equal_to<typename B::ck::result_type>()),
      boost::make_tuple(T<L>::mk(w.add),std::greater<typename B::ck::result_type>()));
  }
  explicit Run(World& x):w(x),c(args(x)){}
  /* order of index I: -1, 0, 1 on n components */
  template<int I>int ord(const int* a,const int* b,int n)const{
    if(I==0||I==2)return w.given(a,b,n);
    int z=World::natural(a,b,n);return I==5?-z:z;
  }
  template<int I,class Key>void lookup(const Key& k,const int* v,int n,const char* what){
    auto& ix=c.template get<I>();
    long lo=0,hi=0;int kk[MAXL];
    for(auto& e:model){w.keys(e,kk);int z=ord<I>(kk,v,n);if(z<0)++lo;if(z<=0)++hi;}
    long l=std::distance(ix.begin(),ix.lower_bound(k)),u=std::distance(ix.begin(),ix.upper_bound(k));
    auto er=ix.equal_range(k);
    long el=std::distance(ix.begin(),er.first),eu=std::distance(ix.begin(),er.second);
    if(l!=lo||u!=hi||el!=lo||eu!=hi)fail("composite-lookup","%s of %d of %d components in index %d: bounds %ld,%ld (%ld,%ld) instead of %ld,%ld",what,n,L,I,l,u,el,eu,lo,hi);
    if((long)ix.count(k)!=hi-lo)fail("composite-lookup","%s: count %ld instead of %ld",what,(long)ix.count(k),hi-lo);
    auto f=ix.find(k);
    if(hi==lo?f!=ix.end():(f==ix.end()||std::distance(ix.begin(),f)!=lo))fail("composite-lookup","%s: find of %d of %d components in index %d is wrong",what,n,L,I);
    if(ix.contains(k)!=(hi>lo))fail("composite-lookup","%s: contains is wrong",what);
    if constexpr(I==2||I==5){
      if((long)ix.lower_bound_rank(k)!=lo||(long)ix.upper_bound_rank(k)!=hi)fail("composite-lookup","%s: bound ranks are wrong",what);
      auto rr=ix.equal_range_rank(k);
      if((long)rr.first!=lo||(long)rr.second!=hi)fail("composite-lookup","%s: equal_range_rank is wrong",what);
      if((long)ix.find_rank(k)!=(hi>lo?lo:(long)model.size()))fail("composite-lookup","%s: find_rank is wrong",what);
    }
    ++ctx().evaluations;
    count(hi>lo?"prefix-hits":"prefix-misses");
    if(hi>lo+1)count("prefix-multi");
  }
  template<int I,int K>void prefix(const int* v){
    lookup<I>(T<K>::b(v),v,K,"boost::tuple");lookup<I>(T<K>::s(v),v,K,"std::tuple");
    lookup<I>(T<K>::ss(v),v,K,"std::tuple of short");lookup<I>(T<K>::sr(v),v,K,"tuple of references");
    if constexpr(K==1)lookup<I>(v[0],v,1,"single value");
    if constexpr(K>1)prefix<I,K-1>(v);
  }
  template<int I,class Key>void hlookup(const Key& k,const int* v,const char* what){
    auto& ix=c.template get<I>();
    long n=0;int kk[MAXL];
    auto match=[&](const E& e){w.keys(e,kk);return I==1?w.same(kk,v,L):World::natural(kk,v,L)==0;};
    for(auto& e:model)n+=match(e);
    if((long)ix.count(k)!=n)fail("composite-lookup","%s in hashed index: count %ld instead of %ld",what,(long)ix.count(k),n);
    auto f=ix.find(k);
    if((f==ix.end())!=(n==0)||(n&&!match(W::get(*f))))fail("composite-lookup","%s in hashed index: find is wrong",what);
    auto er=ix.equal_range(k);
    if(std::distance(er.first,er.second)!=n)fail("composite-lookup","%s in hashed index: equal_range is wrong",what);
    for(;er.first!=er.second;++er.first)if(!match(W::get(*er.first)))fail("composite-lookup","%s in hashed index: equal_range has another element",what);
    ++ctx().evaluations;count(n?"hash-hits":"hash-misses");
  }
  template<int I>void sorted(){
    auto& ix=c.template get<I>();int a[MAXL],b[MAXL];bool first=true;
    if(ix.size()!=model.size())fail("composite-lookup","size differs");
    for(auto& e:ix){w.keys(W::get(e),b);if(!first&&ord<I>(b,a,L)<0)fail("composite-order","index %d is not sorted",I);std::copy(b,b+MAXL,a);first=false;}
  }
  void erase_model(int uid){for(std::size_t i=0;i<model.size();++i)if(model[i].uid==uid){model.erase(model.begin()+(std::ptrdiff_t)i);return;}}
  int key_of(const E& e,int i)const{return w.key(e,i);}
  /* uniqueness is that of the given function objects */
  void uniques(){
    typedef mi::multi_index_container<V,mi::indexed_by<mi::ordered_unique<typename B::ck,typename B::cmp>>> OU;
    typedef mi::multi_index_container<V,mi::indexed_by<mi::hashed_unique<typename B::ck,typename B::ha,typename B::eq>>> HU;
    OU o(typename OU::ctor_args_list(boost::make_tuple(T<L>::mk(w.add),T<L>::mkc(w.dir))));
    HU h(typename HU::ctor_args_list(boost::make_tuple(std::size_t(0),T<L>::mk(w.add),T<L>::mkh(w.mod),T<L>::mke(w.mod))));
    std::vector<E> mo,mh;int a[MAXL],b[MAXL];
    for(auto& e:model){
      w.keys(e,a);
      bool io=true,ih=true;
      for(auto& q:mo){w.keys(q,b);if(w.given(a,b,L)==0)io=false;}
      for(auto& q:mh){w.keys(q,b);if(w.same(a,b,L))ih=false;}
      if(o.insert(W::make(e)).second!=io)fail("composite-unique","ordered_unique accepts or refuses wrongly");
      if(h.insert(W::make(e)).second!=ih)fail("composite-unique","hashed_unique accepts or refuses wrongly");
      if(io)mo.push_back(e);if(ih)mh.push_back(e);
      ++ctx().evaluations;count(ih?"unique-accepted":"unique-refused");
    }
  }
  void go(){
    lg("container with %d components",L);
    int n=w.r.below(40);
    for(int i=0;i<n;++i){
      if(model.empty()||w.r.chance(3,4)){E e=w.rnd();if(!model.empty()&&w.r.chance(1,2)){E& q=model[(std::size_t)w.r.below((int)model.size())];int p=w.r.below(L+1);for(int j=0;j<p;++j)e.f[j]=q.f[j];}
        c.insert(W::make(e));model.push_back(e);lg("insert %d %d %d %d %d",e.f[0],e.f[1],e.f[2],e.f[3],e.f[4]);}
      else{E e=model[(std::size_t)w.r.below((int)model.size())];
        auto& ix=c.template get<3>();int kk[MAXL];w.keys(e,kk);
        auto er=ix.equal_range(T<L>::b(kk));
        while(er.first!=er.second&&W::get(*er.first).uid!=e.uid)++er.first;
        if(er.first==er.second)fail("composite-lookup","an inserted element is not found by its key");
        lg("erase or replace %d %d %d %d %d",e.f[0],e.f[1],e.f[2],e.f[3],e.f[4]);
        if(w.r.chance(1,2)){ix.erase(er.first);erase_model(e.uid);}
        else{E q=w.rnd();q.uid=e.uid;ix.replace(er.first,W::make(q));erase_model(e.uid);model.push_back(q);}
      }
    }
    sorted<0>();sorted<2>();sorted<3>();sorted<5>();
    for(int q=0;q<6;++q){
      int v[MAXL];
      if(!model.empty()&&w.r.chance(2,3)){w.keys(model[(std::size_t)w.r.below((int)model.size())],v);int p=w.r.below(L+1);if(p<L)v[p]+=w.r.below(3)-1;}
      else{w.fill(v);}
      prefix<0,L>(v);prefix<2,L>(v);prefix<3,L>(v);prefix<5,L>(v);
      hlookup<1>(T<L>::b(v),v,"boost::tuple");hlookup<1>(T<L>::s(v),v,"std::tuple");hlookup<4>(T<L>::b(v),v,"boost::tuple");hlookup<4>(T<L>::s(v),v,"std::tuple");
      hlookup<1>(T<L>::bl(v),v,"boost::tuple of long");hlookup<4>(T<L>::ss(v),v,"std::tuple of short");
      /* ranges on prefixes */
      {int a[MAXL],b[MAXL];w.fill(a);w.fill(b);
       auto& ix=c.template get<3>();auto cmp=ix.key_comp();
       auto lo=T<1>::s(a);auto up=T<L>::b(b);
       auto rg=ix.range([&](const typename B::ck::result_type& k){return !cmp(k,lo);},[&](const typename B::ck::result_type& k){return !cmp(up,k);});
       long got=std::distance(rg.first,rg.second),exp=0;int kk[MAXL];
       for(auto& e:model){w.keys(e,kk);if(World::natural(kk,a,1)>=0&&World::natural(kk,b,L)<=0)++exp;}
       if(World::natural(a,b,1)<=0&&got!=exp)fail("composite-lookup","range on composite keys has %ld elements instead of %ld",got,exp);}
    }
    /* keys given as results */
    for(auto& e:model){int kk[MAXL];w.keys(e,kk);auto ck=c.template get<0>().key_extractor();lookup<0>(ck(e),kk,L,"composite key");lookup<2>(ck(e),kk,L,"composite key");hlookup<1>(ck(e),kk,"composite key");hlookup<4>(ck(e),kk,"composite key");}
    uniques();
    uint64_t hs=(uint64_t)L*31+w.dom;for(int i=0;i<L;++i)hs=mix(hs,(uint64_t)(w.dir[i]+2)*8+w.mod[i]%7);
    uint64_t sum=0;for(auto& e:model){uint64_t h1=1;for(int i=0;i<L;++i)h1=mix(h1,(uint64_t)key_of(e,i));sum+=h1;}
    seen(mix(hs,sum));
    Ptr::pool().clear();
    c.clear();
  }
};

/* --------------------------------- components of different types, chained pointers */
struct P{int x;std::string s;double d_;double d()const{return d_;}const std::string& name()const{return s;}};
static void mixed(Rng& r){
  typedef mi::composite_key<P,mi::member<P,int,&P::x>,mi::member<P,std::string,&P::s>,mi::const_mem_fun<P,double,&P::d>> ck;
  typedef mi::composite_key<P,mi::const_mem_fun<P,const std::string&,&P::name>,mi::member<P,int,&P::x>> ck2;
  typedef mi::multi_index_container<std::shared_ptr<P>,mi::indexed_by<mi::ordered_non_unique<ck>,mi::hashed_non_unique<ck>,mi::ranked_non_unique<ck2>,
    mi::ordered_non_unique<ck,mi::composite_key_compare<std::greater<int>,std::less<std::string>,std::greater<double>>>>> C;
  C c;std::vector<P> m;
  static const char* names[]={"","a","ab","b","zz"};
  auto rnd=[&]{return P{r.below(3),names[r.below(5)],r.below(3)*0.5};};
  int n=r.below(30);
  for(int i=0;i<n;++i){P p=rnd();m.push_back(p);c.insert(std::make_shared<P>(p));}
  for(int q=0;q<8;++q){
    P p=rnd();long a=0,b=0,e=0,e2=0,g1=0,g2=0,lo3=0;
    for(auto& z:m){a+=z.x==p.x;b+=z.x==p.x&&z.s==p.s;e+=z.x==p.x&&z.s==p.s&&z.d_==p.d_;e2+=z.s==p.s;g1+=z.s==p.s&&z.x==p.x;
      lo3+=std::make_tuple(-z.x,z.s)<std::make_tuple(-p.x,p.s);}
    (void)g2;
    const char* s=p.s.c_str();
    auto chk=[&](long got,long exp,const char* what){++ctx().evaluations;if(got!=exp)fail("composite-mixed","%s: %ld instead of %ld",what,got,exp);};
    chk((long)c.get<0>().count(p.x),a,"single int");chk((long)c.get<0>().count(boost::make_tuple(p.x,s)),b,"boost::tuple<int,const char*>");
    chk((long)c.get<0>().count(std::make_tuple(p.x,p.s)),b,"std::tuple<int,string>");chk((long)c.get<0>().count(std::forward_as_tuple(p.x,p.s,p.d_)),e,"std::tuple of references");
    chk((long)c.get<0>().count(std::make_tuple((short)p.x,s,(float)p.d_)),e,"std::tuple<short,const char*,float>");
    chk((long)c.get<1>().count(boost::make_tuple(p.x,p.s,p.d_)),e,"hashed boost::tuple");chk((long)c.get<1>().count(std::make_tuple(p.x,p.s,p.d_)),e,"hashed std::tuple");
    chk((long)c.get<1>().count(std::tie(p.x,p.s,p.d_)),e,"hashed std::tie");
    chk((long)c.get<2>().count(p.s),e2,"single string");chk((long)c.get<2>().count(boost::make_tuple(boost::cref(p.s))),e2,"boost::tuple<string>");
    chk((long)c.get<2>().count(std::make_tuple(s,p.x)),g1,"ranked std::tuple");
    chk((long)c.get<3>().count(std::make_tuple(p.x,s)),b,"greater/less std::tuple");
    chk((long)std::distance(c.get<3>().begin(),c.get<3>().lower_bound(boost::make_tuple(p.x,s))),lo3,"greater/less lower_bound");
    chk((long)c.get<1>().count(c.get<1>().key_extractor()(p)),e,"hashed composite key");
    /* chains of pointers and reference wrappers */
    ck k;P* pp=&p;P** ppp=&pp;const P* cp=&p;auto up=std::unique_ptr<P*>(new P*(pp));
    auto ref=boost::ref(p);auto cref=boost::cref(p);const P& cpr=p;
    auto t=std::make_tuple(p.x,p.s,p.d_);
    for(bool ok:{k(pp)==t,k(ppp)==t,k(cp)==t,k(up)==t,k(ref)==t,k(cref)==t,k(cpr)==t,&k(ppp).value==&p,&k(up).value==&p,&k(ref).value==&p,&k(cref).value==&p}){
      ++ctx().evaluations;if(!ok)fail("composite-mixed","composite key through a pointer or reference wrapper differs");}
    count("mixed");
    seen(mix(77,mix((uint64_t)(a*31+b),(uint64_t)(e*31+e2))));
  }
}
static void one(uint64_t k,Rng& r){
  World w(r);
  lg("domain %d, directions %d %d %d, moduli %d %d %d, offsets %d %d %d",w.dom,w.dir[0],w.dir[1],w.dir[2],w.mod[0],w.mod[1],w.mod[2],w.add[0],w.add[1],w.add[2]);
#if CFG==0
  for(int i=0;i<8;++i){pairs_upto<1,10>(w);pairs_upto<2,10>(w);pairs_upto<3,10>(w);}
  Run<1,Plain>(w).go();Run<2,Plain>(w).go();Run<3,Plain>(w).go();
#elif CFG==1
  for(int i=0;i<8;++i){pairs_upto<5,10>(w);pairs_upto<10,10>(w);}
#elif CFG==2
  Run<5,Plain>(w).go();Run<3,Ptr>(w).go();
#elif CFG==3
  Run<2,Sptr>(w).go();Run<2,Rw>(w).go();mixed(r);
#elif CFG==4
  Run<10,Plain>(w).go();
  for(int i=0;i<8;++i){pairs_upto<4,10>(w);pairs_upto<7,10>(w);}
#endif
  if(k<3)sample_log();
}
}
int main(int argc,char** argv){
  vf::init(argc,argv);
  return vf::run_cases([](uint64_t k,vf::Rng& r){vf::one(k,r);});
}
