// The same histories over element types of every awkward kind: integers (where
// overload resolution between counts and ranges matters), pointers, move-only,
// immovable, non-assignable, over-aligned, polymorphic, big, and types whose
// operator&, operator comma, operator new or constructor templates are hostile.
// Elements are identified by address, which must never change; the model keeps
// the order of the two list indices and the keys.
#include "core.hpp"
#include <set>
#include <type_traits>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
using namespace vf;
namespace mi=boost::multi_index;

static long live_objects=0;
struct Life{ /* detects use outside the lifetime and relocation behind the type's back */
  const Life* self;
  Life():self(this){++live_objects;}
  Life(const Life& x):self(this){x.ok();++live_objects;}
  Life& operator=(const Life& x){ok();x.ok();return *this;}
  ~Life(){ok();self=0;--live_objects;}
  void ok()const{if(self!=this)fail("lifetime","element used outside its lifetime");}
};
#define REL(T) \
  friend bool operator==(const T& x,const T& y){x.l.ok();y.l.ok();return x.k==y.k;} \
  friend bool operator<(const T& x,const T& y){x.l.ok();y.l.ok();return x.k<y.k;}
#define KEYOF(T) inline int keyof(const T& x){x.l.ok();return x.k;}

enum E_{e0,e1,e2,e3,e4,e5,e6,e7};
struct MoveOnly{int k;Life l;MoveOnly(int i=0):k(i){}
  MoveOnly(MoveOnly&& x):k(x.k),l(x.l){x.k=-99;}
  MoveOnly& operator=(MoveOnly&& x){l=x.l;k=x.k;if(&x!=this)x.k=-99;return *this;}REL(MoveOnly)};KEYOF(MoveOnly)
struct Immovable{int k;Life l;Immovable(int i=0):k(i){}Immovable(const Immovable&)=delete;Immovable& operator=(const Immovable&)=delete;REL(Immovable)};KEYOF(Immovable)
struct alignas(64) Aligned{int k;Life l;Aligned(int i=0):k(i){al();}Aligned(const Aligned& x):k(x.k),l(x.l){al();x.al();}
  Aligned& operator=(const Aligned& x){al();x.al();l=x.l;k=x.k;return *this;}
  void al()const{if(reinterpret_cast<std::uintptr_t>(this)%64)fail("alignment","an element aligned to 64 lives at %p",(const void*)this);}
  REL(Aligned)};
inline int keyof(const Aligned& x){x.al();x.l.ok();return x.k;}
struct Evil{int k;Life l;Evil(int i=0):k(i){}Evil(const Evil&)=default;Evil& operator=(const Evil&)=default;
  Evil* operator&();const Evil* operator&()const; /* never defined: using them is a link error */
  static void* operator new(std::size_t)=delete;static void operator delete(void*)=delete;
  static void* operator new(std::size_t,void*)=delete;
  REL(Evil)};KEYOF(Evil)
template<class U,class V>typename std::enable_if<std::is_same<U,Evil>::value||std::is_same<V,Evil>::value>::type operator,(const U&,const V&)=delete;
struct ConstMember{const int k;Life l;ConstMember(int i=0):k(i){}ConstMember(const ConstMember& x):k(x.k),l(x.l){}
  ConstMember& operator=(const ConstMember&)=delete;REL(ConstMember)};KEYOF(ConstMember)
struct Greedy{int k;Life l;Greedy():k(0){}Greedy(const Greedy&)=default;Greedy(Greedy&& x):k(x.k),l(x.l){x.k=-99;}
  Greedy& operator=(const Greedy&)=default;
  template<class U>Greedy(U&& u):k(u){static_assert(std::is_same<typename std::decay<U>::type,int>::value,"constructed from something else");}
  template<class U,class V,class... W>Greedy(U&& u,V&&,W&&...):k(u){}
  REL(Greedy)};KEYOF(Greedy)
struct Base0{virtual ~Base0(){}virtual int key()const=0;long pad=0;};
struct Poly:virtual Base0{int k;Life l;Poly(int i=0):k(i){}Poly(const Poly& x):Base0(x),k(x.k),l(x.l){}Poly& operator=(const Poly& x){l=x.l;k=x.k;return *this;}
  int key()const override{return k;}REL(Poly)};
inline int keyof(const Poly& x){x.l.ok();return static_cast<const Base0&>(x).key();}
struct Big{int k;Life l;char pad[3000];Big(int i=0):k(i){memset(pad,i,sizeof pad);}REL(Big)};
inline int keyof(const Big& x){x.l.ok();if(x.pad[0]!=(char)x.k||x.pad[2999]!=(char)x.k)fail("contents","a big element is damaged");return x.k;}
struct NoDefault{int k;Life l;explicit NoDefault(int i):k(i){}REL(NoDefault)};KEYOF(NoDefault)
struct PrivateNew{int k;char c[1];PrivateNew(int i=0):k(i),c(){}friend bool operator==(const PrivateNew& x,const PrivateNew& y){return x.k==y.k;}
  friend bool operator<(const PrivateNew& x,const PrivateNew& y){return x.k<y.k;}private:static void* operator new(std::size_t);};
inline int keyof(const PrivateNew& x){return x.k;}
inline int keyof(int x){return x;}
inline int keyof(E_ x){return x;}
static const int table[64]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,
  41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63};
inline int keyof(const int* p){return *p;}
inline int keyof(const std::pair<const int,std::string>& p){if(p.second!=std::to_string(p.first)+" and some more characters")fail("contents","string lost");return p.first;}
inline int keyof(const std::unique_ptr<int>& p){if(!p)fail("contents","an element lost its resource");return *p;}
inline bool operator==(const std::pair<const int,std::string>& x,const std::pair<const int,std::string>& y){return x.first==y.first;}
static bool lt(const std::unique_ptr<int>& x,const std::unique_ptr<int>& y){return *x<*y;}
template<class T>static bool lt(const T& x,const T& y){return x<y;}

template<class T>struct Mk{static T of(int k){return T(k);}};
template<>struct Mk<E_>{static E_ of(int k){return E_(k);}};
template<>struct Mk<bool>{static bool of(int k){return k!=0;}};
template<>struct Mk<const int*>{static const int* of(int k){return table+k;}};
template<>struct Mk<std::pair<const int,std::string>>{static std::pair<const int,std::string> of(int k){return std::pair<const int,std::string>(k,std::to_string(k)+" and some more characters");}};
template<>struct Mk<std::unique_ptr<int>>{static std::unique_ptr<int> of(int k){return std::unique_ptr<int>(new int(k));}};
/* constructor argument for emplace */
template<class T>struct Arg{static int of(int k){return k;}};
template<>struct Arg<E_>{static E_ of(int k){return E_(k);}};
template<>struct Arg<const int*>{static const int* of(int k){return table+k;}};
template<>struct Arg<std::pair<const int,std::string>>{static std::pair<int,std::string> of(int k){return std::pair<int,std::string>(k,std::to_string(k)+" and some more characters");}};
template<>struct Arg<std::unique_ptr<int>>{static int* of(int k){return new int(k);}};
/* change the key in place */
template<class T>static auto setk(T& x,int k,int)->decltype(x.k=k,void()){x.k=k;}
static void setk(Big& x,int k,int){x.k=k;memset(x.pad,k,sizeof x.pad);}
static void setk(std::unique_ptr<int>& x,int k,int){*x=k;}
template<class T>static auto setk(T& x,int k,long)->typename std::enable_if<std::is_scalar<T>::value>::type{x=Mk<T>::of(k);}
template<class T,class=void>struct can_set:std::false_type{};
template<class T>struct can_set<T,decltype(setk(std::declval<T&>(),0,0))>:std::true_type{};

struct K{typedef int result_type;template<class T>int operator()(const T& x)const{return keyof(x);}};

#ifndef CFG
#define CFG 0
#endif
#ifdef VF_UNIQUE
#define LAST ranked_unique
#else
#define LAST ranked_non_unique
#endif

template<class T>struct Run{
  typedef mi::multi_index_container<T,mi::indexed_by<
    mi::sequenced<>,mi::random_access<>,mi::ordered_non_unique<K>,mi::hashed_non_unique<K>,mi::LAST<K> > > C;
  static constexpr bool copyable=std::is_copy_constructible<T>::value&&!std::is_same<T,MoveOnly>::value;
  static constexpr bool movable=std::is_move_constructible<T>::value;
  static constexpr bool cassign=std::is_copy_assignable<T>::value&&copyable;
  static constexpr bool massign=std::is_move_assignable<T>::value&&movable;
  static constexpr bool settable=can_set<T>::value;
  static constexpr bool defct=std::is_default_constructible<T>::value&&!std::is_same<T,std::unique_ptr<int>>::value&&!std::is_same<T,const int*>::value&&!std::is_same<T,std::pair<const int,std::string>>::value;
  static constexpr bool implicit=std::is_convertible<int,T>::value;
#ifdef VF_UNIQUE
  static constexpr bool uniq=true;
#else
  static constexpr bool uniq=false;
#endif
  struct It{int key;const void* addr;};
  struct M{C c;std::vector<int> o[2];std::map<int,It> e;};
  int next_id=0;
  M a,b;
  Rng& r;int dom;
  explicit Run(Rng& rr,int d):r(rr),dom(d){}

  static const void* ad(const T& x){return static_cast<const void*>(std::addressof(x));}
  int rk(){return r.below(dom);}
  /* ------------------------------------------------------ model edits */
  bool has(const M& m,int k)const{for(auto& p:m.e)if(p.second.key==k)return true;return false;}
  bool put(M& m,int n,int pos,int k){ /* before position pos of list n, at the end of the other */
    if(uniq&&has(m,k)){count("types-rejected");return false;}
    int id=next_id++;
    m.e[id]=It{k,nullptr};
    m.o[n].insert(m.o[n].begin()+pos,id);m.o[1-n].push_back(id);
    count("types-inserted");
    return true;
  }
  void drop(M& m,int id){for(auto& v:m.o)v.erase(std::find(v.begin(),v.end(),id));m.e.erase(id);}
  /* ------------------------------------------------------ the monitor */
  template<int N>void check_list(M& m,const char* w){
    auto& x=m.c.template get<N>();const auto& cx=x;
    auto& o=m.o[N];
    if(x.size()!=o.size()||x.empty()!=o.empty())fail("size","%s: index %d has size %zu, expected %zu",w,N,(size_t)x.size(),o.size());
    std::vector<const void*> v;
    auto i=x.begin();
    for(size_t p=0;p<o.size();++p,++i){
      if(i==x.end())fail("order","%s: index %d ends after %zu of %zu elements",w,N,p,o.size());
      It& e=m.e.at(o[p]);
      if(keyof(*i)!=e.key)fail("order","%s: index %d position %zu has key %d, expected %d",w,N,p,keyof(*i),e.key);
      if(!e.addr){
        for(auto& q:m.e)if(q.second.addr==ad(*i))fail("address","%s: a new element shares the address of another one",w);
        e.addr=ad(*i);
      }
      if(e.addr!=ad(*i))fail("address","%s: index %d position %zu is not the element expected (key %d)",w,N,p,e.key);
      v.push_back(ad(*i));
    }
    if(i!=x.end())fail("order","%s: index %d goes on after %zu elements",w,N,o.size());
    /* every way to reach the elements */
    size_t n=v.size(),k=0;
    for(auto j=cx.begin();j!=cx.end();++j,++k)if(k>=n||ad(*j)!=v[k])fail("accessors","%s: const begin/end, index %d",w,N);
    if(k!=n)fail("accessors","%s: const begin/end stop at %zu of %zu, index %d",w,k,n,N);
    k=0;for(auto j=cx.cbegin(),e=cx.cend();j!=e;++j,++k)if(k>=n||ad(*j)!=v[k])fail("accessors","%s: cbegin/cend, index %d",w,N);
    if(k!=n)fail("accessors","%s: cbegin/cend stop at %zu of %zu, index %d",w,k,n,N);
    k=n;for(auto j=x.rbegin();j!=x.rend();++j)if(!k--||ad(*j)!=v[k])fail("accessors","%s: rbegin/rend, index %d",w,N);
    if(k)fail("accessors","%s: rbegin/rend, index %d",w,N);
    k=n;for(auto j=cx.rbegin();j!=cx.rend();++j)if(!k--||ad(*j)!=v[k])fail("accessors","%s: const rbegin/rend, index %d",w,N);
    if(k)fail("accessors","%s: const rbegin/rend, index %d",w,N);
    k=n;for(auto j=cx.crbegin();j!=cx.crend();++j)if(!k--||ad(*j)!=v[k])fail("accessors","%s: crbegin/crend, index %d",w,N);
    if(k)fail("accessors","%s: crbegin/crend, index %d",w,N);
    k=n;for(auto j=x.end();j!=x.begin();){--j;if(ad(*j)!=v[--k])fail("accessors","%s: backwards, index %d",w,N);}
    if(n){
      if(ad(cx.front())!=v[0]||ad(cx.back())!=v[n-1])fail("accessors","%s: front/back, index %d",w,N);
      size_t q=r.below((int)n);
      const T& t=*static_cast<const T*>(v[q]);
      auto j=x.iterator_to(t);
      if(ad(*j)!=v[q]||std::distance(x.begin(),j)!=(long)q)fail("accessors","%s: iterator_to, index %d",w,N);
      if(ad(*m.c.template project<2>(j))!=v[q]||ad(*m.c.template project<3>(j))!=v[q]||ad(*m.c.template project<4>(j))!=v[q]||
         m.c.template project<N>(m.c.template get<3>().iterator_to(t))!=j||ad(*j.operator->())!=v[q])fail("accessors","%s: projection, index %d",w,N);
      if constexpr(N==1)if(ad(cx[q])!=v[q]||ad(cx.at(q))!=v[q])fail("accessors","%s: operator[]/at",w);
    }
  }
  template<int N>void check_keyed(M& m,const char* w){
    auto& x=m.c.template get<N>();const auto& cx=x;
    if(x.size()!=m.e.size())fail("size","%s: index %d size",w,N);
    std::set<const void*> s;std::vector<const void*> v;std::map<int,int> cnt;
    int prev=-1000;
    for(auto i=x.begin();i!=x.end();++i){
      int k=keyof(*i);
      if(N!=3&&k<prev)fail("order","%s: index %d is not sorted",w,N);
      if(N==3&&k!=prev&&cnt.count(k))fail("order","%s: index 3 does not keep equivalent elements together",w);
      prev=k;++cnt[k];s.insert(ad(*i));v.push_back(ad(*i));
      if(v.size()>m.e.size())fail("size","%s: index %d has more than %zu elements",w,N,m.e.size());
    }
    if(s.size()!=m.e.size())fail("membership","%s: index %d has %zu distinct elements of %zu",w,N,s.size(),m.e.size());
    for(auto& p:m.e)if(!s.count(p.second.addr))fail("membership","%s: index %d misses an element with key %d",w,N,p.second.key);
    size_t k=0;
    for(auto i=cx.begin(),e=cx.end();i!=e;++i,++k)if(k>=v.size()||ad(*i)!=v[k])fail("accessors","%s: const begin/end, index %d",w,N);
    if(k!=v.size())fail("accessors","%s: const begin/end, index %d",w,N);
    k=0;for(auto i=cx.cbegin(),e=cx.cend();i!=e;++i,++k)if(k>=v.size()||ad(*i)!=v[k])fail("accessors","%s: cbegin/cend, index %d",w,N);
    if(k!=v.size())fail("accessors","%s: cbegin/cend, index %d",w,N);
    if constexpr(N!=3){
      k=v.size();for(auto i=x.rbegin();i!=x.rend();++i)if(!k--||ad(*i)!=v[k])fail("accessors","%s: rbegin/rend, index %d",w,N);
      if(k)fail("accessors","%s: rbegin/rend, index %d",w,N);
      k=v.size();for(auto i=cx.crbegin();i!=cx.crend();++i)if(!k--||ad(*i)!=v[k])fail("accessors","%s: crbegin/crend, index %d",w,N);
      if(k)fail("accessors","%s: crbegin/crend, index %d",w,N);
      k=v.size();for(auto i=x.end();i!=x.begin();){--i;if(ad(*i)!=v[--k])fail("accessors","%s: backwards, index %d",w,N);}
    }else{
      size_t n=0;
      for(size_t q=0;q<x.bucket_count();++q){
        for(auto i=x.begin(q),e=x.end(q);i!=e;++i,++n)if((size_t)x.bucket(keyof(*i))!=q||!s.count(ad(*i)))fail("accessors","%s: a bucket holds another's element",w);
      }
      if(n!=v.size())fail("accessors","%s: the buckets hold %zu elements of %zu",w,n,v.size());
    }
    int q=rk();int want=cnt.count(q)?cnt[q]:0;
    if((int)x.count(q)!=want||(x.find(q)!=x.end())!=(want>0)||x.contains(q)!=(want>0))fail("lookup","%s: index %d: key %d is there %d times, count says %d",w,N,q,want,(int)x.count(q));
    auto er=x.equal_range(q);
    if(std::distance(er.first,er.second)!=want)fail("lookup","%s: index %d: equal_range",w,N);
    if(want){if(x.find(q)!=er.first)fail("lookup","%s: index %d: find is not the first",w,N);}
    if constexpr(N!=3){
      int below=0;for(auto& p:cnt)if(p.first<q)below+=p.second;
      if(std::distance(x.begin(),x.lower_bound(q))!=below||std::distance(x.begin(),x.upper_bound(q))!=below+want)fail("lookup","%s: index %d: bounds",w,N);
      if constexpr(N==4){
        if((int)x.lower_bound_rank(q)!=below||(int)x.upper_bound_rank(q)!=below+want)fail("lookup","%s: rank bounds",w);
        if(!v.empty()){size_t p=r.below((int)v.size());if(ad(*x.nth(p))!=v[p]||x.rank(x.nth(p))!=p)fail("lookup","%s: nth/rank",w);}
        if(x.nth(v.size())!=x.end())fail("lookup","%s: nth past the end",w);
      }
    }
    ++ctx().evaluations;
  }
  static uint64_t hash_of(M& m){uint64_t h=7;for(int n=0;n<2;++n)for(int id:m.o[n])h=mix(h,m.e.at(id).key);return h;}
  void check(M& m,const char* w){
    check_list<0>(m,w);check_list<1>(m,w);check_keyed<2>(m,w);check_keyed<3>(m,w);check_keyed<4>(m,w);
    seen(mix(hash_of(m),CFG));
  }
  /* ------------------------------------------------------- operations */
  static void out(const char* w,bool got,bool want){if(got!=want)fail("result","%s reported %s, expected %s",w,got?"success":"failure",want?"success":"failure");}
  template<int N>void at_check(M& m,const char* w,typename C::template nth_index<N>::type::iterator i,int pos,bool done){
    if(done&&std::distance(m.c.template get<N>().begin(),i)!=pos)fail("result","%s: returned position %d, expected %d",w,(int)std::distance(m.c.template get<N>().begin(),i),pos);
  }
  template<class P>int keyed_of(const P& p){return keyof(*p);}
  template<int N>void list_op(M& m,M& o){
    auto& x=m.c.template get<N>();auto& v=m.o[N];
    int n=(int)v.size(),pos=r.below(n+1),k=rk();
    auto it=std::next(x.begin(),pos);
    int op=r.below(26);
    lg("list %d op %d pos %d key %d size %d",N,op,pos,k,n);
    switch(op){
    case 0:{auto p=x.emplace(it,Arg<T>::of(k));bool d=put(m,N,pos,k);out("emplace",p.second,d);at_check<N>(m,"emplace",p.first,pos,d);break;}
    case 1:{auto p=x.emplace_front(Arg<T>::of(k));out("emplace_front",p.second,put(m,N,0,k));break;}
    case 2:{auto p=x.emplace_back(Arg<T>::of(k));out("emplace_back",p.second,put(m,N,n,k));break;}
    case 3:if constexpr(movable){auto p=x.push_back(Mk<T>::of(k));out("push_back",p.second,put(m,N,n,k));}break;
    case 4:if constexpr(movable){auto p=x.push_front(Mk<T>::of(k));out("push_front",p.second,put(m,N,0,k));}break;
    case 5:if constexpr(movable){auto p=x.insert(it,Mk<T>::of(k));bool d=put(m,N,pos,k);out("insert",p.second,d);at_check<N>(m,"insert",p.first,pos,d);}break;
    case 6:if constexpr(copyable){const T t(Mk<T>::of(k));auto p=x.insert(it,t);bool d=put(m,N,pos,k);out("insert",p.second,d);at_check<N>(m,"insert",p.first,pos,d);}break;
    case 7:if constexpr(copyable){ /* counts that may look like iterators */
      const T t(Mk<T>::of(k));int c=r.below(4);
      switch(r.below(3)){
      case 0:x.insert(it,(size_t)c,t);break;
      case 1:x.insert(it,c,t);break;
      default:if constexpr(std::is_integral<T>::value){if(std::is_same<T,bool>::value)c=c!=0;x.insert(it,T(c),T(t));count("same-type-counts");}else x.insert(it,(unsigned char)c,t);}
      for(int i=0;i<c;++i)if(put(m,N,pos,k))++pos;
      count("counted-insertions");}break;
    case 8:if constexpr(copyable){
      const T t(Mk<T>::of(k));int c=r.below(5);
      if constexpr(std::is_integral<T>::value){if(r.below(2)){if(std::is_same<T,bool>::value)c=c!=0;x.assign(T(c),T(t));count("same-type-counts");}else x.assign(c,t);}
      else x.assign(c,t);
      while(!m.e.empty())drop(m,m.e.begin()->first);
      for(int i=0;i<c;++i)put(m,N,(int)m.o[N].size(),k);
      count("counted-assignments");}break;
    case 9:if constexpr(copyable){
      std::vector<int> ks;std::vector<T> ts;int c=r.below(5);
      for(int i=0;i<c;++i){ks.push_back(rk());}
      for(int q:ks)ts.push_back(Mk<T>::of(q));
      bool as=r.below(3)==0;
      if(as){x.assign(ts.begin(),ts.end());while(!m.e.empty())drop(m,m.e.begin()->first);pos=0;}
      else x.insert(it,ts.begin(),ts.end());
      for(int q:ks)if(put(m,N,pos,q))++pos;}break;
    case 10:if constexpr(implicit&&!std::is_same<T,bool>::value){ /* a range of things convertible to the element type */
      std::vector<int> ks;int c=r.below(5);
      for(int i=0;i<c;++i)ks.push_back(rk());
      bool as=r.below(3)==0;
      if(as){x.assign(ks.data(),ks.data()+c);while(!m.e.empty())drop(m,m.e.begin()->first);pos=0;}
      else x.insert(it,ks.data(),ks.data()+c);
      for(int q:ks)if(put(m,N,pos,q))++pos;
      count("converted-ranges");}break;
    case 11:if constexpr(defct){int to=r.below(n+4);x.resize(to);
      while((int)m.o[N].size()>to)drop(m,m.o[N].back());
      int z=keyof(T());
      for(int i=n;i<to;++i)put(m,N,(int)m.o[N].size(),z);}break;
    case 12:if constexpr(copyable){int to=r.below(n+4);const T t(Mk<T>::of(k));x.resize(to,t);
      while((int)m.o[N].size()>to)drop(m,m.o[N].back());
      for(int i=n;i<to;++i)put(m,N,(int)m.o[N].size(),k);}break;
    case 13:if(n){if(r.below(2)){x.pop_front();drop(m,v[0]);}else{x.pop_back();drop(m,v[n-1]);}}break;
    case 14:if(pos<n){auto j=x.erase(it);drop(m,v[pos]);if(std::distance(x.begin(),j)!=pos)fail("result","erase");}break;
    case 15:{int q=r.range(pos,n);auto j=x.erase(it,std::next(x.begin(),q));std::vector<int> ids(v.begin()+pos,v.begin()+q);for(int id:ids)drop(m,id);if(std::distance(x.begin(),j)!=pos)fail("result","erase range");}break;
    case 16:{x.remove_if([&](const T& t){return keyof(t)==k;});std::vector<int> ids(v);for(int id:ids)if(m.e[id].key==k)drop(m,id);
      break;}
    case 17:if constexpr(copyable){const T t(Mk<T>::of(k));x.remove(t);std::vector<int> ids(v);for(int id:ids)if(m.e[id].key==k)drop(m,id);}break;
    case 18:{bool d=r.below(2);int md=1+r.below(3);
      if(d){if constexpr(!std::is_same<T,std::unique_ptr<int>>::value)x.unique();else break;}
      else x.unique([&](const T& p,const T& q){return keyof(p)%md==keyof(q)%md;});
      std::vector<int> ids(v);int last=-1;bool any=false;
      for(int id:ids){int q=m.e[id].key;int g=d?q:q%md;if(any&&g==last)drop(m,id);else{last=g;any=true;}}
      break;}
    case 19:{bool d=r.below(2);int md=1+r.below(3);
      if(d){if constexpr(!std::is_same<T,std::unique_ptr<int>>::value&&!std::is_same<T,const int*>::value)x.sort();else{x.sort([](const T& p,const T& q){return keyof(p)<keyof(q);});}}
      else x.sort([&](const T& p,const T& q){return keyof(p)%md<keyof(q)%md;});
      std::stable_sort(v.begin(),v.end(),[&](int p,int q){int i=m.e[p].key,j=m.e[q].key;return d?i<j:i%md<j%md;});
      break;}
    case 20:x.reverse();std::reverse(v.begin(),v.end());break;
    case 21:if(n){int q=r.below(n);x.relocate(it,std::next(x.begin(),q));int id=v[q];
      if(q<pos){v.insert(v.begin()+pos,id);v.erase(v.begin()+q);}else if(q>pos){v.erase(v.begin()+q);v.insert(v.begin()+pos,id);}}break;
    case 22:{ /* rearrange through references, whatever operator& of the elements does */
      std::vector<int> w(v);for(int i=n;i>1;--i){int q=r.below(i);std::swap(w[i-1],w[q]);}
      std::vector<std::reference_wrapper<const T>> f;
      for(int id:w)f.push_back(std::cref(*static_cast<const T*>(m.e[id].addr)));
      x.rearrange(f.begin());v=w;count("types-rearranged");break;}
    case 23:{ /* splice an element, a range, everything */
      auto& y=o.c.template get<N>();auto& w=o.o[N];int s=(int)w.size(),p=r.below(s+1),q=r.range(p,s);
      if(r.below(2)){if(p<s){auto j=std::next(y.begin(),p);auto res=x.splice(it,y,j);bool ok=!uniq||!has(m,o.e[w[p]].key);out("splice",res.second,ok);if(ok)take<N>(m,o,pos,w[p]);}}
      else{
        if(p==0&&q==s&&r.below(2))x.splice(it,y);else x.splice(it,y,std::next(y.begin(),p),std::next(y.begin(),q));
        std::vector<int> ids(w.begin()+p,w.begin()+q);
        for(int id:ids)if(!uniq||!has(m,o.e[id].key)){take<N>(m,o,pos,id);++pos;}
      }
      count("types-spliced");break;}
    case 24:{ /* merge of sorted lists */
      auto& y=o.c.template get<N>();auto le=[](const T& p,const T& q){return keyof(p)<keyof(q);};
      x.sort(le);y.sort(le);
      std::stable_sort(v.begin(),v.end(),[&](int p,int q){return m.e[p].key<m.e[q].key;});
      std::stable_sort(o.o[N].begin(),o.o[N].end(),[&](int p,int q){return o.e[p].key<o.e[q].key;});
      x.merge(y,le);
      std::vector<int> ids(o.o[N]);
      for(int id:ids){int kk=o.e[id].key;if(uniq&&has(m,kk))continue;
        int p=0;while(p<(int)v.size()&&m.e[v[p]].key<=kk)++p;
        take<N>(m,o,p,id);}
      count("types-merged");break;}
    case 25:if(N==1){if(r.below(2))m.c.template get<1>().reserve(r.below(3*n+5));else m.c.template get<1>().shrink_to_fit();}break;
    }
  }
  template<int N>void take(M& m,M& o,int pos,int id){
    It e=o.e[id];drop(o,id);
    m.e[id]=e;m.o[N].insert(m.o[N].begin()+pos,id);m.o[1-N].push_back(id);
  }
  /* element position independent operations through index I */
  template<int I>void any_op(M& m,M& o){
    auto& x=m.c.template get<I>();
    int n=(int)m.e.size();int op=r.below(13);
    int k=rk();
    lg("index %d op %d key %d",I,op,k);
    auto pick=[&]{auto j=m.e.begin();std::advance(j,r.below(n));return j->first;};
    auto iter=[&](int id){return x.iterator_to(*static_cast<const T*>(m.e[id].addr));};
    switch(op){
    case 0:if(n&&settable){if constexpr(settable){int id=pick();bool ok=!uniq||m.e[id].key==k||!has(m,k);
      out("modify",x.modify(iter(id),[&](T& t){setk(t,k,0);}),ok);if(ok)m.e[id].key=k;else drop(m,id);count("types-modified");}}break;
    case 1:if(n&&settable){if constexpr(settable){int id=pick();bool ok=!uniq||m.e[id].key==k||!has(m,k);int was=m.e[id].key;
      out("modify with rollback",x.modify(iter(id),[&](T& t){setk(t,k,0);},[&](T& t){setk(t,was,0);}),ok);if(ok)m.e[id].key=k;count("types-modified");}}break;
    case 2:if constexpr(cassign)if(n){int id=pick();bool ok=!uniq||m.e[id].key==k||!has(m,k);const T t(Mk<T>::of(k));
      out("replace",x.replace(iter(id),t),ok);if(ok)m.e[id].key=k;count("types-replaced");}break;
    case 3:if constexpr(massign)if(n){int id=pick();bool ok=!uniq||m.e[id].key==k||!has(m,k);T t(Mk<T>::of(k));
      out("replace",x.replace(iter(id),std::move(t)),ok);if(ok)m.e[id].key=k;count("types-replaced");}break;
    case 4:if(n){int id=pick();x.erase(iter(id));drop(m,id);}break;
    case 5:if(n){ /* out and in again, here or there */
      int id=pick();auto nh=x.extract(iter(id));
      if(nh.empty()||!nh||ad(nh.value())!=m.e[id].addr)fail("node","extract gave the wrong node");
      int key=m.e[id].key;const void* p=m.e[id].addr;drop(m,id);
      if constexpr(settable)if(r.below(2)){setk(nh.value(),k,0);key=k;}
      check(m,"extract");
      M& d=r.below(2)?m:o;int how=r.below(4);bool fits=!uniq||!has(d,key);bool done;
      if(how==0)done=d.c.template get<2>().insert(std::move(nh)).inserted;
      else if(how==1)done=d.c.template get<3>().insert(std::move(nh)).inserted;
      else if(how==2)done=d.c.template get<4>().insert(std::move(nh)).inserted;
      else done=d.c.template get<0>().insert(d.c.template get<0>().end(),std::move(nh)).inserted;
      out("insert(node)",done,fits);
      if(fits){int i2=next_id++;d.e[i2]=It{key,p};d.o[0].push_back(i2);d.o[1].push_back(i2);}
      count("types-nodes");}break;
    case 6:m.c.swap(o.c);std::swap(m.o,o.o);std::swap(m.e,o.e);break;
    case 7:{C t(std::move(m.c));m.c=std::move(o.c);o.c=std::move(t);std::swap(m.o,o.o);std::swap(m.e,o.e);}break;
    case 8:if constexpr(copyable){if(r.below(2)){C t(o.c);m.c=t;if(!(m.c==o.c)||m.c!=o.c)fail("comparison","a copy differs");}else m.c=o.c;
      std::map<int,int> ids;M& s=o;m.e.clear();
      for(auto& p:s.e){ids[p.first]=next_id;m.e[next_id++]=It{p.second.key,nullptr};}
      for(int q=0;q<2;++q){m.o[q].clear();for(int id:s.o[q])m.o[q].push_back(ids[id]);}count("types-copied");}break;
    case 9:{ /* keyed transfers */
      if(n+(int)o.e.size()>0){
        auto& y=o.c.template get<3>();
        std::vector<const T*> ord;for(auto& e:y)ord.push_back(std::addressof(e));
        m.c.template get<2>().merge(y);
        for(auto p:ord){int id=-1;for(auto& q:o.e)if(q.second.addr==ad(*p))id=q.first;
          if(!uniq||!has(m,o.e[id].key)){It e=o.e[id];drop(o,id);m.e[id]=e;m.o[0].push_back(id);m.o[1].push_back(id);}}
        count("types-merged");
      }}break;
    case 10:{if constexpr(I>1){
      size_t c=x.erase(k);size_t w=0;std::vector<int> ids;for(auto& p:m.e)if(p.second.key==k)ids.push_back(p.first);
      for(int id:ids){drop(m,id);++w;}if(c!=w)fail("result","erase(key) reported %zu, expected %zu",c,w);}}break;
    case 11:{if constexpr(I>1){auto p=x.emplace_hint(r.below(2)?x.begin():x.end(),Arg<T>::of(k));bool d=put(m,0,(int)m.o[0].size(),k);(void)d;if(p==x.end()||keyof(*p)!=k)fail("result","emplace_hint");}}break;
    case 12:m.c.template get<3>().rehash(r.below(4*n+7));break;
    }
  }
  void clear(M& m){m.c.clear();m.o[0].clear();m.o[1].clear();m.e.clear();}
  void go(int len){
    for(int i=0;i<len;++i){
      bool f=r.below(2);M& m=f?a:b;M& o=f?b:a;
      switch(r.below(12)){
      case 0:case 1:case 2:case 3:list_op<0>(m,o);break;
      case 4:case 5:case 6:case 7:list_op<1>(m,o);break;
      case 8:any_op<0>(m,o);break;
      case 9:any_op<2>(m,o);break;
      case 10:any_op<3>(m,o);break;
      case 11:any_op<4>(m,o);break;
      }
      if(m.e.size()>60){clear(m);}
      if(r.chance(1,90))clear(o);
      check(a,"after the operation (first)");check(b,"after the operation (second)");
      count("types-ops");
    }
  }
};

template<class T>static void one(const char* name,Rng& r,uint64_t k){
  long before=live_objects;
  {
    int dom=1+r.below(r.below(3)?8:50);
    if(std::is_same<T,bool>::value)dom=std::min(dom,2);
    if(std::is_same<T,E_>::value)dom=std::min(dom,8);
    lg("elements: %s, keys below %d",name,dom);
    Run<T> run(r,dom);
    run.go(ctx().len);
  }
  if(live_objects!=before)fail("lifetime","%s: %ld elements outlive the containers",name,live_objects-before);
  count((std::string("type-")+name).c_str());
  if(k<2)sample_log();
}

int main(int argc,char** argv){
  init(argc,argv);
  return run_cases([&](uint64_t k,Rng& r){
#if CFG==0
    switch(k%5){
    case 0:one<int>("int",r,k);break;
    case 1:one<short>("short",r,k);break;
    case 2:one<bool>("bool",r,k);break;
    case 3:one<E_>("enum",r,k);break;
    case 4:one<const int*>("pointer",r,k);break;
    }
#elif CFG==1
    switch(k%4){
    case 0:one<MoveOnly>("move-only",r,k);break;
    case 1:one<Immovable>("immovable",r,k);break;
    case 2:one<std::unique_ptr<int>>("unique_ptr",r,k);break;
    case 3:one<ConstMember>("const-member",r,k);break;
    }
#elif CFG==2
    switch(k%4){
    case 0:one<Evil>("evil-operators",r,k);break;
    case 1:one<Greedy>("greedy-constructor",r,k);break;
    case 2:one<Aligned>("over-aligned",r,k);break;
    case 3:one<PrivateNew>("private-new",r,k);break;
    }
#else
    switch(k%4){
    case 0:one<Poly>("virtual-base",r,k);break;
    case 1:one<Big>("big",r,k);break;
    case 2:one<NoDefault>("no-default",r,k);break;
    case 3:one<std::pair<const int,std::string>>("map-pair",r,k);break;
    }
#endif
  });
}
