// Safe mode monitor: after random histories every iterator kept so far is used
// and every entry point that takes iterators is given each kind of wrong one.
// Valid uses must not be reported, wrong ones must be, with the documented code
// and without effect.
#ifndef CFG
#define CFG 0
#endif
#include <boost/multi_index/safe_mode_errors.hpp>
struct SME{int code;};
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,error_code) \
 do{if(!(expr)){throw SME{(int)(error_code)};}}while(0)
#include "core.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/ref.hpp>
#include <set>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISON(p,n) ASAN_POISON_MEMORY_REGION(p,n)
#define UNPOISON(p,n) ASAN_UNPOISON_MEMORY_REGION(p,n)
#endif
#endif
#ifndef POISON
#define POISON(p,n)
#define UNPOISON(p,n)
#endif
namespace vf{
namespace mi=boost::multi_index;
namespace sm=boost::multi_index::safe_mode;

/* blocks freed during an operation are only released after it, so that an
   address identifies an element across the operation */
struct Held{void* p;std::size_t n;};
static std::vector<Held>& held(){static auto* v=new std::vector<Held>;return *v;}
template<class T>struct HA{
  typedef T value_type;int id;
  explicit HA(int i=1):id(i){}
  template<class U>HA(const HA<U>& x):id(x.id){}
  T* allocate(std::size_t n){return static_cast<T*>(tracked_alloc(id,n*sizeof(T)));}
  void deallocate(T* p,std::size_t n){
    auto it=blocks().find(p);
    if(it==blocks().end())fail("alloc-unknown","deallocate() of a block that is not outstanding");
    if(it->second.id!=id||it->second.bytes!=n*sizeof(T))fail("alloc-mismatch","deallocate() with another allocator or size");
    blocks().erase(it);POISON(p,n*sizeof(T));held().push_back(Held{p,n*sizeof(T)});
  }
  friend bool operator==(const HA& x,const HA& y){return x.id==y.id;}
  friend bool operator!=(const HA& x,const HA& y){return x.id!=y.id;}
};
static void release(){for(auto& h:held()){UNPOISON(h.p,h.n);::operator delete(h.p);}held().clear();}

struct Less2{bool operator()(int x,int y)const{return y<x;}};
struct H2{std::size_t operator()(int x)const{return (std::size_t)x*7;}};
struct E2{bool operator()(int x,int y)const{return x==y;}};
struct L1{bool operator()(int x,int y)const{return x<y;}};
struct H1{std::size_t operator()(int x)const{return (std::size_t)x%5;}};
enum K{O,R,H,S,A};
#define OU(e,c) mi::ordered_unique<e,c>
#define ON(e,c) mi::ordered_non_unique<e,c>
#define RU(e,c) mi::ranked_unique<e,c>
#define RN(e,c) mi::ranked_non_unique<e,c>
#define HU(e,h,q) mi::hashed_unique<e,h,q>
#define HN(e,h,q) mi::hashed_non_unique<e,h,q>
#if CFG==0
static constexpr K kind[]={O,H,S,R,A};
typedef mi::multi_index_container<Val,mi::indexed_by<OU(KId,L1),HN(KA,H1,E2),mi::sequenced<>,RN(KB,L1),mi::random_access<>>,HA<Val>> C;
typedef mi::multi_index_container<Val,mi::indexed_by<ON(KA,Less2),HU(KId,H2,E2),mi::sequenced<>,RU(KId,Less2),mi::random_access<>>,HA<Val>> D;
#elif CFG==1
static constexpr K kind[]={A,S,H};
typedef mi::multi_index_container<Val,mi::indexed_by<mi::random_access<>,mi::sequenced<>,HU(KId,H1,E2)>,HA<Val>> C;
typedef mi::multi_index_container<Val,mi::indexed_by<mi::random_access<>,mi::sequenced<>,HN(KA,H2,E2)>,HA<Val>> D;
#elif CFG==2
static constexpr K kind[]={H,O,R};
typedef mi::multi_index_container<Val,mi::indexed_by<HU(KId,H1,E2),ON(KA,L1),RU(KId,L1)>,HA<Val>> C;
typedef mi::multi_index_container<Val,mi::indexed_by<HN(KId,H2,E2),OU(KId,Less2),RN(KB,L1)>,HA<Val>> D;
#elif CFG==3
static constexpr K kind[]={S};
typedef mi::multi_index_container<Val,mi::indexed_by<mi::sequenced<>>,HA<Val>> C;
typedef C D;
#elif CFG==4
static constexpr K kind[]={A};
typedef mi::multi_index_container<Val,mi::indexed_by<mi::random_access<>>,HA<Val>> C;
typedef C D;
#elif CFG==5
static constexpr K kind[]={R,S,S};
typedef mi::multi_index_container<Val,mi::indexed_by<RN(KA,L1),mi::sequenced<>,mi::sequenced<>>,HA<Val>> C;
typedef mi::multi_index_container<Val,mi::indexed_by<RU(KId,L1),mi::sequenced<>,mi::sequenced<>>,HA<Val>> D;
#endif
static constexpr int N=(int)(sizeof(kind)/sizeof(K));
template<int I>using Ix=typename mi::nth_index<C,I>::type;
template<int I>using It=typename Ix<I>::iterator;
template<class F,std::size_t... Is>void each_(F f,std::index_sequence<Is...>){int d[]={(f(std::integral_constant<int,(int)Is>()),0)...};(void)d;}
template<class F>void each(F f){each_(f,std::make_index_sequence<N>());}
template<class F>void pick(int n,F f){each([&](auto I){if((int)I.value==n)f(I);});}
static constexpr bool islist(K k){return k==S||k==A;}

enum St{VALID,DEAD,UNKNOWN};
template<int I>struct Tracked{It<I> it;St st;int cont;const Val* addr;}; /* addr 0: end */
template<std::size_t... Is>std::tuple<std::vector<std::unique_ptr<Tracked<(int)Is>>>...> tt_(std::index_sequence<Is...>);
typedef decltype(tt_(std::make_index_sequence<N>())) Tracks;
typedef typename C::node_type Node;

struct World{
  Rng& r;
  std::unique_ptr<C> c[2];
  std::unique_ptr<D> d; /* container 2 */
  Tracks tr;
  std::vector<Node> pool;
  std::vector<std::pair<const Val*,int>> now; /* address -> container, sorted */
  explicit World(Rng& x):r(x){c[0].reset(new C);c[1].reset(new C);d.reset(new D);}
  template<class F>void on(int k,F f){if(k==2)f(*d);else f(*c[k]);}
  /* iterators of D are of another type where the uniqueness of a hashed index differs */
  template<int I>static constexpr bool same(){return std::is_same<It<I>,typename mi::nth_index<D,I>::type::iterator>::value;}
  template<int I,class F>void onI(int k,F f){
    if(k==2){if constexpr(same<I>())f(*d);}
    else f(*c[k]);
  }
  Val rnd(){return Val(r.below(14),r.below(5),r.below(5));}

  template<int I,class X>static std::vector<const Val*> addrs(X& x){
    std::vector<const Val*> v;for(auto& e:x.template get<I>())v.push_back(&e);return v;
  }
  std::vector<std::vector<const Val*>> shape(){
    std::vector<std::vector<const Val*>> s;
    for(int k=0;k<3;++k)on(k,[&](auto& x){each([&](auto I){s.push_back(addrs<I.value>(x));});});
    return s;
  }
  void locate(){
    now.clear();
    for(int k=0;k<3;++k)on(k,[&](auto& x){for(auto& e:x.template get<0>())now.push_back(std::make_pair((const Val*)&e,k));});
    std::sort(now.begin(),now.end());
  }
  int where(const Val* p){
    auto it=std::lower_bound(now.begin(),now.end(),std::make_pair(p,-1));
    return it!=now.end()&&it->first==p?it->second:-1;
  }
  /* update the model after an operation; then use every iterator */
  void settle(bool verify){
    locate();
    each([&](auto I){
      auto& v=std::get<I.value>(tr);
      for(auto& t:v)if(t->st==VALID&&t->addr){
        int k=where(t->addr);
        if(k<0||(k==2&&!same<I.value>()))t->st=DEAD;else t->cont=k;
      }
    });
    release();
    if(verify)use_all();
  }
  template<class F>int code(F f){
    try{f();return -1;}catch(const SME& e){return e.code;}
  }
  void use_all(){
    each([&](auto I){
      for(auto& t:std::get<I.value>(tr)){
        int e=-2;
        switch(t->st){
          case UNKNOWN:break;
          case VALID:
            if(t->addr){
              const Val* p=nullptr;
              e=code([&]{p=&*t->it;});
              if(e!=-1)fail("false-alarm","dereferencing a valid iterator of index %d reports error %d",(int)I.value,e);
              if(p!=t->addr)fail("wrong-element","an iterator of index %d denotes another element",(int)I.value);
              e=code([&]{onI<I.value>(t->cont,[&](auto& x){
                auto& ix=x.template get<I.value>();
                if(!(t->it==ix.iterator_to(*p)))fail("wrong-element","iterator_to gives another iterator");
                if(t->it==ix.end())fail("wrong-element","an iterator to an element equals end()");
                auto j=t->it;++j;
                if constexpr(kind[I.value]!=H){--j;if(!(j==t->it))fail("wrong-element","++ and -- do not cancel");}
              });});
              if(e!=-1)fail("false-alarm","using a valid iterator of index %d reports error %d",(int)I.value,e);
            }
            else{
              e=code([&]{onI<I.value>(t->cont,[&](auto& x){
                if(!(t->it==x.template get<I.value>().end()))fail("wrong-element","an end iterator of index %d is no longer the end",(int)I.value);
              });});
              if(e!=-1)fail("false-alarm","comparing an end iterator of index %d reports error %d",(int)I.value,e);
              e=code([&]{(void)*t->it;});
              if(e!=sm::not_dereferenceable_iterator)fail("missed-misuse","dereferencing end() of index %d: code %d",(int)I.value,e);
            }
            count("valid-uses");
            break;
          case DEAD:
            e=code([&]{(void)&*t->it;});
            if(e!=sm::invalid_iterator)fail("missed-misuse","dereferencing an invalidated iterator of index %d: code %d",(int)I.value,e);
            e=code([&]{++t->it;});
            if(e!=sm::invalid_iterator)fail("missed-misuse","incrementing an invalidated iterator of index %d: code %d",(int)I.value,e);
            count("dead-uses");
            break;
        }
      }
    });
    ++ctx().evaluations;
  }
  template<int I,class T>void track(const T& it,int k){
    if constexpr(std::is_same<T,It<I>>::value)track_<I>(it,k);
  }
  template<int I>void track_(const It<I>& it,int k){
    auto& v=std::get<I>(tr);
    if(v.size()>=24){std::size_t n=(std::size_t)r.below((int)v.size());v.erase(v.begin()+(std::ptrdiff_t)n);}
    const Val* a=nullptr;
    onI<I>(k,[&](auto& x){if(!(it==x.template get<I>().end()))a=&*it;});
    v.emplace_back(new Tracked<I>{it,VALID,k,a});
  }
  /* copies and assignments of tracked iterators */
  template<int I>void shuffle(){
    auto& w=std::get<I>(tr);
    if(w.size()<3)return;
    std::size_t i=(std::size_t)r.below((int)w.size()),j=(std::size_t)r.below((int)w.size());
    if(w[i]->st!=VALID)return;
    int e=code([&]{
      if(r.chance(1,2)){w[j]->it=w[i]->it;w[j]->st=VALID;w[j]->cont=w[i]->cont;w[j]->addr=w[i]->addr;w[j]->it=w[j]->it;}
      else if(w[j]->st==VALID)std::swap(*w[i],*w[j]);
    });
    if(e!=-1)fail("false-alarm","assigning a valid iterator of index %d reports error %d",I,e);
  }
  void track_some(int n){
    for(int q=0;q<n;++q){
      int k=r.below(3);
      pick(r.below(N),[&](auto I){
        onI<I.value>(k,[&](auto& x){
          auto& ix=x.template get<I.value>();
          auto p=ix.begin();
          if(r.chance(1,5))p=ix.end();else std::advance(p,r.below((int)ix.size()+1));
          this->template track<I.value>(p,k);
        });
        this->template shuffle<I.value>();
      });
    }
  }
  template<int I,class X>auto any(X& x){auto p=x.template get<I>().begin();std::advance(p,r.below((int)x.size()));return p;}

  /* iterators to an element in every index, and something throws soon */
  template<int I,class X,class P>void aim(X& x,P p,int k){
    if(r.chance(1,3))return;
    each([&](auto J){this->template track<J.value>(x.template project<J.value>(p),k);});
    Faults& F=faults();F=Faults();F.mask=0xffff;F.countdown=2+r.below(14);F.armed=r.chance(2,3);
  }
  /* one random valid operation */
  void forget_ends(int k){each([&](auto I){for(auto& t:std::get<I.value>(tr))if(t->st==VALID&&!t->addr&&t->cont==k)t->st=UNKNOWN;});}
  void all_dead(int k){each([&](auto I){for(auto& t:std::get<I.value>(tr))if(t->cont==k&&t->st==VALID)t->st=DEAD;});}
  void step(){
    int k=r.below(3),o=r.below(27);
    int i=r.below(N);
    /* now and then something throws in the middle of the operation */
    if(o<22&&r.chance(1,5)){
      static const int reach[]={2,6,20,60};
      Faults& F=faults();F=Faults();F.mask=0xffff;F.countdown=1+r.below(reach[r.below(4)]);F.armed=true;
      lg("fault point %ld",F.countdown);
    }
    int e=code([&]{
    try{
    on(k,[&](auto& x){pick(i,[&](auto I){
      auto& ix=x.template get<I.value>();
      typedef typename std::remove_reference<decltype(ix)>::type X;
      constexpr K kd=kind[I.value];
      auto pos=[&]{auto p=ix.begin();std::advance(p,r.below((int)ix.size()+1));return p;};
      switch(o){
        case 0:case 1:case 2:case 3:{
          lg("insert into %d.%d",k,i);Val v=rnd();
          if constexpr(islist(kd)){track<I.value>(ix.insert(pos(),v).first,k);}
          else if(r.chance(1,2))track<I.value>(ix.insert(v).first,k);
          else track<I.value>(ix.insert(pos(),v),k);
          break;}
        case 4:{
          lg("emplace into %d.%d",k,i);
          if constexpr(islist(kd))ix.emplace(pos(),r.below(14),r.below(5),r.below(5));
          else ix.emplace_hint(pos(),r.below(14),r.below(5),r.below(5));
          break;}
        case 5:case 6:if(ix.size()){lg("erase from %d.%d",k,i);auto q=ix.erase(any<I.value>(x));track<I.value>(q,k);}break;
        case 7:if(ix.size()){
          lg("erase range from %d.%d",k,i);
          auto f=pos(),l=f;int m=r.below(3);while(m--&&l!=ix.end())++l;
          track<I.value>(ix.erase(f,l),k);}break;
        case 8:lg("clear %d",k);if(r.chance(1,2))ix.clear();break;
        case 9:if(ix.size()){lg("replace in %d.%d",k,i);auto p=any<I.value>(x);ix.replace(p,rnd());}break;
        case 10:if(ix.size()){lg("modify in %d.%d",k,i);auto p=any<I.value>(x);Val v=rnd();aim<I.value>(x,p,k);ix.modify(p,[&](Val& q){q=v;});}break;
        case 11:if(ix.size()){lg("modify with rollback in %d.%d",k,i);auto p=any<I.value>(x);Val v=rnd(),w=*p;aim<I.value>(x,p,k);
          ix.modify(p,[&](Val& q){q=v;},[&](Val& q){q=w;});}break;
        case 12:if(ix.size()){lg("extract from %d.%d",k,i);
          if constexpr(kd==A||kd==S){auto p=any<I.value>(x);pool.push_back(ix.extract(p));}
          else{auto p=any<I.value>(x);int key=ix.key_extractor()(*p);pool.push_back(r.chance(1,2)?ix.extract(p):ix.extract(key));}}break;
        case 13:if(!pool.empty()){
          std::size_t n=(std::size_t)r.below((int)pool.size());lg("insert node into %d.%d",k,i);
          if(pool[n].get_allocator()==ix.get_allocator()){
            if constexpr(islist(kd)){auto q=ix.insert(pos(),std::move(pool[n]));pool[n]=std::move(q.node);}
            else if(r.chance(1,2)){auto q=ix.insert(std::move(pool[n]));pool[n]=std::move(q.node);}
            else ix.insert(pos(),std::move(pool[n]));
            if(!pool[n]||r.chance(1,3))pool.erase(pool.begin()+(std::ptrdiff_t)n);
          }}break;
        case 14:{
          int j=r.below(3);if(j==k)break;
          lg("transfer everything from %d to %d.%d",j,k,i);
          on(j,[&](auto& y){auto& iy=y.template get<I.value>();
            if constexpr(islist(kd)){if(r.chance(1,2))ix.splice(pos(),iy);
              else if constexpr(std::is_same<X,typename std::remove_reference<decltype(iy)>::type>::value)ix.merge(iy);}
            else ix.merge(iy);});
          break;}
        case 15:case 16:{
          int j=r.below(3);if(j==k)break;
          on(j,[&](auto& y){auto& iy=y.template get<I.value>();if(!iy.size())return;
            lg("transfer one from %d to %d.%d",j,k,i);
            if constexpr(islist(kd))ix.splice(pos(),iy,any<I.value>(y));else ix.merge(iy,any<I.value>(y));});
          break;}
        case 17:{
          int j=r.below(3);if(j==k)break;
          on(j,[&](auto& y){auto& iy=y.template get<I.value>();
            auto f=iy.begin();std::advance(f,r.below((int)iy.size()+1));auto l=f;int m=r.below(4);while(m--&&l!=iy.end())++l;
            lg("transfer range from %d to %d.%d",j,k,i);
            if constexpr(islist(kd))ix.splice(pos(),iy,f,l);else ix.merge(iy,f,l);});
          break;}
        case 18:if constexpr(islist(kd)){
          lg("rearrangement in %d.%d",k,i);
          int w=r.below(6);
          if(w==0)ix.reverse();
          else if(w==1)ix.sort();
          else if(w==2&&ix.size())ix.relocate(pos(),any<I.value>(x));
          else if(w==3){std::vector<boost::reference_wrapper<const Val>> v;for(auto& q:ix)v.insert(v.begin()+r.below((int)v.size()+1),boost::cref(q));ix.rearrange(v.begin());}
          else if(w==4&&ix.size()){int n=(int)ix.size();int a=r.below(n+1),b=a+r.below(n-a+1),p=r.chance(1,2)?r.below(a+1):b+r.below(n-b+1);
            if(p==a&&b>a)p=b;
            auto f=ix.begin(),l=f,q=f;std::advance(f,a);std::advance(l,b);std::advance(q,p);
            ix.relocate(q,f,l);}
          else if(w==5&&ix.size())ix.splice(pos(),ix,any<I.value>(x));
          }break;
        case 19:if constexpr(islist(kd)){
          lg("remove in %d.%d",k,i);
          if(r.chance(1,2)){int t=r.below(5);ix.remove_if([&](const Val& v){return v.a==t;});}
          else ix.unique([](const Val& p,const Val& q){return p.a==q.a;});}break;
        case 20:
          lg("policy in %d.%d",k,i);
          if constexpr(kd==H)ix.rehash((std::size_t)r.below(60));
          if constexpr(kd==A){if(r.chance(1,2))ix.reserve((std::size_t)r.below(40));else ix.shrink_to_fit();}
          break;
        case 21:if constexpr(!islist(kd)){lg("erase by key in %d.%d",k,i);ix.erase(r.below(6));}
          else if(ix.size()){if(r.chance(1,2))ix.pop_back();else ix.pop_front();}
          break;
        default:break;
      }
    });});
    }catch(const Boom&){count("interrupted");}
    faults().armed=false;
    /* whole-container operations */
    switch(o){
      case 22:lg("swap 0 and 1");if(r.chance(1,2))c[0]->swap(*c[1]);else{using std::swap;swap(*c[0],*c[1]);}
        each([&](auto I){for(auto& t:std::get<I.value>(tr))if(t->st==VALID&&!t->addr&&t->cont<2)t->cont=1-t->cont;});
        break;
      case 23:{int a=r.below(2);lg("move construction from %d",a);forget_ends(a);
        std::unique_ptr<C> n(new C(std::move(*c[a])));
        std::unique_ptr<C> old(std::move(c[a]));
        c[a]=std::move(n);
        if(old->size())fail("moved-from","moved-from container is not empty");
        if(r.chance(1,2)){old->insert(old->end(),rnd());
          /* iterators of the moved-from container are its own again */
        }
        break;}
      case 24:{int a=r.below(2);lg("assignment between 0 and 1, to %d",a);forget_ends(0);forget_ends(1);
        /* iterators to the assigned container's old elements become invalid */
        if(r.chance(1,2))*c[a]=*c[1-a];
        else *c[a]=std::move(*c[1-a]);
        break;}
      case 25:{int a=r.below(3);lg("destroy %d",a);all_dead(a);
        if(a==2)d.reset(new D);else c[a].reset(new C);
        break;}
      case 26:{int a=r.below(2);if(r.chance(1,3)){lg("assign list to %d",a);forget_ends(a);*c[a]={rnd(),rnd(),rnd()};}break;}
    }
    });
    if(e!=-1)fail("false-alarm","a valid operation (%d on %d.%d) reports error %d",o,k,i,e);
  }

  /* ------------------------------------------------------ misuse */
  std::vector<std::vector<const Val*>> before;
  template<class F>void bad(int want,const char* what,int I,F f){
    int e;
    try{f();e=-1;}catch(const SME& x){e=x.code;}
    count("misuses");
    count((std::string("code-")+std::to_string(want)).c_str());
    if(e!=want){
      lg("misuse: %s, index %d, expected %d, got %d",what,I,want,e);
      fail("missed-misuse","%s on index %d: error code %d expected, got %d",what,I,want,e);
    }
    if(shape()!=before){fail("misuse-effect","%s on index %d changed a container before being reported",what,I);}
    release();
    seen(mix((uint64_t)I*977+want,mix(std::hash<std::string>()(what),shape_hash)));
  }
  uint64_t shape_hash=0;
  template<int I>It<I>* dead(){
    auto& v=std::get<I>(tr);
    std::vector<It<I>*> c_;
    for(auto& t:v)if(t->st==DEAD)c_.push_back(&t->it);
    return c_.empty()?nullptr:c_[(std::size_t)r.below((int)c_.size())];
  }
  /* every wrong iterator for a parameter that must denote an element of x */
  template<int I,class X,class Y,class F>void bad_element(X& x,Y& y,const char* what,F f){
    auto& ix=x.template get<I>();
    bad(sm::invalid_iterator,what,I,[&]{It<I> s;f(s);});
    if(auto* p=dead<I>()){It<I> q(*p);bad(sm::invalid_iterator,what,I,[&]{f(q);});count("dead-passed");}
    {It<I> q=ix.end();bad(sm::not_dereferenceable_iterator,what,I,[&]{f(q);});}
    if(y.size()){It<I> q=any<I>(y);bad(sm::not_owner,what,I,[&]{f(q);});}
  }
  template<int I,class Y,class F>void bad_position(Y& y,const char* what,F f){
    bad(sm::invalid_iterator,what,I,[&]{It<I> s;f(s);});
    if(auto* p=dead<I>()){It<I> q(*p);bad(sm::invalid_iterator,what,I,[&]{f(q);});count("dead-passed");}
    if(y.size()){It<I> q=any<I>(y);bad(sm::not_owner,what,I,[&]{f(q);});}
    {It<I> q=y.template get<I>().end();bad(sm::not_owner,what,I,[&]{f(q);});}
  }
  template<int I,class X,class Y,class F>void bad_range(X& x,Y& y,const char* what,F f){
    auto& ix=x.template get<I>();auto& iy=y.template get<I>();
    It<I> s;
    bad(sm::invalid_iterator,what,I,[&]{f(s,ix.end());});
    bad(sm::invalid_iterator,what,I,[&]{f(ix.begin(),s);});
    if(auto* p=dead<I>()){It<I> q(*p);
      bad(sm::invalid_iterator,what,I,[&]{f(q,ix.end());});
      bad(sm::invalid_iterator,what,I,[&]{f(ix.begin(),q);});}
    bad(sm::not_owner,what,I,[&]{f(iy.begin(),iy.end());});
    bad(sm::not_owner,what,I,[&]{f(ix.begin(),iy.end());});
    bad(sm::not_owner,what,I,[&]{f(iy.begin(),ix.end());});
    if(ix.size()){
      int n=(int)ix.size();int a=r.below(n),b=a+1+r.below(n-a);
      It<I> f1=ix.begin(),l1=f1;std::advance(f1,a);std::advance(l1,b);
      bad(sm::invalid_range,what,I,[&]{f(l1,f1);});
    }
  }
  template<int I,class X,class Y>void misuse(X& x,Y& y){
    auto& ix=x.template get<I>();auto& iy=y.template get<I>();
    constexpr K kd=kind[I];
    before=shape();shape_hash=before.size();for(auto& v:before)shape_hash=mix(shape_hash,v.size());
    auto nop=[](Val&){};auto nopk=[](int&){};
    Val v=rnd();
    /* iterators themselves */
    {
      It<I> s,e=ix.end();
      bad(sm::invalid_iterator,"dereference",I,[&]{(void)*s;});
      bad(sm::invalid_iterator,"increment",I,[&]{++s;});
      bad(sm::invalid_iterator,"compare",I,[&]{(void)(s==e);});
      bad(sm::invalid_iterator,"compare",I,[&]{(void)(e!=s);});
      bad(sm::invalid_iterator,"assign",I,[&]{e=s;});
      if(auto* p=dead<I>()){It<I> q(*p);
        bad(sm::invalid_iterator,"assign",I,[&]{e=q;});bad(sm::invalid_iterator,"compare",I,[&]{(void)(e==q);});
        bad(sm::invalid_iterator,"increment",I,[&]{q++;});}
      e=ix.end();
      bad(sm::not_dereferenceable_iterator,"dereference",I,[&]{(void)*e;});
      bad(sm::not_incrementable_iterator,"increment",I,[&]{++e;});
      if constexpr(kd!=H){It<I> b=ix.begin();bad(sm::not_decrementable_iterator,"decrement",I,[&]{--b;});bad(sm::invalid_iterator,"decrement",I,[&]{--s;});}
      bad(sm::not_same_owner,"compare",I,[&]{(void)(e==iy.end());});
      bad(sm::not_same_owner,"compare",I,[&]{(void)(iy.begin()!=ix.begin());});
      if constexpr(kd==A){
        int n=(int)ix.size();
        bad(sm::out_of_bounds,"advance",I,[&]{It<I> b=ix.begin();b+=n+1;});
        bad(sm::out_of_bounds,"advance",I,[&]{It<I> b=ix.begin();b-=1;});
        bad(sm::out_of_bounds,"advance",I,[&]{It<I> b=ix.end();b+=1+r.below(5);});
        bad(sm::out_of_bounds,"advance",I,[&]{(void)(ix.end()-(n+1));});
        bad(sm::out_of_bounds,"advance",I,[&]{(void)(ix.begin()+(n+1+r.below(9)));});
        bad(sm::invalid_iterator,"advance",I,[&]{s+=0;});
        bad(sm::invalid_iterator,"difference",I,[&]{(void)(s-ix.begin());});
        bad(sm::invalid_iterator,"difference",I,[&]{(void)(ix.begin()-s);});
        bad(sm::not_same_owner,"difference",I,[&]{(void)(ix.begin()-iy.begin());});
        bad(sm::not_same_owner,"compare",I,[&]{(void)(ix.begin()<iy.end());});
        bad(sm::out_of_bounds,"operator[]",I,[&]{(void)ix[(std::size_t)(n+r.below(3))];});
        count("rnd-misuses");
      }
      if(!ix.size()){
        if constexpr(islist(kd)){
          bad(kd==A?sm::out_of_bounds:sm::not_dereferenceable_iterator,"front",I,[&]{(void)ix.front();});
        }
      }
    }
    bad_element<I>(x,y,"erase",[&](It<I> p){ix.erase(p);});
    bad_element<I>(x,y,"replace",[&](It<I> p){ix.replace(p,v);});
    bad_element<I>(x,y,"replace(&&)",[&](It<I> p){ix.replace(p,rnd());});
    bad_element<I>(x,y,"modify",[&](It<I> p){ix.modify(p,nop);});
    bad_element<I>(x,y,"modify with rollback",[&](It<I> p){ix.modify(p,nop,nop);});
    bad_element<I>(x,y,"extract",[&](It<I> p){(void)ix.extract(p);});
    bad_range<I>(x,y,"erase range",[&](It<I> f,It<I> l){ix.erase(f,l);});
    if constexpr(!islist(kd)){
      bad_element<I>(x,y,"modify_key",[&](It<I> p){ix.modify_key(p,nopk);});
      bad_element<I>(x,y,"modify_key with rollback",[&](It<I> p){ix.modify_key(p,nopk,nopk);});
      bad_position<I>(y,"insert with hint",[&](It<I> p){ix.insert(p,v);});
      bad_position<I>(y,"insert(&&) with hint",[&](It<I> p){ix.insert(p,rnd());});
      bad_position<I>(y,"emplace_hint",[&](It<I> p){ix.emplace_hint(p,1,2,3);});
      bad_position<I>(y,"insert node with hint",[&](It<I> p){Node nh;ix.insert(p,std::move(nh));});
      bad_element<I>(y,x,"merge element",[&](It<I> p){ix.merge(iy,p);});
      bad_range<I>(y,x,"merge range",[&](It<I> f,It<I> l){ix.merge(iy,f,l);});
      if constexpr(kd==R)bad_position<I>(y,"rank",[&](It<I> p){(void)ix.rank(p);});
    }
    else{
      bad_position<I>(y,"insert",[&](It<I> p){ix.insert(p,v);});
      bad_position<I>(y,"insert(&&)",[&](It<I> p){ix.insert(p,rnd());});
      bad_position<I>(y,"emplace",[&](It<I> p){ix.emplace(p,1,2,3);});
      bad_position<I>(y,"insert n copies",[&](It<I> p){ix.insert(p,2,v);});
      {Val arr[2]={rnd(),rnd()};
       bad_position<I>(y,"insert range",[&](It<I> p){ix.insert(p,arr,arr+2);});}
      bad_position<I>(y,"insert list",[&](It<I> p){ix.insert(p,{v,v});});
      bad_position<I>(y,"insert node",[&](It<I> p){Node nh;ix.insert(p,std::move(nh));});
      if(x.size()){
        bad_position<I>(y,"relocate to",[&](It<I> p){ix.relocate(p,any<I>(x));});
        bad_position<I>(y,"relocate range to",[&](It<I> p){ix.relocate(p,ix.begin(),ix.end());});
      }
      bad_element<I>(x,y,"relocate",[&](It<I> p){ix.relocate(ix.begin(),p);});
      bad_range<I>(x,y,"relocate range",[&](It<I> f,It<I> l){ix.relocate(ix.end(),f,l);});
      bad_position<I>(y,"splice all at",[&](It<I> p){ix.splice(p,iy);});
      bad_range<I>(y,x,"splice range",[&](It<I> f,It<I> l){ix.splice(ix.end(),iy,f,l);});
      bad_element<I>(y,x,"splice element",[&](It<I> p){ix.splice(ix.end(),iy,p);});
      if(y.size()){
        bad_position<I>(y,"splice element at",[&](It<I> p){ix.splice(p,iy,any<I>(y));});
        bad_position<I>(y,"splice range at",[&](It<I> p){ix.splice(p,iy,iy.begin(),iy.end());});
      }
      if(x.size()){
        int n=(int)x.size();int a=r.below(n),b=a+1+r.below(n-a),q=a+r.below(b-a);
        It<I> f=ix.begin(),l=f,p=f;std::advance(f,a);std::advance(l,b);std::advance(p,q);
        bad(sm::inside_range,"relocate range into itself",I,[&]{ix.relocate(p,f,l);});
        bad(sm::inside_range,"splice range into itself",I,[&]{ix.splice(p,ix,f,l);});
      }
    }
    /* projection: any iterator of the same container will do */
    each([&](auto J){
      bad_position<I>(y,"project",[&](It<I> p){(void)x.template project<J.value>(p);});
      const X& cx=x;
      bad_position<I>(y,"project(const)",[&](It<I> p){(void)cx.template project<J.value>(p);});
      bad_position<I>(y,"project function",[&](It<I> p){(void)mi::project<J.value>(x,p);});
      int e=code([&]{
        It<I> p=ix.begin();auto q=x.template project<J.value>(p);
        if(p!=ix.end()&&&*q!=&*p)fail("wrong-element","project gives another element");
        if(!(x.template project<J.value>(ix.end())==x.template get<J.value>().end()))fail("wrong-element","project of end() is not end()");
      });
      if(e!=-1)fail("false-alarm","project reports error %d",e);
    });
    /* containers with unequal allocators */
    {
      X z{typename X::ctor_args_list(),HA<Val>(7)};auto& iz=z.template get<I>();
      if constexpr(!islist(kd)){
        z.template get<0>();
        bad(sm::unequal_allocators,"merge",I,[&]{ix.merge(iz);});
        bad(sm::unequal_allocators,"merge range",I,[&]{ix.merge(iz,iz.begin(),iz.end());});
        iz.insert(Val(1,1,1));
        bad(sm::unequal_allocators,"merge element",I,[&]{ix.merge(iz,iz.begin());});
        bad(sm::unequal_allocators,"insert node",I,[&]{Node nh=iz.extract(iz.begin());ix.insert(std::move(nh));});
      }
      else{
        iz.push_back(Val(1,1,1));
        bad(sm::unequal_allocators,"insert node",I,[&]{Node nh=iz.extract(iz.begin());ix.insert(ix.end(),std::move(nh));});
      }
    }
  }
  void misuses(){
    int a=r.below(3),b=(a+1+r.below(2))%3;
    int i=r.below(N);
    lg("misuses of index %d, containers %d and %d",i,a,b);
    pick(i,[&](auto I){onI<I.value>(a,[&](auto& x){onI<I.value>(b,[&](auto& y){misuse<I.value>(x,y);});});});
    settle(false);
  }
};

static void one(uint64_t k,Rng& r){
  tagctr()=0;
  long live0=vstats().live;std::size_t b0=blocks().size();
  {
    World w(r);
    int len=20+r.below(ctx().len);
    w.locate();
    for(int i=0;i<len;++i){
      w.step();
      w.settle(true);
      w.track_some(2);
      if(r.chance(1,6))w.misuses();
    }
    w.misuses();
    w.settle(true);
    /* destruction order: containers first, then iterators, or the reverse */
    if(r.chance(1,2)){
      for(int a=0;a<3;++a)w.all_dead(a);
      w.c[0].reset(new C);w.c[1].reset(new C);w.d.reset(new D);
      w.settle(true);
    }
    if(k<3)sample_log();
  }
  release();
  if(vstats().live!=live0)fail("leak","%ld elements not destroyed",vstats().live-live0);
  if(blocks().size()!=b0)fail("leak","%zu blocks not returned",blocks().size()-b0);
}
}
int main(int argc,char** argv){
  vf::init(argc,argv);
  return vf::run_cases([](uint64_t k,vf::Rng& r){vf::one(k,r);});
}
