// Serialization monitor: round trips through text, binary, XML and a custom
// archive, iterators and tracked pointers, archives of older format versions,
// truncation, structural corruption and injected failures.
#ifndef CFG
#define CFG 0
#endif
#if defined(VF_SAFE)
extern "C" void vf_safe_mode_report(int code);
#include <boost/multi_index/safe_mode_errors.hpp>
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,error_code) \
 do{if(!(expr))vf_safe_mode_report((int)(error_code));}while(0)
#endif
#include "core.hpp"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/version.hpp>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/archive/archive_exception.hpp>
#include <sstream>
#include <set>
#include <limits>
#ifdef VF_SAFE
extern "C" void vf_safe_mode_report(int code){
  vf::fail("safe-mode-false-alarm","safe mode reported error %d in a history of valid operations",code);
}
#endif

namespace vf{
namespace mi=boost::multi_index;
struct LoadCtl{bool strict=true;int n=0;int clash_at=-1;int cid,ca,cb;int constructs=0;int badver=0;unsigned expect_version=3;};
inline LoadCtl& lc(){static LoadCtl l;return l;}

struct SV:Val{
  SV(int i,int a,int b):Val(i,a,b){}
  SV(const SV& x):Val(x){}
  SV(SV&& x):Val(std::move(x)){}
  SV& operator=(const SV& x){Val::operator=(x);return *this;}
#ifndef NO_DEFAULT
  SV():Val(-9,-9,-9){}
#endif
  template<class Ar>void serialize(Ar& ar,const unsigned int v){
    check("serialize");
    fp(Ar::is_saving::value?F_COPY:F_MOVE);
    if(v!=3&&lc().expect_version==3)++lc().badver;
    ar&boost::make_nvp("id",id);
    ar&boost::make_nvp("a",a);
    ar&boost::make_nvp("b",b);
    if(Ar::is_loading::value){
      if(lc().n++==lc().clash_at){id=lc().cid;a=lc().ca;b=lc().cb;}
    }
  }
};
} /* vf */
namespace boost{namespace core{using serialization::make_nvp;}}
#ifdef NO_DEFAULT
namespace vf{
template<class Ar>void save_construct_data(Ar& ar,const SV* p,const unsigned int){
  fp(F_COPY);int k=p->id;ar<<boost::make_nvp("cid",k);
}
template<class Ar>void load_construct_data(Ar& ar,SV* p,const unsigned int v){
  fp(F_CTOR);
  int k;ar>>boost::make_nvp("cid",k);
  if(v!=lc().expect_version)++lc().badver;
  ++lc().constructs;
  ::new(static_cast<void*>(p))SV(k,-9,-9);
}
}
#endif
BOOST_CLASS_VERSION(vf::SV,3)

namespace vf{
/* ------------------------------------------------ the custom archive */
enum RT{R_U,R_INT,R_VER,R_POS,R_PTR,R_ITER};
struct Rec{RT t;long long v;};
struct MiniErr{};
template<class T,class=void>struct HasCat:std::false_type{};
template<class T>struct HasCat<T,std::void_t<typename T::iterator_category>>:std::true_type{};
template<class T,class=void>struct IsContainer:std::false_type{};
template<class T>struct IsContainer<T,std::void_t<typename T::ctor_args_list>>:std::true_type{};
template<class T>struct IsBuckets:std::false_type{};
template<class A>struct IsBuckets<mi::detail::bucket_array<A>>:std::true_type{};
template<class T>struct Composite:std::integral_constant<bool,HasCat<T>::value||IsContainer<T>::value>{};
struct MiniO{
  typedef std::true_type is_saving;typedef std::false_type is_loading;
  std::vector<Rec> recs;
  std::map<const void*,int> ids;
  std::vector<int> buckets; /* ids of the bucket arrays, in the order saved */
  bool old_iters=false;     /* iterators of hashed indices as they were written before format version 1 */
  template<class T>MiniO& operator<<(const boost::serialization::nvp<T>& x){save(x.const_value());return *this;}
  template<class T>MiniO& operator&(const boost::serialization::nvp<T>& x){return *this<<x;}
  void save(const int& x){recs.push_back(Rec{R_INT,x});}
  void save(const std::size_t& x){recs.push_back(Rec{R_U,(long long)x});}
  template<class T>void save(const mi::detail::serialization_version<T>& x){
    recs.push_back(Rec{R_VER,(long long)boost::serialization::version<T>::value});}
  void save(const SV& x){
    const_cast<SV&>(x).serialize(*this,boost::serialization::version<SV>::value);}
  template<class T>void save(T* const& p){
    if(!p){recs.push_back(Rec{R_PTR,0});return;}
    auto it=ids.find(p);
    if(it==ids.end())fail("serialization-order","pointer to an untracked node saved");
    recs.push_back(Rec{R_PTR,it->second});
  }
  template<class T>void save(const T& x){
    if constexpr(Composite<T>::value)
      boost::serialization::access::serialize(*this,const_cast<T&>(x),(unsigned)boost::serialization::version<T>::value);
    else track(x);
  }
  template<class T>void track(const T& node){ /* tracked, no contents */
    int n=(int)ids.size()+1;
    if(!ids.insert(std::make_pair((const void*)&node,n)).second)n=ids[&node];
    if(IsBuckets<T>::value)buckets.push_back(n);
    recs.push_back(Rec{R_POS,n});
  }
};
struct MiniI{
  typedef std::false_type is_saving;typedef std::true_type is_loading;
  const std::vector<Rec>& recs;std::size_t pos=0;
  std::map<int,void*> addr;
  std::vector<std::pair<const void*,const void*>> moved;
  explicit MiniI(const std::vector<Rec>& r):recs(r){}
  const Rec& next(RT t){
    if(pos>=recs.size()||recs[pos].t!=t)throw MiniErr();
    return recs[pos++];
  }
  template<class T>MiniI& operator>>(const boost::serialization::nvp<T>& x){load(x.value());return *this;}
  template<class T>MiniI& operator&(const boost::serialization::nvp<T>& x){return *this>>x;}
  template<class T>MiniI& operator>>(T& x){load(x);return *this;}
  void load(int& x){fp(F_RANGE);x=(int)next(R_INT).v;}
  void load(std::size_t& x){fp(F_RANGE);x=(std::size_t)next(R_U).v;}
  template<class T>void load(mi::detail::serialization_version<T>& x){fp(F_RANGE);x=(unsigned)next(R_VER).v;}
  void load(SV& x){x.serialize(*this,boost::serialization::version<SV>::value);}
  template<class T>void load(T*& p){
    fp(F_RANGE);
    int n=(int)next(R_PTR).v;
    if(!n){p=0;return;}
    auto it=addr.find(n);
    if(it==addr.end()){
      /* an unknown object: Boost.Serialization would construct it now */
      load_construct_data(*this,(T*)0,0u);
      throw MiniErr();
    }
    p=static_cast<T*>(it->second);
  }
  int container_version=-1;bool old_iters=false;
  template<class T>void load(T& x){
    if constexpr(Composite<T>::value){
      int v=boost::serialization::version<T>::value;
      if(IsContainer<T>::value&&container_version>=0)v=container_version;
      if(HasCat<T>::value&&old_iters)v=0;
      boost::serialization::access::serialize(*this,x,(unsigned)v);
    }
    else{fp(F_RANGE);addr[(int)next(R_POS).v]=&x;}
  }

  template<class T>void reset_object_address(const T* a,const T* b){moved.push_back(std::make_pair((const void*)a,(const void*)b));}
};

/* ------------------------------------------------ containers */
typedef TA<SV,0> Al;
typedef mi::composite_key<Val,KA,KB> KAB;
typedef mi::composite_key_compare<CmpDir,CmpDir> CAB;
#define OU(e) mi::ordered_unique<e,CmpDir>
#define ON(e) mi::ordered_non_unique<e,CmpDir>
#define RU(e) mi::ranked_unique<e,CmpDir>
#define RN(e) mi::ranked_non_unique<e,CmpDir>
#define HU(e) mi::hashed_unique<e,HashSalt,EqSalt>
#define HN(e) mi::hashed_non_unique<e,HashSalt,EqSalt>
#define SQ mi::sequenced<>
#define RA mi::random_access<>
enum K{O,R,H,S,A};
struct Sp{K k;bool u;int key;}; /* key: 0 id, 1 a, 2 b, 3 (a,b) */
#if CFG==0
typedef mi::multi_index_container<SV,mi::indexed_by<SQ,RA,ON(KA),HN(KB),OU(KId)>,Al> C;
static constexpr Sp spec[]={{S,0,0},{A,0,0},{O,0,1},{H,0,2},{O,1,0}};
#elif CFG==1
typedef mi::multi_index_container<SV,mi::indexed_by<ON(KA),SQ,RN(KB),HU(KId)>,Al> C;
static constexpr Sp spec[]={{O,0,1},{S,0,0},{R,0,2},{H,1,0}};
#elif CFG==2
typedef mi::multi_index_container<SV,mi::indexed_by<HN(KA),RA,ON(KB),RA>,Al> C;
static constexpr Sp spec[]={{H,0,1},{A,0,0},{O,0,2},{A,0,0}};
#elif CFG==3
typedef mi::multi_index_container<SV,mi::indexed_by<OU(KId),HN(KA),HN(KB),RU(KId)>,Al> C;
static constexpr Sp spec[]={{O,1,0},{H,0,1},{H,0,2},{R,1,0}};
#elif CFG==4
typedef mi::multi_index_container<SV,mi::indexed_by<RA,SQ,SQ>,Al> C;
static constexpr Sp spec[]={{A,0,0},{S,0,0},{S,0,0}};
#elif CFG==5
typedef mi::multi_index_container<SV,mi::indexed_by<RN(KA),HN(KId),mi::ordered_non_unique<KAB,CAB>,RN(KB)>,Al> C;
static constexpr Sp spec[]={{R,0,1},{H,0,0},{O,0,3},{R,0,2}};
#elif CFG==6
typedef mi::multi_index_container<SV,mi::indexed_by<HU(KId),SQ,HN(KA),ON(KA)>,Al> C;
static constexpr Sp spec[]={{H,1,0},{S,0,0},{H,0,1},{O,0,1}};
#endif
static constexpr int N=(int)(sizeof(spec)/sizeof(Sp));
template<int I>using Ix=typename mi::nth_index<C,I>::type;


static std::pair<int,int> keyof(int k,const Val& v){
  switch(k){case 0:return {v.id,0};case 1:return {v.a,0};case 2:return {v.b,0};default:return {v.a,v.b};}
}
template<class F,std::size_t... Is>void each_(F f,std::index_sequence<Is...>){
  int dummy[]={(f(std::integral_constant<int,(int)Is>()),0)...};(void)dummy;
}
template<class F>void each(F f){each_(f,std::make_index_sequence<N>());}

struct Obs{int id,a,b;};
inline bool operator==(const Obs& x,const Obs& y){return x.id==y.id&&x.a==y.a&&x.b==y.b;}
inline bool operator<(const Obs& x,const Obs& y){return std::tie(x.id,x.a,x.b)<std::tie(y.id,y.a,y.b);}
struct Snap{std::array<std::vector<Obs>,N> ord;};
static std::string str(const std::vector<Obs>& v){
  std::string s;for(auto& o:v){s+="("+std::to_string(o.id)+","+std::to_string(o.a)+","+std::to_string(o.b)+")";if(s.size()>300)break;}
  return s;
}

/* coherence of a container, and what it holds */
static Snap observe(const C& c,const char* where){
  Snap s;std::vector<const Val*> base;
  each([&](auto I){
    const auto& ix=c.get<I.value>();
    std::vector<const Val*> fw;
    for(auto it=ix.begin();it!=ix.end();++it){
      if(fw.size()>c.size())fail("load-coherence","%s: index %d is longer than size()",where,(int)I.value);
      it->check(where);fw.push_back(&*it);
    }
    if(fw.size()!=c.size())fail("load-coherence","%s: index %d holds %zu elements, size() is %zu",where,(int)I.value,fw.size(),c.size());
    if constexpr(spec[I.value].k!=H){
      auto it=ix.end();
      for(std::size_t n=fw.size();n--;)if(&*--it!=fw[n])fail("load-coherence","%s: index %d backwards traversal differs",where,(int)I.value);
    }
    auto sorted=fw;std::sort(sorted.begin(),sorted.end());
    if(I.value==0)base=sorted;
    else if(base!=sorted)fail("load-coherence","%s: index %d holds other elements than index 0",where,(int)I.value);
    constexpr Sp sp=spec[I.value];
    if constexpr(sp.k==O||sp.k==R){
      for(std::size_t n=1;n<fw.size();++n){
        auto x=keyof(sp.key,*fw[n-1]),y=keyof(sp.key,*fw[n]);
        if(y<x||(sp.u&&x==y))fail("load-coherence","%s: index %d not in order",where,(int)I.value);
      }
    }
    if constexpr(sp.k==R){
      std::size_t n=0;
      for(auto it=ix.begin();it!=ix.end();++it,++n)
        if(ix.rank(it)!=n||ix.nth(n)!=it)fail("load-coherence","%s: index %d ranks are wrong",where,(int)I.value);
    }
    if constexpr(sp.k==A){
      for(std::size_t n=0;n<fw.size();++n)
        if(&ix[n]!=fw[n]||ix.iterator_to(ix[n])-ix.begin()!=(std::ptrdiff_t)n)fail("load-coherence","%s: index %d positions are wrong",where,(int)I.value);
    }
    if constexpr(sp.k==H){
      std::set<std::pair<int,int>> closed;
      for(std::size_t n=0;n<fw.size();++n){
        auto x=keyof(sp.key,*fw[n]);
        if(n&&keyof(sp.key,*fw[n-1])==x){if(sp.u)fail("load-coherence","%s: index %d duplicate key",where,(int)I.value);continue;}
        if(!closed.insert(x).second)fail("load-coherence","%s: index %d splits a group of equivalent elements",where,(int)I.value);
      }
      std::size_t t=0;
      for(std::size_t b=0;b<ix.bucket_count();++b)for(auto l=ix.begin(b);l!=ix.end(b);++l,++t)
        if(ix.bucket(ix.key_extractor()(*l))!=b)fail("load-coherence","%s: index %d element in a wrong bucket",where,(int)I.value);
      if(t!=c.size())fail("load-coherence","%s: index %d buckets hold %zu elements",where,(int)I.value,t);
      if(ix.load_factor()>ix.max_load_factor()*1.001f+1e-6f)fail("load-coherence","%s: index %d load factor above its maximum",where,(int)I.value);
    }
    if constexpr(sp.k!=S&&sp.k!=A&&sp.key!=3){
      for(auto p:fw){
        auto kk=ix.key_extractor()(*p);
        std::size_t n=0;for(auto q:fw)n+=keyof(sp.key,*q)==keyof(sp.key,*p);
        if(ix.count(kk)!=n)fail("load-coherence","%s: index %d count(%d)=%zu, expected %zu",where,(int)I.value,(int)kk,(std::size_t)ix.count(kk),n);
        auto f=ix.find(kk);
        if(f==ix.end()||keyof(sp.key,*f)!=keyof(sp.key,*p))fail("load-coherence","%s: index %d find fails",where,(int)I.value);
      }
    }
    for(auto p:fw)s.ord[I.value].push_back(Obs{p->id,p->a,p->b});
  });
  return s;
}
static void same(const Snap& x,const Snap& y,const char* where){
  each([&](auto I){
    auto p=x.ord[I.value],q=y.ord[I.value];
    if(spec[I.value].k==H){std::sort(p.begin(),p.end());std::sort(q.begin(),q.end());}
    if(!(p==q))fail("round-trip","%s: index %d saved %s restored %s",where,(int)I.value,str(p).c_str(),str(q).c_str());
  });
}
static uint64_t hash(const Snap& s){
  uint64_t h=7;for(auto& o:s.ord){for(auto& v:o)h=mix(h,mix((uint64_t)v.id*131+v.a*17+v.b,h));h=mix(h,99);}return h;
}

/* random contents with orders unrelated to the base sequence */
static void populate(C& c,Rng& r,int n,int did,int da,int db){
  for(int k=0;k<n;++k){
    SV v(r.below(did),r.below(da),r.below(db));
    int which=r.below(N);
    each([&](auto I){
      if(I.value!=which)return;
      auto& ix=c.get<I.value>();
      constexpr K kd=spec[I.value].k;
      if constexpr(kd==S||kd==A){
        auto p=ix.begin();std::advance(p,r.below((int)c.size()+1));
        ix.insert(p,v);
      }
      else{
        if(r.chance(1,3)&&!c.empty()){auto h=ix.begin();std::advance(h,r.below((int)c.size()+1));ix.insert(h,v);}
        else ix.insert(v);
      }
    });
    if(r.chance(1,6)&&!c.empty()){
      each([&](auto I){
        if(I.value!=which)return;
        auto& ix=c.get<I.value>();
        auto p=ix.begin();std::advance(p,r.below((int)c.size()));
        if(r.chance(1,2))ix.erase(p);
        else{SV w=*p;w.a=r.below(da);w.b=r.below(db);ix.replace(p,w);}
      });
    }
  }
  int style=r.below(5);
  each([&](auto I){
    auto& ix=c.get<I.value>();
    constexpr K kd=spec[I.value].k;
    if constexpr(kd==S||kd==A){
      int m=style==0?0:style==1?1+r.below(3):style==2?(int)c.size():-1;
      if(m<0){
        if(r.chance(1,2))ix.reverse();
        else{std::vector<boost::reference_wrapper<const SV>> v;for(auto& e:ix)v.push_back(boost::cref(e));
          for(std::size_t i=v.size();i>1;--i)std::swap(v[i-1],v[(std::size_t)r.below((int)i)]);
          ix.rearrange(v.begin());}
      }
      for(int k=0;k<m&&!c.empty();++k){
        auto p=ix.begin(),q=ix.begin();std::advance(p,r.below((int)c.size()+1));std::advance(q,r.below((int)c.size()));
        ix.relocate(p,q);
      }
    }
    if constexpr(kd==H){if(r.chance(1,3))ix.rehash((std::size_t)r.below(200));}
  });
}

struct ItRef{int ix;std::size_t pos;bool local;std::size_t bucket;};
static const char* akind[]={"text","binary","xml","custom","old-version"};

static std::size_t hashed_ordinal(int i){std::size_t n=0;for(int k=0;k<i;++k)n+=spec[k].k==H;return n;}
/* local ends were pointers to the header, and the bucket array followed every iterator */
template<class Ar>bool drop_null(Ar&){return false;}
inline bool drop_null(MiniO& ar){
  if(!ar.old_iters||ar.recs.back().v)return false;
  ar.recs.pop_back();return true;
}
template<class Ar>void add_buckets(Ar&,int){}
inline void add_buckets(MiniO& ar,int ix){if(ar.old_iters)ar.recs.push_back(Rec{R_PTR,ar.buckets.at(hashed_ordinal(ix))});}
template<class Ar>void put_iter(Ar& ar,const C& c,const ItRef& q){
  each([&](auto I){
    if(I.value!=q.ix)return;
    const auto& ix=c.get<I.value>();
    if constexpr(spec[I.value].k==H){
      if(q.local){
        auto l=ix.begin(q.bucket);std::advance(l,(std::ptrdiff_t)q.pos);
        ar<<boost::make_nvp("liter",l);
        if(drop_null(ar)){const auto e=ix.end();ar<<boost::make_nvp("iter",e);}
        add_buckets(ar,q.ix);
        return;
      }
    }
    auto it=ix.begin();std::advance(it,(std::ptrdiff_t)q.pos);
    const auto cit=it;
    ar<<boost::make_nvp("iter",cit);
    if(spec[I.value].k==H)add_buckets(ar,q.ix);
  });
}
template<class Ar>void get_iter(Ar& ar,C& c,const ItRef& q,const Obs* want){
  each([&](auto I){
    if(I.value!=q.ix)return;
    auto& ix=c.get<I.value>();
    if constexpr(spec[I.value].k==H){
      if(q.local){
        typename Ix<I.value>::local_iterator l;
        ar>>boost::make_nvp("liter",l);
        if(!lc().strict)return;
        if(!want){if(l!=ix.end(q.bucket))fail("iterator-round-trip","a saved end local iterator is not end(n)");}
        else if(!(Obs{l->id,l->a,l->b}==*want))fail("iterator-round-trip","a saved local iterator denotes another element");
        else{
          std::size_t b=ix.bucket(ix.key_extractor()(*l));bool ok=false;
          for(auto m=ix.begin(b);m!=ix.end(b);++m)ok|=(m==l);
          if(!ok)fail("iterator-round-trip","a loaded local iterator is not in its bucket");
        }
        return;
      }
    }
    typename Ix<I.value>::iterator it;
    ar>>boost::make_nvp("iter",it);
    if(!lc().strict)return;
    if(!want){if(it!=ix.end())fail("iterator-round-trip","a saved end iterator of index %d is not end()",(int)I.value);}
    else{
      if(it==ix.end())fail("iterator-round-trip","a saved iterator of index %d loads as end()",(int)I.value);
      if(!(Obs{it->id,it->a,it->b}==*want))fail("iterator-round-trip","a saved iterator of index %d denotes another element",(int)I.value);
      if(spec[I.value].k!=H&&std::distance(ix.begin(),it)!=(std::ptrdiff_t)q.pos)
        fail("iterator-round-trip","a saved iterator of index %d loads at position %ld, was %zu",(int)I.value,(long)std::distance(ix.begin(),it),q.pos);
      if(!(ix.iterator_to(*it)==it))fail("iterator-round-trip","a loaded iterator of index %d does not belong to the container",(int)I.value);
    }
  });
}
static Obs ref_of(const C& c,const ItRef& q,bool& isend){
  Obs o{0,0,0};isend=true;
  each([&](auto I){
    if(I.value!=q.ix)return;
    const auto& ix=c.get<I.value>();
    if constexpr(spec[I.value].k==H){
      if(q.local){
        auto l=ix.begin(q.bucket);std::advance(l,(std::ptrdiff_t)q.pos);
        if(l!=ix.end(q.bucket)){isend=false;o=Obs{l->id,l->a,l->b};}
        return;
      }
    }
    auto it=ix.begin();std::advance(it,(std::ptrdiff_t)q.pos);
    if(it!=ix.end()){isend=false;o=Obs{it->id,it->a,it->b};}
  });
  return o;
}

template<class Ar>void save_all(Ar& ar,const C& c,const C* c2,const std::vector<ItRef>& its,const std::vector<const SV*>& ptrs,bool with_ptrs){
  int head=4711;
  ar<<boost::make_nvp("head",head);
  ar<<boost::make_nvp("container",c);
  for(auto& q:its)put_iter(ar,c,q);
  if(c2){const C& d=*c2;ar<<boost::make_nvp("second",d);}
  if constexpr(std::is_same<Ar,MiniO>::value){}
  else if(with_ptrs)for(const SV* const p:ptrs)ar<<boost::make_nvp("ptr",p);
  int tail=1174;
  ar<<boost::make_nvp("tail",tail);
}
template<class Ar>void load_all(Ar& ar,C& c,C* c2,const std::vector<ItRef>& its,const std::vector<std::pair<bool,Obs>>& want,
  const std::vector<Obs>& pw,bool with_ptrs){
  int head=0;
  ar>>boost::make_nvp("head",head);
  if(head!=4711&&!lc().strict)throw MiniErr();
  if(head!=4711)fail("archive-sync","value before the container not restored");
  ar>>boost::make_nvp("container",c);
  for(std::size_t k=0;k<its.size();++k)get_iter(ar,c,its[k],want[k].first?&want[k].second:nullptr);
  if(c2)ar>>boost::make_nvp("second",*c2);
  if constexpr(std::is_same<Ar,MiniI>::value){
    for(auto& m:ar.moved){(void)m;}
  }
  else if(with_ptrs)for(auto& o:pw){
    const SV* p=nullptr;
    ar>>boost::make_nvp("ptr",p);
    if(!lc().strict)continue;
    bool inside=false;
    for(auto& e:c.get<0>())inside|=(&e==p);
    if(!inside)fail("tracked-pointer","a pointer to an element does not load as a pointer to the restored element");
    if(!(Obs{p->id,p->a,p->b}==o))fail("tracked-pointer","a pointer to an element loads as a pointer to another element");
  }
  int tail=0;
  ar>>boost::make_nvp("tail",tail);
  if(!lc().strict)return;
  if(tail!=1174)fail("archive-sync","value after the container not restored");
}

struct Doc{std::string bytes;std::vector<Rec> recs;};
static Doc save_doc(int kind,const C& c,const C* c2,const std::vector<ItRef>& its,const std::vector<const SV*>& ptrs,bool wp,bool old_iters=false){
  Doc d;
  if(kind>=3){MiniO ar;ar.old_iters=old_iters;save_all(ar,c,c2,its,ptrs,wp);d.recs=ar.recs;return d;}
  std::ostringstream os;
  if(kind==0){boost::archive::text_oarchive ar(os);save_all(ar,c,c2,its,ptrs,wp);}
  else if(kind==1){boost::archive::binary_oarchive ar(os);save_all(ar,c,c2,its,ptrs,wp);}
  else{boost::archive::xml_oarchive ar(os);save_all(ar,c,c2,its,ptrs,wp);}
  d.bytes=os.str();
  return d;
}
static void load_doc(int kind,const Doc& d,C& c,C* c2,const std::vector<ItRef>& its,const std::vector<std::pair<bool,Obs>>& want,
  const std::vector<Obs>& pw,bool wp,int version=-1,bool old_iters=false){
  if(kind>=3){
    MiniI ar(d.recs);ar.container_version=version;ar.old_iters=old_iters;
    load_all(ar,c,c2,its,want,pw,wp);
    return;
  }
  std::istringstream is(d.bytes);
  if(kind==0){boost::archive::text_iarchive ar(is);load_all(ar,c,c2,its,want,pw,wp);}
  else if(kind==1){boost::archive::binary_iarchive ar(is);load_all(ar,c,c2,its,want,pw,wp);}
  else{boost::archive::xml_iarchive ar(is);load_all(ar,c,c2,its,want,pw,wp);}
}

/* a container that failed to load must still work */
static void usable(C& c,Rng& r,const char* where){
  observe(c,where);
  for(int k=0;k<4;++k){populate(c,r,3,30,4,4);observe(c,where);}
  while(!c.empty()){
    int which=r.below(N);
    each([&](auto I){
      if(I.value!=which||c.empty())return;
      auto& ix=c.get<I.value>();
      auto p=ix.begin();std::advance(p,r.below((int)c.size()));
      ix.erase(p);
    });
    if(c.size()%5==0)observe(c,where);
  }
  if(r.chance(1,2))c.clear();
  populate(c,r,5,30,4,4);
  observe(c,where);
}

enum Out{LOADED,ARCH_EXC,MINI_EXC,BOOM,BAD_ALLOC};
template<class F>Out attempt(F f){
  try{f();return LOADED;}
  catch(const Boom&){return BOOM;}
  catch(const MiniErr&){return MINI_EXC;}
  catch(const boost::archive::archive_exception&){return ARCH_EXC;}
  catch(const std::bad_alloc&){return BAD_ALLOC;}
  catch(const std::exception&){return ARCH_EXC;}
}

static void one_case(uint64_t k,Rng& r){
  long live0=vstats().live;std::size_t blk0=blocks().size();
  {
    Al al1(1),al2(2);
    int did=r.chance(1,2)?200:12,da=1+r.below(8),db=1+r.below(8);
    static const int sz[]={0,1,2,3,5,8,13,21,40,80};
    C c{typename C::ctor_args_list(),al1};
    int n=sz[r.below(10)];
    populate(c,r,n,did,da,db);
    std::unique_ptr<C> c2;
    if(r.chance(1,2)){c2.reset(new C(typename C::ctor_args_list(),al1));populate(*c2,r,sz[r.below(7)],did,da,db);}
    lg("container of %zu elements, domains %d %d %d, second container %s",c.size(),did,da,db,c2?"yes":"no");
    Snap sc=observe(c,"source"),sc2;
    if(c2)sc2=observe(*c2,"source");
    std::vector<ItRef> its;std::vector<std::pair<bool,Obs>> want;
    int m=r.below(10);
    for(int i=0;i<m;++i){
      ItRef q;q.ix=r.below(N);q.local=false;q.bucket=0;
      q.pos=r.chance(1,4)?c.size():r.chance(1,5)?0:(std::size_t)r.below((int)c.size()+1);
      each([&](auto I){
        if(I.value!=q.ix)return;
        if constexpr(spec[I.value].k==H){
          auto& ix=c.get<I.value>();
          if(r.chance(1,2)){q.local=true;
            if(c.empty()||r.chance(1,4)){q.bucket=(std::size_t)r.below((int)ix.bucket_count());}
            else{auto it=ix.begin();std::advance(it,r.below((int)c.size()));q.bucket=ix.bucket(ix.key_extractor()(*it));}
            q.pos=(std::size_t)r.below((int)ix.bucket_size(q.bucket)+1);
          }
        }
      });
      bool e;Obs o=ref_of(c,q,e);
      /* end(n) is compared in the same bucket, which a different bucket count may lack: every end(n) is the same value */
      if(q.local&&e)q.bucket=q.bucket;
      its.push_back(q);want.push_back(std::make_pair(!e,o));
    }
    std::vector<const SV*> ptrs;std::vector<Obs> pw;
    bool wp=r.chance(1,2);
    if(wp&&!c.empty())for(int i=0;i<3;++i){
      auto it=c.get<0>().begin();std::advance(it,r.below((int)c.size()));
      ptrs.push_back(&*it);pw.push_back(Obs{it->id,it->a,it->b});
    }
    int kind=r.below(4);
    lg("archive %s, %d iterators, %zu pointers",akind[kind],m,ptrs.size());
    lc()=LoadCtl();
    Doc d=save_doc(kind,c,c2.get(),its,ptrs,wp);
    same(sc,observe(c,"source after saving"),"source after saving");
    count("saved");
    /* end(n) buckets must exist in the destination: use n=0 there */
    auto its_l=its;for(std::size_t i=0;i<its.size();++i)if(its[i].local&&!want[i].first)its_l[i].bucket=0;
    auto fresh=[&](C& x){if(r.chance(2,3))populate(x,r,sz[r.below(8)],did,da,db);};
    /* 1. round trip */
    {
      C x{typename C::ctor_args_list(),al2},x2{typename C::ctor_args_list(),al2};
      fresh(x);fresh(x2);
      lc()=LoadCtl();
      Out o=attempt([&]{load_doc(kind,d,x,c2?&x2:nullptr,its_l,want,pw,wp);});
      if(o!=LOADED)fail("load-failed","a good archive (%s) does not load",akind[kind]);
      if(lc().badver)fail("value-version","the class version of the elements is not passed on loading");
      same(sc,observe(x,"restored"),"restored container");
      if(c2)same(sc2,observe(x2,"restored"),"restored second container");
      seen(hash(sc)^(uint64_t)kind*77);
      count("round-trips");count((std::string("archive-")+akind[kind]).c_str());
      if(!c.empty())count("non-empty-round-trips");
      /* saving the restored container again and loading it gives the same */
      int k2=r.below(4);
      std::vector<ItRef> no;std::vector<const SV*> nop;std::vector<std::pair<bool,Obs>> now;
      Doc d2=save_doc(k2,x,nullptr,no,nop,false);
      C y{typename C::ctor_args_list(),al1};
      if(attempt([&]{load_doc(k2,d2,y,nullptr,no,now,{},false);})!=LOADED)fail("load-failed","a good archive (%s) does not load",akind[k2]);
      Snap sy=observe(y,"restored twice");
      same(sc,sy,"container restored twice");
      /* both go on working */
      usable(x,r,"restored container in use");
      usable(y,r,"restored container in use");
    }
    ctx().evaluations+=2;
    /* 2. archives of older versions of the format */
    if(kind==3&&r.chance(1,2)){
      int v=r.range(0,3);
      lg("format version %d",v);
#ifdef VF_SAFE
      bool oi=false;
#else
      bool oi=r.chance(1,2);
#endif
      Doc o=save_doc(kind,c,c2.get(),its,ptrs,wp,oi);
      if(oi)count("old-iterator-loads",m);
      /* version 0 and 1 do not have the version of the element type */
      if(v<2){std::vector<Rec> t;for(auto& q:o.recs)if(q.t!=R_VER)t.push_back(q);o.recs=t;lc().expect_version=0;}
      C x{typename C::ctor_args_list(),al2},x2{typename C::ctor_args_list(),al2};
      fresh(x);
      lc()=LoadCtl();lc().expect_version=v<2?0:3;
      Out q=attempt([&]{load_doc(3,o,x,c2?&x2:nullptr,its_l,want,pw,wp,v,oi);});
      if(q!=LOADED)fail("old-version","an archive of format version %d does not load",v);
      if(lc().badver)fail("value-version","the class version of the elements is not passed on loading version %d",v);
      same(sc,observe(x,"restored"),"container restored from an old version");
      count("old-version-loads");++ctx().evaluations;
    }
    /* 3. truncation */
    for(int t=0;t<3;++t){
      std::size_t total=kind==3?d.recs.size():d.bytes.size();
      /* past this point the XML archive's own destructor would throw */
      if(kind==2){auto e=d.bytes.find("<tail>");if(e!=std::string::npos)total=e;}
      if(!total)break;
      std::size_t cut=r.chance(1,3)?total-1-(std::size_t)r.below((int)std::min<std::size_t>(total,60)):(std::size_t)r.below((int)total);
      Doc b=d;if(kind==3)b.recs.resize(cut);else b.bytes.resize(cut);
      lg("truncated at %zu of %zu",cut,total);
      C x{typename C::ctor_args_list(),al2},x2{typename C::ctor_args_list(),al2};
      fresh(x);fresh(x2);
      lc()=LoadCtl();lc().strict=false;
      Out o=attempt([&]{load_doc(kind,b,x,c2?&x2:nullptr,its_l,want,pw,wp);});
      if(o==LOADED){same(sc,observe(x,"truncated"),"archive cut after its end");count("truncated-harmless");}
      else count("truncated-rejected");
      usable(x,r,"after a truncated load");usable(x2,r,"after a truncated load");
      ++ctx().evaluations;
    }
    /* 4. an element that clashes with another one */
    if(c.size()>=2){
      int at=1+r.below((int)c.size()-1);
      const Obs& first=sc.ord[0][0];
      bool uniq=false;for(auto& q:spec)uniq|=q.u;
      lg("element %d loads as a duplicate of the first",at);
      C x{typename C::ctor_args_list(),al2},x2{typename C::ctor_args_list(),al2};
      fresh(x);
      lc()=LoadCtl();lc().clash_at=at;lc().cid=first.id;lc().ca=first.a;lc().cb=first.b;
      std::vector<ItRef> no;std::vector<std::pair<bool,Obs>> now;std::vector<const SV*> nop;
      Doc d3=save_doc(kind,c,nullptr,no,nop,false);
      lc().n=0;
      Out o=attempt([&]{load_doc(kind,d3,x,nullptr,no,now,{},false);});
      if(uniq&&o!=ARCH_EXC)fail("clash-accepted","an element refused by a unique index is not reported on loading (outcome %d)",(int)o);
      if(o==LOADED&&x.size()!=c.size())fail("clash-lost","an element was dropped on loading");
      count(uniq?"clash-reported":"clash-in-order");
      lc()=LoadCtl();
      usable(x,r,"after a clash on loading");
      ++ctx().evaluations;
    }
    /* 5. structural corruption, custom archive only */
    if(kind==3){
      std::vector<std::size_t> ptrpos,allptr;std::vector<int> posids;std::size_t countpos=0,endc=0;bool got=false;
      /* only the container proper, which ends where the iterators begin */
      std::vector<ItRef> no;std::vector<std::pair<bool,Obs>> now;std::vector<const SV*> nop;
      Doc base;std::size_t first_end=0;
      {MiniO ar;int h=4711;ar<<boost::make_nvp("head",h);const C& cc=c2?*c2:c;ar<<boost::make_nvp("first",cc);first_end=ar.recs.size();
       const C& ce=c;ar<<boost::make_nvp("container",ce);endc=ar.recs.size();base.recs=ar.recs;}
      for(std::size_t i=0;i<base.recs.size();++i){
        if(base.recs[i].t==R_U&&i>=first_end&&!got){countpos=i;got=true;}
        if(base.recs[i].t==R_PTR&&i>=first_end)allptr.push_back(i);
        if(base.recs[i].t==R_PTR&&i>=first_end&&base.recs[i].v)ptrpos.push_back(i);
        if(base.recs[i].t==R_POS)posids.push_back((int)base.recs[i].v);
      }
      for(int t=0;t<3;++t){
        Doc b=base;int what=r.below(5);bool must=false;
        if(what==0&&!allptr.empty()){ /* a node of another container, or a header or bucket array */
          std::vector<int> foreign;
          for(std::size_t i=0;i<first_end;++i)if(b.recs[i].t==R_POS)foreign.push_back((int)b.recs[i].v);
          /* the other container's nodes were saved first; bucket arrays are of another type: drop them */
          if(c2&&!c2->empty()){
            std::size_t nn=c2->size();
            b.recs[allptr[r.below((int)allptr.size())]].v=foreign[(std::size_t)r.below((int)nn)];
            must=true;lg("corruption: pointer to a node of another container");
          }
        }
        else if(what==1&&!allptr.empty()){b.recs[allptr[r.below((int)allptr.size())]].v=100000;must=true;lg("corruption: pointer to an unknown node");}
        else if(what==2&&!ptrpos.empty()){ /* another node of the same container: some other order */
          std::vector<int> own;for(std::size_t i=first_end;i<b.recs.size()&&own.size()<c.size();++i)if(b.recs[i].t==R_POS)own.push_back((int)b.recs[i].v);
          int how=1+r.below(3);
          for(int h=0;h<how;++h)b.recs[ptrpos[r.below((int)ptrpos.size())]].v=own[(std::size_t)r.below((int)own.size())];
          lg("corruption: other node of the same container");
        }
        else if(what==3&&got){
          long long nc=r.chance(1,3)?(1ll<<40):(long long)c.size()+1+r.below(4);
          b.recs[countpos].v=nc;must=true;lg("corruption: count %lld",nc);
        }
        else if(what==4&&got&&c.size()){
          b.recs[countpos].v=(long long)r.below((int)c.size());must=true;lg("corruption: count too small");
        }
        else continue;
        C x{typename C::ctor_args_list(),al2},x2{typename C::ctor_args_list(),al2};
        fresh(x);fresh(x2);
        lc()=LoadCtl();
        Out o=attempt([&]{
          MiniI ar(b.recs);int h;ar>>boost::make_nvp("head",h);ar>>boost::make_nvp("first",x2);ar>>boost::make_nvp("container",x);
          if(ar.pos!=b.recs.size())throw MiniErr();
        });
        if(must&&o==LOADED)fail("corruption-accepted","a corrupted archive (kind %d) loads without an exception",what);
        if(what<=1&&must&&o!=ARCH_EXC)fail("corruption-accepted","a pointer to a foreign node is not reported as a bad archive (outcome %d)",(int)o);
        count(o==LOADED?"corruption-tolerated":"corruption-reported");
        usable(x,r,"after a corrupted load");usable(x2,r,"after a corrupted load");
        ++ctx().evaluations;
      }
    }
    /* 6. failures while loading and saving */
    {
      bool saving=r.chance(1,4);
      std::vector<ItRef> no;std::vector<std::pair<bool,Obs>> now;std::vector<const SV*> nop;
      Doc d4=save_doc(kind,c,nullptr,no,nop,false);
      long step=1+r.below(3);
      int lim=0;
      for(long f=1;lim<60;f+=step,++lim){
        C x{typename C::ctor_args_list(),al2};
        Rng r2(mix(k,17));populate(x,r2,(int)(k%9),did,da,db);
        lc()=LoadCtl();
        Faults& ft=faults();ft=Faults();ft.mask=0xffff;ft.countdown=f;ft.armed=true;
        Out o=attempt([&]{if(saving)save_doc(kind,c,nullptr,no,nop,false);else load_doc(kind,d4,x,nullptr,no,now,{},false);});
        bool fired=ft.fired!=0;
        ft.armed=false;
        if(!fired)break;
        count("fault-runs");
        /* text and XML archives may report the failure of their stream instead */
        if(o==LOADED)fail("fault-swallowed","an exception thrown while %s was lost",saving?"saving":"loading");
        if(saving)same(sc,observe(c,"source"),"source after a failed save");
        else{observe(x,"after a failed load");Rng r3(mix(k,f));if(f%5==1)usable(x,r3,"after a failed load");}
        ++ctx().evaluations;
      }
    }
    same(sc,observe(c,"source at the end"),"source at the end");
  }
  if(vstats().live!=live0)fail("leak","%ld elements not destroyed",vstats().live-live0);
  if(blocks().size()!=blk0)fail("leak","%zu blocks not returned",blocks().size()-blk0);
  if(k<2)sample_log();
}
} /* vf */
int main(int argc,char** argv){
  vf::init(argc,argv);
  return vf::run_cases([](uint64_t k,vf::Rng& r){vf::one_case(k,r);});
}
