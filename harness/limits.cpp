// Capacity requests of every magnitude, from one element up to what size_t can
// express, with an allocator that refuses blocks above a budget: the request is
// either honoured in full or refused with an exception and no effect.
#include "core.hpp"
#include <stdexcept>
#include <limits>
#include <cmath>
#include <unordered_map>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/member.hpp>
using namespace vf;
namespace mi=boost::multi_index;
static std::size_t budget=std::size_t(440)<<20;
static std::size_t live_bytes=0,refused=0,overflowed=0;
static const std::size_t top=std::numeric_limits<std::size_t>::max();
template<class U>struct Al{
  typedef U value_type;
  Al(){}
  template<class V>Al(const Al<V>&){}
  U* allocate(std::size_t n){
    if(n>top/2/sizeof(U)){++overflowed;throw std::bad_alloc();}
    if(n*sizeof(U)>budget){++refused;throw std::bad_alloc();}
    live_bytes+=n*sizeof(U);
    return static_cast<U*>(::operator new(n*sizeof(U)));
  }
  void deallocate(U* p,std::size_t n){live_bytes-=n*sizeof(U);::operator delete(p);}
  template<class V>bool operator==(const Al<V>&)const{return true;}
  template<class V>bool operator!=(const Al<V>&)const{return false;}
};
struct E{std::size_t id;int a;};
typedef mi::member<E,std::size_t,&E::id> Id;typedef mi::member<E,int,&E::a> A;
/* the hash is a value over the whole range of size_t */
struct H{std::size_t operator()(std::size_t x)const{return x;}};
struct HA{std::size_t operator()(int x)const{return std::size_t(x)*0x9e3779b97f4a7c15ull;}};
typedef mi::multi_index_container<E,mi::indexed_by<
  mi::hashed_unique<Id,H>,mi::hashed_non_unique<A,HA>,mi::random_access<>,mi::sequenced<>>,Al<E>> C;

static std::size_t size_of_any_magnitude(Rng& r){
  switch(r.below(12)){
  case 0:return top-r.below(3);
  case 1:return top-r.below(100);
  case 2:return top/2+r.below(5)-2;
  case 3:return top/sizeof(void*)+r.below(5)-2;
  case 4:return top/(2*sizeof(void*))+r.below(5)-2;
  case 5:return r.next();
  case 6:case 7:return (std::size_t(1)<<r.below(64))+r.below(3)-1;
  default:{int b=1+r.below(25);return r.next()>>(64-b);}
  }
}
template<class I>static bool same_groups(const I& i,const std::vector<E>& m){
  std::size_t n=0;
  for(auto it=i.begin();it!=i.end();++it)++n;
  return n==m.size();
}
static void verify(const C& c,const std::vector<E>& m,Rng& r){
  ++ctx().evaluations;
  if(c.size()!=m.size())fail("size","size() is %zu, expected %zu",c.size(),m.size());
  std::size_t p=0;
  for(const E& e:c.get<2>()){if(e.id!=m[p].id)fail("order","position %zu of the random-access index",p);++p;}
  if(p!=m.size())fail("order","%zu elements in the random-access index",p);
  p=0;for(const E& e:c.get<3>()){if(e.id!=m[p].id)fail("order","position %zu of the list",p);++p;}
  if(p!=m.size())fail("order","%zu elements in the list",p);
  if(!same_groups(c.get<0>(),m)||!same_groups(c.get<1>(),m))fail("traversal","a hashed index does not hold every element once");
  std::map<int,std::size_t> g;
  for(const E& e:m){
    auto it=c.find(e.id);
    if(it==c.end()||it->id!=e.id)fail("find","element %zu not found with %zu buckets",e.id,c.bucket_count());
    ++g[e.a];
    std::size_t b=c.bucket(e.id);
    if(b>=c.bucket_count())fail("bucket","bucket(%zu) is %zu of %zu",e.id,b,c.bucket_count());
    bool in=false;for(auto l=c.begin(b);l!=c.end(b);++l)in|=l->id==e.id;
    if(!in)fail("bucket","element %zu is not in its bucket %zu",e.id,b);
  }
  for(auto& q:g){
    auto x=c.get<1>().equal_range(q.first);
    std::size_t n=0;for(auto i=x.first;i!=x.second;++i)n+=i->a==q.first;
    if(n!=q.second||c.get<1>().count(q.first)!=q.second)fail("equal_range","%zu elements with key %d, expected %zu",n,q.first,q.second);
    std::size_t b=c.get<1>().bucket(q.first);
    if(c.get<1>().bucket_size(b)<q.second)fail("bucket","bucket_size() %zu below the size of a group in it",c.get<1>().bucket_size(b));
  }
  std::size_t absent=r.next();
  bool there=false;for(const E& e:m)there|=e.id==absent;
  if((c.count(absent)!=0)!=there)fail("find","count() of an absent key");
  if(c.get<2>().capacity()<c.size())fail("capacity","capacity() below size()");
}
/* Postconditions that every hashed index has at any time after rehash or reserve */
template<class I>static void loads(const char* op,const I& i,std::size_t n){
  double mlf=i.max_load_factor();
  if((double)n>mlf*(double)i.bucket_count()*(1+1e-6)+1)fail(op,"%zu elements do not fit in %zu buckets at load factor %g",n,i.bucket_count(),mlf);
}
template<class I>static void hashed(C& c,I& i,Rng& r,std::vector<E>& m){
  static const float f[]={1.0f,1.0f,1.0f,0.25f,3.5f,100.0f,1e-3f,1e30f,1e-30f,std::numeric_limits<float>::max(),std::numeric_limits<float>::min()};
  if(r.chance(1,3)){
    float z=f[r.below(11)];
    i.max_load_factor(z);
    if(i.max_load_factor()!=z)fail("max_load_factor","%g, expected %g",i.max_load_factor(),z);
    count("load-factors");
  }
  std::size_t n=size_of_any_magnitude(r),before=i.bucket_count(),bytes=live_bytes;
  double mlf=i.max_load_factor();
  bool reserve=r.chance(1,2);
  /* upper bound of what the request needs: refusing it below that is not justified */
  double need=reserve?std::ceil((double)n/mlf):(double)n;
  need=std::max(need,1+(double)c.size()/mlf);
  lg("%s(%zu) at load factor %g with %zu buckets",reserve?"reserve":"rehash",n,mlf,before);
  try{
    if(reserve)i.reserve(n);else i.rehash(n);
    if(reserve)loads("reserve",i,n);
    else if(i.bucket_count()<n)fail("rehash","%zu buckets, %zu requested",i.bucket_count(),n);
    loads("rehash",i,c.size());
    if((double)i.bucket_count()>std::max({4*need+128,(double)before}))fail("rehash","%zu buckets where %g were needed",i.bucket_count(),need);
    count("requests-honoured");
    if(i.bucket_count()>1000000)count("million-buckets");
    seen(mix(i.bucket_count(),1));
  }
  catch(const std::exception& e){
    if(!dynamic_cast<const std::bad_alloc*>(&e)&&!dynamic_cast<const std::length_error*>(&e))fail("exception","unexpected exception %s",e.what());
    /* four times as much and the largest prime gap there is */
    if((4*need+128)*sizeof(void*)<(double)budget)fail("rehash","a request for %g buckets is refused",need);
    if(i.bucket_count()!=before)fail("rehash","bucket_count() changed by a request refused");
    if(live_bytes!=bytes)fail("rehash","memory not released after a request refused");
    count("requests-refused");
  }
}
static void insert(C& c,Rng& r,std::vector<E>& m){
  std::size_t bytes=live_bytes;
  E e={m.empty()||r.chance(3,4)?(r.chance(1,2)?r.next():size_of_any_magnitude(r)):m[r.below((int)m.size())].id,r.below(7)};
  bool dup=false;for(auto& x:m)dup|=x.id==e.id;
  try{
    bool in;
    switch(r.below(3)){
    case 0:in=c.insert(e).second;break;
    case 1:in=c.get<2>().push_back(e).second;break;
    default:in=c.get<3>().push_back(e).second;break;
    }
    if(in==dup)fail("insert","insertion returned %d",in);
    if(in)m.push_back(e);
    if(in&&(c.load_factor()>c.max_load_factor()*(1+1e-5)||c.get<1>().load_factor()>c.get<1>().max_load_factor()*(1+1e-5)))fail("insert","load factor above the maximum");
  }
  catch(const std::exception&){
    /* only a ridiculous load factor makes an insertion need that much */
    float z=std::min(c.max_load_factor(),c.get<1>().max_load_factor());
    if((4*((double)c.size()+1)/z+128)*sizeof(void*)<(double)budget)fail("insert","insertion refused at load factor %g",z);
    if(c.size()!=m.size())fail("insert","size changed by an insertion refused");
    count("insertions-refused");
    (void)bytes;
  }
}
int main(int argc,char** argv){
  init(argc,argv);
  return run_cases([&](uint64_t k,Rng& r){
    {
      C c;std::vector<E> m;
      for(int i=0;i<ctx().len;++i){
        switch(r.below(8)){
        case 0:case 1:hashed(c,c.get<0>(),r,m);break;
        case 2:hashed(c,c.get<1>(),r,m);break;
        case 3:case 4:{
          std::size_t n=size_of_any_magnitude(r),before=c.get<2>().capacity(),bytes=live_bytes;
          lg("reserve(%zu) with capacity %zu",n,before);
          try{
            c.get<2>().reserve(n);
            if(c.get<2>().capacity()<std::max(n,before))fail("reserve","capacity %zu after reserve(%zu) with %zu",c.get<2>().capacity(),n,before);
            if(c.get<2>().capacity()>std::max(2*n+64,before))fail("reserve","capacity %zu after reserve(%zu)",c.get<2>().capacity(),n);
            count("capacity-honoured");
          }
          catch(const std::exception& e){
            if(!dynamic_cast<const std::bad_alloc*>(&e)&&!dynamic_cast<const std::length_error*>(&e))fail("exception","unexpected exception %s",e.what());
            if((2*(double)n+64)*sizeof(void*)<(double)budget)fail("reserve","reserve(%zu) is refused",n);
            if(c.get<2>().capacity()!=before||live_bytes!=bytes)fail("reserve","capacity or memory changed by a request refused");
            count("capacity-refused");
          }
          break;}
        case 5:for(int j=1+r.below(60);j>0;--j)insert(c,r,m);lg("insertions: %zu",c.size());break;
        case 6:
          lg("erasures");
          for(int j=r.below(30);j>0&&!m.empty();--j){
            std::size_t p=r.below((int)m.size());
            if(c.erase(m[p].id)!=1)fail("erase","element not erased");
            m.erase(m.begin()+p);
          }
          break;
        default:
          lg("shrink");
          c.get<2>().shrink_to_fit();
          if(c.get<2>().capacity()!=c.size())fail("shrink_to_fit","capacity %zu at size %zu",c.get<2>().capacity(),c.size());
          c.max_load_factor(1.0f);c.get<1>().max_load_factor(1.0f);
          if(r.chance(1,2)){c.rehash(0);c.get<1>().rehash(0);loads("rehash",c,c.size());loads("rehash",c.get<1>(),c.size());}
          if(r.chance(1,4)){C d(c);verify(d,m,r);c.swap(d);}
        }
        verify(c,m,r);
      }
    }
    if(live_bytes)fail("leak","%zu bytes not released",live_bytes);
    if(k<2)sample_log();
  });
}
