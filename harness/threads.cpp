// Concurrency monitor, run under ThreadSanitizer: several threads read one
// container through const operations, and use containers and node handles of
// their own, with scheduling noise injected inside the user-supplied functors.
// Each result is compared with that of a single-threaded execution.
#ifndef CFG
#define CFG 0
#endif
#ifdef VF_SAFE
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#endif
#include "core.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/archive/archive_exception.hpp>
#include <boost/serialization/version.hpp>
#include <map>
#include <thread>
#include <mutex>
#include <atomic>
#include <deque>
#include <set>
#include <sched.h>
#include <time.h>
#ifndef BOOST_HAS_THREADS
#error build with -pthread
#endif
namespace vf{
namespace mi=boost::multi_index;
/* scheduling noise: each thread yields at random points inside functors */
static thread_local uint64_t noise_state=0;
static std::atomic<unsigned> noise_level{0};
struct Bang{};
static thread_local int bomb=0; /* makes the n-th call of a function object throw */
static inline void noise(){
  if(bomb>0&&--bomb==0)throw Bang();
  unsigned lv=noise_level.load(std::memory_order_relaxed);
  if(!lv||!noise_state)return;
  noise_state=noise_state*6364136223846793005ULL+1442695040888963407ULL;
  unsigned z=(unsigned)(noise_state>>33);
  if(z%4096<lv){
    if(z%3==0)sched_yield();
    else if(z%3==1){for(volatile int i=0;i<200;i=i+1){}}
    else{struct timespec t={0,1000};nanosleep(&t,nullptr);}
  }
}
struct P{int id,a,b;P(int i=0,int x=0,int y=0):id(i),a(x),b(y){}};
inline bool operator==(const P& x,const P& y){return x.id==y.id&&x.a==y.a&&x.b==y.b;}
inline bool operator<(const P& x,const P& y){noise();return x.id!=y.id?x.id<y.id:x.a!=y.a?x.a<y.a:x.b<y.b;}
struct KI{typedef int result_type;const int& operator()(const P& p)const{noise();return p.id;}int& operator()(P& p)const{noise();return p.id;}};
struct KX{typedef int result_type;const int& operator()(const P& p)const{noise();return p.a;}int& operator()(P& p)const{noise();return p.a;}};
struct KY{typedef int result_type;const int& operator()(const P& p)const{noise();return p.b;}int& operator()(P& p)const{noise();return p.b;}};
struct Lt{bool operator()(int x,int y)const{noise();return x<y;}};
struct Hs{std::size_t operator()(int x)const{noise();return (std::size_t)(unsigned)x*2654435761u;}};
struct Eqq{bool operator()(int x,int y)const{noise();return x==y;}};
typedef mi::composite_key<P,KX,KY> CK;
typedef mi::multi_index_container<P,mi::indexed_by<
  mi::ordered_unique<KI,Lt>,mi::ordered_non_unique<mi::tag<struct ByX>,KX,Lt>,mi::ranked_unique<KI,Lt>,mi::ranked_non_unique<KY,Lt>,
  mi::hashed_unique<KI,Hs,Eqq>,mi::hashed_non_unique<KX,Hs,Eqq>,mi::sequenced<>,mi::random_access<>,mi::ordered_non_unique<CK>,mi::hashed_non_unique<mi::identity<P>>,
  mi::hashed_non_unique<CK>>> C;
inline std::size_t hash_value(const P& p){return (std::size_t)p.id;}
/* converts to the key type: lookups that promote their argument */
struct ToInt{int v;operator int()const{return v;}};
struct ChainHash{std::size_t operator()(long x)const{noise();return (std::size_t)(unsigned)(int)x*2654435761u;}};
struct ChainEq{bool operator()(int x,long y)const{return x==y;}bool operator()(long x,int y)const{return x==y;}};
struct LtL{bool operator()(int x,long y)const{noise();return x<y;}bool operator()(long x,int y)const{noise();return x<y;}};

static inline uint64_t hp(const P& p){return mix((uint64_t)(unsigned)p.id*1000003u+(unsigned)p.a,(uint64_t)(unsigned)p.b);}
struct Acc{uint64_t h=1;void operator()(uint64_t x){h=mix(h,x);}void operator()(const P& p){h=mix(h,hp(p));}};
template<class It>static void walk(Acc& a,It f,It l){for(;f!=l;++f)a(*f);}
/* the unordered set of a range, for hashed indices of copies */
template<class It>static void bag(Acc& a,It f,It l){uint64_t s=0;for(;f!=l;++f)s+=hp(*f);a(s);}
template<int I>static void ordered_reads(Acc& a,const C& c,int p,int q){
  auto& ix=c.get<I>();
  auto it=ix.find(p);a(it==ix.end()?7:hp(*it));a(ix.count(p));a(ix.contains(q));
  auto r=ix.equal_range(p);walk(a,r.first,r.second);
  auto lo=ix.lower_bound(std::min(p,q)),up=ix.upper_bound(std::max(p,q));walk(a,lo,up);
  auto rg=ix.range([&](int k){return k>=p;},[&](int k){return k<=q;});walk(a,rg.first,rg.second);
  auto rg2=ix.range(mi::unbounded,[&](int k){return k<q;});walk(a,rg2.first,rg2.second);
  a(ix.key_comp()(p,q));
  if(it!=ix.end()){auto j=ix.iterator_to(*it);a(j==it);auto k=it;a(*k++);a(k==ix.end());}
  auto rb=ix.rbegin(),re=ix.rend();int n=0;for(;rb!=re&&n<5;++rb,++n)a(*rb);
  auto crb=ix.crbegin(),cre=ix.crend();for(n=0;crb!=cre&&n<3;++crb,++n)a(*crb);
  auto cb=ix.cbegin(),ce=ix.cend();for(n=0;cb!=ce&&n<3;++cb,++n)a(*cb);
  long lp=p,lq=q;LtL ll;
  auto jt=ix.find(lp,ll);a(jt==it);a(ix.count(lq,ll));a(ix.contains(lq,ll));
  a(ix.lower_bound(lp,ll)==r.first);a(ix.upper_bound(lp,ll)==r.second);auto r2=ix.equal_range(lp,ll);a(r2==r);
  ToInt tp{p},tq{q};
  a(ix.find(tp)==it);a(ix.count(tq));a(ix.contains(tp));a(ix.lower_bound(tp)==r.first);a(ix.upper_bound(tp)==r.second);a(ix.equal_range(tp)==r);
  auto rg3=ix.range([&](int k){return k>p;},mi::unbounded);a(rg3.first==ix.end()?1:hp(*rg3.first));a(rg3.second==ix.end());
  auto rg4=ix.range(mi::unbounded,mi::unbounded);a(rg4.first==ix.begin());a(rg4.second==ix.end());
  a(ix.size());a(ix.empty());a(ix.max_size()>0);(void)ix.get_allocator();(void)ix.key_extractor();a(ix.value_comp()(P(p,p,p),P(q,q,q)));
}
template<int I>static void ranked_reads(Acc& a,const C& c,int p,int q){
  auto& ix=c.get<I>();
  a(ix.find_rank(p));a(ix.lower_bound_rank(p));a(ix.upper_bound_rank(q));auto r=ix.equal_range_rank(p);a(r.first);a(r.second);
  a(ix.rank(ix.find(p)));auto n=ix.nth((std::size_t)(p&63));a(n==ix.end()?3:hp(*n));
  auto rr=ix.range_rank([&](int k){return k>=p;},[&](int k){return k<=q;});a(rr.first);a(rr.second);
  long lp=p,lq=q;LtL ll;ToInt tp{p};
  a(ix.find_rank(lp,ll));a(ix.lower_bound_rank(lp,ll));a(ix.upper_bound_rank(lq,ll));r=ix.equal_range_rank(lp,ll);a(r.first);a(r.second);
  a(ix.find_rank(tp));a(ix.lower_bound_rank(tp));a(ix.upper_bound_rank(tp));r=ix.equal_range_rank(tp);a(r.first);a(r.second);
  rr=ix.range_rank(mi::unbounded,[&](int k){return k<=q;});a(rr.first);a(rr.second);rr=ix.range_rank([&](int k){return k>=p;},mi::unbounded);a(rr.first);a(rr.second);
  rr=ix.range_rank(mi::unbounded,mi::unbounded);a(rr.second);a(ix.rank(ix.end()));a(ix.nth(ix.size())==ix.end());a(ix.count(p));a(ix.count(lp,ll));
}
template<int I>static void hashed_reads(Acc& a,const C& c,int p,int q){
  auto& ix=c.get<I>();
  auto it=ix.find(p);a(it==ix.end()?7:hp(*it));a(ix.count(q));a(ix.contains(p));auto r=ix.equal_range(p);walk(a,r.first,r.second);
  std::size_t b=ix.bucket(p);a(b);a(ix.bucket_size(b));walk(a,ix.begin(b),ix.end(b));walk(a,ix.cbegin(b),ix.cend(b));a(ix.bucket_count());a((uint64_t)(ix.load_factor()*1000));a((uint64_t)(ix.max_load_factor()*1000));
  a(ix.hash_function()(p));a(ix.key_eq()(p,q));a(ix.max_bucket_count()>0);
  if(it!=ix.end()){auto l=ix.local_iterator_to(*it);a(*l);a(ix.iterator_to(*it)==it);}
  long lp=p,lq=q;ToInt tp{p};ChainHash ch;ChainEq ce;
  auto jt=ix.find(lp,ch,ce);a(jt==it);a(ix.count(lq,ch,ce));a(ix.contains(lp,ch,ce));a(ix.equal_range(lp,ch,ce)==r);
  a(ix.find(tp)==it);a(ix.count(tp));a(ix.contains(tp));a(ix.equal_range(tp)==r);
  a(ix.size());a(ix.empty());a(ix.max_size()>0);(void)ix.get_allocator();(void)ix.key_extractor();a(ix.cend()==ix.end());
  int n=0;for(auto i=ix.cbegin();i!=ix.cend()&&n<3;++i,++n)a(*i);
}
/* an archive that digests what is saved: saving is a const operation, too */
struct Digest{
  typedef boost::mpl::bool_<true> is_saving;typedef boost::mpl::bool_<false> is_loading;
  Acc a;std::map<const void*,int> ids;
  template<class T>Digest& operator<<(const boost::serialization::nvp<T>& x){put(x.const_value());return *this;}
  template<class T>Digest& operator&(const boost::serialization::nvp<T>& x){return *this<<x;}
  void put(const P& p){a(p);}
  void put(const std::size_t& n){a(n);}
  template<class T>void put(T* const& p){a(p?(uint64_t)ids[p]:77);}
  template<class T>void put(const T& x){int n=(int)ids.size()+1;ids.insert(std::make_pair((const void*)&x,n));}
};
static const int KINDS=20;
static const char* kind_name(int k){
  static const char* n[]={"ordered-unique","ordered","ranked-unique","ranked","ranks-unique","ranks","hashed-unique","hashed","sequenced","random-access","composite","hashed-identity","iterate-all","project","copy","compare","size-queries","iterator-copies","save","composite-hashed"};
  return n[k];
}
static uint64_t read_op(const C& c,const C& other,int kind,int p,int q){
  Acc a;
  switch(kind){
    case 0:ordered_reads<0>(a,c,p,q);break;
    case 1:ordered_reads<1>(a,c,p&7,q&7);break;
    case 2:ordered_reads<2>(a,c,p,q);break;
    case 3:ordered_reads<3>(a,c,p&7,q&7);break;
    case 4:ranked_reads<2>(a,c,p,q);break;
    case 5:ranked_reads<3>(a,c,p&7,q&7);break;
    case 6:hashed_reads<4>(a,c,p,q);break;
    case 7:hashed_reads<5>(a,c,p&7,q&7);break;
    case 8:{auto& s=c.get<6>();walk(a,s.begin(),s.end());walk(a,s.rbegin(),s.rend());if(s.size()){a(s.front());a(s.back());a(*s.iterator_to(s.front()));}a(s.empty());a(s.max_size()>0);(void)s.get_allocator();
      int n=0;for(auto i=s.crbegin();i!=s.crend()&&n<3;++i,++n)a(*i);n=0;for(auto i=s.cbegin();i!=s.cend()&&n<3;++i,++n)a(*i);break;}
    case 9:{auto& s=c.get<7>();std::size_t n=s.size();if(n){a(s[(std::size_t)p%n]);a(s.at((std::size_t)q%n));a(s.front());a(s.back());auto it=s.begin()+(std::ptrdiff_t)((std::size_t)p%n);a(*it);a((uint64_t)(s.end()-it));a(it<s.end());}
      a(s.capacity());try{a(s.at(n));}catch(const std::out_of_range&){a(99);}walk(a,s.cbegin(),s.cend());
      if(n){a((uint64_t)(s.iterator_to(s[(std::size_t)p%n])-s.begin()));}a(s.empty());a(s.max_size()>0);(void)s.get_allocator();
      int m=0;for(auto i=s.crbegin();i!=s.crend()&&m<3;++i,++m)a(*i);m=0;for(auto i=s.rbegin();i!=s.rend()&&m<3;++i,++m)a(*i);break;}
    case 10:{auto& s=c.get<8>();auto r=s.equal_range(boost::make_tuple(p&7));walk(a,r.first,r.second);auto r2=s.equal_range(std::make_tuple(p&7,q&7));walk(a,r2.first,r2.second);a(s.count(q&7));
      if(r2.first!=r2.second){auto k=s.key_extractor()(*r2.first);a(s.find(k)==r2.first);a(s.key_comp()(k,std::make_tuple(q&7)));a(s.key_comp()(boost::make_tuple(q&7),k));a(k==k);a(k<boost::make_tuple(p&7,p&7));a(k==std::make_tuple(p&7,q&7));}break;}
    case 11:{auto& s=c.get<9>();P v(p,p%8,q%8);a(s.count(v));a(s.find(v)==s.end());(void)s.key_eq();break;}
    case 12:walk(a,c.get<0>().begin(),c.get<0>().end());walk(a,c.get<3>().begin(),c.get<3>().end());walk(a,c.get<5>().begin(),c.get<5>().end());break;
    case 13:{auto it=c.get<0>().lower_bound(p);
      a(c.project<1>(it)==c.get<1>().end());auto s=c.project<6>(it);if(s!=c.get<6>().end()){a(*s);auto h=c.project<4>(s);a(*h);auto r=c.project<7>(h);a((uint64_t)(r-c.get<7>().begin()));auto k=c.project<3>(r);a(c.get<3>().rank(k));a(c.project<ByX>(k)==c.project<1>(it));}a(c.get<ByX>().size());break;}
    case 14:{C d(c);walk(a,d.get<0>().begin(),d.get<0>().end());walk(a,d.get<6>().begin(),d.get<6>().end());walk(a,d.get<3>().begin(),d.get<3>().end());bag(a,d.get<5>().begin(),d.get<5>().end());
      d.insert(P(100000+p,p&7,q&7));d.get<6>().reverse();if(d.size())d.get<7>().pop_front();a(d.size());a(c.size());break;}
    case 15:a(c==other);a(c.get<1>()==other.get<1>());a(c.get<6>()<other.get<6>());a(c.get<7>()>=other.get<7>());a(c.get<3>()!=other.get<3>());a(c.get<9>()==other.get<9>());a(c.get<4>()==other.get<4>());a(c.get<5>()!=other.get<5>());a(c.get<10>()==other.get<10>());a(c.get<0>()<=other.get<0>());a(c.get<2>()>other.get<2>());a(c==c);a(c<other);break;
    case 16:a(c.size());a(c.empty());a(c.max_size()>0);a(c.get<4>().size());a(c.get<6>().empty());(void)c.get_allocator();a(c.get<1>().key_extractor()(P(p,q,1)));a(c.get<0>().value_comp()(P(p),P(q)));break;
    case 17:{std::vector<decltype(c.get<1>().begin())> v(4,c.get<1>().begin());for(auto& i:v)for(int n=p&3;n&&i!=c.get<1>().end();--n)++i;v[0]=v[3];v[1]=c.get<1>().end();std::swap(v[1],v[2]);for(auto& i:v)a(i==c.get<1>().end()?5:hp(*i));break;}
    case 18:{Digest d;d.put(std::size_t(1));boost::serialization::access::serialize(d,const_cast<C&>(c),4u);a(d.a.h);break;}
    case 19:{auto& s=c.get<10>();auto t=boost::make_tuple(p&7,q&7);auto t2=std::make_tuple(p&7,q&7);
      auto r=s.equal_range(t);bag(a,r.first,r.second);auto r2=s.equal_range(t2);a(r==r2);a(s.count(t));a(s.contains(t2));a(s.hash_function()(t)==s.hash_function()(t2));
      if(r.first!=r.second){auto k=s.key_extractor()(*r.first);a(s.find(k)==r.first);a(s.bucket(k)==s.bucket(s.key_extractor()(*r.first)));a(s.key_eq()(k,t2));a(s.key_eq()(t,k));a(s.key_eq()(k,k));a(s.hash_function()(k)==s.hash_function()(t));}break;}
  }
  return a.h;
}
static std::atomic<uint64_t> booms{0};
static void count_boom(){booms.fetch_add(1,std::memory_order_relaxed);}
/* no thread finishing anything for a minute is a deadlock */
static std::atomic<uint64_t>& progress(){static std::atomic<uint64_t> p{0};return p;}
static void watchdog(){
  std::thread([]{
    uint64_t last=progress();int still=0;
    for(;;){
      struct timespec t={1,0};nanosleep(&t,nullptr);
      uint64_t p=progress();
      if(p==last){if(++still>=60)fail("deadlock","no operation has finished for a minute");}
      else{still=0;last=p;}
    }
  }).detach();
}
struct Ev{uint64_t t0,t1;int kind;};
static uint64_t now(){struct timespec t;clock_gettime(CLOCK_MONOTONIC,&t);return (uint64_t)t.tv_sec*1000000000u+(uint64_t)t.tv_nsec;}

static C make(Rng& r,int n,int dom){
  C c;
  for(int i=0;i<n;++i)c.insert(P(r.below(dom),r.below(8),r.below(8)));
  std::vector<boost::reference_wrapper<const P>> v;for(auto& e:c.get<6>())v.push_back(boost::cref(e));
  for(std::size_t i=v.size();i>1;--i)std::swap(v[i-1],v[(std::size_t)r.below((int)i)]);
  c.get<6>().rearrange(v.begin());
  if(r.chance(1,2)&&c.size()>3)for(int i=0;i<2;++i)c.get<1>().erase(c.get<1>().begin());
  if(r.chance(1,3))c.get<5>().rehash((std::size_t)r.below(500));
  return c;
}
static void shared_reads(Rng& r){
  int n=r.chance(1,6)?r.below(3):r.below(120),dom=n+10;
  Rng rc(r.next()),rd(r.chance(1,2)?rc.s:r.next());Rng rc2=rc,rd2=rd;
  C c=make(rc,n,dom),d=make(rd,n,dom);
  const C& cc=c;const C& cd=d;
  const int NT=4+r.below(3),NOP=r.chance(1,2)?60:25;
  noise_level=r.chance(1,4)?0:(unsigned)(1<<r.below(8));
  bool focus=r.chance(1,3);int fk=r.below(KINDS);
  lg("shared reads: %d elements, %d threads x %d operations, noise %u%s%s",n,NT,NOP,noise_level.load(),focus?", focus ":"",focus?kind_name(fk):"");
  struct Op{int kind,p,q;uint64_t want;};
  std::vector<std::vector<Op>> plan((std::size_t)NT);
  noise_state=0;
  for(auto& pl:plan)for(int i=0;i<NOP;++i){Op o{focus&&r.chance(3,4)?fk:r.below(KINDS),r.below(dom+5),r.below(dom+5),0};pl.push_back(o);}
  /* the expected results come from containers of their own, so that the first
     use of the shared ones is concurrent (lazily computed state would show) */
  {C c2=make(rc2,n,dom),d2=make(rd2,n,dom);
   for(auto& pl:plan)for(auto& o:pl)o.want=read_op(c2,d2,o.kind,o.p,o.q);}
  std::vector<std::string> err((std::size_t)NT);std::vector<std::vector<Ev>> ev((std::size_t)NT);
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for(int t=0;t<NT;++t){uint64_t seed=r.next()|1;th.emplace_back([&,t,seed]{
    noise_state=seed;
    ready.fetch_add(1);while(ready.load()<NT)sched_yield();
    for(auto& o:plan[(std::size_t)t]){
      Ev e{now(),0,o.kind};
      uint64_t got=read_op(cc,cd,o.kind,o.p,o.q);
      e.t1=now();++progress();ev[(std::size_t)t].push_back(e);
      if(got!=o.want){err[(std::size_t)t]=std::string(kind_name(o.kind))+" gives another result than alone";break;}
    }
  });}
  for(auto& t:th)t.join();
  for(auto& e:err)if(!e.empty())fail("concurrent-read","%s",e.c_str());
  for(auto& v:ev){ctx().evaluations+=v.size();count("concurrent-reads",v.size());}
  /* which pairs of operations really overlapped */
  uint64_t ov=0;
  for(int a=0;a<NT;++a)for(int b=a+1;b<NT;++b){
    std::size_t j=0;
    for(auto& x:ev[(std::size_t)a]){
      while(j<ev[(std::size_t)b].size()&&ev[(std::size_t)b][j].t1<x.t0)++j;
      for(std::size_t k=j;k<ev[(std::size_t)b].size()&&ev[(std::size_t)b][k].t0<=x.t1;++k){++ov;seen(mix(4242,(uint64_t)(std::min(x.kind,ev[(std::size_t)b][k].kind)*64+std::max(x.kind,ev[(std::size_t)b][k].kind))));}
    }
  }
  count("overlapping-pairs",ov);
}
typedef C::node_type Node;
/* an archive on a tape in memory, for loading */
struct Tape{std::vector<uint64_t> w;std::vector<P> v;};
struct SaveTape{
  typedef boost::mpl::bool_<true> is_saving;typedef boost::mpl::bool_<false> is_loading;
  Tape& t;std::map<const void*,int> ids;
  SaveTape(Tape& x):t(x){}
  template<class T>SaveTape& operator<<(const boost::serialization::nvp<T>& x){put(x.const_value());return *this;}
  template<class T>SaveTape& operator&(const boost::serialization::nvp<T>& x){return *this<<x;}
  void put(const P& p){t.v.push_back(p);}
  void put(const std::size_t& n){t.w.push_back(n);}
  template<class T>void put(T* const& p){t.w.push_back(p?(uint64_t)ids[p]:0);}
  template<class T>void put(const T& x){int n=(int)ids.size()+1;ids.insert(std::make_pair((const void*)&x,n));}
};
struct LoadTape{
  typedef boost::mpl::bool_<false> is_saving;typedef boost::mpl::bool_<true> is_loading;
  const Tape& t;std::size_t w=0,v=0;std::vector<void*> obj;
  LoadTape(const Tape& x):t(x){}
  template<class T>LoadTape& operator>>(const boost::serialization::nvp<T>& x){get(x.value());return *this;}
  template<class T>LoadTape& operator&(const boost::serialization::nvp<T>& x){return *this>>x;}
  void reset_object_address(const void*,const void*){}
  void get(P& p){noise();p=t.v.at(v++);}
  void get(std::size_t& n){n=t.w.at(w++);}
  template<class T>void get(T*& p){std::size_t n=t.w.at(w++);p=n?static_cast<T*>(obj.at(n-1)):0;}
  template<class T>void get(T& x){obj.push_back(&x);}
};
template<class Ix>static typename Ix::iterator some(Ix& ix,int n){auto it=ix.begin();for(n%=16;n&&it!=ix.end();--n)++it;return it;}
template<class Ix>static typename Ix::iterator elem(Ix& ix,int n){auto it=some(ix,n);return it==ix.end()?ix.begin():it;}
/* what keyed indices have in common */
template<int I,class K>static void keyed(Rng& r,Acc& a,C& c,C& d,int w,const P& v,const K& k){
  auto& x=c.get<I>();auto& y=d.get<I>();int n=r.below(16),m=r.below(16);
  bool e=c.size()!=0;P z(v.id+1,v.b,v.a);
  switch(w){
  case 0:a(x.emplace(v.id,v.a,v.b).second);break;
  case 1:x.emplace_hint(some(x,n),v.id,v.a,v.b);break;
  case 2:x.insert(some(x,n),v);break;
  case 3:{P t(v);x.insert(some(x,n),std::move(t));break;}
  case 4:{P t[3]={v,z,P(v.id+2,v.a,v.b)};x.insert(t,t+3);break;}
  case 5:x.insert({v,z});break;
  case 6:if(d.size()){auto nh=y.extract(elem(y,m));x.insert(some(x,n),std::move(nh));}break;
  case 7:if(e)x.erase(elem(x,n));break;
  case 8:{auto f=some(x,n),l=f;for(int i=0;i<3&&l!=x.end();++i)++l;x.erase(f,l);break;}
  case 9:a(x.erase(k));break;
  case 10:if(e)a(x.replace(elem(x,n),v));break;
  case 11:if(e){P t(v);a(x.replace(elem(x,n),std::move(t)));}break;
  case 12:if(e){P o=*elem(x,n);a(x.modify(elem(x,n),[&](P& p){p=v;noise();},[&](P& p){p=o;}));}break;
  case 13:if(e)a(x.modify(elem(x,n),[&](P& p){p=v;noise();}));break;
  case 14:x.merge(y);break;
  case 15:x.merge(std::move(y));break;
  case 16:if(d.size()){auto q=x.merge(y,elem(y,m));a(q.second);}break;
  case 17:{auto f=some(y,m),l=f;for(int i=0;i<3&&l!=y.end();++i)++l;x.merge(y,f,l);break;}
  case 18:if(e){auto q=x.merge(x,elem(x,n));a(q.second);x.merge(x);}break;
  case 19:x.swap(y);break;
  case 20:if(r.chance(1,6))x.clear();break;
  case 21:{auto nh=x.extract(k);if(nh){Node t;t=std::move(nh);swap(nh,t);a(nh.value());auto q=x.insert(std::move(nh));decltype(q) q2(std::move(q));q=std::move(q2);a(q.inserted);}break;}
  case 22:if(e)a(x.iterator_to(*elem(x,n))==elem(x,n));break;
  case 23:{auto nh=x.extract(k);swap(x,y);if(c.size())x.merge(std::move(y));break;}
  }
}
template<int I,class M>static void key_change(C& c,int w,int n,M m){
  auto& x=c.get<I>();if(!c.size())return;
  int o=(int)x.key_extractor()(*elem(x,n));
  if(w)x.modify_key(elem(x,n),m);else x.modify_key(elem(x,n),m,[&](int& k){k=o;});
}
template<int I>static void listed(Rng& r,Acc& a,C& c,C& d,int w,const P& v){
  auto& x=c.get<I>();auto& y=d.get<I>();int n=r.below(16),m=r.below(16);bool e=c.size()!=0;P z(v.id+1,v.b,v.a);
  auto eq=[](const P& p,const P& q){noise();return p.a==q.a;};auto lt=[](const P& p,const P& q){noise();return p.a<q.a;};
  switch(w){
  case 0:a(x.emplace(some(x,n),v.id,v.a,v.b).second);break;
  case 1:x.emplace_front(v.id,v.a,v.b);x.emplace_back(z.id,z.a,z.b);break;
  case 2:x.push_front(v);x.push_back(z);break;
  case 3:{P t(v),u(z);x.push_back(std::move(t));x.push_front(std::move(u));break;}
  case 4:if(e){x.pop_front();if(c.size())x.pop_back();}break;
  case 5:x.insert(some(x,n),v);break;
  case 6:{P t(v);x.insert(some(x,n),std::move(t));break;}
  case 7:x.insert(some(x,n),2,v);break;
  case 8:{P t[3]={v,z,P(v.id+2,v.a,v.b)};x.insert(some(x,n),t,t+3);break;}
  case 9:x.insert(some(x,n),{v,z});break;
  case 10:if(d.size()){auto nh=y.extract(elem(y,m));auto q=x.insert(some(x,n),std::move(nh));a(q.inserted);}break;
  case 11:if(e)x.erase(elem(x,n));break;
  case 12:{auto f=some(x,n),l=f;for(int i=0;i<3&&l!=x.end();++i)++l;x.erase(f,l);break;}
  case 13:if(e)a(x.replace(elem(x,n),v));break;
  case 14:if(e){P t(v);a(x.replace(elem(x,n),std::move(t)));}break;
  case 15:if(e){P o=*elem(x,n);a(x.modify(elem(x,n),[&](P& p){p=v;},[&](P& p){p=o;}));}break;
  case 16:x.splice(some(x,n),y);break;
  case 17:if(d.size())x.splice(some(x,n),y,elem(y,m));break;
  case 18:{auto f=some(y,m),l=f;for(int i=0;i<3&&l!=y.end();++i)++l;x.splice(some(x,n),y,f,l);break;}
  case 19:if(e)x.splice(some(x,n),x,elem(x,m));break;
  case 20:x.remove(v);break;
  case 21:x.remove_if([&](const P& p){noise();return p.a==v.a;});break;
  case 22:x.unique(eq);break;
  case 23:x.unique();break;
  case 24:x.sort(lt);y.sort(lt);x.merge(y,lt);break;
  case 25:x.sort();y.sort();x.merge(y);break;
  case 26:x.reverse();break;
  case 27:if(e)x.relocate(some(x,n),elem(x,m));break;
  case 28:{auto f=some(x,n),l=f;for(int i=0;i<3&&l!=x.end();++i)++l;x.relocate(f!=x.begin()&&r.chance(1,2)?x.begin():x.end(),f,l);break;}
  case 29:{std::vector<boost::reference_wrapper<const P>> q;for(auto& p:x)q.push_back(boost::cref(p));for(std::size_t i=q.size();i>1;--i)std::swap(q[i-1],q[(std::size_t)r.below((int)i)]);x.rearrange(q.begin());break;}
  case 30:if(r.chance(1,4))x.assign({v,z,P(v.id+2,1,1)});break;
  case 31:if(r.chance(1,4))x.assign(3,v);break;
  case 32:x.resize(c.size()>3?c.size()-2:c.size());break;
  case 33:x.resize(c.size()+1,v);break;
  case 34:x.swap(y);break;
  case 35:if(e)a(x.iterator_to(*elem(x,n))==elem(x,n));break;
  case 36:if(r.chance(1,4)){P t[3]={v,z,P(v.id+2,v.a,v.b)};x.assign(t,t+3);}break;
  case 37:x.splice(some(x,n),std::move(y));break;
  case 38:if(e)a(x.modify(elem(x,n),[&](P& p){p=v;noise();}));break;
  case 39:x.splice(x.end(),x);{auto f=some(x,n),l=f;for(int i=0;i<3&&l!=x.end();++i)++l;x.splice(l,x,f,l);if(f!=x.begin())x.splice(x.begin(),x,f,l);}break;
  case 40:swap(x,y);a(x==y);a(x!=y);a(x<y);a(x>y);a(x<=y);a(x>=y);break;
  case 41:x.resize(c.size()+2);break;
  case 42:if(d.size())x.splice(some(x,n),std::move(y),elem(y,m));x.splice(x.end(),std::move(y),y.begin(),some(y,m));break;
  }
}
static void whole(Rng& r,Acc& a,C& c,C& d,int w,const P& v){
  P z(v.id+1,v.b,v.a);
  switch(w){
  case 0:{P t[3]={v,z,P(v.id+2,v.a,v.b)};C e(t,t+3);a(e.size());e.swap(d);break;}
  case 1:{C e({v,z});swap(e,d);break;}
  case 2:{C e(c,c.get_allocator());a(e==c);break;}
  case 3:{C e(std::move(c),c.get_allocator());a(e.size());c=std::move(e);break;}
  case 4:d={v,z};break;
  case 5:{C e{C::allocator_type()};e=d;a(e==d);C f{C::ctor_args_list()};f=std::move(e);a(f.size());break;}
  case 6:if(c.size()){auto it=elem(c.get<0>(),r.below(16));a(mi::get<7>(c).begin()+(mi::project<7>(c,it)-mi::get<7>(c).begin())==c.project<7>(it));a(mi::project<ByX>(c,it)==c.project<1>(it));a(mi::get<ByX>(c).size());}break;
  case 7:{Tape t;SaveTape s(t);int b=bomb;bomb=0;boost::serialization::access::serialize(s,c,4u);LoadTape l(t);bomb=b;boost::serialization::access::serialize(l,d,4u);a(c==d);break;}
  case 8:a(c==d);a(c!=d);a(c<d);a(c>d);a(c<=d);a(c>=d);break;
  case 9:{auto& x=c.get<5>();x.max_load_factor(r.chance(1,2)?1.0f:2.5f);x.reserve((std::size_t)r.below(200));std::size_t b=(std::size_t)r.below((int)x.bucket_count());a(x.begin(b)==x.end(b));break;}
  case 10:{auto& x=c.get<7>();x.reserve((std::size_t)r.below(200));x.shrink_to_fit();a(x.capacity());break;}
  case 11:{auto& x=c.get<4>();x.rehash(0);if(c.size())a(*x.local_iterator_to(*x.begin()));break;}
  case 12:{C e;e.get<4>()=c.get<4>();C f;f.get<6>()=c.get<6>();f.get<1>()={v,z};f.get<7>()={v};a(e==c);a(f.size());break;}
  }
}
static void wide(Rng& r,Acc& a,C& c,C& d){
  P v(r.below(40),r.below(8),r.below(8));
  int w=r.below(12);
  if(r.chance(1,5))bomb=1+r.below(60);
  int k=r.below(24),l=r.below(43),m=r.below(13),u=r.below(2),n=r.below(16);
  try{
    switch(w){
    case 0:keyed<0>(r,a,c,d,k,v,v.id);break;
    case 1:keyed<1>(r,a,c,d,k,v,v.a);break;
    case 2:keyed<2>(r,a,c,d,k,v,v.id);break;
    case 3:keyed<3>(r,a,c,d,k,v,v.b);break;
    case 4:keyed<4>(r,a,c,d,k,v,v.id);break;
    case 5:keyed<5>(r,a,c,d,k,v,v.a);break;
    case 6:case 7:listed<6>(r,a,c,d,l,v);break;
    case 8:case 9:listed<7>(r,a,c,d,l,v);break;
    case 10:whole(r,a,c,d,m,v);break;
    default:key_change<0>(c,u,n,[&](int& q){q=v.id;noise();});key_change<1>(c,u,n,[&](int& q){q=v.a;});key_change<4>(c,u,n,[&](int& q){q=v.id;});key_change<5>(c,u,n,[&](int& q){q=v.a;noise();});
    }
    bomb=0;
  }
  catch(const Bang&){bomb=0;a(4711);count_boom();}
  catch(const boost::archive::archive_exception&){bomb=0;a(4712);}
  if(c.size()>300)c.clear();
  if(d.size()>300)d.clear();
  a(c.size());a(d.size());
}
/* a history on containers of one thread's own; returns a digest */
struct Mail{std::mutex m;std::deque<Node> q;};
static uint64_t own_history(uint64_t seed,Mail* in,Mail* out){
  Rng r(seed);Acc a;C c,d;
  std::vector<Node> pool;
  int n=60+r.below(60);bool wd=r.chance(2,3);
  for(int i=0;i<n;++i){
    if(wd&&r.chance(3,4)){wide(r,a,c,d);++progress();continue;}
    int id=r.below(40),x=r.below(8),y=r.below(8);
    switch(r.below(20)){
      case 0:case 1:case 2:case 3:case 4:a(c.insert(P(id,x,y)).second);break;
      case 5:c.get<5>().insert(P(id,x,y));break;
      case 6:a(c.get<0>().erase(id));break;
      case 7:a(c.get<1>().erase(x));break;
      case 8:{auto it=c.get<4>().find(id);if(it!=c.get<4>().end())a(c.get<4>().modify(it,[&](P& p){p.a=x;p.b=y;}));break;}
      case 9:{auto it=c.get<2>().find(id);if(it!=c.get<2>().end())a(c.get<2>().replace(it,P(id+1,x,y)));break;}
      case 10:d=c;a(d.size());break;
      case 11:c.swap(d);break;
      case 12:if(x&1)c.get<0>().merge(d.get<0>());else d.get<0>().merge(c.get<0>());a(c.size());a(d.size());break;
      case 13:c.get<6>().sort();c.get<7>().reverse();break;
      case 14:{auto nh=c.get<0>().extract(id);if(nh){a(nh.value());pool.push_back(std::move(nh));}break;}
      case 15:if(!pool.empty()){auto res=d.get<4>().insert(std::move(pool.back()));a(res.inserted);pool.pop_back();}break;
      case 16:c.get<5>().rehash((std::size_t)r.below(300));c.get<7>().reserve((std::size_t)r.below(60));break;
      case 17:{C e(std::move(c));a(e.size());c=std::move(e);break;}
      case 18:c.get<6>().splice(c.get<6>().begin(),d.get<6>());a(d.size());break;
      case 19:
        if(out&&!pool.empty()){std::lock_guard<std::mutex> l(out->m);out->q.push_back(std::move(pool.back()));pool.pop_back();}
        else if(out){auto nh=d.get<2>().extract(id);if(nh){std::lock_guard<std::mutex> l(out->m);out->q.push_back(std::move(nh));}}
        if(in){Node nh;{std::lock_guard<std::mutex> l(in->m);if(!in->q.empty()){nh=std::move(in->q.front());in->q.pop_front();}}
          if(nh)d.get<7>().insert(d.get<7>().begin(),std::move(nh));}
        break;
    }
    noise();++progress();
  }
  walk(a,c.get<0>().begin(),c.get<0>().end());walk(a,c.get<6>().begin(),c.get<6>().end());walk(a,c.get<7>().begin(),c.get<7>().end());walk(a,d.get<3>().begin(),d.get<3>().end());walk(a,c.get<5>().begin(),c.get<5>().end());
  /* coherence, also for histories that exchange nodes */
  for(const C* x:{&c,&d}){
    std::multiset<uint64_t> s0,s;
    for(auto& p:x->get<0>())s0.insert(hp(p));
    auto same=[&](auto& ix){s.clear();for(auto& p:ix)s.insert(hp(p));return s==s0;};
    if(!(same(x->get<1>())&&same(x->get<2>())&&same(x->get<3>())&&same(x->get<4>())&&same(x->get<5>())&&same(x->get<6>())&&same(x->get<7>())&&same(x->get<8>())&&same(x->get<9>())&&same(x->get<10>())))a.h=0;
  }
  return a.h;
}
static void own_containers(Rng& r){
  const int NT=4+r.below(4);bool mail=r.chance(1,2);
  noise_level=r.chance(1,4)?0:(unsigned)(1<<r.below(8));
  lg("own containers: %d threads%s, noise %u",NT,mail?" exchanging node handles":"",noise_level.load());
  std::vector<uint64_t> seeds,want((std::size_t)NT),got((std::size_t)NT);
  for(int t=0;t<NT;++t)seeds.push_back(r.next());
  std::vector<Mail> boxes((std::size_t)NT);
  noise_state=0;
  if(!mail)for(int t=0;t<NT;++t)want[(std::size_t)t]=own_history(seeds[(std::size_t)t],nullptr,nullptr);
  std::atomic<int> ready{0};std::vector<std::thread> th;
  for(int t=0;t<NT;++t){uint64_t ns=r.next()|1;th.emplace_back([&,t,ns]{
    noise_state=ns;ready.fetch_add(1);while(ready.load()<NT)sched_yield();
    got[(std::size_t)t]=own_history(seeds[(std::size_t)t],mail?&boxes[(std::size_t)t]:nullptr,mail?&boxes[(std::size_t)(t+1)%(std::size_t)NT]:nullptr);
  });}
  for(auto& t:th)t.join();
  for(int t=0;t<NT;++t){
    if(!mail&&got[(std::size_t)t]!=want[(std::size_t)t])fail("interference","a history on containers of its own differs from running alone");
    if(mail&&!got[(std::size_t)t])fail("interference","containers exchanging node handles are incoherent");
    ++ctx().evaluations;count(mail?"mail-histories":"own-histories");seen(mix(got[(std::size_t)t],5));
  }
}
#ifdef VF_SAFE
/* in safe mode, iterators of one thread come and go while others read, and while the owner inserts and keeps theirs valid */
static void safe_iterators(Rng& r){
  C c=make(r,40,60);
  const int NT=4;noise_level=(unsigned)(1<<r.below(8));
  lg("safe mode: iterators of %d threads come and go",NT);
  std::vector<std::thread> th;std::atomic<int> bad{0};
  std::vector<std::vector<C::nth_index<1>::type::iterator>> keep((std::size_t)NT);
  for(int t=0;t<NT;++t){uint64_t ns=r.next()|1;th.emplace_back([&,t,ns]{
    noise_state=ns;Rng q(ns);const C& cc=c;
    auto& v=keep[(std::size_t)t];
    for(int i=0;i<200;++i){
      ++progress();
      if(v.size()<5||q.chance(1,2)){auto it=cc.get<1>().begin();int n=q.below(5);while(n--&&it!=cc.get<1>().end())++it;v.push_back(it);}
      else v.erase(v.begin()+q.below((int)v.size()));
      if(!v.empty()){auto x=v[(std::size_t)q.below((int)v.size())];if(x!=cc.get<1>().end()&&cc.get<1>().iterator_to(*x)!=x)++bad;}
    }
  });}
  for(auto& t:th)t.join();
  if(bad)fail("concurrent-read","safe mode iterators changed");
  std::size_t n=0;for(auto& v:keep)n+=v.size();
  count("kept-iterators",n);++ctx().evaluations;
  c.clear();
  for(auto& v:keep)for(auto& i:v)if(i.valid()&&!(i==c.get<1>().end()))fail("concurrent-read","an iterator was not invalidated: the list of iterators is damaged");
}
#endif
static void one(uint64_t k,Rng& r){
  ++progress();
  shared_reads(r);own_containers(r);
#ifdef VF_SAFE
  safe_iterators(r);
#endif
  count("exceptions",booms.exchange(0));
  if(k<3)sample_log();
}
}
int main(int argc,char** argv){
  vf::init(argc,argv);
  vf::watchdog();
  return vf::run_cases([](uint64_t k,vf::Rng& r){vf::one(k,r);});
}
