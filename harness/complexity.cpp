// Complexity monitor: every operation is executed at growing sizes on
// containers built by ordinary and adversarial histories while the following
// are counted: basic blocks executed (compiler instrumentation), calls of the
// function objects, allocations, copies and moves of elements.  The growth
// from the smallest to the largest size must fit the documented bound.
// Counts are deterministic: no timing is involved.
#ifndef CFG
#define CFG 0
#endif
#include "core.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <cmath>
#include <set>
static volatile uint64_t g_steps; /* volatile: the instrumentation is inserted after optimisation */
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc(){g_steps=g_steps+1;}
namespace vf{
namespace mi=boost::multi_index;
struct E{
  int k,s;
  E(int a=0,int b=0):k(a),s(b){}
  E(const E& x):k(x.k),s(x.s){++tally().copy;}
  E(E&& x):k(x.k),s(x.s){++tally().move;}
  E& operator=(const E& x){k=x.k;s=x.s;++tally().assign;return *this;}
  E& operator=(E&& x){k=x.k;s=x.s;++tally().assign;return *this;}
};
inline bool operator==(const E& x,const E& y){++tally().eq;return x.k==y.k;}
inline bool operator<(const E& x,const E& y){++tally().cmp;return x.k<y.k;}
struct K{typedef int result_type;int operator()(const E& e)const{++tally().key;return e.k;}};
struct KS{typedef int result_type;int operator()(const E& e)const{++tally().key;return e.s;}};
struct Lt{bool operator()(int x,int y)const{++tally().cmp;return x<y;}};
struct Hs{bool flat;Hs(bool f=false):flat(f){}
  std::size_t operator()(int x)const{++tally().hash;if(flat)return 5;uint64_t z=(uint64_t)(unsigned)x*0x9e3779b97f4a7c15ULL;return (std::size_t)(z^(z>>29));}};
struct Eq{bool operator()(int x,int y)const{++tally().eq;return x==y;}};
template<class T>struct CA{
  typedef T value_type;CA(){}template<class U>CA(const CA<U>&){}
  T* allocate(std::size_t n){++tally().alloc;return static_cast<T*>(::operator new(n*sizeof(T)));}
  void deallocate(T* p,std::size_t){::operator delete(p);}
  template<class U>struct rebind{typedef CA<U> other;};
};
template<class T,class U>bool operator==(const CA<T>&,const CA<U>&){return true;}
template<class T,class U>bool operator!=(const CA<T>&,const CA<U>&){return false;}
template<class... I>using Cont=mi::multi_index_container<E,mi::indexed_by<I...>,CA<E>>;
typedef mi::ordered_non_unique<K,Lt> ON;typedef mi::ordered_unique<KS,Lt> OU;
typedef mi::ranked_non_unique<K,Lt> RN;typedef mi::ranked_unique<KS,Lt> RU;
typedef mi::hashed_non_unique<K,Hs,Eq> HN;typedef mi::hashed_unique<KS,Hs,Eq> HU;

struct Cost{double steps=0,calls=0,cmp=0,hash=0,alloc=0,elem=0;};
template<class F>static Cost cost(F f){
  Tally t0=tally();uint64_t s0=g_steps;
  f();
  Cost c;c.steps=(double)(g_steps-s0);Tally& t=tally();
  c.cmp=(double)(t.cmp-t0.cmp);c.hash=(double)(t.hash-t0.hash);
  c.calls=c.cmp+c.hash+(double)(t.eq-t0.eq)+(double)(t.key-t0.key);
  c.alloc=(double)(t.alloc-t0.alloc);c.elem=(double)(t.copy-t0.copy+t.move-t0.move+t.assign-t0.assign);
  ++ctx().evaluations;
  return c;
}
enum Shape{CONST_,LOG_,LIN_,NLOGN_};
static const char* shape_name(Shape s){static const char* n[]={"constant","logarithmic","linear","n log n"};return n[s];}
struct Series{Shape shape;std::map<int,Cost> max;};
static std::map<std::string,Series>& series(){static std::map<std::string,Series> s;return s;}
static void rec(const std::string& name,Shape sh,int n,const Cost& c,double per=1){
  Series& s=series()[name];s.shape=sh;Cost& m=s.max[n];
  m.steps=std::max(m.steps,c.steps/per);m.calls=std::max(m.calls,c.calls/per);
}
static double g(Shape s,double n){switch(s){case CONST_:return 1;case LOG_:return std::log2(n);case LIN_:return n;default:return n*std::log2(n);}}
/* reported without stopping, so that a known finding hides nothing else */
static const char* const GROUP_MODIFY="modify in a group of equivalent elements";
static bool soft(const std::string& n){return n.find(GROUP_MODIFY)!=std::string::npos;}
static void judge(){
  for(auto& p:series()){
    Series& s=p.second;
    if(s.max.size()<2)continue;
    int n0=s.max.begin()->first;Cost& c0=s.max.begin()->second;
    for(auto& q:s.max){
      if(q.first==n0)continue;
      double f=3.0*g(s.shape,q.first)/g(s.shape,n0);
      double ls=f*std::max(c0.steps,100.0),lc=f*std::max(c0.calls,8.0);
      if(ctx().verbose)fprintf(stderr,"%-60s %-12s n=%d steps %.1f -> n=%d steps %.1f (limit %.1f) calls %.1f -> %.1f (%.1f)\n",p.first.c_str(),shape_name(s.shape),n0,c0.steps,q.first,q.second.steps,ls,c0.calls,q.second.calls,lc);
      if(soft(p.first)){if(q.second.steps>ls||q.second.calls>lc)finding("complexity","%s: %.0f basic blocks at size %d, %.0f at size %d: not %s",p.first.c_str(),c0.steps,n0,q.second.steps,q.first,shape_name(s.shape));continue;}
      if(q.second.steps>ls)fail("complexity","%s: %.0f basic blocks at size %d, %.0f at size %d: not %s",p.first.c_str(),c0.steps,n0,q.second.steps,q.first,shape_name(s.shape));
      if(q.second.calls>lc)fail("complexity","%s: %.0f function object calls at size %d, %.0f at size %d: not %s",p.first.c_str(),c0.calls,n0,q.second.calls,q.first,shape_name(s.shape));
      ++ctx().evaluations;count("growth-checks");
    }
    seen(mix(std::hash<std::string>()(p.first),(uint64_t)s.max.rbegin()->first*1000003u+(uint64_t)s.max.rbegin()->second.steps));
  }
  series().clear();
}
/* constant time, judged in function object calls: the least that grows with the size is twice its logarithm */
static void few(const std::string& name,double calls){
  if(calls>14)fail("complexity","%s takes %.1f function object calls, a constant number is documented",name.c_str(),calls);
}
static void none(const std::string& name,const Cost& c,bool allocs=true){
  if(c.elem!=0)fail("complexity","%s copies, moves or assigns elements",name.c_str());
  if(allocs&&c.alloc!=0)fail("complexity","%s allocates",name.c_str());
}

/* ------------------------------------------------ histories to reach a size */
static const int PATTERNS=9;
static const char* pat_name(int p){static const char* n[]={"ascending","descending","random","equal","groups","zigzag","sawtooth","churn","middle-out"};return n[p];}
static bool has_dups(int p){return p==3||p==4;}
template<class C,class Ins>
static void build(C& c,int n,int pat,Rng& r,Ins ins){
  switch(pat){
    case 0:for(int i=0;i<n;++i)ins(c,E(2*i,i));break;
    case 1:for(int i=n;i>0;--i)ins(c,E(2*i,i));break;
    case 2:for(int i=0;(int)c.size()<n;++i){int v=r.below(1<<28);ins(c,E(v&~1,v));}break;
    case 3:for(int i=0;i<n;++i)ins(c,E(10,i));break;
    case 4:{int m=(int)std::sqrt((double)n);for(int i=0;i<n;++i)ins(c,E(2*r.below(m),i));break;}
    case 5:for(int i=0;i<n;++i)ins(c,E(i%2?2*(n-i/2):2*(i/2),i%2?n+5-i/2:i/2));break;
    case 6:{ /* blocks of ascending insertions, each followed by erasing the low half */
      int v=0;
      for(int round=0;round<6;++round){while((int)c.size()<n){ins(c,E(2*v,v));++v;}
        if(round<5){auto it=c.begin();for(int i=0;i<n/2;++i)it=c.erase(it);}}
      break;}
    case 7:{ /* random churn around the size */
      while((int)c.size()<n){int v=r.below(1<<28);ins(c,E(v&~1,v));}
      std::vector<decltype(c.begin())> its;for(auto it=c.begin();it!=c.end();++it)its.push_back(it);
      for(std::size_t i=its.size();i>1;--i)std::swap(its[i-1],its[(std::size_t)r.below((int)i)]);
      for(int i=0;i<n*3/4;++i)c.erase(its[(std::size_t)i]);
      while((int)c.size()<n){int v=r.below(1<<28);ins(c,E(v&~1,v));}
      break;}
    case 8:for(int i=0;i<n;++i)ins(c,E(i%2?n-i:n+i,i%2?3*n-i:3*n+i));break;
  }
}
static std::vector<int> probe_keys(Rng& r,int n,const std::vector<int>& keys){
  std::vector<int> v={-5,1<<30};
  if(!keys.empty()){
    v.push_back(keys.front());v.push_back(keys.back());v.push_back(keys[keys.size()/2]);
    for(int i=0;i<24;++i){int x=keys[(std::size_t)r.below((int)keys.size())];v.push_back(x);v.push_back(x+1);}
  }
  (void)n;
  return v;
}
/* ------------------------------------------------------- ordered and ranked */
template<class Ix>struct Keys{template<class It>static std::vector<int> of(const Ix& ix,It k){std::vector<int> v;for(auto& e:ix)v.push_back(k(e));return v;}};
template<bool Ranked,class Ix>static void rank_ops(const std::string& P,const Ix& ix,int n,const std::vector<int>& keys,std::true_type){
  for(int k:keys){
    rec(P+"find_rank",LOG_,n,cost([&]{ix.find_rank(k);}));
    rec(P+"lower_bound_rank",LOG_,n,cost([&]{ix.lower_bound_rank(k);}));
    rec(P+"upper_bound_rank",LOG_,n,cost([&]{ix.upper_bound_rank(k);}));
    rec(P+"equal_range_rank",LOG_,n,cost([&]{ix.equal_range_rank(k);}));
    rec(P+"range_rank",LOG_,n,cost([&]{ix.range_rank([&](int x){return x>=k;},[&](int x){return x<=k+50;});}));
    rec(P+"range_rank unbounded",LOG_,n,cost([&]{ix.range_rank(mi::unbounded,[&](int x){return x<=k;});}));
    rec(P+"count",LOG_,n,cost([&]{ix.count(k);}));
    auto it=ix.lower_bound(k);
    rec(P+"rank",LOG_,n,cost([&]{ix.rank(it);}));
  }
  for(int i=0;i<40;++i){std::size_t p=(std::size_t)((double)i/39*n);rec(P+"nth",LOG_,n,cost([&]{ix.nth(p);}));rec(P+"rank of nth",LOG_,n,cost([&]{ix.rank(ix.nth(p));}));}
}
template<bool Ranked,class Ix>static void rank_ops(const std::string& P,const Ix& ix,int n,const std::vector<int>& keys,std::false_type){
  for(int k:keys){
    std::size_t m=0;Cost c=cost([&]{m=ix.count(k);});
    rec(P+"count per log n+count",CONST_,n,c,(std::log2((double)n)+(double)m)/8);
  }
}
template<bool Ranked,class C,class KeyOf>
static void tree(const char* kind,int n,int pat,Rng& r,KeyOf keyof){
  std::string P=std::string(kind)+" after "+pat_name(pat)+": ";
  C c;
  {Cost tot=cost([&]{build(c,n,pat,r,[&](C& x,const E& e){
      if((int)x.size()>n*3/4&&(x.size()&15)==0)rec(P+"insert",LOG_,n,cost([&]{x.insert(e);}));else x.insert(e);});});
   rec(P+"build",NLOGN_,n,tot);}
  if((int)c.size()!=n)harness_error("size not reached");
  std::vector<int> all=Keys<C>::of(c,keyof);
  std::vector<int> keys=probe_keys(r,n,all);
  /* balance: no lookup may take more comparisons than the height of a red-black tree */
  double lim=2*std::log2((double)n+1)+6;
  std::size_t step=std::max<std::size_t>(1,all.size()/2000);
  for(std::size_t i=0;i<all.size();i+=step){
    int k=all[i];Cost f=cost([&]{c.find(k);}),l=cost([&]{c.lower_bound(k);}),u=cost([&]{c.upper_bound(k);}),e=cost([&]{c.equal_range(k);});
    if(f.cmp>lim||l.cmp>lim||u.cmp>lim||e.cmp>2*lim)fail("complexity","%slookup of key %d takes %.0f/%.0f/%.0f/%.0f comparisons among %d elements",P.c_str(),k,f.cmp,l.cmp,u.cmp,e.cmp,n);
    none(P+"lookup",f);
  }
  count("balance-sweeps");
  for(int k:keys){
    rec(P+"find",LOG_,n,cost([&]{c.find(k);}));
    rec(P+"contains",LOG_,n,cost([&]{c.contains(k);}));
    rec(P+"find with compare",LOG_,n,cost([&]{c.find(k,Lt());}));
    rec(P+"lower_bound",LOG_,n,cost([&]{c.lower_bound(k);}));
    rec(P+"upper_bound",LOG_,n,cost([&]{c.upper_bound(k);}));
    rec(P+"equal_range",LOG_,n,cost([&]{c.equal_range(k);}));
    rec(P+"range",LOG_,n,cost([&]{c.range([&](int x){return x>=k;},[&](int x){return x<=k+60;});}));
    rec(P+"range to unbounded",LOG_,n,cost([&]{c.range([&](int x){return x>k;},mi::unbounded);}));
    rec(P+"range from unbounded",LOG_,n,cost([&]{c.range(mi::unbounded,[&](int x){return x<k;});}));
  }
  rank_ops<Ranked>(P,c,n,keys,std::integral_constant<bool,Ranked>());
  rec(P+"++ per element",CONST_,n,cost([&]{for(auto it=c.begin();it!=c.end();++it){}}),n);
  rec(P+"-- per element",CONST_,n,cost([&]{for(auto it=c.end();it!=c.begin();)--it;}),n);
  rec(P+"begin,end,size",CONST_,n,cost([&]{(void)c.begin();(void)c.end();(void)c.rbegin();(void)c.size();(void)c.empty();}));
  {auto it=c.find(keys[4]);rec(P+"iterator_to",CONST_,n,cost([&]{c.iterator_to(*it);}));}
  /* deletion and reinsertion with a correct hint */
  Shape ds=Ranked?LOG_:CONST_;
  for(int rep=0;rep<2;++rep){
    Cost de,hi;int cnt=0;
    auto add=[](Cost& a,const Cost& b){a.steps+=b.steps;a.calls+=b.calls;a.alloc+=b.alloc;a.elem+=b.elem;};
    std::vector<typename C::iterator> its;for(auto i=c.begin();i!=c.end();++i)its.push_back(i);
    for(std::size_t i=its.size();i>1;--i)std::swap(its[i-1],its[(std::size_t)r.below((int)i)]);
    its.resize(its.size()/2); /* amortised: half of the elements go and come back */
    std::vector<E> gone;
    for(auto it:its){
      gone.push_back(*it);
      Cost x=cost([&]{c.erase(it);});none(P+"erase",x);add(de,x);++cnt;
    }
    for(auto& v:gone){
      auto nx=c.upper_bound(keyof(v));
      Cost y=cost([&]{c.insert(nx,v);});add(hi,y);
      if(y.alloc!=1||y.elem!=1)fail("complexity","%shinted insertion makes %.0f allocations and %.0f element copies",P.c_str(),y.alloc,y.elem);
    }
    if(cnt>=20){rec(P+"erase(position), average",ds,n,de,cnt);rec(P+"hinted insertion, average",ds,n,hi,cnt);few(P+"hinted insertion",hi.calls/cnt);}
  }
  {Cost ap;E last(*std::prev(c.end()));std::vector<E> v;for(int i=0;i<200;++i)v.push_back(E(last.k+2+2*i,1000000000+i));
   if(last.k<(1<<29)){ap=cost([&]{c.insert(v.begin(),v.end());});rec(P+"insertion of an ascending range at the end, average",Ranked?LOG_:CONST_,n,ap,200);
     if(ap.alloc!=200)fail("complexity","%srange insertion of 200 elements makes %.0f allocations",P.c_str(),ap.alloc);
     Cost er;auto f=c.iterator_to(*std::prev(c.end(),200));er=cost([&]{c.erase(f,c.end());});rec(P+"erase of a range of 200, average",ds,n,er,200);}}
  { /* hints next to equivalent elements, at both ends and inside */
    const E first(*c.begin()),last(*std::prev(c.end()));const E mid(*c.lower_bound(all[all.size()/2]));
    for(int w=0;w<5;++w){
      const E& like=w==0?last:w==1?first:mid;std::size_t before=c.size();
      std::vector<typename C::iterator> mine;Cost h;
      for(int i=0;i<100;++i){
        E v(like.k,like.s);
        auto hint=w==0?c.end():w==1?c.begin():w==2?c.lower_bound(keyof(v)):w==3?c.upper_bound(keyof(v)):std::next(c.lower_bound(keyof(v)));
        typename C::iterator at;
        Cost x=cost([&]{at=c.insert(hint,v);});
        h.steps+=x.steps;h.calls+=x.calls;
        if(c.size()==before)break; /* unique keys: rejected */
        mine.push_back(at);
      }
      const char* where[]={"at the end","at the beginning","before the group","after the group","inside the group"};
      if(!mine.empty()){
        rec(P+"hinted insertion of an equivalent "+where[w]+", average",ds,n,h,100);
        few(P+"hinted insertion of an equivalent "+where[w],h.calls/100);
        count("equivalent-hints");
      }
      for(auto it:mine)c.erase(it);
    }
  }
  {Cost h;for(int i=0;i<30;++i){E v(all[(std::size_t)r.below((int)all.size())]+1,1500000000+i);h=cost([&]{c.insert(i%2?c.begin():c.end(),v);});rec(P+"insertion with a wrong hint",LOG_,n,h);}
   for(int i=0;i<30;++i)c.erase(c.iterator_to(*c.begin()));}
  /* updates */
  for(int i=0;i<30;++i){
    auto it=c.lower_bound(all[(std::size_t)r.below((int)all.size())]);if(it==c.end())continue;
    E same(it->k,it->s);
    Cost x=cost([&]{c.replace(it,same);});rec(P+"replace, position unchanged",CONST_,n,x);few(P+"replace, position unchanged",x.calls);if(x.alloc)fail("complexity","%sreplace allocates",P.c_str());
    x=cost([&]{c.modify(it,[](E&){});});rec(P+"modify, position unchanged",CONST_,n,x);few(P+"modify, position unchanged",x.calls);none(P+"modify",x);
    x=cost([&]{c.modify(it,[](E&){},[](E&){});});rec(P+"modify with rollback, position unchanged",CONST_,n,x);few(P+"modify with rollback, position unchanged",x.calls);none(P+"modify with rollback",x);
    E old(*it);int to=all[(std::size_t)r.below((int)all.size())]+1;
    x=cost([&]{c.modify(it,[&](E& e){e.k=to;e.s=2000000000;});});rec(P+"modify to another position",LOG_,n,x);none(P+"modify",x);
    x=cost([&]{c.replace(it,old);});rec(P+"replace to another position",LOG_,n,x);
  }
  /* node handles and transfers: no copies, no allocation */
  {C d;d.insert(E(-100,-100));int moved=0;
   for(int i=0;i<30;++i){
     auto it=c.lower_bound(all[(std::size_t)r.below((int)all.size())]);if(it==c.end())continue;
     Cost x=cost([&]{auto nh=c.extract(it);c.insert(std::move(nh));});rec(P+"extract and insert",LOG_,n,x);none(P+"extract and insert of a node",x);
     it=c.lower_bound(all[(std::size_t)r.below((int)all.size())]);if(it==c.end())continue;
     x=cost([&]{auto nh=c.extract(it);c.insert(c.end(),std::move(nh));});rec(P+"extract and insert with hint",LOG_,n,x);none(P+"extract and insert of a node",x);
     it=c.lower_bound(all[(std::size_t)r.below((int)all.size())]);if(it==c.end())continue;
     x=cost([&]{d.merge(c,it);});none(P+"merge of one element",x);++moved;
   }
   Cost x=cost([&]{c.merge(d);});none(P+"merge",x);rec(P+"merge of 30 elements",LOG_,n,x);
   x=cost([&]{c.merge(c);});rec(P+"merge with itself",CONST_,n,x);}
  {int k=keys[2];std::size_t m=0;Cost x=cost([&]{m=c.erase(k);});none(P+"erase(key)",x);rec(P+"erase(key) per log n+count",CONST_,n,x,Ranked?(std::log2((double)n)*(1+(double)m))/8:(std::log2((double)n)+4*(double)m)/8);}
  std::size_t sz=c.size();
  if(sz){
    Cost x=cost([&]{C d(c);});rec(P+"copy construction and destruction",NLOGN_,n,x);
    if(x.alloc>(double)sz+8||x.elem!=(double)sz)fail("complexity","%scopying %zu elements makes %.0f allocations and %.0f element copies",P.c_str(),sz,x.alloc,x.elem);
    C d(c);x=cost([&]{(void)(c==d);});rec(P+"==",LIN_,n,x);none(P+"==",x);
    C e;x=cost([&]{c.swap(e);});rec(P+"swap",CONST_,n,x);none(P+"swap",x);
    x=cost([&]{C f(std::move(e));c.swap(f);});rec(P+"move construction",CONST_,n,x);if(x.elem)fail("complexity","%smove construction copies elements",P.c_str());
    x=cost([&]{d.clear();});rec(P+"clear",LIN_,n,x);none(P+"clear",x);
    x=cost([&]{d=std::move(c);});none(P+"move assignment",x,false);rec(P+"move assignment to an empty container",CONST_,n,x);
  }
}
/* -------------------------------------------------------------------- hashed */
template<bool Unique,class C,class KeyOf>
static void hashed(const char* kind,int n,int pat,Rng& r,KeyOf keyof){
  std::string P=std::string(kind)+" after "+pat_name(pat)+": ";
  C c;
  Cost tot=cost([&]{build(c,n,pat,r,[&](C& x,const E& e){x.insert(e);});});
  if((int)c.size()!=n)harness_error("size not reached");
  rec(P+"build, per element",CONST_,n,tot,n);
  std::vector<int> all=Keys<C>::of(c,keyof);
  std::set<int> dist(all.begin(),all.end());double nd=(double)dist.size();
  if(pat<6&&tot.alloc>n+3*std::log2((double)n)+12)fail("complexity","%s%d insertions make %.0f allocations",P.c_str(),n,tot.alloc);
  if(c.load_factor()>c.max_load_factor()+1e-4)fail("complexity","%sload factor %f exceeds its maximum",P.c_str(),(double)c.load_factor());
  const int Q=400;std::vector<int> q;for(int i=0;i<Q;++i)q.push_back(all[(std::size_t)r.below((int)all.size())]);
  auto avg=[&](const char* nm,auto f){Cost x=cost([&]{for(int k:q)f(k);});rec(P+nm,CONST_,n,x,Q);return x;};
  none(P+"find",avg("find, average",[&](int k){c.find(k);}));
  avg("find of an absent key, average",[&](int k){c.find(k+1);});
  none(P+"equal_range",avg("equal_range, average",[&](int k){c.equal_range(k);}));
  avg("contains, average",[&](int k){c.contains(k);});
  avg("find with hash and equality, average",[&](int k){c.find(k,Hs(),Eq());});
  avg("bucket, average",[&](int k){c.bucket(k);});
  {double m=0;Cost x=cost([&]{for(int k:q)m+=(double)c.count(k);});rec(P+"count per 1+count",CONST_,n,x,Q+m);}
  rec(P+"++ per element",CONST_,n,cost([&]{for(auto it=c.begin();it!=c.end();++it){}}),n);
  rec(P+"begin,end,size,load_factor",CONST_,n,cost([&]{(void)c.begin();(void)c.end();(void)c.size();(void)c.empty();(void)c.load_factor();(void)c.bucket_count();}));
  {Cost x=cost([&]{for(int k:q){auto it=c.find(k);c.iterator_to(*it);c.local_iterator_to(*it);}});rec(P+"find, iterator_to and local_iterator_to",CONST_,n,x,Q);}
  {double tot=0;Cost x=cost([&]{for(std::size_t b=0;b<c.bucket_count();++b)tot+=(double)std::distance(c.begin(b),c.end(b));});if(tot!=n)fail("complexity","bucket walk");rec(P+"bucket walk, per bucket and element",CONST_,n,x,n+(double)c.bucket_count());}
  {Cost de,in;double cnt=0;
   for(int i=0;i<200;++i){auto it=c.find(q[(std::size_t)i]);if(it==c.end())continue;E v(*it);
     Cost x=cost([&]{c.erase(it);});none(P+"erase",x);de.steps+=x.steps;de.calls+=x.calls;
     x=cost([&]{c.insert(v);});if(x.alloc!=1||x.elem!=1)fail("complexity","%sinsertion makes %.0f allocations and %.0f element copies",P.c_str(),x.alloc,x.elem);
     in.steps+=x.steps;in.calls+=x.calls;cnt+=1;
   }
   rec(P+"erase(position), average",CONST_,n,de,cnt);rec(P+"insert, average",CONST_,n,in,cnt);}
  {Cost t;double cnt=0;auto add=[&](const char* nm,const Cost& x){(void)nm;t.steps+=x.steps;t.calls+=x.calls;cnt+=1;none(P+nm,x);};
   Cost gm;double gc=0;bool du=has_dups(pat);
   auto addm=[&](const char* nm,const Cost& x){if(!du)return add(nm,x);gm.steps+=x.steps;gm.calls+=x.calls;gc+=1;none(P+nm,x);};
   for(int i=0;i<100;++i){auto it=c.find(q[(std::size_t)i]);if(it==c.end())continue;E old(it->k,it->s);
     addm("modify",cost([&]{c.modify(it,[](E&){});}));
     addm("modify",cost([&]{c.modify(it,[&](E& e){e.k=e.k+1;e.s=2000000000;});}));
     addm("modify with rollback",cost([&]{c.modify(it,[&](E& e){e.k=old.k;e.s=old.s;},[&](E&){});}));
     Cost x=cost([&]{c.replace(it,old);});t.steps+=x.steps;t.calls+=x.calls;if(x.alloc)fail("complexity","%sreplace allocates",P.c_str());
     add("extract and insert of a node",cost([&]{auto nh=c.extract(it);c.insert(std::move(nh));}));
   }
   rec(P+"modify, replace, extract: average",CONST_,n,t,cnt);
   if(du)rec(P+GROUP_MODIFY,CONST_,n,gm,gc);}
  {Cost x=cost([&]{c.rehash((std::size_t)(2.2*(double)c.bucket_count()));});rec(P+"rehash",LIN_,n,x);none(P+"rehash",x,false);
   if(x.hash>2*nd+8)fail("complexity","%srehash of %.0f non-equivalent elements makes %.0f hash calls",P.c_str(),nd,x.hash);
   x=cost([&]{c.rehash(0);});if(x.hash>2*nd+8)fail("complexity","%srehash of %.0f non-equivalent elements makes %.0f hash calls",P.c_str(),nd,x.hash);
   x=cost([&]{c.reserve((std::size_t)n+n/2);});if(x.alloc>2)fail("complexity","%sreserve makes %.0f allocations",P.c_str(),x.alloc);
   int extra=n/4,i=0;Cost y=cost([&]{for(i=0;i<extra;++i)c.insert(E(1500000001+2*i,1500000001+i));});
   if(y.alloc!=extra||y.hash>4.0*extra)fail("complexity","%sinsertions within reserved capacity make %.0f allocations for %d elements",P.c_str(),y.alloc,extra);}
  {C d;for(int i=0;i<30;++i)d.insert(E(1900000001+2*i,1900000001+i));Cost x=cost([&]{c.merge(d);});if(x.elem)fail("complexity","%smerge copies elements",P.c_str());
   x=cost([&]{c.merge(c);});rec(P+"merge with itself",CONST_,n,x);}
  {int k=q[0];std::size_t m=0;Cost x=cost([&]{m=c.erase(k);});none(P+"erase(key)",x);rec(P+"erase(key) per 1+count",CONST_,n,x,1+(double)m);}
  {std::size_t m=0;Cost x=cost([&]{auto f=c.begin(),l=f;for(int i=0;i<50&&l!=c.end();++i)++l;m=50;c.erase(f,l);});none(P+"erase(range)",x);rec(P+"erase of a range of 50",CONST_,n,x,(double)m);}
  std::size_t sz=c.size();
  if(sz){Cost x=cost([&]{C d(c);});rec(P+"copy construction and destruction",NLOGN_,n,x);
    if(x.alloc>(double)sz+10||x.elem!=(double)sz)fail("complexity","%scopying %zu elements makes %.0f allocations and %.0f element copies",P.c_str(),sz,x.alloc,x.elem);
    C d(c);if(nd>5||n<=300){x=cost([&]{(void)(c==d);});rec(P+"== with a copy",LIN_,n,x);none(P+"==",x);}
    C e;x=cost([&]{c.swap(e);});rec(P+"swap",CONST_,n,x);none(P+"swap",x);
    x=cost([&]{C f(std::move(e));c.swap(f);});rec(P+"move construction",CONST_,n,x);if(x.elem)fail("complexity","%smove construction copies elements",P.c_str());
    x=cost([&]{d.clear();});rec(P+"clear",LIN_,n,x);none(P+"clear",x);}
}
/* a useless hash function: costs are linear in the number of distinct keys only */
template<class C>
static void hashed_flat(int n,Rng& r){
  std::string P="hashed with a constant hash, 32 distinct keys: ";
  C c(typename C::ctor_args_list(boost::make_tuple(0,K(),Hs(true),Eq())));
  for(int i=0;i<n;++i)c.insert(E(r.below(32)*2,i));
  const int Q=64;
  auto avg=[&](const char* nm,auto f){Cost x=cost([&]{for(int i=0;i<Q;++i)f(i);});rec(P+nm,CONST_,n,x,Q);};
  avg("find",[&](int i){c.find(i);});avg("equal_range",[&](int i){c.equal_range(i);});avg("insert",[&](int i){c.insert(E(i&~1,-i));});
  avg("find and erase",[&](int i){auto it=c.find(i&~1);if(it!=c.end())c.erase(it);});
  avg(GROUP_MODIFY,[&](int i){auto it=c.find(i&~1);if(it!=c.end())c.modify(it,[&](E& e){e.k=(i+2)&62;});});
  avg("replace",[&](int i){auto it=c.find(i&~1);if(it!=c.end())c.replace(it,E((i+6)&62,i));});
  Cost x=cost([&]{c.rehash(2*c.bucket_count());});
  if(x.hash>2*32+8)fail("complexity","%srehash makes %.0f hash calls",P.c_str(),x.hash);
}
/* ----------------------------------------------------------------- sequenced */
template<class C>
static void list_ops(const std::string& P,C& c,int n,Rng& r,bool ra){
  auto order=[&](int how){
    int i=0;for(auto it=c.begin();it!=c.end();++it,++i){int v=how==0?i:how==1?n-i:how==2?r.below(1<<28):how==3?7:how==4?(i%2?i:n-i):i%97;c.modify(it,[&](E& e){e.k=v;});}};
  static const char* hn[]={"ascending","descending","random","equal","zigzag","repeating"};
  for(int h=0;h<6;++h){
    order(h);Cost x=cost([&]{c.sort();});none(P+"sort",x,false);rec(P+"sort of "+hn[h]+" values",NLOGN_,n,x);
    double lim=4.0*n*std::log2((double)n);if(x.cmp>lim)fail("complexity","%ssort of %s values makes %.0f comparisons",P.c_str(),hn[h],x.cmp);
    order(h);x=cost([&]{c.sort([](const E& a,const E& b){return b<a;});});rec(P+"sort with compare of "+hn[h]+" values",NLOGN_,n,x);
  }
  Cost x=cost([&]{c.reverse();});none(P+"reverse",x);rec(P+"reverse",LIN_,n,x);
  {std::vector<boost::reference_wrapper<const E>> v;for(auto& e:c)v.push_back(boost::cref(e));for(std::size_t i=v.size();i>1;--i)std::swap(v[i-1],v[(std::size_t)r.below((int)i)]);
   x=cost([&]{c.rearrange(v.begin());});none(P+"rearrange",x);rec(P+"rearrange",LIN_,n,x);}
  {C d(c);c.sort();d.sort();std::size_t m=c.size()+d.size();x=cost([&]{c.merge(d);});none(P+"merge",x,!ra);if(!ra)rec(P+"merge of sorted lists",LIN_,n,x); /* random access: m*D(m) is documented */
   if(x.cmp>2.0*(double)m)fail("complexity","%smerge makes %.0f comparisons",P.c_str(),x.cmp);
   x=cost([&]{d.splice(d.end(),c);});none(P+"splice",x,!ra);if(!ra)rec(P+"splice of a whole container",LIN_,n,x);
   x=cost([&]{d.splice(d.end(),d);});rec(P+"splice with itself",CONST_,n,x);
   x=cost([&]{d.merge(d);});rec(P+"merge with itself",CONST_,n,x);
   x=cost([&]{d.remove_if([&](const E&){return r.chance(1,2);});});none(P+"remove_if",x);rec(P+"remove_if of half",LIN_,n,x);
   x=cost([&]{d.unique();});none(P+"unique",x);rec(P+"unique",LIN_,n,x);
   E v(5,5);x=cost([&]{d.remove(v);});rec(P+"remove",LIN_,n,x);
   c.swap(d);}
  while((int)c.size()<n)c.push_back(E((int)c.size(),(int)c.size()));
  {C d;for(int i=0;i<20;++i)d.push_back(E(i,i));x=cost([&]{c.splice(c.end(),d,d.begin());c.splice(c.end(),d,d.begin(),std::next(d.begin(),10));});none(P+"splice",x,!ra);if(!ra)rec(P+"splice of few elements",CONST_,n,x);}
  x=cost([&]{C d(c);});rec(P+"copy construction and destruction",NLOGN_,n,x);
  if(x.alloc>(double)c.size()+8||x.elem!=(double)c.size())fail("complexity","%scopying %zu elements makes %.0f allocations and %.0f element copies",P.c_str(),c.size(),x.alloc,x.elem);
  x=cost([&]{c.assign((std::size_t)n,E(3,3));});rec(P+"assign",LIN_,n,x);
  x=cost([&]{c.resize((std::size_t)n/2);});rec(P+"resize to half",LIN_,n,x);none(P+"resize",x);
  {C d(c);x=cost([&]{(void)(c==d);});rec(P+"==",LIN_,n,x);}
  {C e;x=cost([&]{c.swap(e);});rec(P+"swap",CONST_,n,x);x=cost([&]{C f(std::move(e));c.swap(f);});rec(P+"move construction",CONST_,n,x);}
  x=cost([&]{c.clear();});rec(P+"clear",LIN_,n,x);
}
template<class C>
static void sequenced(int n,Rng& r){
  std::string P="sequenced: ";C c;
  for(int i=0;i<n;++i){Cost x=cost([&]{if(i%2)c.push_back(E(i,i));else c.push_front(E(i,i));});rec(P+"push",CONST_,n,x);}
  std::vector<typename C::iterator> its;for(auto it=c.begin();it!=c.end();++it)its.push_back(it);
  for(int i=0;i<60;++i){
    auto p=its[(std::size_t)r.below(n)],q=its[(std::size_t)r.below(n)];
    if(p==q)continue;
    rec(P+"relocate",CONST_,n,cost([&]{c.relocate(p,q);}));
    rec(P+"splice of one element of the same container",CONST_,n,cost([&]{c.splice(p,c,q);}));
    rec(P+"iterator_to",CONST_,n,cost([&]{c.iterator_to(*p);}));
    typename C::iterator z;rec(P+"insert",CONST_,n,cost([&]{z=c.insert(p,E(1,1)).first;}));
    rec(P+"replace",CONST_,n,cost([&]{c.replace(z,E(2,2));}));
    rec(P+"modify",CONST_,n,cost([&]{c.modify(z,[](E& e){e.k=4;});}));
    rec(P+"erase",CONST_,n,cost([&]{c.erase(z);}));
    Cost x=cost([&]{auto nh=c.extract(q);q=c.insert(p,std::move(nh)).position;});rec(P+"extract and insert",CONST_,n,x);none(P+"extract and insert of a node",x);
    rec(P+"front,back,size",CONST_,n,cost([&]{(void)c.front();(void)c.back();(void)c.size();(void)c.empty();}));
    its[(std::size_t)r.below(n)]=p;
  }
  /* ranges: constant within the container, whatever their length */
  {auto f=std::next(c.begin(),n/4),l=std::next(c.begin(),3*n/4);rec(P+"relocate of a range to the front",CONST_,n,cost([&]{c.relocate(c.begin(),f,l);}));}
  {auto f=std::next(c.begin(),n/4),l=std::next(c.begin(),3*n/4);rec(P+"relocate of a range to the back",CONST_,n,cost([&]{c.relocate(c.end(),f,l);}));}
  rec(P+"++ per element",CONST_,n,cost([&]{for(auto it=c.begin();it!=c.end();++it){}}),n);
  list_ops(P,c,n,r,false);
}
/* ------------------------------------------------------------- random access */
template<class C>
static void random_access(int n,Rng& r){
  std::string P="random access: ";C c;
  Cost b=cost([&]{for(int i=0;i<n;++i)c.push_back(E(i,i));});rec(P+"push_back, average",CONST_,n,b,n);
  if(b.alloc>n+6*std::log2((double)n)+8)fail("complexity","%s%d push_back make %.0f allocations",P.c_str(),n,b.alloc);
  for(int i=0;i<60;++i){
    int p=r.range(20,n-20),q=r.range(1,n-2);
    rec(P+"[] and at",CONST_,n,cost([&]{(void)c[(std::size_t)p];(void)c.at((std::size_t)q);(void)c.front();(void)c.back();(void)c.size();(void)c.capacity();}));
    auto ip=c.begin()+p,iq=c.begin()+q;
    rec(P+"iterator arithmetic",CONST_,n,cost([&]{auto x=ip;x+=q-p;(void)(x==iq);(void)(ip-iq);(void)(ip<iq);x-=1;++x;--x;(void)(ip+(q-p));}));
    rec(P+"iterator_to",CONST_,n,cost([&]{c.iterator_to(c[(std::size_t)p]);}));
    rec(P+"replace",CONST_,n,cost([&]{c.replace(ip,E(2,2));}));
    rec(P+"modify",CONST_,n,cost([&]{c.modify(ip,[](E& e){e.k=4;});}));
    int d=3+r.below(10);
    rec(P+"relocate over a short distance",CONST_,n,cost([&]{c.relocate(c.begin()+std::min(n,p+d),ip);}));
    rec(P+"relocate of a short range over a short distance",CONST_,n,cost([&]{c.relocate(c.begin()+std::max(0,p-d),c.begin()+p,c.begin()+std::min(n,p+5));}));
    rec(P+"splice of the same container over a short distance",CONST_,n,cost([&]{c.splice(c.begin()+std::max(0,p-d),c,c.begin()+p);}));
    rec(P+"erase near the end",CONST_,n,cost([&]{c.erase(c.end()-1-d);}));
    {Cost x=cost([&]{auto nh=c.extract(c.end()-1-d);c.insert(c.end()-d,std::move(nh));});rec(P+"extract and insert near the end",CONST_,n,x);none(P+"extract and insert of a node",x);}
    c.reserve((std::size_t)n+80);
    {Cost x=cost([&]{c.insert(c.end()-d,E(1,1));});rec(P+"insert near the end within capacity",CONST_,n,x);if(x.alloc!=1)fail("complexity","%sinsertion within capacity makes %.0f allocations",P.c_str(),x.alloc);}
    rec(P+"insert at the front",LIN_,n,cost([&]{c.push_front(E(1,1));}));
    rec(P+"erase at the front",LIN_,n,cost([&]{c.pop_front();}));
  }
  {std::vector<E> v((std::size_t)n/2,E(9,9));Cost x=cost([&]{c.insert(c.begin()+n/2,v.begin(),v.end());});rec(P+"insertion of a range in the middle",LIN_,n,x);
   x=cost([&]{c.insert(c.begin()+n/4,(std::size_t)n/2,E(8,8));});rec(P+"insertion of copies in the middle",LIN_,n,x);
   x=cost([&]{c.erase(c.begin()+n/4,c.begin()+n/4+n);});none(P+"erase of a range",x);rec(P+"erase of a range",LIN_,n,x);}
  while((int)c.size()<n)c.push_back(E(1,1));while((int)c.size()>n)c.pop_back();
  {Cost x=cost([&]{c.reserve(c.capacity()*2);});rec(P+"reserve",LIN_,n,x);none(P+"reserve",x,false);if(x.alloc!=1)fail("complexity","%sreserve makes %.0f allocations",P.c_str(),x.alloc);
   x=cost([&]{c.reserve(c.capacity()/2);});rec(P+"reserve without effect",CONST_,n,x);
   x=cost([&]{c.shrink_to_fit();});rec(P+"shrink_to_fit",LIN_,n,x);none(P+"shrink_to_fit",x,false);x=cost([&]{c.shrink_to_fit();});rec(P+"shrink_to_fit without effect",CONST_,n,x);}
  rec(P+"++ per element",CONST_,n,cost([&]{for(auto it=c.begin();it!=c.end();++it){}}),n);
  {Cost x=cost([&]{c.relocate(c.begin(),c.begin()+n/2,c.end());});none(P+"relocate",x);rec(P+"relocate of half",LIN_,n,x);}
  list_ops(P,c,n,r,true);
}
/* --------------------------------------------------------------- whole container */
typedef Cont<OU,ON,mi::ranked_non_unique<K,Lt>,HU,HN,mi::sequenced<>> All;
static void whole(int n,int pat,Rng& r){
  std::string P=std::string("six indices after ")+pat_name(pat)+": ";All c;
  Cost tot=cost([&]{build(c,n,pat,r,[&](All& x,const E& e){x.insert(e);});});
  rec(P+"build",NLOGN_,n,tot);
  if(pat<6){if(tot.alloc>n+8*std::log2((double)n)+16)fail("complexity","%s%d insertions make %.0f allocations",P.c_str(),n,tot.alloc);
    if(tot.elem!=n)fail("complexity","%s%d insertions copy or move elements %.0f times",P.c_str(),n,tot.elem);}
  std::vector<All::nth_index<5>::type::iterator> its;for(auto it=c.get<5>().begin();it!=c.get<5>().end();++it)its.push_back(it);
  for(int i=0;i<60;++i){
    auto it=its[(std::size_t)r.below((int)its.size())];
    rec(P+"project",CONST_,n,cost([&]{auto a=c.project<0>(it);auto b=c.project<1>(a);auto d=c.project<2>(b);auto e=c.project<3>(d);auto f=c.project<4>(e);auto g=c.project<5>(f);(void)g;}));
    rec(P+"get",CONST_,n,cost([&]{(void)c.get<3>();(void)c.get<5>().size();(void)c.get<4>().size();}));
    const bool du=has_dups(pat); /* see hashed() for modify among equivalent elements */
    Cost x=cost([&]{c.get<5>().modify(it,[](E&){});});if(!du)rec(P+"modify, nothing changed",CONST_,n,x);none(P+"modify",x);
    int s=it->s;int nk=r.below(1<<28)&~1;
    x=cost([&]{c.get<5>().modify(it,[&](E& e){e.k=nk;});});if(!du)rec(P+"modify of one key",LOG_,n,x);none(P+"modify",x);
    auto i3=c.get<3>().find(s);
    x=cost([&]{c.get<3>().modify(i3,[&](E& e){e.s=-1-e.s;});});if(!du)rec(P+"modify of the unique key",LOG_,n,x);
    c.get<5>().modify(it,[&](E& e){e.s=s;});
    x=cost([&]{auto nh=c.get<5>().extract(it);it=c.get<5>().insert(c.get<5>().begin(),std::move(nh)).position;});none(P+"extract and insert of a node",x);rec(P+"extract and insert",LOG_,n,x);
  }
  {All d;Cost x;for(int i=0;i<20;++i){auto it=c.get<5>().begin();x=cost([&]{d.get<5>().splice(d.get<5>().end(),c.get<5>(),it);});none(P+"splice of one element",x);}
   x=cost([&]{c.get<0>().merge(d.get<0>());});none(P+"merge",x);}
  {Cost x;Cost de;for(int i=0;i<100&&c.size();++i){auto it=c.get<5>().begin();x=cost([&]{c.get<5>().erase(it);});none(P+"erase",x);de.steps+=x.steps;de.calls+=x.calls;}rec(P+"erase, average",LOG_,n,de,100);}
  std::size_t sz=c.size();
  Cost x=cost([&]{All d(c);});rec(P+"copy construction and destruction",NLOGN_,n,x);
  if(x.alloc>(double)sz+16||x.elem!=(double)sz)fail("complexity","%scopying %zu elements makes %.0f allocations and %.0f element copies",P.c_str(),sz,x.alloc,x.elem);
  All d(c),e;
  x=cost([&]{e=c;});if(x.elem!=(double)sz)fail("complexity","%scopy assignment makes %.0f element copies",P.c_str(),x.elem);rec(P+"copy assignment",NLOGN_,n,x);
  x=cost([&]{e.swap(d);});rec(P+"swap",CONST_,n,x);none(P+"swap",x);
  x=cost([&]{All f(std::move(e));f.swap(e);});rec(P+"move construction",CONST_,n,x);if(x.elem)fail("complexity","%smove construction copies elements",P.c_str());
  x=cost([&]{e.clear();});rec(P+"clear",LIN_,n,x);
}
static void one(uint64_t k,Rng& r){
  const int n0=256;int n1=(k%4==3)?8192:4096,n2=opt("deep")=="1"?(k%4==3?131072:65536):16384;
#if CFG==3
  n1=1024;n2=4096;
#endif
  int pat=(int)(k%PATTERNS);
  lg("sizes %d, %d, %d, history %s",n0,n1,n2,pat_name(pat));
  auto ks=[](const E& e){return e.s;};auto kk=[](const E& e){return e.k;};
  for(int n:{n0,n1,n2}){
#if CFG==0
    tree<false,Cont<ON>>("ordered_non_unique",n,pat,r,kk);
    if(!has_dups(pat))tree<false,Cont<OU>>("ordered_unique",n,pat,r,ks);
#elif CFG==1
    tree<true,Cont<RN>>("ranked_non_unique",n,pat,r,kk);
    if(!has_dups(pat))tree<true,Cont<RU>>("ranked_unique",n,pat,r,ks);
#elif CFG==2
    hashed<false,Cont<HN>>("hashed_non_unique",n,pat,r,kk);
    if(!has_dups(pat))hashed<true,Cont<HU>>("hashed_unique",n,pat,r,ks);
    if(pat==2)hashed_flat<Cont<HN>>(n,r);
#elif CFG==3
    sequenced<Cont<mi::sequenced<>>>(n,r);
    random_access<Cont<mi::random_access<>>>(n,r);
#else
    whole(n,pat,r);
#endif
  }
  judge();
  if(k<3)sample_log();
}
}
int main(int argc,char** argv){
  vf::init(argc,argv);
  return vf::run_cases([](uint64_t k,vf::Rng& r){vf::one(k,r);});
}
