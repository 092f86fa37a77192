// Every small arrangement of groups of equivalent elements, met with every
// operation on every element and with a failure at every point of it.
// A shape says how many elements each of three keys has (0 to SMAX); the keys
// share buckets in one of several ways. For each shape, each element and each
// operation a container is built anew, the operation carried out, and all indices
// are compared with what they must hold; then the elements are erased one by one,
// with a comparison after each, so that damage to links not traversed comes out.
#include "core.hpp"
#include <set>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/member.hpp>
using namespace vf;
namespace mi=boost::multi_index;
#ifndef CFG
#define CFG 0
#endif
/* failures: the n-th call of a user-provided function throws */
static long fuse=-1,calls=0;
struct Bang{};
static void tick(){++calls;if(fuse>0&&--fuse==0)throw Bang();}
struct Quiet{long f;Quiet():f(fuse){fuse=-1;}~Quiet(){fuse=f;}};
struct E{
  int id,a;
  E(int i=0,int x=0):id(i),a(x){}
  E(const E& e):id(e.id),a(e.a){tick();}
  E& operator=(const E& e){tick();id=e.id;a=e.a;return *this;}
};
static int layout=0;
struct HashA{std::size_t operator()(int x)const{tick();
  switch(layout){case 0:return 5;case 1:return x%2?5:6;case 2:return x;default:return x==1?53*7:x*53;}}};
struct HashId{std::size_t operator()(int x)const{tick();return x/2;}};
struct Eq{bool operator()(int x,int y)const{tick();return x==y;}};
struct Lt{bool operator()(int x,int y)const{tick();return x<y;}};
struct ByA{typedef int result_type;const int& operator()(const E& e)const{return e.a;}int& operator()(E& e)const{return e.a;}};
struct ById{typedef int result_type;const int& operator()(const E& e)const{return e.id;}int& operator()(E& e)const{return e.id;}};
#if CFG==0 /* hashed groups behind a gate at each end */
typedef mi::indexed_by<mi::hashed_non_unique<ByA,HashA,Eq>,mi::ordered_unique<ById,Lt>,mi::ordered_non_unique<ByA,Lt>> Ix;
#define HASHED 0
#define ORDERED 2
#define GATE 1
#elif CFG==1
typedef mi::indexed_by<mi::hashed_unique<ById,HashId,Eq>,mi::ranked_non_unique<ByA,Lt>,mi::hashed_non_unique<ByA,HashA,Eq>> Ix;
#define HASHED 2
#define ORDERED 1
#define GATE 0
#else
typedef mi::indexed_by<mi::sequenced<>,mi::hashed_non_unique<ByA,HashA,Eq>,mi::ordered_non_unique<ByA,Lt>,mi::hashed_unique<ById,HashId,Eq>> Ix;
#define HASHED 1
#define ORDERED 2
#define GATE 3
#endif
typedef mi::multi_index_container<E,Ix> C;
static const int NEWKEYS=4; /* the three keys of a shape and one that no element has */

typedef std::vector<std::pair<int,int>> V;
struct State{V h,o,g;}; /* hashed groups, ordered groups, gate in traversal order */
template<class I>static V dump(const I& i,std::size_t lim,const char* what){
  V v;for(auto it=i.begin();it!=i.end();++it){if(v.size()>lim)fail(what,"traversal yields more than %zu elements",lim);v.emplace_back(it->id,it->a);}
  return v;
}
static State state(const C& c){
  State s;std::size_t n=c.size();
  s.h=dump(c.get<HASHED>(),n,"traversal");s.o=dump(c.get<ORDERED>(),n,"traversal");s.g=dump(c.get<GATE>(),n,"traversal");
  return s;
}
static const char* doing="";
/* groups of a hashed index: contiguous, and found as such */
static void coherent(const C& c,const std::map<int,int>& m){
  ++ctx().evaluations;
  Quiet q;
  std::size_t n=m.size();
  if(c.size()!=n)fail("size","%s: size() is %zu, expected %zu",doing,c.size(),n);
  State s=state(c);
  if(s.h.size()!=n||s.o.size()!=n||s.g.size()!=n)fail("traversal","%s: %zu, %zu and %zu elements traversed, expected %zu",doing,s.h.size(),s.o.size(),s.g.size(),n);
  for(const V* v:{&s.h,&s.o,&s.g}){
    std::set<int> ids;
    for(auto& p:*v){auto it=m.find(p.first);if(it==m.end()||it->second!=p.second)fail("traversal","%s: unexpected element %d,%d",doing,p.first,p.second);ids.insert(p.first);}
    if(ids.size()!=n)fail("traversal","%s: an element is met twice",doing);
  }
  std::map<int,std::set<int>> g;for(auto& p:m)g[p.second].insert(p.first);
  for(std::size_t i=1;i<n;++i)if(s.o[i].second<s.o[i-1].second)fail("order","%s: the ordered index is not sorted",doing);
  std::set<int> over;int last=-1;
  for(auto& p:s.h){if(p.second!=last){if(over.count(p.second))fail("groups","%s: the group of %d is split",doing,p.second);over.insert(p.second);last=p.second;}}
  const auto& h=c.get<HASHED>();const auto& o=c.get<ORDERED>();const auto& u=c.get<GATE>();
  for(int k=0;k<NEWKEYS;++k){
    const std::set<int>& w=g[k];
    auto r=h.equal_range(k);std::set<int> got;std::size_t lim=0;
    for(auto it=r.first;it!=r.second;++it){if(++lim>n)fail("groups","%s: equal_range(%d) does not end",doing,k);if(it->a!=k)fail("groups","%s: equal_range(%d) holds a %d",doing,k,it->a);got.insert(it->id);}
    if(got!=w||lim!=w.size())fail("groups","%s: equal_range(%d) holds %zu elements, expected %zu",doing,k,lim,w.size());
    if(h.count(k)!=w.size())fail("groups","%s: count(%d) is %zu, expected %zu",doing,k,(std::size_t)h.count(k),w.size());
    if((h.find(k)==h.end())!=w.empty()||(!w.empty()&&h.find(k)!=r.first))fail("groups","%s: find(%d)",doing,k);
    auto t=o.equal_range(k);
    if((std::size_t)std::distance(t.first,t.second)!=w.size()||o.count(k)!=w.size())fail("groups","%s: ordered equal_range(%d)",doing,k);
#if CFG==1
    if(o.find_rank(k)!=(w.empty()?n:o.lower_bound_rank(k))||o.upper_bound_rank(k)-o.lower_bound_rank(k)!=w.size())fail("ranks","%s: ranks of %d",doing,k);
#endif
  }
  for(auto& p:m){auto it=u.find(p.first);if(it==u.end()||it->a!=p.second)fail("find","%s: element %d not found",doing,p.first);
    if(h.iterator_to(*it)->id!=p.first||c.project<HASHED>(it)->id!=p.first)fail("project","%s: element %d",doing,p.first);}
  std::size_t t=0;
  for(std::size_t b=0;b<h.bucket_count();++b){
    std::size_t k=0;for(auto it=h.begin(b);it!=h.end(b);++it){if(++k>n)fail("bucket","%s: bucket %zu does not end",doing,b);if(h.bucket(it->a)!=b)fail("bucket","%s: %d in bucket %zu",doing,it->a,b);}
    if(k!=h.bucket_size(b))fail("bucket","%s: bucket_size(%zu)",doing,b);
    t+=k;
  }
  if(t!=n)fail("bucket","%s: %zu elements in the buckets",doing,t);
}
static void same(const C& c,const State& s){
  Quiet q;State t=state(c);
  if(t.h!=s.h||t.o!=s.o||t.g!=s.g)fail("strong","%s: failed, yet an index is not what it was",doing);
}
/* the elements that stay keep their relative order in the ordered index */
static void order_kept(const C& c,const State& s,int except){
  V v,w;for(auto& p:s.o)if(p.first!=except)v.push_back(p);
  for(auto& p:state(c).o)if(p.first!=except)w.push_back(p);
  if(v!=w)fail("order","%s: the order of the other elements changed",doing);
}
static void take_apart(C& c,std::map<int,int> m,Rng& r){
  Quiet q;
  while(!m.empty()){
    auto it=m.begin();std::advance(it,r.below((int)m.size()));
    switch(r.below(3)){
    case 0:c.get<GATE>().erase(it->first);break;
    case 1:{auto n=c.get<GATE>().extract(it->first);if(n.empty()||n.value().id!=it->first)fail("extract","%s: then extraction",doing);break;}
    default:c.get<HASHED>().erase(c.project<HASHED>(c.get<GATE>().find(it->first)));break;
    }
    m.erase(it);
    if(m.size()<3||r.chance(1,2))coherent(c,m);
  }
  if(!c.empty()||c.get<HASHED>().begin()!=c.get<HASHED>().end())fail("size","%s: not empty at the end",doing);
}
struct Shape{
  std::vector<E> ins;std::map<int,int> m;
  void fill(C& c)const{Quiet q;c.get<HASHED>().max_load_factor(8.0f);for(const E& e:ins)c.get<GATE>().insert(e);}
};
/* one operation, with the fuse at every place until nothing throws any more */
static int pick=0; /* which variant of the operation */
template<class Op,class After>static void each_failure(const Shape& s,Rng& r,const char* name,Op op,After after){
  doing=name;pick=r.below(12);
  for(long f=0;;++f){
    C c;s.fill(c);
    State before=state(c);
    bool threw=false;int res=0;
    fuse=f==0?-1:f;
    try{res=op(c);}
    catch(Bang&){threw=true;}
    bool unburnt=fuse>0;fuse=-1;
    if(f==0&&threw)fail("exception","%s: exception out of nowhere",doing);
    std::map<int,int> m=s.m;
    after(c,before,m,threw,res);
    coherent(c,m);
    take_apart(c,m,r);
    count(threw?"operations-interrupted":"operations-completed");
    if(f>0&&(unburnt||!threw))break;
    if(f>400)fail("harness","%s: throws for ever",doing);
  }
}
static void run(Rng& r,uint64_t k){
  static const int SMAX=4;
  static const int NSH=(SMAX+1)*(SMAX+1)*(SMAX+1);
  int sh=(int)(k%NSH);layout=(int)((k/NSH+k)%4);
  int sz[3]={sh%(SMAX+1),sh/(SMAX+1)%(SMAX+1),sh/(SMAX+1)/(SMAX+1)};
  Shape s;{
    Quiet q;
    std::vector<int> keys;for(int a=0;a<3;++a)for(int i=0;i<sz[a];++i)keys.push_back(a);
    for(std::size_t i=keys.size();i>1;--i)std::swap(keys[i-1],keys[r.below((int)i)]);
    int id=10;for(int a:keys){s.ins.emplace_back(id,a);s.m[id]=a;id+=1+r.below(2);}
  }
  lg("shape %d,%d,%d layout %d",sz[0],sz[1],sz[2],layout);
  seen(mix(sh,layout));
  {C c;s.fill(c);doing="construction";coherent(c,s.m);C d(c);doing="copy";coherent(d,s.m);same(d,state(c));take_apart(d,s.m,r);}
  for(const E& x:s.ins){
    const int id=x.id,old=x.a;
    const int other=s.ins[r.below((int)s.ins.size())].id;
    for(int a=0;a<NEWKEYS;++a){
      const int clash=r.below(2)?other:id;
      const bool collides=clash!=id;
      lg("element %d,%d to key %d%s",id,old,a,collides?" and an identifier that is taken":"");
      /* modification with rollback: done, or without any effect */
      each_failure(s,r,"modify with rollback",[&](C& c){
        auto it=c.get<GATE>().find(id);
        auto mod=[&](E& e){Quiet q;e.a=a;e.id=clash;};
        /* nothing throws once the rollback is under way */
        auto silent=[&](E& e){e.a=old;e.id=id;fuse=-1;};
        return pick%2?(int)c.get<GATE>().modify(it,mod,silent):(int)c.get<HASHED>().modify(c.project<HASHED>(it),mod,silent);
      },[&](C& c,const State& b,std::map<int,int>& m,bool threw,int res){
        if(!threw&&res!=!collides)fail("modify","%s: returned %d",doing,res);
        if(threw||collides)same(c,b);
        else{m[id]=a;order_kept(c,b,id);if(a==old)same(c,b);}
      });
      /* without: done, or the element is erased */
      each_failure(s,r,"modify",[&](C& c){
        return (int)c.get<GATE>().modify(c.get<GATE>().find(id),[&](E& e){Quiet q;e.a=a;e.id=clash;});
      },[&](C& c,const State& b,std::map<int,int>& m,bool threw,int res){
        if(!threw&&res!=!collides)fail("modify","%s: returned %d",doing,res);
        if(threw){
          /* thrown while the element was looked up: nothing happened yet */
          if(c.size()==s.m.size()){same(c,b);return;}
        }
        if(threw||collides)m.erase(id);else m[id]=a;
        order_kept(c,b,id);
      });
      /* replacement: done or without effect */
      const E v=[&]{Quiet q;return E(clash,a);}();
      each_failure(s,r,"replace",[&](C& c){
        auto it=[&]{Quiet q;return c.get<GATE>().find(id);}();
        return pick%2?(int)c.get<GATE>().replace(it,v):(int)c.get<ORDERED>().replace(c.project<ORDERED>(it),E(v));
      },[&](C& c,const State& b,std::map<int,int>& m,bool threw,int res){
        if(!threw&&res!=!collides)fail("replace","%s: returned %d",doing,res);
        if(threw||collides){
          if(threw&&c.size()!=s.m.size())fail("strong","%s: size changed",doing);
          same(c,b);
        }
        else{m[id]=a;order_kept(c,b,id);if(a==old)same(c,b);}
      });
    }
    /* removal */
    each_failure(s,r,"erase",[&](C& c){auto it=[&]{Quiet q;return c.get<GATE>().find(id);}();c.get<HASHED>().erase(c.project<HASHED>(it));return 1;},
      [&](C& c,const State& b,std::map<int,int>& m,bool threw,int){
        if(threw)fail("nothrow","%s: throws",doing);
        m.erase(id);order_kept(c,b,id);});
    each_failure(s,r,"extract and insert",[&](C& c){
      auto it=[&]{Quiet q;return c.get<GATE>().find(id);}();
      auto n=c.get<ORDERED>().extract(c.project<ORDERED>(it));
      if(n.empty()||n.value().id!=id)fail("extract","wrong node");
      {Quiet q;std::map<int,int> m=s.m;m.erase(id);coherent(c,m);}
      try{
        auto ri=c.get<HASHED>().insert(std::move(n));
      }
      catch(Bang&){if(n.empty())fail("strong","a node whose insertion failed is lost");throw;}
      return 1;
    },[&](C& c,const State& b,std::map<int,int>& m,bool threw,int){if(threw)m.erase(id);order_kept(c,b,id);});
  }
  /* whole groups, ranges, and insertion */
  for(int a=0;a<NEWKEYS;++a){
    each_failure(s,r,"erase a group",[&](C& c){return pick%2?(int)c.get<HASHED>().erase(a):(int)c.get<ORDERED>().erase(a);},
      [&](C& c,const State& b,std::map<int,int>& m,bool threw,int res){
        if(threw){if(c.size()==m.size())same(c,b);else fail("erase","interrupted with an effect");return;}
        int n=0;for(auto it=m.begin();it!=m.end();)if(it->second==a){it=m.erase(it);++n;}else ++it;
        if(res!=n)fail("erase","%d elements erased, expected %d",res,n);});
    for(int dup=0;dup<2;++dup){
      if(dup&&s.ins.empty())continue;
      const int id=dup?s.ins[r.below((int)s.ins.size())].id:1000;
      const E v=[&]{Quiet q;return E(id,a);}();
      each_failure(s,r,"insert",[&](C& c){
        switch(pick%4){
        case 0:{auto n=c.size();c.get<HASHED>().insert(v);return (int)(c.size()-n);}
        case 1:{auto n=c.size();c.get<ORDERED>().insert(v);return (int)(c.size()-n);}
        case 2:{auto n=c.size();c.get<ORDERED>().emplace_hint(c.get<ORDERED>().begin(),id,a);return (int)(c.size()-n);}
        default:return (int)c.get<GATE>().insert(v).second;
        }
      },[&](C& c,const State& b,std::map<int,int>& m,bool threw,int res){
        if(!threw&&res!=!dup)fail("insert","returned %d",res);
        if(threw||dup)same(c,b);else{m[id]=a;order_kept(c,b,id);}
      });
    }
  }
  {
    int n=(int)s.ins.size();
    for(int i=0;i<=n;++i)for(int j=i;j<=n;++j){
      doing="erase a range";C c;s.fill(c);Quiet q;
      auto f=c.get<HASHED>().begin(),l=f;std::advance(f,i);std::advance(l,j);
      std::map<int,int> m=s.m;for(auto it=f;it!=l;++it)m.erase(it->id);
      State b=state(c);
      auto nx=c.get<HASHED>().erase(f,l);if(nx!=l)fail("erase","%s: wrong iterator",doing);
      coherent(c,m);
      V rest;for(int t=0;t<n;++t)if(t<i||t>=j)rest.push_back(b.h[t]);
      if(state(c).h!=rest)fail("order","%s: the others moved",doing);
      take_apart(c,m,r);
      count("ranges-erased");
    }
    /* rehashing keeps every group */
    for(int bc:{0,60,200,1000}){doing="rehash";C c;s.fill(c);Quiet q;c.get<HASHED>().max_load_factor(1.0f);c.get<HASHED>().rehash(bc);coherent(c,s.m);take_apart(c,s.m,r);}
    for(long f=1;f<200;++f){
      doing="rehash";C c;s.fill(c);State b=state(c);fuse=f;bool threw=false;
      try{c.get<HASHED>().rehash(300);}catch(Bang&){threw=true;}
      fuse=-1;if(threw)same(c,b);coherent(c,s.m);
      if(!threw){take_apart(c,s.m,r);break;}
      count("operations-interrupted");
    }
  }
}
int main(int argc,char** argv){
  init(argc,argv);
  return run_cases([&](uint64_t k,Rng& r){run(r,k);if(k<2)sample_log();});
}
