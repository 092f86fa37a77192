// Node handles, merge and splice between containers of different types with the
// same node type (other uniqueness, keys, predicates, hash functions).
// -DCFG=0..2 selects the destination type; sources are all three types.
// Oracle: the accepted elements are computed from the destination's unique keys
// alone; addresses, list orders, sortedness, adjacency and conservation are checked.
#if defined(VF_SAFE)
#include <boost/multi_index/safe_mode_errors.hpp>
#include <cstdio>
#include <cstdlib>
extern "C" void vf_safe_mode_report(int code);
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,error_code) \
 do{if(!(expr))vf_safe_mode_report((int)(error_code));}while(0)
#endif
#include "core.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <set>
#ifdef VF_SAFE
extern "C" void vf_safe_mode_report(int code){
  vf::fail("safe-mode-false-alarm","safe mode reported error %d in a history of valid operations",code);
}
#endif
using namespace vf;
namespace mi=boost::multi_index;
#ifndef CFG
#define CFG 0
#endif

struct KAB{typedef int result_type;int operator()(const Val& v)const{fp(F_KEY);v.check("key");return v.a*64+v.b;}};
struct KBI{typedef int result_type;int operator()(const Val& v)const{fp(F_KEY);v.check("key");return v.b*4096+v.id;}};
struct Desc{bool operator()(int x,int y)const{fp(F_CMP);return x>y;}};
struct Asc{bool operator()(int x,int y)const{fp(F_CMP);return x<y;}};
struct Mod7{bool operator()(int x,int y)const{fp(F_CMP);return x%7<y%7;}};
struct H1{std::size_t operator()(int x)const{fp(F_HASH);return (std::size_t)x*2654435761u;}};
struct H2{std::size_t operator()(int x)const{fp(F_HASH);return (std::size_t)(x%3);}};
struct E1{bool operator()(int x,int y)const{fp(F_EQ);return x==y;}};
struct E5{bool operator()(int x,int y)const{fp(F_EQ);return x%5==y%5;}};
struct H5{std::size_t operator()(int x)const{fp(F_HASH);return (std::size_t)(x%5);}};
typedef TA<Val,0> Al;
/* index kinds: ordered, hashed, sequenced, random access, ranked */
typedef mi::multi_index_container<Val,mi::indexed_by<
  mi::ordered_unique<KId,Asc>,mi::hashed_non_unique<KA,H1,E1>,mi::sequenced<>,mi::random_access<>,mi::ranked_non_unique<KB,Desc> >,Al> A;
typedef mi::multi_index_container<Val,mi::indexed_by<
  mi::ordered_non_unique<KB,Desc>,mi::hashed_unique<KAB,H2,E1>,mi::sequenced<>,mi::random_access<>,mi::ranked_unique<KId,Asc> >,Al> B;
typedef mi::multi_index_container<Val,mi::indexed_by<
  mi::ordered_non_unique<KId,Mod7>,mi::hashed_non_unique<KId,H5,E5>,mi::sequenced<>,mi::random_access<>,mi::ranked_non_unique<KA,Asc> >,Al> D;
static_assert(std::is_same<A::node_type,B::node_type>::value&&std::is_same<A::node_type,D::node_type>::value,"same nodes");
typedef A::node_type Node;

struct Rec{int where;int id,a,b,tag;}; /* 0..5 containers, 100+ handle */
static std::map<const Val*,Rec> els;

/* is v refused by the destination (x: the values in it)? */
static bool eqv(int type,int rule,const Rec& x,const Rec& y){
  switch(type){
  case 0:return rule==0&&x.id==y.id;
  case 1:return rule==0?(x.a==y.a&&x.b==y.b):x.id==y.id;
  }
  return false;
}
static int rules(int type){return type==0?1:type==1?2:0;}
struct Slot{int type;std::vector<const Val*> seq,rnd;};

struct World{
  Rng& r;
  A a[2];B b[2];D d[2];
  Slot sl[6];
  std::vector<std::pair<Node,const Val*> > pool;
  int di,da;
  explicit World(Rng& r_):r(r_){
    els.clear();
    for(int i=0;i<6;++i)sl[i].type=i/2;
    static const int dis[]={6,15,40,150};di=dis[r.below(4)];da=1+r.below(6);
  }
  std::size_t size(int s){return s<2?a[s].size():s<4?b[s-2].size():d[s-4].size();}
  bool refused(int s,const Rec& v,std::vector<const Val*>* who=nullptr){
    bool no=false;
    for(auto& e:els)if(e.second.where==s)for(int k=0;k<rules(sl[s].type);++k)
      if(eqv(sl[s].type,k,e.second,v)){no=true;if(who)who->push_back(e.first);}
    return no;
  }
  template<class F>void with(int s,F f){
    switch(s){case 0:f(a[0]);break;case 1:f(a[1]);break;case 2:f(b[0]);break;case 3:f(b[1]);break;case 4:f(d[0]);break;case 5:f(d[1]);break;}
  }
  /* ---- verification of one container */
  template<class I>void members(int s,const char* what,const I& ix){
    std::set<const Val*> got;
    for(auto i=ix.begin();i!=ix.end();++i){
      const Val* p=boost::addressof(*i);
      auto e=els.find(p);
      if(e==els.end()||e->second.where!=s)fail("members","container %d, %s index: an element that belongs elsewhere (or nowhere)",s,what);
      if(p->id!=e->second.id||p->a!=e->second.a||p->b!=e->second.b||p->tag!=e->second.tag)fail("value","container %d: an element changed its value",s);
      if(!got.insert(p).second)fail("members","container %d, %s index: element met twice",s,what);
    }
    std::size_t want=0;for(auto& e:els)if(e.second.where==s)++want;
    if(got.size()!=want||ix.size()!=want)fail("members","container %d, %s index: %zu elements, size() %zu, expected %zu",s,what,got.size(),(std::size_t)ix.size(),want);
  }
  template<class I,class K>void sorted(int s,const char* what,const I& ix,K less,bool unique){
    const Val* p=nullptr;
    for(auto& v:ix){
      if(p&&(less(v,*p)||(unique&&!less(*p,v))))fail("order","container %d: %s index out of order",s,what);
      p=&v;
    }
    std::size_t n=0;
    for(auto i=ix.begin();i!=ix.end();++i,++n){auto f=ix.find(ix.key_extractor()(*i));if(f==ix.end()||less(*f,*i)||less(*i,*f))fail("find","container %d: element not found in %s index",s,what);}
  }
  template<class I>void hashed(int s,const I& ix){
    std::size_t n=0;
    for(std::size_t k=0;k<ix.bucket_count();++k)for(auto i=ix.begin(k);i!=ix.end(k);++i){
      ++n;if(ix.bucket(ix.key_extractor()(*i))!=k)fail("bucket","container %d: element in a wrong bucket",s);}
    if(n!=ix.size())fail("bucket","container %d: buckets hold %zu of %zu",s,n,(std::size_t)ix.size());
    for(auto i=ix.begin();i!=ix.end();){
      auto p=ix.equal_range(ix.key_extractor()(*i));
      if(p.first!=i)fail("group","container %d: a group of equivalent elements is split",s);
      i=p.second;
    }
    if(ix.size()&&ix.load_factor()>ix.max_load_factor())fail("load","container %d: load factor exceeded",s);
  }
  template<class I>void listed(int s,const char* what,const I& ix,const std::vector<const Val*>& w){
    std::size_t n=0;
    for(auto& v:ix){if(n>=w.size()||w[n]!=boost::addressof(v))fail("sequence","container %d: %s index differs at %zu",s,what,n);++n;}
    if(n!=w.size())fail("sequence","container %d: %s index has %zu of %zu",s,what,n,w.size());
    for(auto i=ix.rbegin();i!=ix.rend();++i)if(boost::addressof(*i)!=w[--n])fail("sequence","container %d: %s index backwards differs",s,what);
  }
  void verify(int s){
    with(s,[&](auto& c){
      members(s,"ordered",c.template get<0>());members(s,"hashed",c.template get<1>());members(s,"sequenced",c.template get<2>());
      members(s,"random access",c.template get<3>());members(s,"ranked",c.template get<4>());
      hashed(s,c.template get<1>());
      listed(s,"sequenced",c.template get<2>(),sl[s].seq);listed(s,"random access",c.template get<3>(),sl[s].rnd);
      auto& rk=c.template get<4>();std::size_t n=0;
      for(auto i=rk.begin();i!=rk.end();++i,++n)if(rk.nth(n)!=i||rk.rank(i)!=n)fail("rank","container %d: rank of element %zu is wrong",s,n);
    });
    switch(sl[s].type){
    case 0:sorted(s,"ordered",a[s].get<0>(),[](const Val& x,const Val& y){return x.id<y.id;},true);
      sorted(s,"ranked",a[s].get<4>(),[](const Val& x,const Val& y){return x.b>y.b;},false);break;
    case 1:sorted(s,"ordered",b[s-2].get<0>(),[](const Val& x,const Val& y){return x.b>y.b;},false);
      sorted(s,"ranked",b[s-2].get<4>(),[](const Val& x,const Val& y){return x.id<y.id;},true);break;
    case 2:sorted(s,"ordered",d[s-4].get<0>(),[](const Val& x,const Val& y){return x.id%7<y.id%7;},false);
      sorted(s,"ranked",d[s-4].get<4>(),[](const Val& x,const Val& y){return x.a<y.a;},false);break;
    }
    uint64_t h=(uint64_t)s;for(auto p:sl[s].rnd)h=mix(h,(uint64_t)(uint32_t)(p->id*4096+p->a*64+p->b));
    seen(h);
  }
  void verify_all(){for(int s=0;s<6;++s)verify(s);
    for(auto& p:pool){if(p.first.empty()||boost::addressof(p.first.value())!=p.second)fail("handle","a node handle lost its element");}
    long n=0;for(auto& e:els){(void)e;++n;}
    if(vstats().live!=n)fail("lifetime","%ld elements alive, expected %ld",vstats().live,n);}
  /* ---- model moves */
  static void rm(std::vector<const Val*>& v,const Val* p){v.erase(std::find(v.begin(),v.end(),p));}
  void out(int s,const Val* p){rm(sl[s].seq,p);rm(sl[s].rnd,p);}
  void in(int s,const Val* p){els[p].where=s;sl[s].seq.push_back(p);sl[s].rnd.push_back(p);}
  void insert(int s){
    int i=r.below(di),x=r.below(da),y=r.below(da);
    Rec v{s,i,x,y,0};
    bool no=refused(s,v);
    lg("insert (%d,%d,%d) into %d",i,x,y,s);
    with(s,[&](auto& c){
      auto p=c.emplace(i,x,y);
      if(p.second==no)fail("insert","insertion gave %d",(int)p.second);
      if(p.second){v.tag=p.first->tag;els[boost::addressof(*p.first)]=v;in(s,boost::addressof(*p.first));}
    });
  }
  template<int I,class C>void extract(int s,C& c){
    auto& ix=c.template get<I>();
    if(ix.empty()||pool.size()>8)return;
    auto i=std::next(ix.begin(),r.below((int)ix.size()));
    const Val* p=boost::addressof(*i);
    lg("extract tag %d from %d by index %d",p->tag,s,I);
    pool.emplace_back(ix.extract(i),p);
    out(s,p);els[p].where=100;count("node-extracted");
  }
  template<class R>void node_result(int s,R ret,const Val* p,bool no,const std::vector<const Val*>& who,int at,int I){
    if(ret.inserted==no)fail("node-insert","node insertion gave %d, expected %d",(int)ret.inserted,(int)!no);
    if(no){
      if(ret.node.empty()||boost::addressof(ret.node.value())!=p)fail("node-insert","the refused node was not handed back");
      if(std::find(who.begin(),who.end(),boost::addressof(*ret.position))==who.end())fail("node-insert","position is not that of a blocking element");
      pool.emplace_back(std::move(ret.node),p);count("node-insert-rejected");
    }else{
      if(!ret.node.empty())fail("node-insert","an accepted node was handed back");
      if(boost::addressof(*ret.position)!=p)fail("node-insert","position is not that of the element");
      in(s,p);
      if(at>=0){auto& l=I==2?sl[s].seq:sl[s].rnd;l.pop_back();l.insert(l.begin()+at,p);}
      count("node-inserted");
    }
  }
  template<int I,class C>void insert_node(int s,C& c){
    if(pool.empty())return;
    int k=r.below((int)pool.size());
    Node n=std::move(pool[k].first);const Val* p=pool[k].second;
    pool.erase(pool.begin()+k);
    if(r.chance(1,4)){ /* change the value while outside */
      n.value().id=r.below(di);n.value().b=r.below(da);
      els[p].id=p->id;els[p].b=p->b;
    }
    std::vector<const Val*> who;
    bool no=refused(s,els[p],&who);
    lg("insert node tag %d (%d,%d,%d) into %d by index %d",p->tag,p->id,p->a,p->b,s,I);
    auto& ix=c.template get<I>();
    if constexpr(I==2||I==3){int at=r.below((int)ix.size()+1);node_result(s,ix.insert(std::next(ix.begin(),at),std::move(n)),p,no,who,at,I);}
    else node_result(s,ix.insert(std::move(n)),p,no,who,-1,I);
  }
  void drop_node(){
    if(pool.empty())return;
    int k=r.below((int)pool.size());
    lg("drop node tag %d",pool[k].second->tag);
    els.erase(pool[k].second);pool.erase(pool.begin()+k);count("node-dropped");
  }
  /* ---- transfers: destination index I of c (slot s), source index J of e (slot t) */
  template<int I,int J,class C,class E>void xfer(int s,C& c,int t,E& e,long fault){
    auto& x=c.template get<I>();auto& y=e.template get<J>();
    constexpr bool list=I==2||I==3;
    int m=(int)y.size(),form=r.below(3),f=0,l=m;
    if(form==1){if(!m)return;f=r.below(m);l=f+1;}
    if(form==2){f=r.below(m+1);l=f+r.below(m-f+1);}
    auto fi=std::next(y.begin(),f),li=std::next(y.begin(),l);
    int at=list?r.below((int)x.size()+1):0;
    auto pit=list?std::next(x.begin(),at):x.end();
    std::vector<const Val*> cand;for(auto i=fi;i!=li;++i)cand.push_back(boost::addressof(*i));
    lg("%s %d.%d <- %d.%d form %d [%d,%d) of %d at %d",list?"splice":"merge",s,I,t,J,form,f,l,m,at);
    long made=vstats().constructed;
    std::pair<decltype(x.begin()),bool> res(x.end(),false);
    bool threw=false;
    Faults& F=faults();
    if(fault){F=Faults();F.mask=0xffff;F.countdown=fault;F.armed=true;}
    try{
      if constexpr(list){
        if(form==0)x.splice(pit,y);else if(form==1)res=x.splice(pit,y,fi);else x.splice(pit,y,fi,li);
      }else{
        if(form==0){if(J==0&&r.chance(1,2))x.merge(e);else x.merge(y);}
        else if(form==1)res=x.merge(y,fi);else x.merge(y,fi,li);
      }
    }catch(const Boom&){threw=true;}
    F.armed=false;
    if(fault&&F.fired&&!threw)fail("swallowed","an exception did not reach the caller");
    if(vstats().constructed!=made)fail("copies","a transfer constructed elements");
    if(threw){
      count("fault-runs");
      /* each candidate is in exactly one of the two: adopt which, then verify */
      std::set<const Val*> ins;for(auto& v:c)ins.insert(boost::addressof(v));
      std::vector<const Val*> moved;
      for(auto p:cand)if(ins.count(p))moved.push_back(p);
      if(form==1&&!moved.empty())fail("strong","a single transfer that threw had an effect");
      /* processed in order: the transferred are the accepted ones of a prefix */
      std::size_t q=0;
      std::vector<const Val*> got;
      for(auto p:cand){
        if(q>=moved.size())break;
        Rec v=els[p];
        bool no=refused(s,v);
        if(moved[q]==p){if(no)fail("transfer","a refused element was transferred");out(t,p);in(s,p);++q;got.push_back(p);}
        else if(!no)fail("transfer","an acceptable element was skipped before the exception");
      }
      if(q!=moved.size())fail("transfer","elements transferred out of order");
      if constexpr(list){ /* where the transferred are: before the position or, not yet moved there, at the end */
        auto& lst=I==2?sl[s].seq:sl[s].rnd;
        std::vector<const Val*> real;for(auto& v:x)real.push_back(boost::addressof(v));
        std::vector<const Val*> rest,want;
        for(auto p:real)if(std::find(got.begin(),got.end(),p)==got.end())rest.push_back(p);
        for(auto p:lst)if(std::find(got.begin(),got.end(),p)==got.end())want.push_back(p);
        if(rest!=want)fail("sequence","an interrupted splice disturbed the order of the others");
        lst=real;
      }
      return;
    }
    for(auto p:cand){
      Rec v=els[p];
      std::vector<const Val*> who;
      bool no=refused(s,v,&who);
      count(no?"transfer-rejected":"transferred");if(s/2!=t/2&&!no)count("cross-transfers");
      if(form==1){
        if(res.second==no)fail("result","transfer gave %d, expected %d",(int)res.second,(int)!no);
        if(!no&&boost::addressof(*res.first)!=p)fail("result","iterator is not at the element");
        if(no&&std::find(who.begin(),who.end(),boost::addressof(*res.first))==who.end())fail("result","iterator is not at a blocking element");
      }
      if(no)continue;
      out(t,p);in(s,p);
      if(list){auto& lst=I==2?sl[s].seq:sl[s].rnd;lst.pop_back();lst.insert(lst.begin()+at,p);++at;}
    }
  }
  template<int I,class C,class E>void xfer_j(int s,C& c,int t,E& e,long fault){
    switch(r.below(5)){
    case 0:xfer<I,0>(s,c,t,e,fault);break;case 1:xfer<I,1>(s,c,t,e,fault);break;case 2:xfer<I,2>(s,c,t,e,fault);break;
    case 3:xfer<I,3>(s,c,t,e,fault);break;case 4:xfer<I,4>(s,c,t,e,fault);break;}
  }
  void transfer(long fault){
    int s=CFG*2+r.below(2),t;
    do t=r.below(6);while(t==s||(t/2==s/2&&r.chance(1,2)));
    with(t,[&](auto& e){this->dst(s,t,e,fault);});
  }
  template<class E>void dst(int s,int t,E& e,long fault){
#if CFG==0
    auto& c=a[s];
#elif CFG==1
    auto& c=b[s-2];
#else
    auto& c=d[s-4];
#endif
    switch(r.below(5)){
    case 0:xfer_j<0>(s,c,t,e,fault);break;case 1:xfer_j<1>(s,c,t,e,fault);break;case 2:xfer_j<2>(s,c,t,e,fault);break;
    case 3:xfer_j<3>(s,c,t,e,fault);break;case 4:xfer_j<4>(s,c,t,e,fault);break;}
  }
  void erase(int s){
    with(s,[&](auto& c){
      if(c.empty())return;
      auto& ix=c.template get<3>();auto i=ix.begin()+r.below((int)ix.size());
      const Val* p=boost::addressof(*i);lg("erase tag %d from %d",p->tag,s);
      ix.erase(i);out(s,p);els.erase(p);
    });
  }
  void node_op(bool put){
    int s=r.below(6);
    with(s,[&](auto& c){
      switch(r.below(5)){
      case 0:put?insert_node<0>(s,c):extract<0>(s,c);break;case 1:put?insert_node<1>(s,c):extract<1>(s,c);break;
      case 2:put?insert_node<2>(s,c):extract<2>(s,c);break;case 3:put?insert_node<3>(s,c):extract<3>(s,c);break;
      case 4:put?insert_node<4>(s,c):extract<4>(s,c);break;}
    });
  }
  void step(){
    int w=r.below(100);
    if(w<38)insert(r.below(6));
    else if(w<60)transfer(0);
    else if(w<72)node_op(false);
    else if(w<88)node_op(true);
    else if(w<91)drop_node();
    else erase(r.below(6));
  }
};
static bool history(uint64_t seed,int len,long fault){
  Rng r(seed);tagctr()=0;
  std::size_t blk=blocks().size();
  bool fired=false;
  {
    World w(r);
    for(int i=0;i<len;++i){
      if(fault&&i==len-1){w.transfer(fault);fired=faults().fired>0;}
      else w.step();
      w.verify_all();
      ++ctx().evaluations;
    }
    if(fired)for(int i=0;i<6;++i){w.step();w.verify_all();}
  }
  if(vstats().live)fail("leak","%ld elements left",vstats().live);
  if(blocks().size()!=blk)fail("leak","blocks left");
  return fired;
}
int main(int argc,char** argv){
  init(argc,argv);
  bool fm=ctx().mode=="fault";
  return run_cases([&](uint64_t k,Rng& r){
    uint64_t cs=r.next();
    int len=fm?12+r.below(40):40+r.below(60);
    if(!fm){history(cs,len,0);if(k<2)sample_log(500);return;}
    for(long f=1;f<300;++f){
      begin_case(k);lg("fault point %ld",f);
      faults()=Faults();
      if(!history(cs,len,f))break;
    }
  });
}
