// C++11 history whose observations are hashed, to compare build configurations
// (language standard, compiler, optimisation, library options, pointer type).
// Also checked on its own: every index holds the elements the others hold.
#if defined(VF_SAFE)
#include <boost/multi_index/safe_mode_errors.hpp>
#include <cstdio>
#include <cstdlib>
extern "C" void vf_safe_mode_report(int code);
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,error_code) \
 do{if(!(expr))vf_safe_mode_report((int)(error_code));}while(0)
#endif
#ifdef VF_NOMOVE /* builds emulating a compiler without rvalue references: containers are copied instead */
#define VF_MV(x) (x)
#else
#define VF_MV(x) std::move(x)
#endif
#include "core.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/global_fun.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/ref.hpp>
#include <stdexcept>
#ifdef VF_SAFE
extern "C" void vf_safe_mode_report(int code){
  vf::fail("safe-mode-false-alarm","safe mode reported error %d in a history of valid operations",code);
}
#endif
using namespace vf;
namespace mi=boost::multi_index;

struct KSum{typedef int result_type;int operator()(const Val& v)const{v.check("key");return v.a+v.b;}};
typedef mi::composite_key<Val,mi::member<Val,int,&Val::a>,mi::member<Val,int,&Val::b> > CK;

typedef TA<Val,0> Al;
typedef mi::multi_index_container<Val,mi::indexed_by<
  mi::ordered_unique<KId,CmpDir>,
  mi::ordered_non_unique<KA,CmpDir>,
  mi::ranked_non_unique<KB,CmpDir>,
  mi::hashed_unique<mi::member<Val,int,&Val::id>,HashSalt,EqSalt>,
  mi::hashed_non_unique<KSum,HashSalt,EqSalt>,
  mi::sequenced<>,
  mi::random_access<>,
  mi::ordered_non_unique<CK>,
  mi::ranked_unique<KId,std::greater<int> >,
  mi::hashed_non_unique<CK>
 >,Al> C;
enum{N=10};

static uint64_t H;
static void ob(uint64_t x){H=mix(H,x);}
static void obv(const Val& v){v.check("observed");ob((uint64_t)(uint32_t)v.id<<32|(uint32_t)(v.a*64+v.b));ob((uint64_t)(uint32_t)v.tag);}
template<class I>static void seqhash(const I& ix){for(typename I::const_iterator i=ix.begin(),e=ix.end();i!=e;++i)obv(*i);}
template<class I>static uint64_t setsum(const I& ix){uint64_t s=0;for(typename I::const_iterator i=ix.begin(),e=ix.end();i!=e;++i){s+=mix((uint64_t)(uint32_t)i->tag,(uint64_t)(uint32_t)i->id);}return s;}
template<int K>struct Each{
  static void run(const C& c,uint64_t want){
    Each<K-1>::run(c,want);
    if(c.get<K-1>().size()!=c.size())fail("size","index %d has another size than the container",K-1);
    if(setsum(c.get<K-1>())!=want)fail("elements","index %d holds other elements than index 0",K-1);
    seqhash(c.get<K-1>());
  }
};
template<>struct Each<0>{static void run(const C&,uint64_t){}};
static void look(const C& c){
  ob(c.size());
  Each<N>::run(c,setsum(c.get<0>()));
  int prev=0;bool first=true;(void)prev;
  for(C::nth_index<7>::type::const_iterator i=c.get<7>().begin();i!=c.get<7>().end();++i){
    int k=i->a*1000+i->b;
    if(!first&&k<prev)fail("order","composite index out of order");
    prev=k;first=false;
  }
  ob(c.get<3>().bucket_count());ob(c.get<4>().bucket_count());ob(c.get<9>().bucket_count());
  seen(H);
}
struct Set{int what,to;void operator()(Val& v)const{if(what==0)v.id=to;else if(what==1)v.a=to;else v.b=to;}};
struct SetKey{int to;void operator()(int& k)const{k=to;}};
struct Old{int id,a,b;void operator()(Val& v)const{v.id=id;v.a=a;v.b=b;}};
struct LowB{int v;bool operator()(int x)const{return x>=v;}};
struct UpB{int v;bool operator()(int x)const{return x<=v;}};
struct PredA{int a;bool operator()(const Val& v)const{return v.a==a;}};
struct Par{bool operator()(const Val& x,const Val& y)const{return x.a==y.a;}};
struct LtB{bool operator()(const Val& x,const Val& y)const{return x.b<y.b;}};

struct World{
  Rng& r;C c[2];std::vector<C::node_type> nodes;int di,da;
  explicit World(Rng& r_):r(r_){
    static const int dis[]={4,12,30,100};di=dis[r.below(4)];da=1+r.below(7);
    for(int k=0;k<2;++k){
      int d=r.chance(1,2)?1:-1;
      typedef C::ctor_args_list A;
      A a=boost::make_tuple(boost::make_tuple(KId(),CmpDir(d)),boost::make_tuple(KA(),CmpDir(-d)),boost::make_tuple(KB(),CmpDir(d)),
        boost::make_tuple(std::size_t(r.below(20)),mi::member<Val,int,&Val::id>(),HashSalt(k),EqSalt(k)),
        boost::make_tuple(std::size_t(0),KSum(),HashSalt(k*3),EqSalt(1)),
        boost::tuple<>(),boost::tuple<>(),C::nth_index<7>::type::ctor_args(),C::nth_index<8>::type::ctor_args(),
        C::nth_index<9>::type::ctor_args());
      C t(a,Al(0));
      c[k].swap(t);
    }
  }
  int rid(){return r.below(di);}int ra(){return r.below(da);}
  Val rv(){int i=rid(),a=ra(),b=ra();return Val(i,a,b);}
  template<int K>typename mi::nth_index<C,K>::type::iterator pick(C& x){
    typename mi::nth_index<C,K>::type& ix=x.get<K>();
    typename mi::nth_index<C,K>::type::iterator i=ix.begin();
    for(int k=r.below((int)ix.size()+1);k>0&&i!=ix.end();--k)++i;
    return i;
  }
  template<int K>void modify(C& x){
    typedef typename mi::nth_index<C,K>::type I;
    I& ix=x.get<K>();
    typename I::iterator i=pick<K>(x);
    if(i==ix.end())return;
    int what=r.below(3),to=what==0?rid():ra();
    Set s;s.what=what;s.to=to;
    Old o;o.id=i->id;o.a=i->a;o.b=i->b;
    lg("modify<%d> what %d to %d",K,what,to);
    if(r.chance(1,2))ob(ix.modify(i,s));else ob(ix.modify(i,s,o));
  }
  template<int K>void modify_key(C& x){
    typedef typename mi::nth_index<C,K>::type I;
    I& ix=x.get<K>();
    typename I::iterator i=pick<K>(x);
    if(i==ix.end())return;
    SetKey s;s.to=K==1||K==2?ra():rid();
    SetKey o;o.to=K==1?i->a:K==2?i->b:i->id;
    lg("modify_key<%d> to %d",K,s.to);
    if(r.chance(1,2))ob(ix.modify_key(i,s));else ob(ix.modify_key(i,s,o));
  }
  template<int K>void erase1(C& x){
    typedef typename mi::nth_index<C,K>::type I;
    I& ix=x.get<K>();
    typename I::iterator i=pick<K>(x);
    if(i==ix.end())return;
    if(r.chance(1,3)){
      typename I::iterator j=i;for(int k=r.below(4);k>0&&j!=ix.end();--k)++j;
      lg("erase<%d> range",K);
      i=ix.erase(i,j);
    }else{lg("erase<%d>",K);i=ix.erase(i);}
    if(i==ix.end())ob(1);else obv(*i);
  }
  template<int K>void extract1(C& x){
    typedef typename mi::nth_index<C,K>::type I;
    I& ix=x.get<K>();
    typename I::iterator i=pick<K>(x);
    if(i==ix.end()||nodes.size()>6)return;
    lg("extract<%d>",K);
    nodes.push_back(ix.extract(i));
    obv(nodes.back().value());
  }
  template<int K>void insert_node(C& x){
    if(nodes.empty())return;
    typedef typename mi::nth_index<C,K>::type I;
    C::node_type n=std::move(nodes.back());nodes.pop_back();
    lg("insert node<%d>",K);
    if(r.chance(1,2)){n.value().a=ra();}
    ins_node(x.get<K>(),std::move(n));
  }
  template<class R>void put(R ret){ob(ret.inserted);obv(*ret.position);if(!ret.inserted)nodes.push_back(std::move(ret.node));}
  template<class I>void ins_node(I& ix,C::node_type&& n){put(ix.insert(std::move(n)));}
  void ins_node(mi::nth_index<C,5>::type& ix,C::node_type&& n){put(ix.insert(ix.begin(),std::move(n)));}
  void ins_node(mi::nth_index<C,6>::type& ix,C::node_type&& n){put(ix.insert(ix.end(),std::move(n)));}
  template<class I>void obp(const std::pair<I,bool>& p){ob(p.second);obv(*p.first);}
  void insert(C& x){
    Val v=rv();
    int w=r.below(12);
    lg("insert way %d (%d,%d,%d)",w,v.id,v.a,v.b);
    switch(w){
    case 0:obp(x.insert(v));break;
    case 1:obp(x.insert(std::move(v)));break;
    case 2:obp(x.emplace(v.id,v.a,v.b));break;
    case 3:obv(*x.insert(pick<0>(x),v));break;
    case 4:obv(*x.get<1>().insert(pick<1>(x),v));break;
    case 5:obv(*x.get<2>().emplace_hint(pick<2>(x),v.id,v.a,v.b));break;
    case 6:obp(x.get<3>().emplace(v));break;
    case 7:obv(*x.get<4>().insert(pick<4>(x),std::move(v)));break;
    case 8:obp(x.get<5>().insert(pick<5>(x),v));break;
    case 9:obp(x.get<5>().emplace_front(v.id,v.a,v.b));break;
    case 10:obp(x.get<6>().insert(pick<6>(x),std::move(v)));break;
    case 11:obp(x.get<6>().emplace_back(v.id));break;
    }
  }
  void bulk(C& x){
    std::vector<Val> vs;
    for(int k=r.below(6);k>0;--k)vs.push_back(rv());
    int w=r.below(9);
    lg("bulk way %d of %d",w,(int)vs.size());
    switch(w){
    case 0:x.insert(vs.begin(),vs.end());break;
    case 1:x.get<5>().insert(pick<5>(x),vs.begin(),vs.end());break;
    case 2:x.get<6>().insert(pick<6>(x),vs.begin(),vs.end());break;
    case 3:{Val p=rv();x.get<6>().insert(pick<6>(x),std::size_t(2),p);}break;
    case 4:x.get<5>().assign(vs.begin(),vs.end());break;
    case 5:x.get<6>().assign(std::size_t(1),rv());break;
#if !defined(BOOST_NO_CXX11_HDR_INITIALIZER_LIST)
    case 6:{Val p=rv(),q=rv();x.get<3>().insert({p,q});}break;
    case 7:{Val p=rv(),q=rv();x.get<5>().insert(x.get<5>().begin(),{p,q});}break;
#else
    case 6:{Val p=rv(),q=rv();Val a[]={p,q};x.get<3>().insert(a,a+2);}break;
    case 7:{Val p=rv(),q=rv();Val a[]={p,q};x.get<5>().insert(x.get<5>().begin(),a,a+2);}break;
#endif
    case 8:{C t(vs.begin(),vs.end());look(t);}break;
    }
  }
  void replace(C& x){
    Val v=rv();
    int w=r.below(4);
    lg("replace way %d (%d,%d,%d)",w,v.id,v.a,v.b);
    switch(w){
    case 0:{C::iterator i=pick<0>(x);if(i!=x.end())ob(x.replace(i,v));}break;
    case 1:{C::nth_index<4>::type::iterator i=pick<4>(x);if(i!=x.get<4>().end())ob(x.get<4>().replace(i,std::move(v)));}break;
    case 2:{C::nth_index<5>::type::iterator i=pick<5>(x);if(i!=x.get<5>().end())ob(x.get<5>().replace(i,v));}break;
    case 3:{C::nth_index<8>::type::iterator i=pick<8>(x);if(i!=x.get<8>().end())ob(x.get<8>().replace(i,std::move(v)));}break;
    }
  }
  template<class I>void at(const I& ix,typename I::const_iterator i){if(i==ix.end())ob(77);else obv(*i);}
  void lookups(const C& x){
    int id=rid(),a=ra(),b=ra();
    lg("lookups %d %d %d",id,a,b);
    at(x.get<0>(),x.get<0>().find(id));ob(x.get<0>().count(id));ob(x.get<0>().contains(id));
    at(x.get<1>(),x.get<1>().lower_bound(a));at(x.get<1>(),x.get<1>().upper_bound(a));ob(x.get<1>().count(a));
    std::pair<C::nth_index<1>::type::const_iterator,C::nth_index<1>::type::const_iterator> p=x.get<1>().equal_range(a);
    ob((uint64_t)std::distance(p.first,p.second));
    const C::nth_index<2>::type& rk=x.get<2>();
    ob(rk.find_rank(b));ob(rk.lower_bound_rank(b));ob(rk.upper_bound_rank(b));ob(rk.count(b));
    ob(rk.equal_range_rank(b).second);
    for(std::size_t n=0;n<=rk.size();n+=1+rk.size()/4){at(rk,rk.nth(n));ob(rk.rank(rk.nth(n)));}
    ob(rk.range_rank(mi::unbounded,mi::unbounded).second);
    at(x.get<3>(),x.get<3>().find(id));ob(x.get<3>().count(id));ob(x.get<3>().bucket(id)<x.get<3>().bucket_count());
    ob(x.get<4>().count(a+b));at(x.get<4>(),x.get<4>().find(a+b));
    for(std::size_t k=0;k<x.get<4>().bucket_count()&&k<8;++k){
      ob(x.get<4>().bucket_size(k));
      for(C::nth_index<4>::type::const_local_iterator i=x.get<4>().begin(k);i!=x.get<4>().end(k);++i)obv(*i);}
    ob(x.get<7>().count(boost::make_tuple(a,b)));ob(x.get<7>().count(a));at(x.get<7>(),x.get<7>().lower_bound(boost::make_tuple(a)));
    ob(x.get<9>().count(boost::make_tuple(a,b)));ob(x.get<8>().find_rank(id));
#if !defined(BOOST_NO_CXX11_HDR_TUPLE)
    ob(x.get<7>().count(std::make_tuple(a,b)));ob(x.get<9>().count(std::make_tuple(a,b)));
#else
    ob(x.get<7>().count(boost::make_tuple(a,b)));ob(x.get<9>().count(boost::make_tuple(a,b)));
#endif
    const C::nth_index<6>::type& ra_=x.get<6>();
    try{obv(ra_.at((std::size_t)id));}catch(const std::out_of_range&){ob(5);}
    if(!ra_.empty()){
      obv(ra_.front());obv(ra_.back());obv(ra_[ra_.size()/2]);
      C::nth_index<6>::type::const_iterator i=ra_.begin()+(std::ptrdiff_t)(ra_.size()/2);
      ob((uint64_t)(ra_.end()-i));ob(i<ra_.end());obv(i[0]);
      at(x.get<1>(),x.project<1>(i));at(x.get<5>(),x.project<5>(i));at(x.get<8>(),x.project<8>(i));
      at(x.get<3>(),x.get<3>().iterator_to(*i));at(x.get<2>(),x.get<2>().iterator_to(*i));
      obv(*x.get<5>().rbegin());obv(*x.get<0>().rbegin());obv(x.get<5>().back());
    }
    LowB lo;lo.v=b;UpB up;up.v=b+1;
    if(dirs_up(x)){at(rk,rk.range(lo,up).first);at(rk,rk.range(lo,up).second);at(rk,rk.range(mi::unbounded,up).second);}
  }
  bool dirs_up(const C& x){return x.get<2>().key_comp().dir>0;}
  void lists(C& x,C& y){
    int w=r.below(20);
    lg("list operation %d",w);
    switch(w){
    case 0:x.get<5>().sort();break;
    case 1:x.get<6>().sort(LtB());break;
    case 2:x.get<5>().reverse();break;
    case 3:x.get<6>().reverse();break;
    case 4:{PredA p;p.a=ra();x.get<5>().remove_if(p);}break;
    case 5:{PredA p;p.a=ra();x.get<6>().remove_if(p);}break;
    case 6:x.get<5>().unique(Par());break;
    case 7:x.get<6>().unique(Par());break;
    case 8:x.get<5>().splice(pick<5>(x),y.get<5>());break;
    case 9:{C::nth_index<5>::type::iterator i=pick<5>(y);if(i!=y.get<5>().end())ob(x.get<5>().splice(pick<5>(x),y.get<5>(),i).second);}break;
    case 10:{C::nth_index<6>::type::iterator i=pick<6>(x),j=pick<6>(y);x.get<6>().splice(i,y.get<6>(),y.get<6>().begin(),j);}break;
    case 11:{C::nth_index<6>::type::iterator i=pick<6>(y);if(i!=y.get<6>().end())ob(x.get<6>().splice(pick<6>(x),y.get<6>(),i).second);}break;
    case 12:x.get<5>().sort(LtB());y.get<5>().sort(LtB());x.get<5>().merge(y.get<5>(),LtB());break;
    case 13:x.get<6>().sort();y.get<6>().sort();x.get<6>().merge(y.get<6>());break;
    case 14:{C::nth_index<5>::type::iterator i=pick<5>(x),j=pick<5>(x);if(i!=x.get<5>().end())x.get<5>().relocate(j,i);}break;
    case 15:{C::nth_index<6>::type::iterator j=pick<6>(x);if(j!=x.get<6>().begin())x.get<6>().relocate(x.get<6>().begin(),j,x.get<6>().end());}break;
    case 16:{C::nth_index<6>::type::iterator i=pick<6>(x);if(i!=x.get<6>().end())x.get<6>().splice(pick<6>(x),x.get<6>(),i);}break;
    case 17:{C::nth_index<5>::type::iterator i=pick<5>(x);if(i!=x.get<5>().begin())x.get<5>().splice(x.get<5>().begin(),x.get<5>(),i,x.get<5>().end());}break;
    case 18:{std::vector<boost::reference_wrapper<const Val> > v;
      for(C::nth_index<6>::type::iterator i=x.get<6>().begin();i!=x.get<6>().end();++i)v.push_back(boost::cref(*i));
      for(std::size_t k=v.size();k>1;--k)std::swap(v[k-1],v[(std::size_t)r.below((int)k)]);
      if(r.chance(1,2))x.get<6>().rearrange(v.begin());else x.get<5>().rearrange(v.begin());}break;
    case 19:{std::size_t n=(std::size_t)r.below(6);if(r.chance(1,2))x.get<5>().resize(std::min(n,x.size()));else x.get<6>().resize(std::min(n,x.size()));}break;
    }
  }
  void whole(C& x,C& y){
    int w=r.below(15);
    lg("whole operation %d",w);
    switch(w){
    case 0:{C t(x);look(t);}break;
    case 1:{C t(VF_MV(x));look(t);look(x);x.swap(t);}break;
    case 2:x=y;break;
    case 3:x=VF_MV(y);y.clear();break;
    case 4:x.swap(y);break;
    case 5:swap(x.get<2>(),y.get<2>());break;
    case 6:x.clear();break;
    case 7:x.get<3>().rehash((std::size_t)r.below(100));break;
    case 8:x.get<4>().max_load_factor(0.5f+(float)r.below(4));break;
    case 9:x.get<6>().reserve((std::size_t)r.below(60));x.get<6>().shrink_to_fit();ob(x.get<6>().capacity());break;
    case 10:x.get<0>().merge(y);break;
    case 11:x.get<3>().merge(y.get<3>());break;
    case 12:{ob(x.get<0>()==y.get<0>());ob(x.get<5>()<y.get<5>());ob(x.get<6>()!=y.get<6>());ob(x.get<3>()==y.get<3>());ob(x==y);ob(x.get<1>()>=y.get<1>());}break;
    case 13:ob(x.get<1>().erase(ra()));break;
    case 14:ob(x.get<4>().erase(ra()+ra()));break;
    }
  }
  void step(){
    C& x=c[r.below(4)==0];C& y=&x==&c[0]?c[1]:c[0];
    int w=r.below(100);
    if(w<34)insert(x);
    else if(w<40)bulk(x);
    else if(w<46)replace(x);
    else if(w<58)switch(r.below(9)){
      case 0:modify<0>(x);break;case 1:modify<1>(x);break;case 2:modify<2>(x);break;case 3:modify<3>(x);break;case 4:modify<4>(x);break;
      case 5:modify<5>(x);break;case 6:modify<6>(x);break;case 7:modify<7>(x);break;case 8:modify<9>(x);break;}
    else if(w<64)switch(r.below(3)){case 0:modify_key<0>(x);break;case 1:modify_key<1>(x);break;case 2:modify_key<2>(x);break;}
    else if(w<74)switch(r.below(8)){
      case 0:erase1<0>(x);break;case 1:erase1<1>(x);break;case 2:erase1<2>(x);break;case 3:erase1<3>(x);break;case 4:erase1<4>(x);break;
      case 5:erase1<5>(x);break;case 6:erase1<6>(x);break;case 7:erase1<8>(x);break;}
    else if(w<78)switch(r.below(5)){
      case 0:extract1<0>(x);break;case 1:extract1<2>(x);break;case 2:extract1<4>(x);break;case 3:extract1<5>(x);break;case 4:extract1<6>(x);break;}
    else if(w<82)switch(r.below(5)){
      case 0:insert_node<0>(x);break;case 1:insert_node<2>(x);break;case 2:insert_node<4>(x);break;case 3:insert_node<5>(x);break;case 4:insert_node<6>(x);break;}
    else if(w<86)lookups(x);
    else if(w<94)lists(x,y);
    else whole(x,y);
  }
};

int main(int argc,char** argv){
  init(argc,argv);
  return run_cases([](uint64_t k,Rng& r){
    H=0;tagctr()=0;
    long live=vstats().live;std::size_t blk=blocks().size();
    {
      World w(r);
      int n=ctx().len/2+r.below(ctx().len);
      for(int i=0;i<n;++i){
        w.step();
        look(w.c[0]);if(i%3==0)look(w.c[1]);
        ++ctx().evaluations;
      }
      w.lookups(w.c[0]);w.lookups(w.c[1]);
      seen(H);
    }
    if(vstats().live!=live)fail("leak","%ld elements left alive",vstats().live-live);
    if(blocks().size()!=blk)fail("leak","%ld blocks left allocated",(long)(blocks().size()-blk));
    count("config-histories");
    if(k<2)sample_log(600);
  });
}
