// Large containers (tens to hundreds of thousands of elements) against standard
// containers: what only shows beyond some size (counters too narrow, bucket array
// growth, merge sort levels, deep trees).  Oracle: std::stable_sort, std::map and a
// vector with the order of the list indices.
#include "core.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/member.hpp>
#include <unordered_map>
#include <set>
using namespace vf;
#ifndef CFG
#define CFG 0
#endif
/* CFG=0: without a random access index (one element at a time is erased from it
   in linear time), CFG=1: with it, elements being erased in bulk beyond some size */
namespace mi=boost::multi_index;
struct R{int id,a,b;};
static bool operator==(const R& x,const R& y){return x.id==y.id&&x.a==y.a&&x.b==y.b;}
struct Hs{std::size_t operator()(int x)const{return (std::size_t)x*0x9E3779B97F4A7C15ull;}};
struct Hb{std::size_t operator()(int x)const{return (std::size_t)x;}};
typedef mi::member<R,int,&R::id> MId;typedef mi::member<R,int,&R::a> MA;typedef mi::member<R,int,&R::b> MB;
typedef mi::multi_index_container<R,mi::indexed_by<
  mi::ordered_unique<MId>,            /*0*/
  mi::ordered_non_unique<MA>,         /*1*/
  mi::ranked_unique<MId>,             /*2*/
  mi::ranked_non_unique<MB>,          /*3*/
  mi::hashed_unique<MId,Hs>,          /*4*/
  mi::hashed_non_unique<MB,Hb>,       /*5*/
  mi::sequenced<>                     /*6*/
#if CFG==1
  ,mi::random_access<>                /*7*/
#endif
> > C;
struct LId{bool operator()(const R& x,const R& y)const{return x.id<y.id;}};
struct LA{bool operator()(const R& x,const R& y)const{return x.a<y.a;}};
struct LB{bool operator()(const R& x,const R& y)const{return x.b<y.b;}};
#define REQ(key,c,...) do{if(!(c))fail("scale-" key,__VA_ARGS__);}while(0)

/* model: order of the two list indices; order among equivalents is checked where it is prescribed */
struct Model{std::vector<R> seq,rnd;};

template<class I>static void same_list(const char* what,const I& i,const std::vector<R>& m){
  std::size_t k=0;
  for(auto it=i.begin();it!=i.end();++it,++k){
    REQ("order",k<m.size(),"%s: more than %zu elements",what,m.size());
    REQ("order",*it==m[k],"%s: element %d instead of %d at %zu",what,it->id,m[k].id,k);
  }
  REQ("order",k==m.size()&&i.size()==k,"%s: %zu elements by iteration, size() %zu, expected %zu",what,k,(std::size_t)i.size(),m.size());
  k=m.size();
  for(auto it=i.rbegin();it!=i.rend();++it){
    REQ("order",k>0,"%s: more elements backwards",what);--k;
    REQ("order",*it==m[k],"%s backwards: element %d instead of %d at %zu",what,it->id,m[k].id,k);
  }
  REQ("order",k==0,"%s: %zu elements missing backwards",what,k);
}
static void verify(const C& c,const Model& m,Rng& r,bool stable){
  std::size_t n=m.seq.size();
  count("scale-verifications");count("scale-elements",n);
  REQ("size",c.size()==n,"size %zu instead of %zu",c.size(),n);
  same_list("sequenced",c.get<6>(),m.seq);
#if CFG==1
  same_list("random access",c.get<7>(),m.rnd);
  for(int k=0;k<300&&n;++k){
    std::size_t p=r.below(n);
    REQ("position",c.get<7>()[p]==m.rnd[p]&&&c.get<7>()[p]==&*c.get<0>().find(m.rnd[p].id),"element %zu of the random access index",p);
    auto it=c.get<7>().begin()+p;
    REQ("position",(std::size_t)(it-c.get<7>().begin())==p&&(std::size_t)(c.get<7>().end()-it)==n-p,"distance at %zu",p);
    REQ("position",c.project<7>(c.get<4>().find(m.rnd[p].id))==it,"projection at %zu",p);
  }
#endif
  std::vector<R> id=m.seq;std::sort(id.begin(),id.end(),LId());
  same_list("ordered_unique",c.get<0>(),id);
  same_list("ranked_unique",c.get<2>(),id);
  {
    std::vector<R> a=m.seq;
    if(stable){std::stable_sort(a.begin(),a.end(),LA());same_list("ordered_non_unique",c.get<1>(),a);}
    else{
      std::size_t k=0;int p=-1;
      for(auto it=c.get<1>().begin();it!=c.get<1>().end();++it,++k){REQ("order",it->a>=p&&k<n,"ordered_non_unique not sorted at %zu",k);p=it->a;}
      REQ("order",k==n,"ordered_non_unique has %zu elements of %zu",k,n);
    }
  }
  {
    std::size_t k=0;
    for(auto it=c.get<2>().begin();it!=c.get<2>().end();++it,++k)REQ("rank",c.get<2>().rank(it)==k,"rank %zu at %zu",(std::size_t)c.get<2>().rank(it),k);
    REQ("rank",c.get<2>().rank(c.get<2>().end())==n,"rank of end");
    k=0;int p=-1;
    for(auto it=c.get<3>().begin();it!=c.get<3>().end();++it,++k){
      REQ("order",it->b>=p&&k<n,"ranked_non_unique not sorted at %zu",k);p=it->b;
      if(k%7==0){
        REQ("rank",c.get<3>().rank(it)==k,"rank %zu at %zu",(std::size_t)c.get<3>().rank(it),k);
        REQ("rank",c.get<3>().nth(k)==it,"nth(%zu) is another element",k);
      }
    }
    REQ("rank",c.get<3>().nth(n)==c.get<3>().end(),"nth(size)");
  }
  for(std::size_t k=0;k<id.size();++k){
    int key=id[k].id;
    auto i=c.get<4>().find(key);
    REQ("lookup",i!=c.get<4>().end()&&*i==id[k],"hashed_unique does not find %d",key);
    if(k%5==0){
      auto j=c.get<0>().find(key);
      REQ("lookup",j!=c.get<0>().end()&&*j==id[k],"ordered_unique does not find %d",key);
      REQ("rank",c.get<2>().find_rank(key)==k,"find_rank(%d)",key);
      REQ("rank",c.get<2>().nth(k)->id==key,"nth(%zu)",k);
      bool prev=k&&id[k-1].id==key-1;
      if(!prev){
        REQ("lookup",c.get<0>().count(key-1)==0&&c.get<4>().count(key-1)==0,"%d found though not there",key-1);
        REQ("lookup",c.get<0>().lower_bound(key-1)==j&&c.get<0>().upper_bound(key-1)==j,"bounds of %d",key-1);
      }
    }
  }
  std::unordered_map<int,std::size_t> hb,ha;for(const R& x:m.seq){++hb[x.b];++ha[x.a];}
  for(auto& p:hb){
    auto e=c.get<5>().equal_range(p.first);
    std::size_t k=0;for(;e.first!=e.second;++e.first,++k)REQ("lookup",k<p.second&&e.first->b==p.first,"hashed_non_unique: equal_range(%d)",p.first);
    REQ("lookup",k==p.second,"hashed_non_unique has %zu elements with key %d, expected %zu",k,p.first,p.second);
    auto q=c.get<3>().equal_range_rank(p.first);
    REQ("rank",q.second-q.first==p.second,"equal_range_rank(%d)",p.first);
    if(p.second<2000)REQ("lookup",c.get<3>().count(p.first)==p.second&&c.get<5>().count(p.first)==p.second,"count(%d)",p.first);
  }
  int q=0;
  for(auto& p:ha){if(++q>200)break;REQ("lookup",c.get<1>().count(p.first)==p.second,"ordered_non_unique: count(%d)",p.first);}
  {
    auto& h=c.get<4>();std::size_t s=0,big=0;
    for(std::size_t b=0;b<h.bucket_count();++b){std::size_t z=h.bucket_size(b);s+=z;if(z>big)big=z;}
    REQ("buckets",s==n,"buckets hold %zu of %zu elements",s,n);
    REQ("buckets",(double)n<=(double)h.bucket_count()*h.max_load_factor()*1.0001,"load factor %g",(double)h.load_factor());
    REQ("buckets",big<40,"a bucket with %zu elements in spite of a good hash function",big);
    auto& g=c.get<5>();s=0;for(std::size_t b=0;b<g.bucket_count();++b)s+=g.bucket_size(b);
    REQ("buckets",s==n,"buckets of hashed_non_unique hold %zu of %zu elements",s,n);
  }
  seen(mix(n,m.seq.empty()?0:m.seq[n/2].id));
}
static void run(Rng& r,uint64_t k){
  static const int sizes[]={66000,9000,131500,30000,270000};
  int n=sizes[k%5]+r.below(400);
  int pat=r.below(4),da=pat==2?n:1+r.below(5000),db=r.chance(1,3)?n:n/100+r.below(3000);
  lg("%d elements, pattern %d, %d and %d keys",n,pat,da,db);
  Model m;C c;
  for(int i=0;i<n;++i){
    R x;
    x.id=pat==0?i*2:pat==1?(n-i)*2:(int)(r.next()%(4u*n));
    x.a=r.below(da);x.b=r.below(db);
    bool ok;
    switch(pat==3?i%8:6){
    case 0:ok=c.insert(x).second;break;
    case 1:ok=c.get<1>().insert(x).second;break;
    case 2:ok=c.get<2>().insert(x).second;break;
    case 3:ok=c.get<3>().insert(x).second;break;
    case 4:ok=c.get<4>().insert(x).second;break;
    case 5:ok=c.get<5>().insert(x).second;break;
    case 6:ok=c.get<6>().push_back(x).second;break;
#if CFG==1
    default:ok=c.get<7>().push_back(x).second;break;
#else
    default:ok=c.get<6>().push_back(x).second;break;
#endif
    }
    if(ok){m.seq.push_back(x);m.rnd.push_back(x);}
  }
  if(!CFG)m.rnd.clear();
  ctx().evaluations+=n;
  bool stable=true;
  verify(c,m,r,stable);
  static const bool lists=opt("ops")=="lists";
  int ops=8;
  for(int o=0;o<ops;++o){
    int what=r.below(13);
    if(lists){static const int l[]={2,3,4,5,6,10,12};what=l[r.below(7)];}
#if CFG==1
    bool slow=m.seq.size()>20000;
    if(slow&&(what==0||what==10))what=3;
#else
    bool slow=false;
    if(what==3||what==4)what-=3;
#endif
    (void)slow;
    lg("operation %d at %zu elements",what,m.seq.size());
    ctx().evaluations+=m.seq.size();
    switch(what){
    case 0:{ /* erase about a third, one by one, through different indices */
      std::set<int> gone;
      for(const R& x:m.seq)if(r.chance(1,3))gone.insert(x.id);
      int t=0;
      for(int id:gone){
        switch(t++%4){
        case 0:c.get<0>().erase(id);break;
        case 1:c.get<2>().erase(c.get<2>().find(id));break;
        case 2:c.get<4>().erase(id);break;
        case 3:c.get<6>().erase(c.project<6>(c.get<4>().find(id)));break;
        }
      }
      auto f=[&](const R& x){return gone.count(x.id)!=0;};
      m.seq.erase(std::remove_if(m.seq.begin(),m.seq.end(),f),m.seq.end());
      m.rnd.erase(std::remove_if(m.rnd.begin(),m.rnd.end(),f),m.rnd.end());
      break;}
    case 1:{ /* ranges */
      int lo=r.below(da),hi=lo+1+da/10;
      if(slow)hi=lo;
      c.get<1>().erase(c.get<1>().lower_bound(lo),c.get<1>().lower_bound(hi));
      auto f=[&](const R& x){return x.a>=lo&&x.a<hi;};
      m.seq.erase(std::remove_if(m.seq.begin(),m.seq.end(),f),m.seq.end());
      m.rnd.erase(std::remove_if(m.rnd.begin(),m.rnd.end(),f),m.rnd.end());
#if CFG==1
      if(m.rnd.size()>100){
        std::size_t p=r.below(m.rnd.size()/2),q=p+r.below(m.rnd.size()/4);
        std::set<int> gone;for(std::size_t i=p;i<q;++i)gone.insert(m.rnd[i].id);
        c.get<7>().erase(c.get<7>().begin()+p,c.get<7>().begin()+q);
        m.rnd.erase(m.rnd.begin()+p,m.rnd.begin()+q);
        auto g=[&](const R& x){return gone.count(x.id)!=0;};
        m.seq.erase(std::remove_if(m.seq.begin(),m.seq.end(),g),m.seq.end());
      }
#endif
      break;}
    case 2:c.get<6>().sort(LB());std::stable_sort(m.seq.begin(),m.seq.end(),LB());stable=false;break;
#if CFG==1
    case 3:c.get<7>().sort(LB());std::stable_sort(m.rnd.begin(),m.rnd.end(),LB());break;
    case 4:{
      std::vector<boost::reference_wrapper<const R>> v(c.get<7>().begin(),c.get<7>().end());
      for(std::size_t i=v.size();i>1;--i)std::swap(v[i-1],v[r.below(i)]);
      m.rnd.clear();for(auto& x:v)m.rnd.push_back(x.get());
      c.get<7>().rearrange(v.begin());
      break;}
#endif
    case 5:{
      std::vector<boost::reference_wrapper<const R>> v(c.get<6>().begin(),c.get<6>().end());
      for(std::size_t i=v.size();i>1;--i)std::swap(v[i-1],v[r.below(i)]);
      m.seq.clear();for(auto& x:v)m.seq.push_back(x.get());
      c.get<6>().rearrange(v.begin());stable=false;
      break;}
    case 6:c.get<6>().reverse();std::reverse(m.seq.begin(),m.seq.end());stable=false;break;
    case 7:{C d(c);verify(d,m,r,stable);REQ("copy",d==c,"copy not equal");c.swap(d);d.clear();REQ("copy",d.empty()&&d.begin()==d.end()&&c.size()==m.seq.size(),"swap with a copy");break;}
    case 8:{C d(std::move(c));c=C();c=std::move(d);break;}
    case 9:{ /* keys of many elements changed */
      stable=false;
      int t=0;std::vector<int> ids;for(const R& x:m.seq)if(r.chance(1,4))ids.push_back(x.id);
      std::unordered_map<int,R> ch;
      for(int id:ids){
        R x=*c.find(id);x.a=r.below(da);x.b=r.below(db);
        bool ok=true;
        if(t++%2)ok=c.get<4>().modify(c.get<4>().find(id),[&](R& y){y=x;});
        else ok=c.replace(c.find(id),x);
        REQ("modify",ok,"modify or replace of %d refused",id);
        ch[id]=x;
      }
      for(auto* v:{&m.seq,&m.rnd})for(R& x:*v){auto i=ch.find(x.id);if(i!=ch.end())x=i->second;}
      break;}
    case 10:{ /* half of the elements through another container and back */
      C d;std::size_t p=m.seq.size()/2;
      auto last=std::next(c.get<6>().begin(),p);
      d.get<6>().splice(d.get<6>().end(),c.get<6>(),c.get<6>().begin(),last);
      REQ("transfer",d.size()==p&&c.size()==m.seq.size()-p,"splice of %zu left %zu and %zu",p,c.size(),d.size());
      std::set<int> away;for(std::size_t i=0;i<p;++i)away.insert(m.seq[i].id);
      c.get<0>().merge(d.get<0>());
      REQ("transfer",d.empty()&&c.size()==m.seq.size(),"merge left %zu and %zu",c.size(),d.size());
      /* the elements merged come at the end of the list indices, in an order that is not specified */
      for(int s=0;s<1+CFG;++s){
        std::vector<R>& v=s?m.rnd:m.seq;
        std::vector<R> w,z;for(const R& x:v)(away.count(x.id)?z:w).push_back(x);
        std::vector<R> now;
#if CFG==1
        if(s)now.assign(c.get<7>().begin(),c.get<7>().end());else
#endif
        now.assign(c.get<6>().begin(),c.get<6>().end());
        REQ("transfer",now.size()==w.size()+z.size(),"%zu elements after merge",now.size());
        std::vector<R> t(now.begin()+w.size(),now.end());
        v=w;v.insert(v.end(),t.begin(),t.end());
        std::sort(t.begin(),t.end(),LId());std::sort(z.begin(),z.end(),LId());
        REQ("transfer",t==z,"the elements after the old ones are not those merged");
      }
      stable=false;
      break;}
    case 11:{ /* policies */
      c.get<4>().max_load_factor(0.3f+0.1f*r.below(40));c.get<4>().rehash(r.below(3*n));c.get<5>().reserve(r.below(3*n));
#if CFG==1
      c.get<7>().reserve(r.below(3*n));c.get<7>().shrink_to_fit();
      REQ("capacity",c.get<7>().capacity()==m.rnd.size(),"capacity %zu after shrink_to_fit at %zu",c.get<7>().capacity(),m.rnd.size());
#endif
      break;}
    default:{
      if(!slow)c.get<6>().remove_if([](const R& x){return x.b%5==1;});
#if CFG==1
      c.get<7>().remove_if([](const R& x){return x.a%7==3;});
#else
      c.get<6>().remove_if([](const R& x){return x.a%7==3;});
#endif
      auto f=[&](const R& x){return (!slow&&x.b%5==1)||x.a%7==3;};
      m.seq.erase(std::remove_if(m.seq.begin(),m.seq.end(),f),m.seq.end());
      m.rnd.erase(std::remove_if(m.rnd.begin(),m.rnd.end(),f),m.rnd.end());
      break;}
    }
    static const char* nm[]={"erase","erase-range","sort-sequenced","sort-random","rearrange-random","rearrange-sequenced","reverse","copy-swap","move","modify","transfer","policies","remove_if"};
    count((std::string("scale-")+nm[what]).c_str());
    verify(c,m,r,stable);
  }
}
int main(int argc,char** argv){
  init(argc,argv);
  return run_cases([&](uint64_t k,Rng& r){run(r,k);if(k<2)sample_log(400);});
}
