// Containers with std::pmr::polymorphic_allocator, which can be neither assigned nor
// swapped and hands itself over to the elements it constructs. Every element has
// to live in the memory resource of its container, whatever happened to it.
#include "core.hpp"
#include <memory_resource>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/member.hpp>
using namespace vf;
namespace mi=boost::multi_index;
typedef std::pmr::memory_resource Res;

struct Rec:Res{
  std::map<void*,std::size_t> live;int fail_at=0;
  void* do_allocate(std::size_t b,std::size_t a)override{
    if(fail_at&&--fail_at==0)throw std::bad_alloc();
    void* p=std::pmr::new_delete_resource()->allocate(b,a);live[p]=b;return p;
  }
  void do_deallocate(void* p,std::size_t b,std::size_t a)override{
    auto it=live.find(p);
    if(it==live.end())fail("resource","memory returns to a resource it does not come from");
    if(it->second!=b)fail("resource","%zu bytes are returned as %zu",it->second,b);
    live.erase(it);std::pmr::new_delete_resource()->deallocate(p,b,a);
  }
  bool do_is_equal(const Res& o)const noexcept override{return this==&o;}
};
typedef std::pmr::polymorphic_allocator<char> PA;
struct E{
  typedef PA allocator_type;
  std::pmr::string s;int k,g;
  E(int k_,int g_,allocator_type a={}):s("a string beyond the small buffer of string objects",a),k(k_),g(g_){s+=std::to_string(k_).c_str();}
  E(const E& x,allocator_type a={}):s(x.s,a),k(x.k),g(x.g){}
  E(E&& x):s(std::move(x.s)),k(x.k),g(x.g){}
  E(E&& x,allocator_type a):s(std::move(x.s),a),k(x.k),g(x.g){}
  E& operator=(const E&)=default;E& operator=(E&&)=default;
  bool operator==(const E& x)const{return s==x.s&&k==x.k&&g==x.g;}
};
typedef mi::member<E,int,&E::k> K;typedef mi::member<E,int,&E::g> G;
typedef mi::multi_index_container<E,mi::indexed_by<mi::random_access<>,mi::ordered_unique<K>,mi::hashed_non_unique<G>,mi::sequenced<>,mi::ranked_non_unique<G>,mi::hashed_unique<K>>,std::pmr::polymorphic_allocator<E>> C;
struct Model{std::vector<std::pair<int,int>> v;}; /* key and group, in random access order */

static Rec res[2],dflt;
struct World{
  Rng& r;int dom;std::unique_ptr<C> c[3];Model m[3];Res* of[3];
  World(Rng& r_,int d):r(r_),dom(d){
    for(int i=0;i<3;++i){of[i]=&res[i==2];c[i].reset(new C(C::ctor_args_list(),of[i]));}
  }
  int find(int i,int k){for(std::size_t n=0;n<m[i].v.size();++n)if(m[i].v[n].first==k)return (int)n;return -1;}
  void verify(){
    for(int i=0;i<3;++i){
      C& x=*c[i];Model& y=m[i];
      ++ctx().evaluations;
      if(x.get_allocator().resource()!=of[i])fail("get_allocator","container %d has another allocator than it was given",i);
      std::size_t n=y.v.size(),p=0;
      if(x.size()!=n)fail("size","container %d has %zu elements, expected %zu",i,x.size(),n);
      uint64_t h=n;
      for(const E& e:x){
        if(p>=n||e.k!=y.v[p].first||e.g!=y.v[p].second)fail("order","container %d: position %zu holds %d",i,p,e.k);
        if(e.s.get_allocator().resource()!=of[i])fail("resource","container %d: the string of element %d lives in another memory resource than the container",i,e.k);
        if(e.s.find("a string beyond")!=0)fail("value","container %d: element %d has lost its string",i,e.k);
        h=mix(h,e.k);++p;
      }
      if(p!=n)fail("order","container %d: %zu elements",i,p);
      int last=-1;p=0;
      for(const E& e:x.get<1>()){if(p++&&e.k<=last)fail("order","ordered index unsorted");last=e.k;}
      if(p!=n)fail("order","container %d: ordered index has %zu elements",i,p);
      p=0;for(const E& e:x.get<4>()){if(p&&e.g<last)fail("order","ranked index unsorted");last=e.g;if(&e!=&*x.get<4>().nth(p))fail("rank","nth");++p;}
      if(p!=n)fail("order","container %d: ranked index has %zu elements",i,p);
      if((std::size_t)std::distance(x.get<2>().begin(),x.get<2>().end())!=n||(std::size_t)std::distance(x.get<3>().begin(),x.get<3>().end())!=n)fail("size","container %d",i);
      for(auto& q:y.v)if(x.get<5>().find(q.first)==x.get<5>().end())fail("lookup","container %d: %d is not found",i,q.first);
      seen(h);
    }
  }
  void insert(int i){
    C& x=*c[i];Model& y=m[i];int k=r.below(dom),g=r.below(4),w=r.below(7);bool has=find(i,k)>=0,in=false;
    lg("insert %d into %d, way %d",k,i,w);
    std::size_t s=x.size();
    switch(w){
    case 0:in=x.emplace_back(k,g).second;break;
    case 1:in=x.push_back(E(k,g)).second;break;
    case 2:{E e(k,g);in=x.get<1>().insert(e).second;break;}
    case 3:in=x.get<2>().emplace(k,g).second;break;
    case 4:in=x.get<3>().insert(x.get<3>().begin(),E(k,g)).second;break;
    case 5:{E e(k,g,of[r.below(3)]);x.get<4>().insert(x.get<4>().begin(),std::move(e));in=x.size()!=s;break;}
    default:{std::vector<E> v;v.push_back(E(k,g));x.get<5>().insert(v.begin(),v.end());in=x.size()!=s;}
    }
    if(in==has)fail("insert","insertion of %d reports %d",k,(int)in);
    if(in)y.v.emplace_back(k,g);
  }
  void step(){
    int i=r.below(3),j=(i+1+r.below(2))%3,w=r.below(100);C& x=*c[i];C& z=*c[j];Model& y=m[i];
    bool same=of[i]==of[j];
    if(w<40)insert(i);
    else if(w<46){if(!y.v.empty()){int p=r.below((int)y.v.size());lg("erase");x.get<5>().erase(y.v[p].first);y.v.erase(y.v.begin()+p);}}
    else if(w<52){lg("%d = %d",i,j);x=z;m[i]=m[j];count("copy-assigned");}
    else if(w<58){lg("%d = move(%d)",i,j);x=std::move(z);m[i]=m[j];
      if(!same&&!z.empty())fail("move","the source of an assignment between unequal allocators is not empty");
      z.clear();m[j].v.clear();count("move-assigned");}
    else if(w<62){
      bool mv=r.chance(1,2);lg("%d is a new container, %s of %d",i,mv?"moved":"copy",j);
      std::unique_ptr<C> t(mv?new C(std::move(z),of[i]):new C(z,of[i]));
      c[i].swap(t);m[i]=m[j];if(mv){z.clear();m[j].v.clear();}count("allocator-extended");}
    else if(w<65){
      lg("copy and move of %d",i);
      C t(x);if(t.get_allocator().resource()!=&dflt)fail("get_allocator","a copy has not the default resource");
      for(const E& e:t)if(e.s.get_allocator().resource()!=&dflt)fail("resource","the copy's elements are in another resource");
      C u(std::move(x));if(u.get_allocator().resource()!=of[i])fail("get_allocator","a moved container has another resource");
      if(!(u==t))fail("move","not equal to the copy");
      x.clear();x=std::move(u);
    }
    else if(w<69){if(same){lg("swap %d %d",i,j);x.swap(z);std::swap(m[i],m[j]);}}
    else if(w<74){
      if(same){
        lg("merge %d from %d",i,j);x.get<1>().merge(z.get<1>());
        auto v=m[j].v;std::sort(v.begin(),v.end());
        for(auto& q:v)if(find(i,q.first)<0){m[i].v.push_back(q);m[j].v.erase(m[j].v.begin()+find(j,q.first));}
        /* order among the newcomers is unspecified */
        std::vector<std::pair<int,int>> o;for(const E& e:x)o.emplace_back(e.k,e.g);
        auto a=o,b=m[i].v;std::sort(a.begin(),a.end());std::sort(b.begin(),b.end());
        if(a!=b)fail("merge","other elements than expected");
        m[i].v=o;
      }
    }
    else if(w<80){
      if(same&&!m[j].v.empty()){
        lg("node from %d to %d",j,i);
        int p=r.below((int)m[j].v.size());auto q=m[j].v[p];
        C::node_type a=z.get<3>().extract(z.project<3>(z.get<5>().find(q.first))),b;
        m[j].v.erase(m[j].v.begin()+p);
        if(r.chance(1,2)){b=std::move(a);if(a||!b)fail("node","assignment");}else b.swap(a);
        if(b.get_allocator().resource()!=of[j])fail("get_allocator","of a node handle");
        bool has=find(i,q.first)>=0;
        auto ret=x.insert(x.end(),std::move(b));
        if(ret.inserted==has)fail("node","insertion of %d reports %d",q.first,(int)ret.inserted);
        if(!has)m[i].v.push_back(q);
      }
    }
    else if(w<84){
      int a=r.below(dom),b=r.below(dom);lg("%d = {%d,%d}",i,a,b);
      x={E(a,1),E(b,2)};y.v.clear();y.v.emplace_back(a,1);if(b!=a)y.v.emplace_back(b,2);
    }
    else if(w<88){lg("sort, rehash, reserve");x.get<0>().sort([](const E& p,const E& q){return p.k<q.k;});std::sort(y.v.begin(),y.v.end());
      x.get<2>().rehash(r.below(200));x.reserve(r.below(100));x.get<3>().reverse();if(r.chance(1,2))x.shrink_to_fit();}
    else if(w<94){if(!y.v.empty()){
      int p=r.below((int)y.v.size()),k=r.below(dom);lg("replace or modify in %d",i);
      bool has=find(i,k)>=0&&k!=y.v[p].first;
      if(r.chance(1,2)){
        bool ok=x.replace(x.begin()+p,E(k,1,of[r.below(3)]));
        if(ok==has)fail("replace","reports %d",(int)ok);
        if(ok)y.v[p]={k,1};
      }
      else{
        bool ok=x.modify(x.begin()+p,[&](E& e){e.k=k;e.g=2;});
        if(ok==has)fail("modify","reports %d",(int)ok);
        if(ok)y.v[p]={k,2};else y.v.erase(y.v.begin()+p);
      }}}
    else{ /* out of memory */
      int n=1+r.below(30);lg("%d = %d, allocation %d failing",i,j,n);
      Rec& q=static_cast<Rec&>(*of[i]);q.fail_at=n;
      try{x=z;q.fail_at=0;m[i]=m[j];}catch(const std::bad_alloc&){q.fail_at=0;count("out-of-memory");}
      if(m[i].v==m[j].v&&!(x==z))fail("copy","not equal");
    }
    verify();
  }
};
int main(int argc,char** argv){
  init(argc,argv);
  std::pmr::set_default_resource(&dflt);
  return run_cases([&](uint64_t k,Rng& r){
    {World w(r,3+r.below(60));for(int i=0;i<ctx().len;++i)w.step();}
    if(!res[0].live.empty()||!res[1].live.empty()||!dflt.live.empty())fail("leak","memory remains allocated");
    if(k<2)sample_log();
  });
}
