// Comparison operators on pairs of containers that are equal, equal up to the
// order of arrival, or differ in one element, one count or one position.
// Oracle: comparison of the traversed sequences, or for hashed indices of the
// sorted contents.
#include "core.hpp"
#include <array>
#include <map>
#include <algorithm>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/member.hpp>
using namespace vf;
namespace mi=boost::multi_index;

/* == is finer than the keys; < is unrelated to the keys */
struct P{int id,k,j;};
static bool operator==(const P& x,const P& y){return x.id==y.id&&x.k==y.k&&x.j==y.j;}
static bool operator<(const P& x,const P& y){return x.j!=y.j?x.j>y.j:x.k<y.k;}
static int hmod=5;
struct H{std::size_t operator()(int x)const{return (std::size_t)(x%hmod)*2654435761u;}};
typedef mi::multi_index_container<P,mi::indexed_by<
  mi::hashed_non_unique<mi::member<P,int,&P::k>,H>,
  mi::hashed_non_unique<mi::member<P,int,&P::j>,H>,
  mi::sequenced<>,mi::random_access<>,
  mi::ordered_non_unique<mi::member<P,int,&P::k> >,
  mi::ranked_non_unique<mi::member<P,int,&P::j>,std::greater<int> >
 > > A;
typedef mi::multi_index_container<P,mi::indexed_by<
  mi::hashed_unique<mi::member<P,int,&P::id>,H>,
  mi::ordered_unique<mi::member<P,int,&P::id> >,
  mi::random_access<>,
  mi::hashed_non_unique<mi::member<P,int,&P::k>,H>
 > > B;
/* the same indices in another container type: comparison across types */
typedef mi::multi_index_container<P,mi::indexed_by<
  mi::random_access<>,mi::sequenced<>,mi::ordered_non_unique<mi::member<P,int,&P::j> > > > D;
struct Q{int k;}; /* only == is needed of elements in hashed indices */
static bool operator==(const Q& x,const Q& y){return x.k==y.k;}
typedef mi::multi_index_container<Q,mi::indexed_by<mi::hashed_non_unique<mi::member<Q,int,&Q::k>,H> > > E;

static std::array<int,3> arr(const P& p){return {p.id,p.k,p.j};}
template<class X,class Y>static int seqcmp(const X& x,const Y& y){ /* -1,0,1,2: less, equal, greater, equivalent but not equal */
  auto i=x.begin();auto j=y.begin();
  int r=-2;
  for(;;++i,++j){
    if(i==x.end()||j==y.end()){r=i==x.end()?(j==y.end()?0:-1):1;break;}
    if(*i<*j){r=-1;break;}
    if(*j<*i){r=1;break;}
  }
  return r;
}
template<class X,class Y>static bool seqeq(const X& x,const Y& y){
  if(x.size()!=y.size())return false;
  auto j=y.begin();
  for(auto& e:x){if(!(e==*j))return false;++j;}
  return true;
}
template<class X,class Y>static void ordered(const char* w,const X& x,const Y& y){
  bool e=seqeq(x,y);int c=seqcmp(x,y),d=seqcmp(y,x);
  if((x==y)!=e||(y==x)!=e||(x!=y)!=!e)fail("comparison","%s: == is %d, the sequences say %d",w,(int)(x==y),(int)e);
  bool l=c==-1,g=d==-1;
  if((x<y)!=l||(y>x)!=l||(x>=y)!=!l||(y<=x)!=!l)fail("comparison","%s: < is %d, the sequences say %d",w,(int)(x<y),(int)l);
  if((y<x)!=g||(x>y)!=g||(y>=x)!=!g||(x<=y)!=!g)fail("comparison","%s: > is %d, the sequences say %d",w,(int)(x>y),(int)g);
  count(e?"equal-pairs":"unequal-pairs");if(!e&&!l&&!g)count("equivalent-unequal");
  ++ctx().evaluations;
}
template<class X,class Y>static void hashed(const char* w,const X& x,const Y& y){
  std::vector<std::array<int,3>> p,q;
  for(auto& e:x)p.push_back(arr(e));
  for(auto& e:y)q.push_back(arr(e));
  std::sort(p.begin(),p.end());std::sort(q.begin(),q.end());
  bool e=p==q;
  if((x==y)!=e||(y==x)!=e||(x!=y)!=!e||(y!=x)!=!e)fail("comparison","%s: == is %d (reversed %d), the contents say %d, sizes %zu and %zu",w,(int)(x==y),(int)(y==x),(int)e,p.size(),q.size());
  if(!(x==x)||y!=y)fail("comparison","%s: not equal to itself",w);
  count(e?"hashed-equal-pairs":"hashed-unequal-pairs");
  if(!e&&p.size()==q.size())count("hashed-same-size-unequal");
  ++ctx().evaluations;
}
static void note(const char* w,const std::vector<P>& v){
  std::string s;char b[40];
  for(auto& p:v){snprintf(b,sizeof b," %d,%d,%d",p.id,p.k,p.j);s+=b;}
  lg("%s:%s",w,s.c_str());
}
static uint64_t hsh(const std::vector<P>& v,uint64_t h){for(auto& p:v)h=mix(h,p.id*10007+p.k*101+p.j);return h;}

int main(int argc,char** argv){
  init(argc,argv);
  return run_cases([&](uint64_t k,Rng& r){
    hmod=1+r.below(12);
    int nk=1+r.below(5),ni=1+r.below(4);
    int n=r.below(4)?r.below(9):r.below(90);
    std::vector<P> v,u;
    for(int i=0;i<n;++i){int id=r.below(ni);int kk=r.below(nk);int jj=r.below(nk);v.push_back(P{id,kk,jj});}
    u=v;
    int edits=r.below(4);
    for(int e=0;e<edits;++e){
      int what=r.below(6);
      if(u.empty()&&what!=3)continue;
      int at=u.empty()?0:r.below((int)u.size());
      switch(what){
      case 0:u[at].id=r.below(ni);break;            /* another element of the same groups */
      case 1:u[at].k=r.below(nk);break;             /* another group */
      case 2:u.erase(u.begin()+at);break;
      case 3:{int id=r.below(ni);int kk=r.below(nk);int jj=r.below(nk);u.insert(u.begin()+at,P{id,kk,jj});break;}
      case 4:{int b=r.below((int)u.size());std::swap(u[at],u[b]);break;}
      case 5:{int b=r.below((int)u.size());u[at]=u[b];break;} /* same elements, other counts */
      }
    }
    if(r.chance(1,3))for(int i=(int)u.size();i>1;--i){int b=r.below(i);std::swap(u[i-1],u[b]);}
    note("x",v);note("y",u);
    A x,y;
    if(r.chance(1,3))y.rehash(1+r.below(500));
    for(auto& p:v)x.insert(p);
    for(auto& p:u)y.insert(p);
    if(r.chance(1,4))x.rehash(1+r.below(500));
    hashed("hashed_non_unique",x.get<0>(),y.get<0>());
    hashed("second hashed_non_unique",x.get<1>(),y.get<1>());
    ordered("sequenced",x.get<2>(),y.get<2>());
    ordered("random_access",x.get<3>(),y.get<3>());
    ordered("ordered_non_unique",x.get<4>(),y.get<4>());
    ordered("ranked_non_unique",x.get<5>(),y.get<5>());
    {
      std::vector<std::array<int,3>> p,q;
      for(auto& e:x)p.push_back(arr(e));for(auto& e:y)q.push_back(arr(e));
      std::sort(p.begin(),p.end());std::sort(q.begin(),q.end());
      if((x==y)!=(p==q)||(x!=y)!=(p!=q))fail("comparison","containers with a hashed first index");
    }
    /* unique ids: the same identifiers in another order, or with other values */
    B b,c;
    int id=0,at=r.below(n+1);
    for(auto& p:v)b.insert(P{id++,p.k,p.j});
    std::vector<P> w(b.get<1>().begin(),b.get<1>().end());
    if(!w.empty()&&at<(int)w.size()&&r.chance(2,3)){
      switch(r.below(3)){
      case 0:w[at].k=r.below(nk);break;case 1:w[at].id=1000;break;case 2:w.erase(w.begin()+at);break;}
    }
    if(r.chance(1,2))for(int i=(int)w.size();i>1;--i){int o=r.below(i);std::swap(w[i-1],w[o]);}
    for(auto& p:w)c.insert(p);
    hashed("hashed_unique",b.get<0>(),c.get<0>());
    ordered("ordered_unique",b.get<1>(),c.get<1>());
    ordered("random_access behind unique",b.get<2>(),c.get<2>());
    hashed("hashed_non_unique behind unique",b.get<3>(),c.get<3>());
    D d;for(auto& p:u)d.push_back(p);
    ordered("random_access of two container types",x.get<3>(),d);
    ordered("sequenced of two container types",x.get<2>(),d.get<1>());
    ordered("random_access of the first type",x.get<3>(),y.get<3>());
    D f(d);
    ordered("copies",d,f);
    if(!(d==f)||d!=f||d<f||!(d<=f))fail("comparison","a container and its copy");
    E e,g;
    for(auto& p:v)e.insert(Q{p.k});for(auto& p:u)g.insert(Q{p.k});
    std::map<int,int> m;for(auto& p:v)++m[p.k];for(auto& p:u)--m[p.k];
    bool same=true;for(auto& p:m)if(p.second)same=false;
    if((e==g)!=same||(g==e)!=same||(e!=g)!=!same)fail("comparison","elements with == only: %d, expected %d",(int)(e==g),(int)same);
    seen(hsh(u,hsh(v,hmod)));
    if(k<3)sample_log();
  });
}
