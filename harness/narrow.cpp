// Containers whose allocator has an 8- or 16-bit size_type, driven up to the
// number of elements that type can count: either an operation has its documented
// effect or it throws std::length_error and has none.
#include "core.hpp"
#include <stdexcept>
#include <limits>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/member.hpp>
#ifndef NARROW
#define NARROW 8
#endif
using namespace vf;
namespace mi=boost::multi_index;
#if NARROW==8
typedef uint8_t S;typedef int16_t SD;
static const int HFIT=193; /* the largest bucket count whose array can be allocated */
#else
typedef uint16_t S;typedef int32_t SD;
static const int HFIT=49157;
#endif
static const int RFIT=std::numeric_limits<S>::max()-1; /* one position more than the capacity is needed */

static std::map<void*,std::size_t> live;
template<class U>struct Al{
  typedef U value_type;typedef S size_type;typedef SD difference_type;
  template<class V>struct rebind{typedef Al<V> other;};
  Al(){}
  template<class V>Al(const Al<V>&){}
  U* allocate(S n){U* p=std::allocator<U>().allocate(n);live[p]=n;return p;}
  void deallocate(U* p,S n){
    auto it=live.find(p);
    if(it==live.end())fail("allocator","a block that is not allocated is released");
    if(it->second!=n)fail("allocator","a block allocated for %d objects is released as one of %d",(int)it->second,(int)n);
    live.erase(it);std::allocator<U>().deallocate(p,n);
  }
  template<class V>bool operator==(const Al<V>&)const{return true;}
  template<class V>bool operator!=(const Al<V>&)const{return false;}
};
struct E{int id,a;};
typedef mi::member<E,int,&E::id> Id;typedef mi::member<E,int,&E::a> A;
typedef mi::multi_index_container<E,mi::indexed_by<
  mi::random_access<>,mi::sequenced<>,mi::hashed_unique<Id>,mi::hashed_non_unique<A>,mi::ranked_unique<Id>,mi::ordered_non_unique<A>>,Al<E>> C;

struct Model{std::vector<int> ra,sq;std::map<int,int> a;};
struct World{
  Rng& r;C c[2];Model m[2];int next;
  explicit World(Rng& r_):r(r_),next(0){}
  void verify(int k,bool full){
    C& x=c[k];Model& y=m[k];
    int n=(int)y.ra.size();
    if((int)x.size()!=n)fail("size","container %d has size() %d, expected %d",k,(int)x.size(),n);
    ++ctx().evaluations;
    if((int)x.get<0>().capacity()<n)fail("capacity","capacity %d below size %d",(int)x.get<0>().capacity(),n);
    if(!full){
      if(n){
        int p=r.below(n);
        if(x.get<0>().begin()[p].id!=y.ra[p])fail("random-access","position %d holds %d, expected %d",p,x.get<0>().begin()[p].id,y.ra[p]);
        auto it=x.get<2>().find(y.ra[p]);
        if(it==x.get<2>().end()||it->id!=y.ra[p])fail("hashed","element %d not found",y.ra[p]);
      }
      return;
    }
    int p=0;
    for(const E& e:x.get<0>()){if(p>=n||e.id!=y.ra[p]||e.a!=y.a[e.id])fail("random-access","position %d holds %d, expected %d",p,e.id,p<n?y.ra[p]:-1);++p;}
    if(p!=n)fail("random-access","%d elements, expected %d",p,n);
    p=0;
    for(const E& e:x.get<1>()){if(p>=n||e.id!=y.sq[p])fail("sequenced","position %d holds %d, expected %d",p,e.id,p<n?y.sq[p]:-1);++p;}
    if(p!=n)fail("sequenced","%d elements, expected %d",p,n);
    p=0;auto it=y.a.begin();
    for(const E& e:x.get<4>()){if(it==y.a.end()||e.id!=it->first)fail("ranked","position %d holds %d",p,e.id);++it;++p;}
    if(p!=n)fail("ranked","%d elements, expected %d",p,n);
    for(int t=0;t<3&&n;++t){
      int q=r.below(n);auto i=x.get<4>().nth((S)q);
      if((int)x.get<4>().rank(i)!=q)fail("ranked","rank(nth(%d)) is %d",q,(int)x.get<4>().rank(i));
    }
    p=0;for(const E& e:x.get<5>()){(void)e;++p;}
    if(p!=n)fail("ordered","%d elements, expected %d",p,n);
    p=0;for(const E& e:x.get<2>()){if(!y.a.count(e.id))fail("hashed","unexpected element %d",e.id);++p;}
    if(p!=n)fail("hashed","%d elements in the unique hashed index, expected %d",p,n);
    p=0;for(const E& e:x.get<3>()){if(!y.a.count(e.id))fail("hashed","unexpected element %d",e.id);++p;}
    if(p!=n)fail("hashed","%d elements in the non-unique hashed index, expected %d",p,n);
    for(auto& q:y.a)if(x.get<2>().find(q.first)==x.get<2>().end())fail("hashed","element %d not found",q.first);
    uint64_t h=n;for(int q:y.ra)h=mix(h,q);
    seen(h);
  }
  /* true if f did its work; a length_error is accepted only where `may` holds */
  template<class F>bool guarded(const char* op,bool may,F f){
    try{f();return true;}
    catch(const std::length_error&){
      if(!may)fail("length-error","%s reports a length error although what it needs can be counted",op);
      count("length-errors");return false;
    }
  }
  /* growth may ask for up to twice as much as is needed, by any policy */
  bool may_insert(C& x,int n=1){
    int s=2*((int)x.size()+n);
    return s>RFIT||s>HFIT*std::min(x.get<2>().max_load_factor(),x.get<3>().max_load_factor());
  }
  void insert(int k){
    C& x=c[k];Model& y=m[k];int n=(int)y.ra.size();
    if(n>=(int)std::numeric_limits<S>::max())return;
    E e={r.chance(1,10)&&n?y.ra[r.below(n)]:next++,r.below(1+r.below(50))};
    if(NARROW==8&&next>4000)next=0;
    bool dup=y.a.count(e.id);
    int p=r.chance(1,2)||NARROW>8?n:r.below(n+1),q=n,w=r.below(6);bool in=false;
    bool ok=guarded("insert",may_insert(x),[&]{
      switch(w){
      case 0:q=n;in=x.get<0>().insert(x.get<0>().begin()+0,e).second;p=0;break;
      case 1:in=x.get<0>().push_back(e).second;p=n;break;
      case 2:in=x.get<1>().push_front(e).second;p=n;q=0;break;
      case 3:in=x.get<2>().insert(e).second;p=n;break;
      case 4:in=x.get<4>().insert(e).second;p=n;break;
      default:p=n;{auto s=x.size();x.get<3>().insert(x.get<3>().begin(),e);in=x.size()!=s;}break;
      }
    });
    if(ok&&in==dup)fail("insert","insertion returned %d for id %d, %s there",in,e.id,dup?"already":"not");
    if(ok&&in){y.ra.insert(y.ra.begin()+p,e.id);y.sq.insert(y.sq.begin()+q,e.id);y.a[e.id]=e.a;count("inserted");}
  }
  void erase(int k,int id,int w){
    C& x=c[k];Model& y=m[k];
    switch(w){
    case 0:x.get<2>().erase(id);break;
    case 1:x.get<4>().erase(id);break;
    default:x.get<0>().erase(x.project<0>(x.get<2>().find(id)));break;
    }
    y.ra.erase(std::find(y.ra.begin(),y.ra.end(),id));y.sq.erase(std::find(y.sq.begin(),y.sq.end(),id));y.a.erase(id);
  }
  void policy(int k){
    C& x=c[k];
    int w=r.below(6),n=r.below((int)std::numeric_limits<S>::max()+1);
    if(r.chance(1,3))n=std::min(n,HFIT);
    lg("policy %d (%d) on %d",w,n,k);
    float f2=x.get<2>().max_load_factor(),f3=x.get<3>().max_load_factor();
    bool ok;
    switch(w){
    case 0:ok=guarded("rehash",std::max(n,(int)(1+x.size()/f2))>HFIT,[&]{x.get<2>().rehash((S)n);});
      if(ok&&(int)x.get<2>().bucket_count()<n)fail("rehash","fewer buckets than requested");break;
    case 1:ok=guarded("rehash",std::max(n,(int)(1+x.size()/f3))>HFIT,[&]{x.get<3>().rehash((S)n);});
      if(ok&&(int)x.get<3>().bucket_count()<n)fail("rehash","fewer buckets than requested");break;
    case 2:ok=guarded("reserve",std::max(n,(int)x.size())/f2+2>HFIT,[&]{x.get<2>().reserve((S)n);});
      if(ok&&x.get<2>().bucket_count()*(double)f2+1<n)fail("reserve","fewer buckets than requested");break;
    case 3:ok=guarded("reserve",n>RFIT,[&]{x.get<0>().reserve((S)n);});
      if(ok&&(int)x.get<0>().capacity()<n)fail("reserve","less capacity than requested");break;
    case 4:x.get<0>().shrink_to_fit();if(x.get<0>().capacity()!=x.get<0>().size())fail("shrink_to_fit","capacity is not size");break;
    default:{static const float f[]={1.0f,1.0f,1.4f,3.0f};x.get<2>().max_load_factor(f[r.below(4)]);x.get<3>().max_load_factor(f[r.below(4)]);}
    }
  }
  void step(){
    int k=r.below(2);C& x=c[k];Model& y=m[k];int n=(int)y.ra.size(),w=r.below(100);
    if(w<45){for(int t=NARROW==8?1+r.below(40):1+r.below(400);t>0;--t)insert(k);lg("insertions into %d: %d",k,(int)x.size());}
    else if(w<60){if(n){lg("erasures from %d",k);for(int t=1+r.below(NARROW==8?20:50);t>0&&!y.ra.empty();--t)erase(k,y.ra[r.below((int)y.ra.size())],r.below(3));}}
    else if(w<75)policy(k);
    else if(w<80){lg("copy of %d",k);C t(x);c[1-k]=t;m[1-k]=y;count("copies");}
    else if(w<84){lg("swap");c[0].swap(c[1]);std::swap(m[0],m[1]);}
    else if(w<87){lg("move to %d",1-k);c[1-k]=std::move(x);m[1-k]=y;x.clear();m[k]=Model();}
    else if(w<92){ /* transfer of what the other has not */
      int mx=(int)std::numeric_limits<S>::max()-1;
      if(n+(int)m[1-k].ra.size()>mx)return;
      lg("merge into %d",k);
      if(!guarded("merge",may_insert(x,(int)m[1-k].ra.size()),[&]{x.get<2>().merge(c[1-k].get<2>());})){
        /* the basic guarantee: take over whatever happened */
        for(int j=0;j<2;++j){
          std::vector<int> ra,sq;std::map<int,int> a;
          for(const E& e:c[j].get<0>()){ra.push_back(e.id);a[e.id]=e.a;}
          for(const E& e:c[j].get<1>())sq.push_back(e.id);
          std::map<int,int> all=m[0].a;all.insert(m[1].a.begin(),m[1].a.end());
          for(auto& q:a)if(!all.count(q.first))fail("merge","an element comes out of nowhere");
          if(j==1&&a.size()+c[0].size()!=m[0].ra.size()+m[1].ra.size())fail("merge","elements lost");
          if(j==0){first=Model{ra,sq,a};}else{m[0]=first;m[1]=Model{ra,sq,a};}
        }
      }
      else{
        /* the order at the end of the lists is that of the source's hashed index: unspecified */
        Model& z=m[1-k];std::vector<int> moved;
        for(int id:z.ra)if(!y.a.count(id))moved.push_back(id);
        for(int id:moved){y.a[id]=z.a[id];z.a.erase(id);z.ra.erase(std::find(z.ra.begin(),z.ra.end(),id));z.sq.erase(std::find(z.sq.begin(),z.sq.end(),id));}
        std::vector<int> ra,sq;
        for(const E& e:x.get<0>())ra.push_back(e.id);
        for(const E& e:x.get<1>())sq.push_back(e.id);
        if(ra.size()!=y.ra.size()+moved.size()||!std::equal(y.ra.begin(),y.ra.end(),ra.begin()))fail("merge","not appended");
        if(sq.size()!=y.sq.size()+moved.size()||!std::equal(y.sq.begin(),y.sq.end(),sq.begin()))fail("merge","not appended to the list");
        y.ra=ra;y.sq=sq;count("merged");
      }
    }
    else if(w<96){lg("sort and reverse %d",k);
      x.get<0>().sort([](const E& p,const E& q){return p.id<q.id;});std::sort(y.ra.begin(),y.ra.end());
      x.get<1>().reverse();std::reverse(y.sq.begin(),y.sq.end());}
    else if(n){lg("modify in %d",k);int id=y.ra[r.below(n)],a=r.below(90);
      x.get<2>().modify(x.get<2>().find(id),[&](E& e){e.a=a;});y.a[id]=a;}
    verify(k,NARROW==8||w>=75);verify(1-k,NARROW==8||w>=75);
  }
  Model first;
};
int main(int argc,char** argv){
  init(argc,argv);
  return run_cases([&](uint64_t k,Rng& r){
    {
      World w(r);
      if(NARROW==16){ /* up to where it gets tight */
        int n=r.chance(1,2)?HFIT-200-r.below(400):RFIT-r.below(300);
        lg("%d elements to begin with",n);
        for(int j=0;j<(r.chance(1,2)?2:1);++j){
          C& x=w.c[j];Model& y=w.m[j];
          x.get<2>().max_load_factor(1.5f);x.get<3>().max_load_factor(n>HFIT?1.5f:1.0f);if(n<=HFIT)x.get<2>().max_load_factor(1.0f);
          for(int i=0;i<n;++i){E e={1000000*(1+j)+i,i%20000};if(!w.guarded("push_back",w.may_insert(x),[&]{x.push_back(e);}))break;y.ra.push_back(e.id);y.sq.push_back(e.id);y.a[e.id]=e.a;}
        }
        w.verify(0,true);w.verify(1,true);
      }
      for(int i=0;i<ctx().len;++i)w.step();
      w.verify(0,true);w.verify(1,true);
    }
    if(!live.empty())fail("leak","%d blocks are not released",(int)live.size());
    if(k<2)sample_log();
  });
}
