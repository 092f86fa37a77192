// Lookups with compatible keys: other key types, other comparison, hash and
// equality objects (coarser than the index's own), conversions to the key type.
// Oracle: linear scan of the index.
#include "core.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/global_fun.hpp>
using namespace vf;
namespace mi=boost::multi_index;

static long conversions=0;
struct Key{ /* two-part key, implicitly made from an int */
  int hi,lo;
  Key(int h,int l):hi(h),lo(l){}
  Key(int x):hi(x/10),lo(x%10){++conversions;}
};
inline bool operator<(const Key& x,const Key& y){return x.hi!=y.hi?x.hi<y.hi:x.lo<y.lo;}
inline bool operator==(const Key& x,const Key& y){return x.hi==y.hi&&x.lo==y.lo;}
struct El{Key k;std::string s;int tag;};
static std::string strOf(const El& e){return e.s;}

struct ByKey{typedef Key result_type;const Key& operator()(const El& e)const{return e.k;}};
struct ByKeyVal{typedef Key result_type;Key operator()(const El& e)const{return e.k;}}; /* key by value */
struct ByStr{typedef std::string result_type;std::string operator()(const El& e)const{return e.s;}};

/* takes Keys only: an int argument has to be converted */
struct LessKey{bool operator()(const Key& x,const Key& y)const{return x<y;}};
struct HashKey{std::size_t operator()(const Key& k)const{return (std::size_t)(k.hi*31+k.lo%3);}};
struct EqKey{bool operator()(const Key& x,const Key& y)const{return x==y;}};
/* accepts mixed arguments: transparent comparison on the high part */
struct Hi{int v;};
struct LessHi{
  bool operator()(const Key& x,const Hi& y)const{return x.hi<y.v;}
  bool operator()(const Hi& x,const Key& y)const{return x.v<y.hi;}
};
struct GreaterHi{ /* for descending indices */
  bool operator()(const Key& x,const Hi& y)const{return x.hi>y.v;}
  bool operator()(const Hi& x,const Key& y)const{return x.v>y.hi;}
};
/* string keys looked up by C string and by first letter */
struct LessStr{bool operator()(const std::string& x,const std::string& y)const{return x<y;}};
struct First{char c;};
struct LessFirst{
  bool operator()(const std::string& x,const First& y)const{return (x.empty()?0:x[0])<y.c;}
  bool operator()(const First& x,const std::string& y)const{return x.c<(y.empty()?0:y[0]);}
};
struct HashStr{
  std::size_t operator()(const char* p)const{std::size_t h=5;for(;*p;++p)h=h*33+(unsigned char)*p;return h%97;}
  std::size_t operator()(const std::string& s)const{return (*this)(s.c_str());}
};
struct EqStr{
  bool operator()(const std::string& x,const char* y)const{return x==y;}
  bool operator()(const char* x,const std::string& y)const{return y==x;}
  bool operator()(const std::string& x,const std::string& y)const{return x==y;}
};
struct DescKey{bool operator()(const Key& x,const Key& y)const{return y<x;}};

typedef mi::multi_index_container<El,mi::indexed_by<
  mi::ordered_non_unique<ByKey,LessKey>,
  mi::ordered_unique<mi::member<El,int,&El::tag> >,
  mi::ranked_non_unique<ByKeyVal,LessKey>,
  mi::ranked_non_unique<ByKey,DescKey>,
  mi::hashed_non_unique<ByKey,HashKey,EqKey>,
  mi::ordered_non_unique<ByStr,LessStr>,
  mi::hashed_non_unique<ByStr,HashStr,EqStr>,
  mi::ranked_non_unique<mi::global_fun<const El&,std::string,&strOf>,LessStr>,
  mi::hashed_unique<mi::member<El,int,&El::tag> >
 > > C;

/* scan: [lo,hi) = elements that are neither before nor after x */
template<class I,class Before,class After>
static std::pair<std::size_t,std::size_t> scan(const I& ix,Before before,After after){
  std::size_t lo=0,hi=0,n=0;
  for(auto& e:ix){if(before(e))lo=n+1;if(!after(e))hi=n+1;++n;}
  if(hi<lo)hi=lo;
  return {lo,hi};
}
template<class I>static std::size_t pos(const I& ix,typename I::const_iterator i){return (std::size_t)std::distance(ix.begin(),i);}

template<class I,class... X>
static void ordered(const char* what,const I& ix,std::pair<std::size_t,std::size_t> w,X... x){
  std::size_t n=ix.size(),lo=w.first,hi=w.second;
  auto f=ix.find(x...);
  if(lo==hi?f!=ix.end():(f==ix.end()||pos(ix,f)<lo||pos(ix,f)>=hi))fail("find","%s: find gives position %zu, elements at [%zu,%zu) of %zu",what,pos(ix,f),lo,hi,n);
  if(ix.count(x...)!=hi-lo)fail("count","%s: count gives %zu, expected %zu",what,ix.count(x...),hi-lo);
  if(ix.contains(x...)!=(hi>lo))fail("contains","%s: contains is wrong",what);
  if(pos(ix,ix.lower_bound(x...))!=lo)fail("lower_bound","%s: lower_bound gives %zu, expected %zu",what,pos(ix,ix.lower_bound(x...)),lo);
  if(pos(ix,ix.upper_bound(x...))!=hi)fail("upper_bound","%s: upper_bound gives %zu, expected %zu",what,pos(ix,ix.upper_bound(x...)),hi);
  auto p=ix.equal_range(x...);
  if(pos(ix,p.first)!=lo||pos(ix,p.second)!=hi)fail("equal_range","%s: equal_range gives [%zu,%zu), expected [%zu,%zu)",what,pos(ix,p.first),pos(ix,p.second),lo,hi);
  count("compatible-lookups",6);count(hi>lo?"compatible-hits":"compatible-misses");
  seen(mix(mix(lo,hi),mix(n,(uint64_t)what[0]*131+what[2])));
}
template<class I,class... X>
static void ranked(const char* what,const I& ix,std::pair<std::size_t,std::size_t> w,X... x){
  ordered(what,ix,w,x...);
  std::size_t n=ix.size(),lo=w.first,hi=w.second;
  if(ix.lower_bound_rank(x...)!=lo)fail("lower_bound_rank","%s: %zu, expected %zu",what,ix.lower_bound_rank(x...),lo);
  if(ix.upper_bound_rank(x...)!=hi)fail("upper_bound_rank","%s: %zu, expected %zu",what,ix.upper_bound_rank(x...),hi);
  auto p=ix.equal_range_rank(x...);
  if(p.first!=lo||p.second!=hi)fail("equal_range_rank","%s: [%zu,%zu), expected [%zu,%zu)",what,p.first,p.second,lo,hi);
  std::size_t f=ix.find_rank(x...);
  if(lo==hi?f!=n:(f<lo||f>=hi))fail("find_rank","%s: %zu, elements at [%zu,%zu) of %zu",what,f,lo,hi,n);
  count("compatible-ranks",4);
}
template<class I,class M,class... X>
static void hashed(const char* what,const I& ix,M match,X... x){
  std::size_t k=0;for(auto& e:ix)if(match(e))++k;
  auto f=ix.find(x...);
  if((f==ix.end())!=(k==0)||(k&&!match(*f)))fail("find","%s: find is wrong",what);
  if(ix.count(x...)!=k)fail("count","%s: count gives %zu, expected %zu",what,ix.count(x...),k);
  if(ix.contains(x...)!=(k>0))fail("contains","%s: contains is wrong",what);
  auto p=ix.equal_range(x...);std::size_t d=0;
  if(k==0){if(p.first!=ix.end()||p.second!=ix.end())fail("equal_range","%s: empty range must be (end,end)",what);}
  for(auto i=p.first;i!=p.second;++i){if(!match(*i))fail("equal_range","%s: a foreign element is in the range",what);if(++d>k)break;}
  if(d!=k)fail("equal_range","%s: range of %zu, expected %zu",what,d,k);
  count("compatible-lookups",4);count(k?"compatible-hits":"compatible-misses");
}

static void check(const C& c,Rng& r,int dom){
  for(int t=0;t<6;++t){
    int x=r.below(dom+6)-3;if(x<0)x=0;
    Key kx(x/10,x%10);
    auto lt=[&](const El& e){return e.k<kx;};auto gt=[&](const El& e){return kx<e.k;};
    conversions=0;
    auto w0=scan(c.get<0>(),lt,gt);
    ordered("O key",c.get<0>(),w0,kx);
    ordered("O int",c.get<0>(),w0,x); /* int converted to the key type */
    ordered("O int with comparison",c.get<0>(),w0,x,LessKey());
    auto w2=scan(c.get<2>(),lt,gt);
    ranked("R key",c.get<2>(),w2,kx);
    ranked("R int",c.get<2>(),w2,x);
    auto w3=scan(c.get<3>(),gt,lt);
    ranked("D key",c.get<3>(),w3,kx);
    ranked("D int",c.get<3>(),w3,x);
    /* coarser comparison */
    Hi h{x/10};
    auto hl=[&](const El& e){return e.k.hi<h.v;};auto hg=[&](const El& e){return e.k.hi>h.v;};
    ordered("O high part",c.get<0>(),scan(c.get<0>(),hl,hg),h,LessHi());
    ranked("R high part",c.get<2>(),scan(c.get<2>(),hl,hg),h,LessHi());
    ranked("D high part",c.get<3>(),scan(c.get<3>(),hg,hl),h,GreaterHi());
    /* hashed */
    hashed("H key",c.get<4>(),[&](const El& e){return e.k==kx;},kx);
    hashed("H int",c.get<4>(),[&](const El& e){return e.k==kx;},x);
    hashed("H int with functions",c.get<4>(),[&](const El& e){return e.k==kx;},x,HashKey(),EqKey());
    /* strings */
    std::string s(1+(std::size_t)r.below(3),(char)('a'+r.below(4)));
    const char* z=s.c_str();
    auto sl=[&](const El& e){return e.s<s;};auto sg=[&](const El& e){return s<e.s;};
    ordered("S string",c.get<5>(),scan(c.get<5>(),sl,sg),s);
    ordered("S c string",c.get<5>(),scan(c.get<5>(),sl,sg),z);
    ranked("T string",c.get<7>(),scan(c.get<7>(),sl,sg),s);
    ranked("T c string",c.get<7>(),scan(c.get<7>(),sl,sg),z);
    First f{s[0]};
    auto fl=[&](const El& e){return e.s[0]<f.c;};auto fg=[&](const El& e){return f.c<e.s[0];};
    ordered("S first letter",c.get<5>(),scan(c.get<5>(),fl,fg),f,LessFirst());
    ranked("T first letter",c.get<7>(),scan(c.get<7>(),fl,fg),f,LessFirst());
    hashed("U string",c.get<6>(),[&](const El& e){return e.s==s;},s);
    hashed("U c string",c.get<6>(),[&](const El& e){return e.s==s;},z);
    hashed("U c string with functions",c.get<6>(),[&](const El& e){return e.s==s;},z,HashStr(),EqStr());
    /* other integer types */
    int tg=r.below(dom*2)-dom/2;
    auto w1=scan(c.get<1>(),[&](const El& e){return e.tag<tg;},[&](const El& e){return tg<e.tag;});
    ordered("I int",c.get<1>(),w1,tg);ordered("I short",c.get<1>(),w1,(short)tg);ordered("I long",c.get<1>(),w1,(long)tg);
    hashed("J int",c.get<8>(),[&](const El& e){return e.tag==tg;},tg);
    hashed("J long",c.get<8>(),[&](const El& e){return e.tag==tg;},(long)tg);
    /* ranges over a coarse bound, both directions of emptiness */
    int a=r.below(dom/10+2),b=r.below(dom/10+2);
    auto lo=[&](const Key& k){return k.hi>=a;};auto up=[&](const Key& k){return k.hi<=b;};
    std::size_t L=0,U=0;
    for(auto& e:c.get<2>()){if(!lo(e.k))++L;if(up(e.k))++U;}
    if(U<L)U=L;
    auto p=c.get<2>().range(lo,up);
    if(pos(c.get<2>(),p.first)!=L||pos(c.get<2>(),p.second)!=U)fail("range","range is [%zu,%zu), expected [%zu,%zu)",pos(c.get<2>(),p.first),pos(c.get<2>(),p.second),L,U);
    auto q=c.get<2>().range_rank(lo,up);
    if(q.first!=L||q.second!=U)fail("range_rank","range_rank is [%zu,%zu), expected [%zu,%zu)",q.first,q.second,L,U);
    auto p0=c.get<0>().range(lo,up);
    if(pos(c.get<0>(),p0.first)!=L||pos(c.get<0>(),p0.second)!=U)fail("range","range is [%zu,%zu), expected [%zu,%zu)",pos(c.get<0>(),p0.first),pos(c.get<0>(),p0.second),L,U);
    count("coarse-ranges",3);
    ++ctx().evaluations;
  }
}
int main(int argc,char** argv){
  init(argc,argv);
  return run_cases([](uint64_t k,Rng& r){
    static const int ds[]={5,12,30,80,300};
    int dom=ds[r.below(5)];
    C c;
    int n=r.below(4)==0?r.below(300):r.below(40);
    check(c,r,dom);
    for(int i=0;i<n;++i){
      int x=r.below(dom);
      El e{Key(x/10,x%10),std::string(1+(std::size_t)r.below(3),(char)('a'+r.below(4))),r.below(dom*3)-dom};
      lg("insert (%d,%d) %s %d",e.k.hi,e.k.lo,e.s.c_str(),e.tag);
      c.insert(e);
      if(r.chance(1,6)&&!c.empty()){
        auto i=c.get<2>().nth((std::size_t)r.below((int)c.size()));
        if(r.chance(1,2)){lg("erase rank %zu",c.get<2>().rank(i));c.get<2>().erase(i);}
        else{int y=r.below(dom);lg("modify to %d",y);c.get<2>().modify(i,[&](El& e){e.k.hi=y/10;e.k.lo=y%10;});}
      }
      if(i%8==7)check(c,r,dom);
    }
    check(c,r,dom);
    C d(c);check(d,r,dom);
    if(k<2)sample_log(500);
  });
}
