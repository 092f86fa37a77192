// Containers with Boost.Interprocess allocators in a memory segment.  After some
// operations the segment is copied to another address, as if mapped by another
// process, and the old place is made inaccessible: nothing in the container may
// hold an absolute address (nodes, bucket and pointer arrays, headers).
// Oracle: a vector in the order of each list index, from which the rest is
// computed; segments too small for all insertions give allocation failures, which
// must leave no trace; the segment is empty again when its containers are gone.
#if defined(VF_SAFE)
#include <boost/multi_index/safe_mode_errors.hpp>
extern "C" void vf_safe_mode_report(int code);
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,error_code) \
 do{if(!(expr))vf_safe_mode_report((int)(error_code));}while(0)
#endif
#include "core.hpp"
#include <boost/interprocess/managed_external_buffer.hpp>
#include <boost/interprocess/allocators/allocator.hpp>
#include <boost/interprocess/containers/string.hpp>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/member.hpp>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <set>
#include <map>
#ifdef VF_SAFE
extern "C" void vf_safe_mode_report(int code){
  vf::fail("safe-mode-false-alarm","safe mode reported error %d in a history of valid operations",code);
}
#endif
using namespace vf;
namespace mi=boost::multi_index;
namespace bip=boost::interprocess;
typedef bip::managed_external_buffer Seg;
typedef Seg::segment_manager SM;
template<class T>using Al=bip::allocator<T,SM>;
typedef bip::basic_string<char,std::char_traits<char>,Al<char>> Str;
#define REQ(key,c,...) do{if(!(c))fail("reloc-" key,__VA_ARGS__);}while(0)

struct M{int id,a,b;};
static bool operator==(const M& x,const M& y){return x.id==y.id&&x.a==y.a&&x.b==y.b;}
static std::string text(int b){std::string s="value number ";s+=std::to_string(b);if(b%2)s+=" with a tail that does not fit into a short string";return s;}
struct R{
  int id,a;Str s;
  R(const M& m,const Al<char>& al):id(m.id),a(m.a),s(text(m.b).c_str(),al){}
};
static int num(const Str& s){return atoi(s.c_str()+13);}
static M get(const R& r){M m={r.id,r.a,num(r.s)};return m;}
struct SLess{bool operator()(const Str& x,const Str& y)const{return num(x)<num(y);}};
struct SHash{std::size_t operator()(const Str& x)const{return (std::size_t)(num(x)*7919);}};
struct IHash{std::size_t operator()(int x)const{return (std::size_t)(x%13);}};
struct LS{bool operator()(const R& x,const R& y)const{return num(x.s)<num(y.s);}};
typedef mi::member<R,int,&R::id> MId;typedef mi::member<R,int,&R::a> MA;typedef mi::member<R,Str,&R::s> MS;
typedef mi::multi_index_container<R,mi::indexed_by<
  mi::ordered_unique<MId>,           /*0*/
  mi::ordered_non_unique<MA>,        /*1*/
  mi::ranked_non_unique<MS,SLess>,   /*2*/
  mi::hashed_unique<MId,IHash>,      /*3*/
  mi::hashed_non_unique<MS,SHash>,   /*4*/
  mi::sequenced<>,                   /*5*/
  mi::random_access<>                /*6*/
>,Al<R>> C;

struct Space{ /* places for the segment; old ones stay reserved but inaccessible */
  std::vector<std::pair<char*,std::size_t>> old;char* cur=0;std::size_t size;
  char* fresh(){
    void* p=mmap(0,size+65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
    if(p==MAP_FAILED)abort();
    return static_cast<char*>(p);
  }
  explicit Space(std::size_t n):size(n){cur=fresh();}
  void move(){
    char* p=fresh();
    memcpy(p,cur,size);
    mprotect(cur,size+65536,PROT_NONE);
    old.emplace_back(cur,size+65536);
    if(old.size()>8){munmap(old[0].first,old[0].second);old.erase(old.begin());}
    cur=p;
  }
  ~Space(){for(auto& o:old)munmap(o.first,o.second);munmap(cur,size+65536);}
};
struct Model{std::vector<M> seq,rnd;};

template<class I>static void same_list(const char* what,const I& i,const std::vector<M>& m){
  std::size_t k=0;
  for(auto it=i.begin();it!=i.end();++it,++k){
    REQ("order",k<m.size(),"%s: more than %zu elements",what,m.size());
    REQ("order",get(*it)==m[k],"%s: element %d instead of %d at %zu",what,it->id,m[k].id,k);
  }
  REQ("order",k==m.size()&&i.size()==k,"%s: %zu elements by iteration, expected %zu",what,k,m.size());
  for(auto it=i.rbegin();it!=i.rend();++it){REQ("order",k>0&&get(*it)==m[k-1],"%s backwards at %zu",what,k);--k;}
  REQ("order",k==0,"%s: %zu elements missing backwards",what,k);
}
static void verify(const C& c,const Model& m){
  count("reloc-verifications");
  same_list("sequenced",c.get<5>(),m.seq);
  same_list("random access",c.get<6>(),m.rnd);
  std::vector<M> v=m.seq;
  std::sort(v.begin(),v.end(),[](const M& x,const M& y){return x.id<y.id;});
  same_list("ordered_unique",c.get<0>(),v);
  {int p=-1;std::size_t k=0;for(auto it=c.get<1>().begin();it!=c.get<1>().end();++it,++k){REQ("order",it->a>=p&&k<v.size(),"ordered_non_unique not sorted");p=it->a;}REQ("order",k==v.size(),"ordered_non_unique has %zu elements",k);}
  {int p=-1;std::size_t k=0;for(auto it=c.get<2>().begin();it!=c.get<2>().end();++it,++k){
     REQ("order",num(it->s)>=p&&k<v.size(),"ranked_non_unique not sorted");p=num(it->s);
     REQ("rank",c.get<2>().nth(k)==it&&c.get<2>().rank(it)==k,"rank at %zu",k);}
   REQ("order",k==v.size(),"ranked_non_unique has %zu elements",k);}
  std::size_t k3=0,k4=0;
  for(auto& x:c.get<3>()){(void)x;REQ("order",++k3<=v.size(),"hashed_unique: too many elements");}
  for(auto& x:c.get<4>()){(void)x;REQ("order",++k4<=v.size(),"hashed_non_unique: too many elements");}
  REQ("order",k3==v.size()&&k4==v.size(),"hashed indices have %zu and %zu elements of %zu",k3,k4,v.size());
  for(std::size_t k=0;k<m.rnd.size();++k){
    const M& x=m.rnd[k];
    auto i=c.get<3>().find(x.id);
    REQ("lookup",i!=c.get<3>().end()&&get(*i)==x,"hashed_unique does not find %d",x.id);
    REQ("position",&c.get<6>()[k]==&*i&&&*c.get<0>().find(x.id)==&*i,"element %zu",k);
    REQ("position",c.project<6>(i)-c.get<6>().begin()==(std::ptrdiff_t)k,"projection of element %zu",k);
    std::size_t e=0,g=0;for(const M& y:v)e+=y.b==x.b;
    auto r=c.get<4>().equal_range(i->s);for(;r.first!=r.second;++r.first){REQ("lookup",num(r.first->s)==x.b&&g<e,"equal_range");++g;}
    REQ("lookup",g==e,"hashed_non_unique has %zu elements with the key of %d, expected %zu",g,x.id,e);
    REQ("lookup",c.get<2>().count(i->s)==e,"count in the ranked index");
  }
  std::size_t s=0;for(std::size_t b=0;b<c.get<3>().bucket_count();++b)s+=c.get<3>().bucket_size(b);
  REQ("buckets",s==v.size(),"buckets hold %zu of %zu",s,v.size());
  uint64_t h=v.size();for(const M& x:m.seq)h=mix(h,x.id*64+x.a);for(const M& x:m.rnd)h=mix(h,x.id);seen(h);
}
static std::size_t pos(const std::vector<M>& v,int id){std::size_t i=0;while(v[i].id!=id)++i;return i;}
static void drop(Model& m,int id){m.seq.erase(m.seq.begin()+pos(m.seq,id));m.rnd.erase(m.rnd.begin()+pos(m.rnd,id));}

struct World{
  Rng& r;Space sp;Seg* seg;C* c[2];Model m[2];std::size_t empty_free;
  World(Rng& r_,std::size_t bytes):r(r_),sp(bytes){
    seg=new Seg(bip::create_only,sp.cur,bytes);
    empty_free=seg->get_free_memory();
    try{for(int i=0;i<2;++i)c[i]=seg->construct<C>(i?"d":"c")(C::ctor_args_list(),C::allocator_type(seg->get_segment_manager()));}
    catch(const bip::bad_alloc&){REQ("setup",false,"segment too small");}
  }
  Al<char> cal(){return Al<char>(seg->get_segment_manager());}
  void move(){
    lg("move the segment");count("reloc-moves");
    delete seg;sp.move();
    seg=new Seg(bip::open_only,sp.cur,sp.size);
    for(int i=0;i<2;++i){c[i]=seg->find<C>(i?"d":"c").first;REQ("setup",c[i]!=0,"container not found after moving the segment");}
  }
  M rv(int dom){M x={(int)r.below(dom),(int)r.below(6),(int)r.below(7)};return x;}
  /* after an interrupted operation with the basic guarantee only */
  void adopt(){
    std::map<int,M> all;for(auto& q:m)for(M& v:q.seq)all[v.id*2+(int)(&q-m)]=v;
    std::multiset<int> a,b;
    for(auto& q:m)for(M& v:q.seq)a.insert(v.id);
    for(int s=0;s<2;++s){
      m[s].seq.clear();m[s].rnd.clear();
      for(auto& z:c[s]->get<5>()){m[s].seq.push_back(get(z));b.insert(z.id);
        M v=get(z);REQ("basic",(all.count(v.id*2)&&all[v.id*2]==v)||(all.count(v.id*2+1)&&all[v.id*2+1]==v),"element %d changed by an interrupted operation",v.id);}
      for(auto& z:c[s]->get<6>())m[s].rnd.push_back(get(z));
    }
    REQ("basic",a==b,"elements lost or duplicated by an interrupted operation: %zu then, %zu now",a.size(),b.size());
    count("reloc-basic");
  }
  bool has(int s,int id){for(const M& x:m[s].seq)if(x.id==id)return true;return false;}
  void op(int dom){
    int s=r.below(2),o=1-s;C& x=*c[s];Model& q=m[s];
    std::size_t n=q.seq.size();
    int what=r.below(22);
    lg("operation %d on container %d (%zu elements)",what,s,n);
    static const char* nm[]={"insert","insert","insert","insert","insert-list","insert-list","erase","erase","erase","replace","modify","node","splice","merge","swap","copy","rehash","sort","rearrange","reverse","clear","assign"};
    try{
      switch(what){
      case 0:case 1:case 2:case 3:{
        M v=rv(dom);bool ex=has(s,v.id),ok;
        switch(r.below(5)){
        case 0:ok=x.insert(R(v,cal())).second;break;
        case 1:ok=x.emplace(v,cal()).second;break;
        case 2:ok=x.get<1>().insert(R(v,cal())).second;break;
        case 3:ok=x.get<3>().emplace(v,cal()).second;break;
        default:{R t(v,cal());ok=x.get<2>().insert(t).second;break;}
        }
        REQ("insert",ok==!ex,"insertion of %d %s",v.id,ok?"accepted":"refused");
        if(ok){q.seq.push_back(v);q.rnd.push_back(v);}
        break;}
      case 4:case 5:{
        M v=rv(dom);bool ex=has(s,v.id);std::size_t p=r.below(n+1);
        if(what==4){bool ok=x.get<5>().emplace(std::next(x.get<5>().begin(),p),v,cal()).second;REQ("insert",ok==!ex,"emplace");if(ok){q.seq.insert(q.seq.begin()+p,v);q.rnd.push_back(v);}}
        else{bool ok=x.get<6>().emplace(x.get<6>().begin()+p,v,cal()).second;REQ("insert",ok==!ex,"emplace");if(ok){q.rnd.insert(q.rnd.begin()+p,v);q.seq.push_back(v);}}
        break;}
      case 6:case 7:case 8:if(n){
        M v=q.seq[r.below(n)];
        switch(r.below(6)){
        case 0:x.get<0>().erase(v.id);break;
        case 1:x.get<3>().erase(v.id);break;
        case 2:x.get<5>().erase(std::next(x.get<5>().begin(),pos(q.seq,v.id)));break;
        case 3:x.get<6>().erase(x.get<6>().begin()+pos(q.rnd,v.id));break;
        case 4:x.get<2>().erase(x.project<2>(x.find(v.id)));break;
        default:x.get<4>().erase(x.project<4>(x.find(v.id)));break;
        }
        drop(q,v.id);
      }break;
      case 9:if(n){
        M v=q.seq[r.below(n)],w=rv(dom);if(r.chance(1,2))w.id=v.id;
        bool ex=w.id!=v.id&&has(s,w.id);
        bool ok=x.replace(x.find(v.id),R(w,cal()));
        REQ("replace",ok==!ex,"replace");
        if(ok){q.seq[pos(q.seq,v.id)]=w;q.rnd[pos(q.rnd,v.id)]=w;}
      }break;
      case 10:if(n){
        M v=q.seq[r.below(n)],w=rv(dom);w.id=v.id;
        std::string t=text(w.b);
        R nv(w,cal());
        bool ok=x.get<4>().modify(x.project<4>(x.find(v.id)),[&](R& y){y.a=w.a;y.s.swap(nv.s);});
        REQ("modify",ok,"modify refused");
        q.seq[pos(q.seq,v.id)]=w;q.rnd[pos(q.rnd,v.id)]=w;
      }break;
      case 11:if(n){
        M v=q.seq[r.below(n)];
        C& y=*c[o];
        {
          C::node_type h=x.extract(x.find(v.id));
          REQ("node",!h.empty()&&get(h.value())==v,"extracted element");
          drop(q,v.id);
          bool ex=has(o,v.id);
          auto p=y.get<5>().insert(y.get<5>().begin(),std::move(h));
          REQ("node",p.inserted==!ex,"insertion of a node");
          if(p.inserted){m[o].seq.insert(m[o].seq.begin(),v);m[o].rnd.push_back(v);}
        }
      }break;
      case 12:if(n){
        C& y=*c[o];std::size_t a=r.below(n),b=a+r.below(n-a)+1;
        std::vector<M> g(q.seq.begin()+a,q.seq.begin()+b);
        y.get<5>().splice(y.get<5>().end(),x.get<5>(),std::next(x.get<5>().begin(),a),std::next(x.get<5>().begin(),b));
        for(const M& v:g)if(!has(o,v.id)){drop(q,v.id);m[o].seq.push_back(v);m[o].rnd.push_back(v);}
      }break;
      case 13:{
        /* the order in which merge takes the elements is not specified */
        C& y=*c[o];y.get<0>().merge(x.get<0>());
        std::set<int> mv;for(const M& v:q.seq)if(!has(o,v.id))mv.insert(v.id);
        for(int k=0;k<2;++k){
          std::vector<M> now;if(k)for(auto& z:y.get<6>())now.push_back(get(z));else for(auto& z:y.get<5>())now.push_back(get(z));
          std::vector<M>& d=k?m[o].rnd:m[o].seq;std::vector<M>& f=k?q.rnd:q.seq;
          REQ("transfer",now.size()==d.size()+mv.size(),"merge");
          std::set<int> got;for(std::size_t i=d.size();i<now.size();++i)got.insert(now[i].id);
          REQ("transfer",got==mv,"merge took other elements");
          for(std::size_t i=d.size();i<now.size();++i){REQ("transfer",f[pos(f,now[i].id)]==now[i],"element changed by merge");}
          d.insert(d.end(),now.begin()+d.size(),now.end());
          f.erase(std::remove_if(f.begin(),f.end(),[&](const M& v){return mv.count(v.id)!=0;}),f.end());
        }
        break;}
      case 14:x.swap(*c[o]);std::swap(m[0],m[1]);break;
      case 15:{C t(x);verify(t,q);REQ("copy",t.get<5>().size()==n,"copy");if(r.chance(1,2)){C u(std::move(t));verify(u,q);}
        break;}
      case 16:x.get<3>().rehash(r.below(400));x.get<4>().max_load_factor(0.5f+r.below(4));x.get<4>().rehash(0);x.get<6>().reserve(r.below(120));if(r.chance(1,2))x.get<6>().shrink_to_fit();break;
      case 17:
        if(r.chance(1,2)){x.get<5>().sort(LS());std::stable_sort(q.seq.begin(),q.seq.end(),[](const M& a,const M& b){return a.b<b.b;});}
        else{x.get<6>().sort(LS());std::stable_sort(q.rnd.begin(),q.rnd.end(),[](const M& a,const M& b){return a.b<b.b;});}
        break;
      case 18:{
        std::vector<std::size_t> ix(n);for(std::size_t i=0;i<n;++i)ix[i]=i;
        for(std::size_t i=n;i>1;--i)std::swap(ix[i-1],ix[r.below(i)]);
        bool sq=r.chance(1,2);std::vector<M>& v=sq?q.seq:q.rnd;
        std::vector<boost::reference_wrapper<const R>> w;std::vector<M> nv;
        for(std::size_t i:ix){nv.push_back(v[i]);w.push_back(boost::cref(*x.find(v[i].id)));}
        if(sq)x.get<5>().rearrange(w.begin());else x.get<6>().rearrange(w.begin());
        v=nv;
        break;}
      case 19:x.get<5>().reverse();std::reverse(q.seq.begin(),q.seq.end());x.get<6>().reverse();std::reverse(q.rnd.begin(),q.rnd.end());break;
      case 20:if(r.chance(1,3)){x.clear();q.seq.clear();q.rnd.clear();}break;
      default:if(r.chance(1,2)){x=*c[o];q=m[o];}else if(r.chance(1,3)){x=std::move(*c[o]);q=m[o];c[o]->clear();m[o].seq.clear();m[o].rnd.clear();}break;
      }
      count((std::string("reloc-")+nm[what]).c_str());
    }catch(const bip::bad_alloc&){
      /* strong guarantee, except for what adopt() is called for; a node handle takes its element along */
      lg("out of memory");count("reloc-out-of-memory");
      if(what==12||what==13||what==18)adopt();
    }
  }
};
#ifdef VF_SAFE
/* safe mode keeps addresses in the container: a known finding, tried in a child process */
static void probe_safe(Rng& r){
  World w(r,600000);
  for(int i=0;i<10;++i){M v={i,i%3,i};w.c[0]->emplace(v,w.cal());}
  fflush(stdout);
  pid_t p=fork();
  if(p==0){
    for(int s:{SIGSEGV,SIGBUS,SIGABRT,SIGILL,SIGFPE})signal(s,SIG_DFL);
    w.move();
    int k=0;for(C::const_iterator it=w.c[0]->begin();it!=w.c[0]->end();++it)k+=it->id;
    _exit(k==45?0:3);
  }
  if(p<0)harness_error("fork");
  int st=0;waitpid(p,&st,0);
  count("reloc-safe-probes");
  if(st!=0)finding("reloc-safe-mode","safe mode: container in a memory segment mapped at another address cannot be traversed (child status %d)",st);
  for(int i=0;i<2;++i)w.seg->destroy<C>(i?"d":"c");
  delete w.seg;
}
#endif
static void run(Rng& r,uint64_t k){
#ifdef VF_SAFE
  if(k==0){probe_safe(r);return;}
#endif
  bool small=k%3==1;
  World w(r,small?10000+r.below(10000):600000+r.below(400000));
  int dom=small?400:(k%3==2?300:30);
  int len=ctx().len;
  lg("segment of %zu bytes, %d keys",w.sp.size,dom);
  for(int i=0;i<len;++i){
    w.op(dom);
#ifndef VF_SAFE
    if(r.chance(1,3))w.move();
#endif
    for(int s=0;s<2;++s)verify(*w.c[s],w.m[s]);
    ++ctx().evaluations;
  }
  for(int i=0;i<2;++i)w.seg->destroy<C>(i?"d":"c");
  w.seg->shrink_to_fit_indexes();
  REQ("memory",w.seg->all_memory_deallocated(),"memory of the segment not returned: %zu bytes free of %zu",(std::size_t)w.seg->get_free_memory(),w.empty_free);
  delete w.seg;
}
int main(int argc,char** argv){
  init(argc,argv);
  return run_cases([&](uint64_t k,Rng& r){run(r,k);if(k<2)sample_log(400);});
}
