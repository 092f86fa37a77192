// Counts every construction, copy, move, assignment and destruction of element
// objects made by each public operation and compares the counts with what the
// operation asks for. Emplacing operations get zero to seven arguments which can
// be neither copied nor moved, in all value categories: each must arrive as
// given, in the same order.
#include "core.hpp"
#include <type_traits>
#include <iterator>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/mem_fun.hpp>
#ifndef VF_MAXARGS
#define VF_MAXARGS 6 /* emplacing with a key and up to this many more */
#endif
#ifndef CFG
#define CFG 0
#endif
using namespace vf;
namespace mi=boost::multi_index;

struct Traffic{
  long cc=0,mc=0,ca=0,ma=0,oc=0,d=0;
  Traffic operator-(const Traffic& x)const{Traffic t;t.cc=cc-x.cc;t.mc=mc-x.mc;t.ca=ca-x.ca;t.ma=ma-x.ma;t.oc=oc-x.oc;t.d=d-x.d;return t;}
};
static Traffic T;

struct Tok{ /* an argument that only travels by reference */
  int id;
  explicit Tok(int i):id(i){}
  Tok(const Tok&)=delete;Tok& operator=(const Tok&)=delete;
};
struct Src{int k;}; /* convertible to El */
inline char cat(Tok&){return 'l';}
inline char cat(const Tok&){return 'c';}
inline char cat(Tok&&){return 'r';}
inline char cat(const Tok&&){return 'R';}
struct K{int k;};

struct El{
  int k;
  std::string got; /* categories and identities of the arguments of construction */
  const El* self;
  static int next_default;
  static void note(std::string&){}
  template<class A,class... R>static void note(std::string& s,A&& a,R&&... r){
    s+=cat(std::forward<A>(a));s+=std::to_string(a.id);note(s,std::forward<R>(r)...);
  }
  El():k(next_default),self(this){++T.oc;}
  template<class... A>El(K x,A&&... a):k(x.k),self(this){++T.oc;note(got,std::forward<A>(a)...);}
  template<class... A>El(Tok&& t,A&&... a):k(t.id),self(this){++T.oc;note(got,std::move(t),std::forward<A>(a)...);}
  El(const Src& s):k(s.k),got("from Src"),self(this){++T.oc;}
  El(const El& x):k(x.k),got(x.got),self(this){x.ok();++T.cc;}
  El(El&& x):k(x.k),got(std::move(x.got)),self(this){x.ok();x.got="moved from";++T.mc;}
  El& operator=(const El& x){ok();x.ok();k=x.k;got=x.got;++T.ca;return *this;}
  El& operator=(El&& x){ok();x.ok();k=x.k;got=std::move(x.got);if(&x!=this)x.got="moved from";++T.ma;return *this;}
  ~El(){ok();self=0;++T.d;}
  void ok()const{if(self!=this)fail("lifetime","element used outside its lifetime");}
  int key()const{ok();return k;}
  int half()const{ok();return k/2;}
  friend bool operator==(const El& x,const El& y){return x.key()==y.key();}
  friend bool operator<(const El& x,const El& y){return x.key()<y.key();}
};
int El::next_default=0;
inline std::size_t hash_value(const El& e){return e.key();}

template<class U>struct Al{
  typedef U value_type;
  int id;
  explicit Al(int i=0):id(i){}
  template<class V>Al(const Al<V>& x):id(x.id){}
  U* allocate(std::size_t n){return std::allocator<U>().allocate(n);}
  void deallocate(U* p,std::size_t n){std::allocator<U>().deallocate(p,n);}
  typedef std::false_type propagate_on_container_copy_assignment;
  typedef std::false_type propagate_on_container_move_assignment;
  typedef std::true_type propagate_on_container_swap;
  typedef std::false_type is_always_equal;
  template<class V>bool operator==(const Al<V>& x)const{return id==x.id;}
  template<class V>bool operator!=(const Al<V>& x)const{return id!=x.id;}
};

typedef mi::const_mem_fun<El,int,&El::key> Key;
typedef mi::const_mem_fun<El,int,&El::half> Half;
enum Kind{O,H,S,R};
#if CFG==0
typedef mi::indexed_by<mi::ordered_unique<Key>,mi::hashed_non_unique<Half>,mi::sequenced<>,mi::random_access<>,mi::ranked_non_unique<Half>> Ix;
static constexpr Kind kinds[]={O,H,S,R,O};
#elif CFG==1
typedef mi::indexed_by<mi::sequenced<>,mi::hashed_unique<Key>,mi::ranked_unique<Key>,mi::random_access<>,mi::ordered_non_unique<Half>> Ix;
static constexpr Kind kinds[]={S,H,O,R,O};
#elif CFG==2
typedef mi::indexed_by<mi::random_access<>,mi::sequenced<>,mi::random_access<>,mi::ordered_non_unique<Key>,mi::hashed_non_unique<Key>> Ix;
static constexpr Kind kinds[]={R,S,R,O,H};
#elif CFG==3
typedef mi::indexed_by<mi::hashed_unique<Key>,mi::ordered_non_unique<Half>,mi::hashed_non_unique<Half>,mi::sequenced<>,mi::ranked_unique<Key>> Ix;
static constexpr Kind kinds[]={H,O,H,S,O};
#endif
#ifdef VF_STD_ALLOC
typedef mi::multi_index_container<El,Ix> C;
static C make(int){return C();}
#else
typedef mi::multi_index_container<El,Ix,Al<El>> C;
static C make(int id){return C(C::ctor_args_list(),Al<El>(id));}
#endif
typedef C::node_type NH;
/* same nodes, other index arguments */
static constexpr int NI=5;

struct Run{
  Rng& r;int dom;
  C a,b,u; /* a and b share an allocator, u has another one */
  std::vector<Tok*> toks;
  Run(Rng& r_,int d):r(r_),dom(d),a(make(1)),b(make(1)),u(make(2)){for(int i=0;i<8;++i)toks.push_back(new Tok(100+i));}
  ~Run(){for(Tok* t:toks)delete t;}

  Traffic t0;long alive0;
  long alive()const{return T.cc+T.mc+T.oc-T.d;}
  void start(){t0=T;alive0=alive();}
  /* -1: not judged */
  void want(const char* op,long cc,long mc,long ca,long ma,long oc,long alive_delta){
    Traffic d=T-t0;
    const char* n[]={"copied","moved","copy-assigned","move-assigned","constructed otherwise"};
    long w[]={cc,mc,ca,ma,oc},g[]={d.cc,d.mc,d.ca,d.ma,d.oc};
    for(int i=0;i<5;++i)if(w[i]>=0&&w[i]!=g[i])fail("traffic","%s: %ld element object(s) %s, expected %ld",op,g[i],n[i],w[i]);
    if(alive()-alive0!=alive_delta)fail("traffic","%s: the number of element objects changed by %ld, expected %ld",op,alive()-alive0,alive_delta);
    count("operations-counted");++ctx().evaluations;count((std::string("op-")+op).substr(0,40).c_str());
  }
  template<int I>auto any(C& c)->decltype(c.get<I>().begin()){
    auto it=c.get<I>().begin();int n=(int)c.size();
    for(int k=r.below(n+1);k>0;--k)++it;
    return it;
  }
  template<int I>auto elem(C& c)->decltype(c.get<I>().begin()){
    auto it=c.get<I>().begin();int n=(int)c.size();
    for(int k=r.below(n);k>0;--k)++it;
    return it;
  }
  /* emplacing through f(args...): n arguments whose categories follow a pattern */
  template<int P,class F,class... A>std::string dispatch_(int n,F&& f,std::string exp,A&&... a){
    if constexpr(sizeof...(A)<VF_MAXARGS){
      if(n>0){
        Tok& t=*toks[r.below(8)];
        constexpr int c=(P+sizeof...(A))%3;
        if constexpr(c==0)return dispatch_<P>(n-1,f,exp+"l"+std::to_string(t.id),std::forward<A>(a)...,t);
        else if constexpr(c==1)return dispatch_<P>(n-1,f,exp+"c"+std::to_string(t.id),std::forward<A>(a)...,static_cast<const Tok&>(t));
        else return dispatch_<P>(n-1,f,exp+"r"+std::to_string(t.id),std::forward<A>(a)...,std::move(t));
      }
    }
    f(std::forward<A>(a)...);
    return exp;
  }
  template<class F>std::string dispatch(int n,F&& f,std::string){
    switch(r.below(3)){case 0:return dispatch_<0>(n,f,"");case 1:return dispatch_<1>(n,f,"");default:return dispatch_<2>(n,f,"");}
  }
  template<class P>void emplaced(const char* op,P p,const std::string& exp,int k){
    want(op,0,0,0,0,1,p.second?1:0);
    if(p.second&&(p.first->got!=exp||p.first->k!=k))fail("forwarding","%s: arguments arrived as %s (key %d), given as %s (key %d)",op,p.first->got.c_str(),p.first->k,exp.c_str(),k);
    count(p.second?"emplaced":"emplace-refused");
  }
  template<int I>void emplace_any(C& c){
    auto& x=c.get<I>();int k=r.below(dom),n=r.below(7),how=r.below(4);
    auto pos=any<I>(c);
    typedef std::pair<decltype(x.begin()),bool> P;
    P p;std::string exp;
    const char* op="?";
    bool noargs=r.chance(1,10);
    if(noargs){El::next_default=k;}
    std::size_t s=c.size();
    start();
    if constexpr(kinds[I]==O||kinds[I]==H){
      if(how<2){
        op="emplace";
        if(noargs)p=x.emplace();
        else exp=dispatch(n,[&](auto&&... q){p=x.emplace(K{k},std::forward<decltype(q)>(q)...);},"");
      }
      else{
        op="emplace_hint";
        auto f=[&](auto&&... q){p.first=x.emplace_hint(pos,std::forward<decltype(q)>(q)...);p.second=c.size()!=s;};
        if(noargs)f();
        else exp=dispatch(n,[&](auto&&... q){f(K{k},std::forward<decltype(q)>(q)...);},"");
      }
    }
    else{
      if(how==0){
        op="emplace_front";
        if(noargs)p=x.emplace_front();
        else exp=dispatch(n,[&](auto&&... q){p=x.emplace_front(K{k},std::forward<decltype(q)>(q)...);},"");
      }
      else if(how==1){
        op="emplace_back";
        if(noargs)p=x.emplace_back();
        else exp=dispatch(n,[&](auto&&... q){p=x.emplace_back(K{k},std::forward<decltype(q)>(q)...);},"");
      }
      else{
        op="emplace(position)";
        if(noargs)p=x.emplace(pos);
        else exp=dispatch(n,[&](auto&&... q){p=x.emplace(pos,K{k},std::forward<decltype(q)>(q)...);},"");
      }
    }
    emplaced(op,p,exp,k);
  }
  template<int I>void insert_any(C& c){
    auto& x=c.get<I>();
    bool rv=r.below(2);int how=r.below(3);
    El e{K{r.below(dom)},*toks[0],*toks[r.below(8)]};
    std::string orig=e.got;
    auto pos=any<I>(c);
    typedef std::pair<decltype(x.begin()),bool> P;
    P p;std::size_t s=c.size();
    start();
    if constexpr(kinds[I]==O||kinds[I]==H){
      if(how){if(rv)p=x.insert(std::move(e));else p=x.insert(const_cast<const El&>(e));}
      else{p.first=rv?x.insert(pos,std::move(e)):x.insert(pos,const_cast<const El&>(e));p.second=c.size()!=s;}
    }
    else{
      if(how==0){if(rv)p=x.push_front(std::move(e));else p=x.push_front(const_cast<const El&>(e));}
      else if(how==1){if(rv)p=x.push_back(std::move(e));else p=x.push_back(const_cast<const El&>(e));}
      else{if(rv)p=x.insert(pos,std::move(e));else p=x.insert(pos,const_cast<const El&>(e));}
    }
    if(p.second){
      if(rv)want("insert(&&)",0,1,0,0,0,1);else want("insert(const&)",1,0,0,0,0,1);
      if(p.first->got!=orig)fail("forwarding","the inserted element does not hold what was given");
      if(!rv&&e.got!=orig)fail("forwarding","insertion changed its constant argument");
    }
    else{
      Traffic d=T-t0;
      if(d.ca||d.ma||d.oc||(!rv&&d.mc)||(rv&&d.cc)||d.cc+d.mc>1)fail("traffic","a refused insertion copied %ld, moved %ld, assigned %ld, constructed %ld element objects",d.cc,d.mc,d.ca+d.ma,d.oc);
      want("insert refused",-1,-1,0,0,0,0);
    }
  }
  template<int I>void bulk(C& c){
    auto& x=c.get<I>();int n=r.below(9);
    std::size_t s=c.size();
    auto pos=any<I>(c);
    if(r.below(2)){
      std::vector<El> v;v.reserve(n);
      for(int i=0;i<n;++i)v.emplace_back(K{r.below(dom)},*toks[i%8]);
      start();
      if constexpr(kinds[I]==O||kinds[I]==H)x.insert(v.begin(),v.end());
      else x.insert(pos,v.begin(),v.end());
      long g=c.size()-s;
      if((T-t0).cc<g||(T-t0).cc>n)fail("traffic","insertion of a range of %d elements, of which %ld were accepted, made %ld copies",n,g,(T-t0).cc);
      want("insert range",-1,0,0,0,0,g);
    }
    else{
      std::vector<Src> v;for(int i=0;i<n;++i)v.push_back(Src{r.below(dom)});
      start();
      if constexpr(kinds[I]==O||kinds[I]==H)x.insert(v.begin(),v.end());
      else x.insert(pos,v.begin(),v.end());
      long g=c.size()-s;
      want("insert range of convertible values",0,0,0,0,n,g);
    }
  }
  template<int I>void change(C& c){
    if(c.empty())return;
    auto& x=c.get<I>();auto it=elem<I>(c);
    int k=r.below(3)?r.below(dom):it->k;
    switch(r.below(4)){
    case 0:{
      El e{K{k},*toks[3]};bool rv=r.below(2);
      start();
      bool ok=rv?x.replace(it,std::move(e)):x.replace(it,const_cast<const El&>(e));
      if(ok){want(rv?"replace(&&)":"replace(const&)",0,0,rv?0:1,rv?1:0,0,0);if(it->got!=std::string("l103"))fail("forwarding","replace did not assign its argument");}
      else want("replace refused",0,0,0,0,0,0);
    }break;
    case 1:{
      std::size_t s=c.size();start();x.modify(it,[&](El& e){e.k=k;});want("modify",0,0,0,0,0,(long)c.size()-(long)s);
    }break;
    case 2:{
      int o=it->k;start();x.modify(it,[&](El& e){e.k=k;},[&](El& e){e.k=o;});want("modify with rollback",0,0,0,0,0,0);
    }break;
    case 3:{
      std::size_t s=c.size();
      start();
      switch(r.below(4)){
      case 0:x.erase(it);break;
      case 1:{auto l=it;for(int m=r.below(4);m>0&&l!=x.end();--m)++l;x.erase(it,l);}break;
      case 2:if constexpr(kinds[I]==O||kinds[I]==H)x.erase(r.below(dom));else x.remove_if([&](const El& e){return e.k==k;});break;
      case 3:if(r.below(6)==0)x.clear();break;
      }
      want("erase",0,0,0,0,0,(long)c.size()-(long)s);
      if((T-t0).d!=(long)(s-c.size()))fail("traffic","%ld element objects destroyed on erasing %ld",(T-t0).d,(long)(s-c.size()));
    }break;
    }
  }
  template<int I,int J>void nodes(C& c,C& o){
    if(c.empty())return;
    auto it=elem<I>(c);const El* p=&*it;
    std::size_t both=c.size()+o.size();
    start();
    NH n=c.get<I>().extract(it);
    want("extract",0,0,0,0,0,0);
    start();
    if(r.below(3)==0){NH m(std::move(n));n=std::move(m);if(r.below(2)){NH q;q.swap(n);n.swap(q);}}
    want("node handle moved",0,0,0,0,0,0);
    C& d=r.below(2)?c:o;
    bool ok;
    start();
    if constexpr(kinds[J]==O||kinds[J]==H){
      if(r.below(2)){auto res=d.get<J>().insert(std::move(n));ok=res.inserted;if(!ok)n=std::move(res.node);}
      else{std::size_t s=d.size();d.get<J>().insert(any<J>(d),std::move(n));ok=d.size()!=s;}
    }
    else{
      auto res=d.get<J>().insert(any<J>(d),std::move(n));
      ok=res.inserted;if(!ok)n=std::move(res.node);
    }
    want(ok?"insert node":"insert node refused",0,0,0,0,0,0);
    if(ok&&&*d.get<J>().iterator_to(*p)!=p)fail("traffic","the inserted node holds another element object");
    if(!ok){
      if(n.empty()||&n.value()!=p)fail("traffic","the refused node holds another element object");
      start();{NH q(std::move(n));}want("node handle dropped",0,0,0,0,0,-1);
      if((T-t0).d!=1)fail("traffic","%ld destructions on dropping a node handle",(T-t0).d);
    }
    if(c.size()+o.size()!=both-(ok?0:1))fail("traffic","elements lost");
  }
  template<int I,int J>void transfer(C& c,C& o){
    auto& x=c.get<I>();auto& y=o.get<J>();
    std::size_t both=c.size()+o.size();
    if constexpr(kinds[I]==O||kinds[I]==H){
      if constexpr(kinds[J]==kinds[I]||1){
        start();
        switch(r.below(3)){
        case 0:x.merge(y);break;
        case 1:if(!o.empty())x.merge(y,elem<J>(o));break;
        case 2:{auto f=any<J>(o),l=f;for(int m=r.below(6);m>0&&l!=y.end();--m)++l;x.merge(y,f,l);}break;
        }
        want("merge",0,0,0,0,0,0);
      }
    }
    else{
      auto pos=any<I>(c);
      start();
      switch(r.below(3)){
      case 0:x.splice(pos,y);break;
      case 1:if(!o.empty())x.splice(pos,y,elem<J>(o));break;
      case 2:{auto f=any<J>(o),l=f;for(int m=r.below(6);m>0&&l!=y.end();--m)++l;x.splice(pos,y,f,l);}break;
      }
      want("splice",0,0,0,0,0,0);
    }
    if(c.size()+o.size()!=both)fail("traffic","elements lost in transfer");
  }
  template<int I>void arrange(C& c,C& o){
    auto& x=c.get<I>();std::size_t s=c.size();
    if constexpr(kinds[I]==O||kinds[I]==H){
      start();
      int k=r.below(dom);
      (void)x.find(k);(void)x.count(k);(void)x.equal_range(k);(void)x.contains(k);
      if constexpr(kinds[I]==H){x.rehash(r.below(3*(int)s+5));x.reserve(r.below(3*(int)s+5));}
      else{(void)x.lower_bound(k);(void)x.upper_bound(k);}
      want(kinds[I]==H?"lookup and rehash":"lookup",0,0,0,0,0,0);
    }
    else{
      auto f=any<I>(c);
      start();
      const char* op="?";
      switch(r.below(9)){
      case 0:op="sort";x.sort();break;
      case 1:op="sort";x.sort([](const El& p,const El& q){return p.k>q.k;});break;
      case 2:op="reverse";x.reverse();break;
      case 3:op="unique";x.unique();break;
      case 4:op="unique";x.unique([](const El& p,const El& q){return p.k/3==q.k/3;});break;
      case 5:op="relocate";if(s)x.relocate(f,elem<I>(c));break;
      case 6:op="rearrange";{
        std::vector<const El*> v;for(auto it=x.begin();it!=x.end();++it)v.push_back(&*it);
        for(std::size_t i=v.size();i>1;--i)std::swap(v[i-1],v[r.below((int)i)]);
        std::vector<std::reference_wrapper<const El>> w;for(auto p:v)w.push_back(*p);
        x.rearrange(w.begin());
      }break;
      case 7:op="list merge";x.merge(o.get<I>());break;
      case 8:op="list merge";x.merge(o.get<I>(),[](const El& p,const El& q){return p.k/2<q.k/2;});break;
      }
      /* elements may be erased (unique) but none is made */
      long dd=(T-t0).d;
      want(op,0,0,0,0,0,-dd);
      if constexpr(kinds[I]==R){start();x.reserve(r.below(40));x.shrink_to_fit();want("capacity",0,0,0,0,0,0);}
      if(r.chance(1,6)){
        int n=r.below((int)c.size()+4);s=c.size();El::next_default=r.below(dom);
        bool val=r.below(2);El e{K{r.below(dom)}};
        start();
        if(val)x.resize(n,e);else x.resize(n);
        long g=(long)c.size()-(long)s;
        if(g<=0)want("resize down",0,0,0,0,-1,g);
        else if(val){want("resize with value",-1,0,0,0,0,g);if((T-t0).cc<g||(T-t0).cc>n)fail("traffic","resize made %ld copies for %ld elements",(T-t0).cc,g);}
        else{want("resize",0,0,0,0,-1,g);}
      }
    }
  }
  void whole(C& c,C& o){
    long n=(long)c.size(),m=(long)o.size(),un=(long)u.size();
    switch(r.below(9)){
    case 0:{start();{C d(c);want("copy construction",n,0,0,0,0,n);}}break;
    case 1:{start();{C d(std::move(c));want("move construction",0,0,0,0,0,0);c=std::move(d);want("move assignment",0,0,0,0,0,0);}}break;
    case 2:start();c.swap(o);want("swap",0,0,0,0,0,0);break;
    case 3:start();c=static_cast<const C&>(o);want("copy assignment",m,0,0,0,0,m-n);break;
    case 4:start();c=std::move(o);o.clear();want("move assignment",0,0,0,0,0,-n);break;
    case 5:start();{C& d=c;c=static_cast<const C&>(d);}if((T-t0).cc!=0&&(T-t0).cc!=n)fail("traffic","self-assignment made %ld copies of %ld elements",(T-t0).cc,n);want("self-assignment",-1,0,0,0,0,0);break;
#ifndef VF_STD_ALLOC
    case 6:start();u=std::move(c);want("move assignment, other allocator",0,n,0,0,0,-un+((long)c.size()-n)+n);c.clear();break;
    case 7:start();{C d(std::move(u),Al<El>(1));want("move construction, other allocator",0,un,0,0,0,un+((long)u.size()-un));u.clear();}break;
    case 8:start();u=static_cast<const C&>(c);want("copy assignment, other allocator",n,0,0,0,0,n-un);break;
#else
    default:(void)un;start();{C d(std::move(o));o.swap(d);}want("move construction and swap",0,0,0,0,0,0);break;
#endif
    }
  }
  void lists(C& c){
    int k1=r.below(dom),k2=r.below(dom),k3=r.below(dom);
    {
      std::initializer_list<El> l={El{K{k1}},El{K{k2}},El{K{k3}}};
      std::size_t s=c.size();
      start();
      if(r.below(2)){
        c=l;long g=c.size();
        if((T-t0).cc<g||(T-t0).cc>3)fail("traffic","list assignment made %ld copies for %ld elements",(T-t0).cc,g);
        want("list assignment",-1,0,0,0,0,g-(long)s);
      }
      else{
#if CFG==0||CFG==3
        c.insert(l);
#else
        c.insert(c.begin(),l);
#endif
        long g=(long)(c.size()-s);
        if((T-t0).cc<g||(T-t0).cc>3)fail("traffic","list insertion made %ld copies for %ld elements",(T-t0).cc,g);
        want("list insertion",-1,0,0,0,0,g);
      }
    }
  }
  template<int I>void op(C& c,C& o){
    switch(r.below(14)){
    case 0:case 1:case 2:emplace_any<I>(c);break;
    case 3:case 4:insert_any<I>(c);break;
    case 5:bulk<I>(c);break;
    case 6:case 7:change<I>(c);break;
    case 8:
      switch(r.below(NI)){case 0:nodes<I,0>(c,o);break;case 1:nodes<I,1>(c,o);break;case 2:nodes<I,2>(c,o);break;case 3:nodes<I,3>(c,o);break;case 4:nodes<I,4>(c,o);break;}
      break;
    case 9:case 10:
      switch(r.below(NI)){case 0:transfer<I,0>(c,o);break;case 1:transfer<I,1>(c,o);break;case 2:transfer<I,2>(c,o);break;case 3:transfer<I,3>(c,o);break;case 4:transfer<I,4>(c,o);break;}
      break;
    case 11:arrange<I>(c,o);break;
    case 12:whole(c,o);break;
    case 13:lists(c);break;
    }
  }
  void state(const C& c){
    uint64_t h=c.size();int n=0;
    for(const El& e:c){h=mix(h,e.key()*31+e.got.size());++n;}
    if(n!=(int)c.size())fail("traffic","size() is %d, the traversal has %d elements",(int)c.size(),n);
    seen(h);
  }
  void go(int len){
    for(int i=0;i<len;++i){
      bool f=r.below(2);C& c=f?a:b;C& o=f?b:a;
      switch(r.below(NI)){case 0:op<0>(c,o);break;case 1:op<1>(c,o);break;case 2:op<2>(c,o);break;case 3:op<3>(c,o);break;case 4:op<4>(c,o);break;}
      if(c.size()>60)c.clear();
      state(a);state(b);
      long want_alive=(long)(a.size()+b.size()+u.size());
      if(alive()!=want_alive)fail("traffic","%ld element objects are alive, the containers hold %ld",alive(),want_alive);
    }
  }
};

int main(int argc,char** argv){
  init(argc,argv);
  return run_cases([&](uint64_t k,Rng& r){
    int dom=1+r.below(r.below(3)?9:60);
    lg("keys below %d",dom);
    {Run run(r,dom);run.go(ctx().len);}
    long al=T.cc+T.mc+T.oc-T.d;
    if(al!=0)fail("traffic","%ld element objects outlive the containers",al);
    if(k<2)sample_log();

  });
}
