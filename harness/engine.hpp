// Reference-model monitor: drives one or two real containers through random
// histories and, after every operation, compares everything observable through
// every index with an executable sequential model.
#ifndef VF_ENGINE_HPP
#define VF_ENGINE_HPP
#include "core.hpp"
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/ref.hpp>
#include <boost/tuple/tuple.hpp>
#include <boost/tuple/tuple_comparison.hpp>
#include <stdexcept>
#include <cmath>
#include <iterator>

#ifdef STD_ALLOC
static const bool vf_std_alloc=true; /* under sanitizers huge requests end the process */
#else
static const bool vf_std_alloc=false;
#endif
namespace vf{
namespace mi=boost::multi_index;

enum Kind{ORD,RNK,HSH,SEQ,RND};
enum KeyId{K_ID,K_A,K_B,K_AB,K_BID,K_NONE};
struct Spec{Kind kind;bool unique;KeyId key;};
typedef std::pair<int,int> MK;
struct V3{int id,a,b;};
inline MK mkey(KeyId k,const V3& v){
  switch(k){
    case K_ID:return MK(v.id,0);case K_A:return MK(v.a,0);case K_B:return MK(v.b,0);
    case K_AB:return MK(v.a,v.b);case K_BID:return MK(v.b,v.id);default:return MK(0,0);
  }
}

template<KeyId K>struct KT;
template<class E>struct KT1{
  typedef E ext;typedef CmpDir less;typedef HashSalt hash;typedef EqSalt eq;
  typedef int real;
  static real mk(MK k){return k.first;}
  static less mkless(int d){return less(d);}
  static hash mkhash(int s){return hash(s);}
  static int dirof(const less& l){return l.dir;}
  static int saltof(const hash& h){return h.salt;}
  static ext mkext(int t){return ext(t);}
  static int tagof(const ext& k){return k.tag;}
  static eq mkeq(int t){return eq(t);}
  static int eqtagof(const eq& q){return q.tag;}
  static const bool rw=true;
};
template<class E1,class E2>struct KT2{
  typedef mi::composite_key<Val,E1,E2> ext;
  typedef mi::composite_key_compare<CmpDir,CmpDir> less;
  typedef mi::composite_key_hash<HashSalt,HashSalt> hash;
  typedef mi::composite_key_equal_to<EqSalt,EqSalt> eq;
  typedef boost::tuple<int,int> real;
  static real mk(MK k){return real(k.first,k.second);}
  static less mkless(int d){return less(CmpDir(d),CmpDir(d));}
  static hash mkhash(int s){return hash(HashSalt(s),HashSalt(s));}
  static int dirof(const less& l){return l.key_comps().template get<0>().dir;}
  static int saltof(const hash& h){return h.key_hash_functions().template get<0>().salt;}
  static ext mkext(int t){return ext(E1(t),E2(t+1));}
  static int tagof(const ext& k){int t=k.key_extractors().template get<0>().tag;return k.key_extractors().template get<1>().tag==t+1||(t==0&&k.key_extractors().template get<1>().tag==0)?t:-1;}
  static eq mkeq(int t){return eq(EqSalt(t),EqSalt(t+1));}
  static int eqtagof(const eq& q){int t=q.key_eqs().template get<0>().tag;return q.key_eqs().template get<1>().tag==t+1||(t==0&&q.key_eqs().template get<1>().tag==0)?t:-1;}
  static const bool rw=false;
};
template<>struct KT<K_ID>:KT1<KId>{};
template<>struct KT<K_A>:KT1<KA>{};
template<>struct KT<K_B>:KT1<KB>{};
template<>struct KT<K_AB>:KT2<KA,KB>{};
template<>struct KT<K_BID>:KT2<KB,KId>{};

#define VF_OU(k)  mi::ordered_unique<KT<k>::ext,KT<k>::less>
#define VF_ON(k)  mi::ordered_non_unique<KT<k>::ext,KT<k>::less>
#define VF_RU(k)  mi::ranked_unique<KT<k>::ext,KT<k>::less>
#define VF_RN(k)  mi::ranked_non_unique<KT<k>::ext,KT<k>::less>
#define VF_HU(k)  mi::hashed_unique<KT<k>::ext,KT<k>::hash,KT<k>::eq>
#define VF_HN(k)  mi::hashed_non_unique<KT<k>::ext,KT<k>::hash,KT<k>::eq>
#define VF_SQ     mi::sequenced<>
#define VF_RA     mi::random_access<>

enum Cat{C_INS,C_HINT,C_BULK,C_ERASE,C_REPL,C_MOD,C_NODE,C_XFER,C_LIST,C_REARR,C_LOOK,C_POL,C_COPY,C_NCAT};
inline const char* cat_name(int c){
  static const char* n[]={"insert","hinted-insert","bulk","erase","replace","modify","node","transfer","list","rearrange","lookup","policy","copy"};
  return n[c];
}

enum GLevel{G_STRONG,G_BASIC,G_NOTHROW};

template<class A>struct AllocOps{ /* default: stateless */
  static A make(int){return A();}
  static int id(const A&){return 0;}
};
template<class A>struct AllocPocs{static constexpr bool value=std::allocator_traits<A>::propagate_on_container_swap::value;};
template<class T,int B>struct AllocOps<TA<T,B>>{
  static TA<T,B> make(int i){return TA<T,B>(i);}
  static int id(const TA<T,B>& a){return a.id;}
};

template<class Cfg>
struct World{
  typedef typename Cfg::C C;
  static constexpr int N=Cfg::N;
  typedef typename C::allocator_type A;
  typedef typename C::node_type Node;
  template<int I>using Ix=typename mi::nth_index<C,I>::type;
  template<int I>using It=typename Ix<I>::iterator;
  template<class S>struct Its;
  template<std::size_t... Is>struct Its<std::index_sequence<Is...>>{typedef std::tuple<It<Is>...> type;};
  typedef typename Its<std::make_index_sequence<N>>::type ItTuple;
  static constexpr Spec spec(int i){return Cfg::spec[i];}

  struct El{int uid,slot;V3 v;int tag;const Val* addr;ItTuple its;};
  struct Slot{
    std::unique_ptr<C> c;
    std::array<std::vector<int>,N> ord;
    int dir[N],salt[N],ktag[N];float mlf[N]; /* ktag: state of the key extractor and equality object */
    int alloc=0;
    ItTuple ends;
    bool inserted=false;
  };
  struct PoolNode{Node nh;V3 v;int tag;const Val* addr;int alloc;};
  /* handles stay put: moving one handle onto another requires equal allocators */
  struct Pool{
    std::vector<std::unique_ptr<PoolNode>> v;
    std::size_t size()const{return v.size();}
    bool empty()const{return v.empty();}
    PoolNode& operator[](std::size_t k){return *v[k];}
    PoolNode& back(){return *v.back();}
    void push_back(PoolNode&& p){v.emplace_back(new PoolNode(std::move(p)));}
    void pop_back(){v.pop_back();}
    void remove(std::size_t k){v.erase(v.begin()+(std::ptrdiff_t)k);}
    void clear(){v.clear();}
  };

  Rng& r;
  Slot sl[2];
  std::unordered_map<int,El> els;
  std::unordered_map<const Val*,int> byaddr;
  Pool pool;
  int next_uid=1;
  int dom_id=12,dom_a=4,dom_b=4;
  int opno=0;
  bool multi_alloc=false;
  bool deep=true;
  int force_alloc=-1;
  /* per-operation expectations */
  bool hfree[2][N];
  std::vector<int> amb[2][N];
  int catw[C_NCAT];
  double kindw[5]={1,1,1,1,1};

  /* fault machinery */
  bool fault_next=false,fault_all=false;
  long fault_k=0;int fault_mask=0;bool fault_persistent=false;
  bool fault_happened=false;long fault_points=0;
  std::string guard_desc;

  template<int I>static constexpr bool keyed=(Cfg::spec[I].kind==ORD||Cfg::spec[I].kind==RNK||Cfg::spec[I].kind==HSH);
  template<int I>static constexpr bool sorted_ix=(Cfg::spec[I].kind==ORD||Cfg::spec[I].kind==RNK);
  template<int I>static constexpr bool listed=(Cfg::spec[I].kind==SEQ||Cfg::spec[I].kind==RND);
  template<int I>static constexpr Kind kd=Cfg::spec[I].kind;
  template<int I>using KTI=KT<Cfg::spec[I].key>;

  template<class F,std::size_t... Is>
  static void each_impl(F& f,std::index_sequence<Is...>){(f(std::integral_constant<int,(int)Is>()),...);}
  template<class F>static void each(F f){each_impl(f,std::make_index_sequence<N>());}
  template<class F>static void dispatch(int i,F f){
    each([&](auto ic){if(decltype(ic)::value==i)f(ic);});
  }
  template<int I>Ix<I>& ix(int s){return sl[s].c->template get<I>();}
  template<int I>const Ix<I>& cix(int s){return const_cast<const C&>(*sl[s].c).template get<I>();}

  template<int I>static auto cons_args(const int* dir,const int* salt,const int* ktag){
    if constexpr(I==N)return boost::tuples::null_type();
    else{
      auto rest=cons_args<I+1>(dir,salt,ktag);
      return boost::tuples::cons<typename Ix<I>::ctor_args,decltype(rest)>(mkarg<I>(dir[I],salt[I],ktag[I]),rest);
    }
  }
  template<int I>static typename Ix<I>::ctor_args mkarg(int dir,int salt,int ktag){
    typedef typename Ix<I>::ctor_args R;
    if constexpr(sorted_ix<I>)return R(KTI<I>::mkext(ktag),KTI<I>::mkless(dir));
    else if constexpr(kd<I> ==HSH)return R(0,KTI<I>::mkext(ktag),KTI<I>::mkhash(salt),KTI<I>::mkeq(ktag));
    else return R();
  }
  typename C::ctor_args_list mkargs(const Slot& s){return typename C::ctor_args_list(cons_args<0>(s.dir,s.salt,s.ktag));}

  explicit World(Rng& r_):r(r_){
    for(int i=0;i<C_NCAT;++i)catw[i]=4;
    clear_expect();
  }
  void init(){
    for(int s=0;s<2;++s){
      for(int i=0;i<N;++i){
        sl[s].dir[i]=r.chance(1,3)?-1:1;
        int m=r.below(10);
        sl[s].salt[i]=(r.below(3)<<8)|(m<5?0:m<7?1:m<8?2:3);
        sl[s].mlf[i]=1.0f;
        sl[s].ktag[i]=100*(s+1)+2*i;
      }
      if(s==1&&r.chance(2,3))for(int i=0;i<N;++i){sl[1].dir[i]=sl[0].dir[i];sl[1].salt[i]=sl[0].salt[i];}
      int al=multi_alloc?1+r.below(2):1;
      if(force_alloc>=0)al=force_alloc;
      sl[s].c.reset(new C(mkargs(sl[s]),AllocOps<A>::make(al)));
      sl[s].alloc=AllocOps<A>::id(sl[s].c->get_allocator());
      take_ends(s);
      check_internals(s);
    }
  }
  void take_ends(int s){each([&](auto ic){constexpr int I=decltype(ic)::value;std::get<I>(sl[s].ends)=ix<I>(s).end();});}
  void clear_expect(){for(int s=0;s<2;++s)for(int i=0;i<N;++i){hfree[s][i]=false;amb[s][i].clear();}}
  void free_hash(int s){for(int i=0;i<N;++i)hfree[s][i]=true;}

  /* the container's internal objects must be the ones the model expects */
  void check_internals(int s){
    each([&](auto ic){constexpr int I=decltype(ic)::value;
      if constexpr(sorted_ix<I>){
        if(KTI<I>::dirof(ix<I>(s).key_comp())!=sl[s].dir[I])fail("internal-objects","slot %d index %d: comparison object is not the expected one",s,I);
        if(KTI<I>::tagof(ix<I>(s).key_extractor())!=sl[s].ktag[I])
          fail("internal-objects","slot %d index %d: key extractor %d is not the expected one %d",s,I,KTI<I>::tagof(ix<I>(s).key_extractor()),sl[s].ktag[I]);
      }
      if constexpr(kd<I> ==HSH){
        if(KTI<I>::saltof(ix<I>(s).hash_function())!=sl[s].salt[I])fail("internal-objects","slot %d index %d: hash object is not the expected one",s,I);
        if(KTI<I>::tagof(ix<I>(s).key_extractor())!=sl[s].ktag[I])
          fail("internal-objects","slot %d index %d: key extractor %d is not the expected one %d",s,I,KTI<I>::tagof(ix<I>(s).key_extractor()),sl[s].ktag[I]);
        if(KTI<I>::eqtagof(ix<I>(s).key_eq())!=sl[s].ktag[I])
          fail("internal-objects","slot %d index %d: equality object %d is not the expected one %d",s,I,KTI<I>::eqtagof(ix<I>(s).key_eq()),sl[s].ktag[I]);
        if(std::fabs(ix<I>(s).max_load_factor()-sl[s].mlf[I])>1e-6)fail("max-load-factor","slot %d index %d: max_load_factor %g expected %g",s,I,(double)ix<I>(s).max_load_factor(),(double)sl[s].mlf[I]);
      }
    });
    if(AllocOps<A>::id(sl[s].c->get_allocator())!=sl[s].alloc)
      fail("allocator-identity","slot %d: get_allocator() is %d, expected %d",s,AllocOps<A>::id(sl[s].c->get_allocator()),sl[s].alloc);
  }

  /* ------------------------------------------------------------ model */
  bool mless(int s,int i,const V3& x,const V3& y)const{
    MK kx=mkey(spec(i).key,x),ky=mkey(spec(i).key,y);
    return sl[s].dir[i]>0?kx<ky:ky<kx;
  }
  bool meq(int i,const V3& x,const V3& y)const{return mkey(spec(i).key,x)==mkey(spec(i).key,y);}
  const V3& vof(int uid)const{return els.find(uid)->second.v;}
  std::size_t msize(int s)const{return sl[s].ord[0].size();}
  int rnd_uid(int s){auto& o=sl[s].ord[0];return o.empty()?-1:o[r.below((int)o.size())];}
  V3 rv(){
    V3 v;v.id=r.below(dom_id);v.a=r.below(dom_a);v.b=r.below(dom_b);
    return v;
  }
  bool blocked(int s,const V3& v,int exclude,std::vector<int>* who=nullptr){
    bool res=false;
    for(int i=0;i<N;++i){
      if(!spec(i).unique||spec(i).kind==SEQ||spec(i).kind==RND)continue;
      for(int u:sl[s].ord[i])if(u!=exclude&&meq(i,vof(u),v)){res=true;if(who)who->push_back(u);}
    }
    return res;
  }
  int lb(int s,int i,const V3& v){ /* first element not less than v */
    auto& o=sl[s].ord[i];int lo=0,hi=(int)o.size();
    while(lo<hi){int m=(lo+hi)/2;if(mless(s,i,vof(o[m]),v))lo=m+1;else hi=m;}
    return lo;
  }
  int ub(int s,int i,const V3& v){
    auto& o=sl[s].ord[i];int lo=0,hi=(int)o.size();
    while(lo<hi){int m=(lo+hi)/2;if(mless(s,i,v,vof(o[m])))hi=m;else lo=m+1;}
    return lo;
  }
  int pos_of(int s,int i,int uid){
    auto& o=sl[s].ord[i];
    for(std::size_t k=0;k<o.size();++k)if(o[k]==uid)return (int)k;
    return -1;
  }
  void place_default(int s,int uid){
    const V3 v=vof(uid);
    for(int i=0;i<N;++i){
      auto& o=sl[s].ord[i];
      if(spec(i).kind==ORD||spec(i).kind==RNK)o.insert(o.begin()+ub(s,i,v),uid);
      else o.push_back(uid);
      if(spec(i).kind==HSH)hfree[s][i]=true;
    }
    sl[s].inserted=true;
  }
  void unplace(int s,int uid){
    for(int i=0;i<N;++i){auto& o=sl[s].ord[i];o.erase(std::find(o.begin(),o.end(),uid));}
  }
  void move_in(int s,int i,int uid,int pos){ /* put uid at position pos (of the order without it) */
    auto& o=sl[s].ord[i];o.erase(std::find(o.begin(),o.end(),uid));
    o.insert(o.begin()+pos,uid);
  }
  void drop(int s,int uid){
    unplace(s,uid);forget(uid);
  }
  void forget(int uid){
    auto it=els.find(uid);byaddr.erase(it->second.addr);els.erase(it);
  }
  int add_el(int s,const Val* p){
    if(byaddr.count(p))fail("identity","a newly inserted element shares its address with an existing one");
    El e;e.uid=next_uid++;e.slot=s;e.v=V3{p->id,p->a,p->b};e.tag=p->tag;e.addr=p;
    fill_its(s,e);
    byaddr[p]=e.uid;int u=e.uid;els.emplace(u,std::move(e));
    return u;
  }
  void fill_its(int s,El& e){
    C& c=*sl[s].c;
    auto it0=c.template get<0>().iterator_to(*e.addr);
    each([&](auto ic){constexpr int I=decltype(ic)::value;
      std::get<I>(e.its)=c.template project<I>(it0);
      if(boost::addressof(*std::get<I>(e.its))!=e.addr)fail("project","projection to index %d does not point to the same element",I);
    });
  }

  /* -------------------------------------------------------- the monitor */
  std::string show(int s,int i){
    std::string o="[";char b[64];
    for(int u:sl[s].ord[i]){const V3& v=vof(u);snprintf(b,sizeof b," %d:(%d,%d,%d)",u,v.id,v.a,v.b);o+=b;if(o.size()>900){o+=" ...";break;}}
    return o+" ]";
  }
  template<int I>void walk(int s,std::vector<int>& act){
    auto& x=ix<I>(s);
    std::size_t n=msize(s);
    if(x.size()!=n)fail("size","slot %d index %d: size() is %zu, model has %zu",s,I,(std::size_t)x.size(),n);
    if(x.empty()!=(n==0))fail("size","slot %d index %d: empty() inconsistent",s,I);
    act.clear();act.reserve(n);
    bool useconst=((opno+I)&1)!=0;
    auto body=[&](auto it,auto end){
      for(;it!=end;++it){
        if(act.size()>=n)fail("coherence","slot %d index %d: traversal yields more than %zu elements",s,I,n);
        const Val* p=boost::addressof(*it);
        auto f=byaddr.find(p);
        if(f==byaddr.end())fail("coherence","slot %d index %d: traversal position %zu yields an element the container should not hold",s,I,act.size());
        El& e=els.find(f->second)->second;
        if(e.slot!=s)fail("coherence","slot %d index %d: traversal yields an element of the other container",s,I);
        p->check("traversal");
        if(p->id!=e.v.id||p->a!=e.v.a||p->b!=e.v.b||p->tag!=e.tag)
          fail("value","slot %d index %d: element %d is (%d,%d,%d) tag %d, model says (%d,%d,%d) tag %d",s,I,e.uid,p->id,p->a,p->b,p->tag,e.v.id,e.v.a,e.v.b,e.tag);
        if(!(it==std::get<I>(e.its)))fail("iterator-stability","slot %d index %d: iterator obtained at insertion of element %d no longer equals the traversal iterator",s,I,e.uid);
        act.push_back(e.uid);
      }
    };
    if(useconst){const Ix<I>& cx=x;body(cx.begin(),cx.end());}
    else body(x.begin(),x.end());
    if(act.size()!=n)fail("coherence","slot %d index %d: traversal yields %zu elements, model has %zu",s,I,act.size(),n);
    {
      std::vector<int> q(act);std::sort(q.begin(),q.end());
      if(std::adjacent_find(q.begin(),q.end())!=q.end())fail("coherence","slot %d index %d: an element is visited twice",s,I);
    }
    if(!(std::get<I>(sl[s].ends)==x.end()))fail("iterator-stability","slot %d index %d: end iterator taken earlier no longer equals end()",s,I);
    {
      const Ix<I>& cx=x;
      if(cx.cbegin()!=x.begin()||cx.cend()!=x.end()||cx.begin()!=x.begin()||cx.end()!=x.end()||(cx.cbegin()==cx.cend())!=(n==0)||cx.size()!=n||cx.empty()!=(n==0))
        fail("coherence","slot %d index %d: const iterator accessors differ from the others",s,I);
    }
    if constexpr(kd<I> !=HSH){
      auto back=[&](auto it,auto re){
        std::size_t k=0;
        for(;it!=re;++it,++k){
          if(k>=n)fail("coherence","slot %d index %d: reverse traversal too long",s,I);
          if(boost::addressof(*it)!=els.find(act[n-1-k])->second.addr)fail("coherence","slot %d index %d: reverse traversal disagrees with forward traversal at %zu",s,I,k);
        }
        if(k!=n)fail("coherence","slot %d index %d: reverse traversal too short",s,I);
      };
      const Ix<I>& cx=x;
      switch(opno%3){
      case 0:back(x.rbegin(),x.rend());break;
      case 1:back(cx.rbegin(),cx.rend());break;
      default:back(cx.crbegin(),cx.crend());
      }
    }
  }
  template<int I>void verify_ix(int s,std::vector<int>& act){
    walk<I>(s,act);
    auto& o=sl[s].ord[I];
    if constexpr(kd<I> ==HSH){
      verify_hashed<I>(s,act);
      if(!hfree[s][I]){
        if(act!=o)fail("hash-order","slot %d index %d: relative order of untouched elements changed",s,I);
      }
      else{
        std::vector<int> p(act),q(o);std::sort(p.begin(),p.end());std::sort(q.begin(),q.end());
        if(p!=q)fail("coherence","slot %d index %d: element set differs from the model's",s,I);
        o=act;
      }
    }
    else{
      auto& am=amb[s][I];
      if(am.empty()){
        if(act!=o){
          std::string want=show(s,I);
          std::vector<int> t=o;o=act;std::string got=show(s,I);o=t;
          fail("order","slot %d index %d: order is %s, model says %s",s,I,got.c_str(),want.c_str());
        }
      }
      else{
        auto strip=[&](const std::vector<int>& v){std::vector<int> w;for(int u:v)if(std::find(am.begin(),am.end(),u)==am.end())w.push_back(u);return w;};
        if(strip(act)!=strip(o))fail("order","slot %d index %d: untouched elements changed their relative order",s,I);
        std::vector<int> p(act),q(o);std::sort(p.begin(),p.end());std::sort(q.begin(),q.end());
        if(p!=q)fail("coherence","slot %d index %d: element set differs from the model's",s,I);
        o=act;
      }
      if constexpr(sorted_ix<I>){
        for(std::size_t k=1;k<o.size();++k){
          if(mless(s,I,vof(o[k]),vof(o[k-1])))fail("sorted","slot %d index %d: not sorted at position %zu: %s",s,I,k,show(s,I).c_str());
          if(spec(I).unique&&!mless(s,I,vof(o[k-1]),vof(o[k])))fail("unique","slot %d index %d: equivalent elements in a unique index",s,I);
        }
      }
      if constexpr(kd<I> ==RND)verify_rnd<I>(s);
    }
  }
  template<int I>void verify_hashed(int s,const std::vector<int>& act){
    auto& x=ix<I>(s);
    /* equivalent elements are contiguous; uniqueness */
    std::map<MK,int> seenk;
    for(std::size_t k=0;k<act.size();++k){
      MK m=mkey(spec(I).key,vof(act[k]));
      bool cont=k&&mkey(spec(I).key,vof(act[k-1]))==m;
      if(cont){
        if(spec(I).unique)fail("unique","slot %d index %d: equivalent elements in a unique hashed index",s,I);
      }
      else if(!seenk.emplace(m,1).second)fail("hash-groups","slot %d index %d: elements with equivalent keys are not adjacent",s,I);
    }
    /* buckets */
    std::size_t bc=x.bucket_count(),tot=0;
    if(bc<1)fail("buckets","bucket_count()==0");
    if(x.max_bucket_count()<bc)fail("buckets","max_bucket_count()<bucket_count()");
    if(deep||(opno%8)==0){
      std::unordered_map<int,std::size_t> bk;
      for(std::size_t b=0;b<bc;++b){
        std::size_t m=0,g=0;
        for(auto it=x.begin(b),e=x.end(b);it!=e;++it){
          if(++m>act.size())fail("buckets","slot %d index %d: bucket %zu traversal does not end",s,I,b);
          auto f=byaddr.find(boost::addressof(*it));
          if(f==byaddr.end()||els.find(f->second)->second.slot!=s)fail("buckets","slot %d index %d: bucket %zu holds a foreign element",s,I,b);
          if(!bk.emplace(f->second,b).second)fail("buckets","slot %d index %d: element in two bucket positions",s,I);
        }
        for(auto it=x.cbegin(b),e=x.cend(b);it!=e;++it)++g;
        if(g!=m||x.bucket_size(b)!=m)fail("buckets","slot %d index %d: bucket_size(%zu)=%zu but %zu elements",s,I,b,(std::size_t)x.bucket_size(b),m);
        tot+=m;
      }
      if(tot!=act.size())fail("buckets","slot %d index %d: buckets hold %zu elements, index has %zu",s,I,tot,act.size());
      for(int u:act){
        const El& e=els.find(u)->second;
        if(x.bucket(x.key_extractor()(*e.addr))!=bk[u])fail("buckets","slot %d index %d: bucket(key) is not the bucket that holds the element",s,I);
        auto li=x.local_iterator_to(*e.addr);
        if(boost::addressof(*li)!=e.addr)fail("buckets","local_iterator_to");
      }
    }
    double lf=(double)x.load_factor(),want=(double)act.size()/(double)bc;
    if(std::fabs(lf-want)>1e-5*(1+want))fail("load-factor","slot %d index %d: load_factor() %g expected %g",s,I,lf,want);
    if(sl[s].inserted&&want>(double)sl[s].mlf[I]*(1+1e-5)+1e-9)
      fail("load-factor","slot %d index %d: load factor %g exceeds maximum %g after an insertion",s,I,want,(double)sl[s].mlf[I]);
  }
  template<int I>void verify_rnd(int s){
    auto& x=ix<I>(s);auto& o=sl[s].ord[I];
    std::size_t n=o.size();
    if(x.capacity()<n)fail("capacity","capacity() %zu < size() %zu",(std::size_t)x.capacity(),n);
    for(std::size_t k=0;k<n;++k){
      const El& e=els.find(o[k])->second;
      if(boost::addressof(x[k])!=e.addr)fail("positional","slot %d index %d: operator[](%zu) is not the %zu-th element",s,I,k,k);
      if(boost::addressof(x.at(k))!=e.addr)fail("positional","at(%zu)",k);
      if((std::size_t)(std::get<I>(e.its)-x.begin())!=k)fail("positional","slot %d index %d: stored iterator minus begin() is not %zu",s,I,k);
    }
    if(n){
      std::size_t k=(std::size_t)r.below((int)n+1);
      auto it=x.begin()+(std::ptrdiff_t)k;
      if(k<n?boost::addressof(*it)!=els.find(o[k])->second.addr:!(it==x.end()))fail("positional","begin()+%zu",k);
      auto jt=x.end()-(std::ptrdiff_t)(n-k);
      if(!(jt==it))fail("positional","end()-%zu",n-k);
      if(k<n&&boost::addressof(x.begin()[(std::ptrdiff_t)k])!=els.find(o[k])->second.addr)fail("positional","iterator subscript");
      if((it<x.end())!=(k<n)||x.end()<it||!(x.begin()<=it)||!(it>=x.begin()))fail("positional","iterator ordering");
      if(x.end()-x.begin()!=(std::ptrdiff_t)n)fail("positional","end()-begin()");
    }
    bool thrown=false;
    try{(void)x.at(n);}catch(const std::out_of_range&){thrown=true;}
    if(!thrown)fail("positional","at(size()) did not report out of range");
  }
  uint64_t state_hash(int s){
    uint64_t h=0x1234+s;
    for(int i=0;i<N;++i){
      for(int u:sl[s].ord[i]){const V3& v=vof(u);h=mix(h,(uint64_t)(unsigned)v.id*1000003u+(unsigned)v.a*1009u+(unsigned)v.b);}
      h=mix(h,0xabc+i);
    }
    return h;
  }
  void verify(int s){
    std::vector<int> act;
    each([&](auto ic){constexpr int I=decltype(ic)::value;verify_ix<I>(s,act);});
    check_internals(s);
    for(int i=0;i<N;++i){hfree[s][i]=false;amb[s][i].clear();}
    sl[s].inserted=false;
    count("full-state-checks");
    seen(state_hash(s));
  }
  void verify_live(const char* where){
    /* every live element is in a container or owned by a node handle */
    long want=(long)(msize(0)+msize(1)+pool.size());
    if(vstats().live!=want)fail("element-count","%s: %ld element objects are alive, containers and handles account for %ld",where,vstats().live,want);
  }
  void verify_all(){verify(0);verify(1);verify_pool();}
  void verify_pool(){
    for(auto& pp:pool.v){PoolNode& p=*pp;
      if(p.nh.empty()||!p.nh)fail("node-handle","a handle that owns a node reports empty");
      const Val& v=p.nh.value();
      v.check("node value");
      if(boost::addressof(v)!=p.addr)fail("node-handle","element moved while owned by a handle");
      if(v.id!=p.v.id||v.a!=p.v.a||v.b!=p.v.b||v.tag!=p.tag)fail("node-handle","value changed while owned by a handle");
      if(AllocOps<A>::id(p.nh.get_allocator())!=p.alloc)fail("node-handle","handle allocator is not that of the source container");
    }
  }

  /* ---------------------------------------------------- guarded execution */
  struct Policy{
    GLevel level=G_STRONG;
    int slot=0;
    bool allow_new=false,allow_missing=false,conserve=false,reorder_any=false;
    int reorder_ix=-1; /* index whose order may change */
    int both=0;        /* the other container may change as well */
  };
  static long total_elements(World& w){return (long)(w.sl[0].c->size()+w.sl[1].c->size()+w.pool.size());}
  bool arm(){
    if(!fault_next)return false;
    Faults& f=faults();
    f.armed=true;f.persistent=fault_persistent;f.mask=fault_mask;f.countdown=fault_k;
    f.passed=0;f.fired=0;f.fired_kind=0;f.back_called=f.back_before_fire=false;f.fired_after_back=0;
    fault_next=false;
    return true;
  }
  void disarm(){Faults& f=faults();f.armed=false;fault_points=f.passed;}
  template<class F>bool guarded(const char* desc,Policy p,F f){
    guard_desc=desc;
    long live0=vstats().live,n0=total_elements(*this);
    bool armed=arm();
    bool thrown=false;
    try{f();}
    catch(const Boom&){thrown=true;}
    catch(const std::bad_alloc&){disarm();harness_error("bad_alloc");}
    if(armed)disarm();
    if(faults().fired&&armed&&!thrown)
      fail("exception-swallowed","%s: a %s exception did not reach the caller",desc,fk_name(faults().fired_kind));
    if(armed&&!faults().fired)count(("completed-unfaulted:"+std::string(desc)).c_str());
    if(!thrown){
      long live1=vstats().live,n1=total_elements(*this);
      if(live1-live0!=n1-n0)fail("element-count","%s: live element objects changed by %ld, containers by %ld",desc,live1-live0,n1-n0);
      return true;
    }
    fault_happened=true;
    count((std::string("fault:")+fk_name(faults().fired_kind)).c_str());
    count((std::string("faulted:")+desc).c_str());
    long live1=vstats().live,n1=total_elements(*this);
    if(live1-live0!=n1-n0)fail("exception-leak","%s: after a %s exception live element objects changed by %ld but containers by %ld",desc,fk_name(faults().fired_kind),live1-live0,n1-n0);
    if(p.level==G_NOTHROW)fail("nothrow","%s is documented not to throw but let an exception from %s escape",desc,fk_name(faults().fired_kind));
    if(p.level==G_STRONG){free_hash(0);free_hash(1);verify_all();}
    else{
      basic_check(p);
    }
    return false;
  }
  /* after a failed basic-guarantee operation: learn the actual contents and
     check they are a coherent, permitted outcome */
  void basic_check(const Policy& p){
    std::unordered_map<int,El> old=els;
    std::array<std::vector<int>,N> oldord[2]={sl[0].ord,sl[1].ord};
    std::unordered_set<int> now[2];
    for(int s=0;s<2;++s){
      std::size_t steps=0;
      auto& x=ix<0>(s);
      std::vector<const Val*> fresh;
      for(auto it=x.begin();it!=x.end();++it){
        if(++steps>x.size())fail("exception-coherence","traversal after an exception does not end");
        const Val* q=boost::addressof(*it);q->check("after exception");
        auto f=byaddr.find(q);
        if(f==byaddr.end())fresh.push_back(q);
        else now[s].insert(f->second);
      }
      if(steps!=x.size())fail("exception-coherence","size() disagrees with traversal after an exception");
      bool affected=(s==p.slot)||p.both;
      for(const Val* q:fresh){
        if(!affected||!p.allow_new)fail("exception-contents","%s: an unexpected new element appeared after an exception",guard_desc.c_str());
        /* element data only: iterators are taken once contents are known */
        El e;e.uid=next_uid++;e.slot=s;e.v=V3{q->id,q->a,q->b};e.tag=q->tag;e.addr=q;
        byaddr[q]=e.uid;int u=e.uid;els.emplace(u,e);
        now[s].insert(u);
      }
    }
    std::vector<int> gone;
    for(auto& kv:old){
      int u=kv.first;
      bool in0=now[0].count(u)!=0,in1=now[1].count(u)!=0;
      if(in0&&in1)fail("exception-contents","an element is in two containers");
      if(!in0&&!in1){
        bool affected=(kv.second.slot==p.slot)||p.both;
        if(!affected||!p.allow_missing||p.conserve)fail("exception-contents","%s: an element vanished after an exception",guard_desc.c_str());
        gone.push_back(u);
      }
      else{
        int ns=in0?0:1;
        if(ns!=kv.second.slot){
          if(!p.both)fail("exception-contents","%s: an element changed container",guard_desc.c_str());
          els.find(u)->second.slot=ns;
        }
      }
    }
    for(int u:gone)forget(u);
    for(int s=0;s<2;++s){
      for(int u:now[s]){
        El& e=els.find(u)->second;
        bool kept=old.count(u)&&old.find(u)->second.slot==s;
        if(!kept)fill_its(s,e);
      }
      bool affected=(s==p.slot)||p.both;
      for(int i=0;i<N;++i){
        /* order model: survivors keep their relative order unless this index is being rearranged */
        std::vector<int> o,am;
        for(int u:oldord[s][i])if(now[s].count(u)&&old.find(u)->second.slot==s)o.push_back(u);
        for(int u:now[s])if(!old.count(u)||old.find(u)->second.slot!=s){
          if(spec(i).kind==ORD||spec(i).kind==RNK){
            sl[s].ord[i]=o;o.insert(o.begin()+ub(s,i,vof(u)),u);
          }
          else o.push_back(u);
          am.push_back(u);
        }
        sl[s].ord[i]=o;
        hfree[s][i]=true;
        amb[s][i]=am;
        if(affected&&(i==p.reorder_ix||p.reorder_any)&&spec(i).kind!=HSH){amb[s][i]=o;}
      }
    }
    verify_all();
  }

  static std::string v3s(const V3& v){char b[64];snprintf(b,sizeof b,"(%d,%d,%d)",v.id,v.a,v.b);return b;}
  template<int I>It<I> hint_it(int s,int& hu){
    hu=-1;
    if(msize(s)==0||r.chance(1,5))return ix<I>(s).end();
    hu=rnd_uid(s);
    return std::get<I>(els.find(hu)->second.its);
  }

  /* ---------------------------------------------------------- insertion */
  /* record outcome of a single-element insertion */
  template<int I>void note_insert(int s,const It<I>& it,int okflag,const V3& v,int tag,bool hinted,int hu,int listpos){
    std::vector<int> who;
    bool b=blocked(s,v,-1,&who);
    if(b){
      if(okflag==1)fail("unique","insertion of %s reported success although a unique index already holds an equivalent element",v3s(v).c_str());
      if(sl[s].c->size()!=msize(s))fail("insert-banned","rejected insertion changed the size");
      if(it==ix<I>(s).end())fail("insert-result","rejected insertion did not report the element in the way");
      auto f=byaddr.find(boost::addressof(*it));
      if(f==byaddr.end()||std::find(who.begin(),who.end(),f->second)==who.end())
        fail("insert-result","iterator returned by a rejected insertion does not point to an element that bans it");
      free_hash(s); /* a rehash may have taken place all the same */
      count("insert-rejected");
      return;
    }
    if(okflag==0)fail("insert-result","insertion of %s rejected although no unique index holds an equivalent element",v3s(v).c_str());
    if(sl[s].c->size()!=msize(s)+1)fail("size","successful insertion did not grow the container by one");
    const Val* p=boost::addressof(*it);
    if(p->id!=v.id||p->a!=v.a||p->b!=v.b)fail("value","inserted element is (%d,%d,%d), requested %s",p->id,p->a,p->b,v3s(v).c_str());
    if(tag&&p->tag!=tag)fail("value","inserted element is not the one supplied");
    int u=add_el(s,p);
    if(!(std::get<I>(els.find(u)->second.its)==it))fail("insert-result","returned iterator is not the iterator to the inserted element");
    place_default(s,u);
    if(listpos>=0)move_in(s,I,u,listpos);
    if(hinted){
      for(int i=0;i<N;++i){
        if(spec(i).kind!=ORD&&spec(i).kind!=RNK)continue;
        auto& o=sl[s].ord[i];
        if(i==I){
          o.erase(std::find(o.begin(),o.end(),u));
          int l=lb(s,i,v),h=ub(s,i,v);
          int p0=hu<0?(int)o.size():pos_of(s,i,hu);
          int w=p0<l?l:p0>h?h:p0;
          o.insert(o.begin()+w,u);
        }
        else if(!spec(i).unique)amb[s][i].push_back(u);
      }
    }
    count("insert-accepted");
  }
  Policy strong(int s){Policy p;p.slot=s;return p;}

  /* the argument may be an element of the container itself */
  template<int I>void insert_alias(int s){
    auto& x=ix<I>(s);
    const Val& val=*els.find(rnd_uid(s))->second.addr;
    V3 v{val.id,val.a,val.b};int tag=val.tag;
    std::pair<It<I>,bool> res;
    int n=(int)msize(s),where=r.below(3),pos=where==0?0:where==1?n:r.below(n+1),hu=-1;
    bool hinted=keyed<I>&&r.chance(1,3);
    lg("#%d s%d ix%d insert an element's own value %s hinted=%d pos=%d",opno,s,I,v3s(v).c_str(),(int)hinted,pos);
    bool ok;
    if constexpr(keyed<I>){
      It<I> h=hint_it<I>(s,hu);
      ok=guarded("insert(const&)",strong(s),[&]{if(hinted)res.first=x.insert(h,val);else res=x.insert(val);});
      pos=-1;
    }
    else{
      It<I> pit=itpos<I>(s,pos);
      ok=guarded("insert(const&)",strong(s),[&]{
        if(where==0)res=x.push_front(val);else if(where==1)res=x.push_back(val);else res=x.insert(pit,val);});
    }
    if(!ok)return;
    if(!blocked(s,v,-1)){
      if(res.first->tag!=tag)fail("value","inserted element is not the one supplied");
      const_cast<Val&>(*res.first).tag=++tagctr();
    }
    note_insert<I>(s,res.first,hinted?-1:(int)res.second,v,0,hinted,hu,pos);
  }
  template<int I>void op_insert(int s){
    if(msize(s)&&r.chance(1,8)){insert_alias<I>(s);return;}
    V3 v=rv();
    int how=r.below(4);
    auto& x=ix<I>(s);
    if constexpr(keyed<I>){
      std::pair<It<I>,bool> res;int tag=0;bool ok;
      lg("#%d s%d ix%d insert%s %s",opno,s,I,how==0?"(const&)":how==1?"(&&)":how==2?"/emplace":"(const& again)",v3s(v).c_str());
      if(how==2)ok=guarded("emplace",strong(s),[&]{res=x.emplace(v.id,v.a,v.b);});
      else{
        Val val(v.id,v.a,v.b);tag=val.tag;
        if(how==1)ok=guarded("insert(&&)",strong(s),[&]{res=x.insert(std::move(val));});
        else ok=guarded("insert(const&)",strong(s),[&]{res=x.insert(val);});
      }
      if(!ok)return;
      note_insert<I>(s,res.first,res.second,v,tag,false,-1,-1);
    }
    else{
      std::pair<It<I>,bool> res;int tag=0;bool ok=false;
      int where=r.below(3); /* front back middle */
      int n=(int)msize(s);
      int pos=where==0?0:where==1?n:r.below(n+1);
      It<I> pit=pos<n?std::get<I>(els.find(sl[s].ord[I][pos])->second.its):x.end();
      lg("#%d s%d ix%d list-insert how=%d where=%d pos=%d %s",opno,s,I,how,where,pos,v3s(v).c_str());
      if(how==2){
        ok=guarded("emplace",strong(s),[&]{
          if(where==0)res=x.emplace_front(v.id,v.a,v.b);
          else if(where==1)res=x.emplace_back(v.id,v.a,v.b);
          else res=x.emplace(pit,v.id,v.a,v.b);});
      }
      else{
        Val val(v.id,v.a,v.b);tag=val.tag;
        if(how==1)ok=guarded("insert(&&)",strong(s),[&]{
          if(where==0)res=x.push_front(std::move(val));
          else if(where==1)res=x.push_back(std::move(val));
          else res=x.insert(pit,std::move(val));});
        else ok=guarded("insert(const&)",strong(s),[&]{
          if(where==0)res=x.push_front(val);
          else if(where==1)res=x.push_back(val);
          else res=x.insert(pit,val);});
      }
      if(!ok)return;
      note_insert<I>(s,res.first,res.second,v,tag,false,-1,pos);
    }
  }
  /* plain insertion of a given value through a randomly chosen index, and
     erasure of a random element, for building and draining large containers */
  void insert_value(int s,const V3& v){
    dispatch(r.below(N),[&](auto ic){constexpr int I=decltype(ic)::value;
      auto& x=ix<I>(s);
      Val val(v.id,v.a,v.b);int tag=val.tag;
      if constexpr(keyed<I>){auto res=x.insert(val);note_insert<I>(s,res.first,res.second,v,tag,false,-1,-1);}
      else{
        int n=(int)msize(s),pos=r.chance(1,2)?n:r.below(n+1);
        auto res=x.insert(itpos<I>(s,pos),val);
        note_insert<I>(s,res.first,res.second,v,tag,false,-1,pos);
      }
    });
  }
  void erase_some(int s){
    dispatch(r.below(N),[&](auto ic){constexpr int I=decltype(ic)::value;
      auto& x=ix<I>(s);
      int n=(int)msize(s),k=r.chance(1,4)?0:r.below(n),m=std::min(n,k+1+(r.chance(1,5)?r.below(20):0));
      std::vector<int> kill(sl[s].ord[I].begin()+k,sl[s].ord[I].begin()+m);
      auto res=m==k+1?x.erase(itpos<I>(s,k)):x.erase(itpos<I>(s,k),itpos<I>(s,m));
      for(int u:kill)drop(s,u);
      if(!(res==itpos<I>(s,k)))fail("erase-result","erase did not return the following element");
    });
  }
  template<int I>void op_hint(int s){
    if constexpr(keyed<I>){
      V3 v=rv();
      int hu;It<I> h=hint_it<I>(s,hu);
      if(hu>=0&&r.chance(1,2)){V3 hv=vof(hu);v.a=hv.a;v.b=hv.b;if(r.chance(1,4))v.id=hv.id;}
      int how=r.below(3),tag=0;
      auto& x=ix<I>(s);
      It<I> res;bool ok;
      lg("#%d s%d ix%d hinted insert how=%d hint=%d %s",opno,s,I,how,hu,v3s(v).c_str());
      if(how==2)ok=guarded("emplace_hint",strong(s),[&]{res=x.emplace_hint(h,v.id,v.a,v.b);});
      else{
        Val val(v.id,v.a,v.b);tag=val.tag;
        if(how==1)ok=guarded("insert(hint,&&)",strong(s),[&]{res=x.insert(h,std::move(val));});
        else ok=guarded("insert(hint,const&)",strong(s),[&]{res=x.insert(h,val);});
      }
      if(!ok)return;
      note_insert<I>(s,res,-1,v,tag,true,hu,-1);
    }
    else op_insert<I>(s);
  }

  /* ------------------------------------------------------------- bulk */
  struct RangeIt{ /* an input iterator whose use may be interrupted */
    typedef std::input_iterator_tag iterator_category;
    typedef Val value_type;typedef std::ptrdiff_t difference_type;
    typedef const Val* pointer;typedef const Val& reference;
    const std::vector<Val>* v;std::size_t k;
    reference operator*()const{fp(F_RANGE);return (*v)[k];}
    pointer operator->()const{return &(*v)[k];}
    RangeIt& operator++(){fp(F_RANGE);++k;return *this;}
    RangeIt operator++(int){RangeIt t=*this;++*this;return t;}
    bool operator==(const RangeIt& x)const{return k==x.k;}
    bool operator!=(const RangeIt& x)const{return k!=x.k;}
  };
  template<class Ref>struct RawIt{ /* likewise, over objects elements are to be constructed from */
    typedef std::input_iterator_tag iterator_category;
    typedef Raw value_type;typedef std::ptrdiff_t difference_type;
    typedef const Raw* pointer;typedef Ref reference;
    std::vector<Raw>* v;std::size_t k;
    reference operator*()const{fp(F_RANGE);return (*v)[k];}
    RawIt& operator++(){fp(F_RANGE);++k;return *this;}
    RawIt operator++(int){RawIt t=*this;++*this;return t;}
    bool operator==(const RawIt& x)const{return k==x.k;}
    bool operator!=(const RawIt& x)const{return k!=x.k;}
  };
  static std::vector<Raw> raws(const std::vector<Val>& v){
    std::vector<Raw> w;for(auto& x:v)w.push_back(Raw{x.id,x.a,x.b,x.tag});
    return w;
  }
  /* apply to the model the sequential insertion of vals (at listpos in list index I, or default) */
  template<int I>void expect_seq_insert(int s,const std::vector<V3>& vals,const std::vector<int>& tags,int listpos){
    /* which are accepted */
    std::vector<std::pair<V3,int>> acc;
    std::vector<V3> cur;for(int u:sl[s].ord[0])cur.push_back(vof(u));
    for(std::size_t k=0;k<vals.size();++k){
      bool b=false;
      for(int i=0;i<N&&!b;++i)if(spec(i).unique&&spec(i).kind!=SEQ&&spec(i).kind!=RND)
        for(auto& w:cur)if(meq(i,w,vals[k])){b=true;break;}
      if(!b){acc.push_back({vals[k],tags[k]});cur.push_back(vals[k]);}
      count(b?"bulk-rejected":"bulk-accepted");
    }
    if(sl[s].c->size()!=cur.size())fail("bulk-insert","range insertion left %zu elements, model says %zu",(std::size_t)sl[s].c->size(),cur.size());
    /* find the new elements, by identity stamp, in the order supplied */
    std::vector<const Val*> fresh;
    for(auto it=ix<0>(s).begin();it!=ix<0>(s).end();++it)if(!byaddr.count(boost::addressof(*it)))fresh.push_back(boost::addressof(*it));
    if(fresh.size()!=acc.size())fail("bulk-insert","unexpected number of new elements");
    std::vector<bool> used(fresh.size(),false);
    if(!acc.empty()&&acc[0].second<0){ /* copies of one value: stamps are equal; use physical order in index I */
      std::vector<const Val*> o2;
      for(auto it=ix<I>(s).begin();it!=ix<I>(s).end();++it)if(!byaddr.count(boost::addressof(*it)))o2.push_back(boost::addressof(*it));
      fresh=o2;
    }
    int lp=listpos;
    for(auto& w:acc){
      const Val* p=nullptr;
      for(std::size_t k=0;k<fresh.size();++k)if(!used[k]&&(w.second<0||fresh[k]->tag==w.second)){p=fresh[k];used[k]=true;break;}
      if(!p)fail("bulk-insert","an accepted element of the range is not in the container");
      if(p->id!=w.first.id||p->a!=w.first.a||p->b!=w.first.b)fail("value","range element stored with a different value");
      int u=add_el(s,p);
      place_default(s,u);
      if(lp>=0){move_in(s,I,u,lp);++lp;}
      /* place among equivalent elements: not specified for range insertion */
      for(int i=0;i<N;++i)if(spec(i).kind==ORD||spec(i).kind==RNK||(w.second<0&&i!=I&&spec(i).kind!=HSH))amb[s][i].push_back(u);
    }
    if(!vals.empty())free_hash(s);
  }
  template<int I>void op_bulk(int s){
    auto& x=ix<I>(s);
    int n=r.below(7);
    std::vector<Val> vals;vals.reserve(8);
    std::vector<V3> vs;std::vector<int> tags;
    for(int k=0;k<n;++k){V3 v=rv();vals.emplace_back(v.id,v.a,v.b);vs.push_back(v);tags.push_back(vals.back().tag);}
    Policy p;p.level=G_BASIC;p.slot=s;p.allow_new=true;
    int how=r.below(keyed<I>?3:7);
    int pos=-1;It<I> pit=x.end();
    if constexpr(listed<I>){
      int m=(int)msize(s);pos=r.below(m+1);
      if(pos<m)pit=std::get<I>(els.find(sl[s].ord[I][pos])->second.its);
      p.reorder_ix=-1;
    }
    lg("#%d s%d ix%d bulk how=%d n=%d pos=%d",opno,s,I,how,n,pos);
    if(how==0){
      std::vector<Raw> rw=raws(vals);
      int elem=r.below(4);
      auto go=[&](auto f,auto l){if constexpr(keyed<I>)x.insert(f,l);else x.insert(pit,f,l);};
      if(!guarded("insert(range)",p,[&]{
        if(elem<2)go(RangeIt{&vals,0},RangeIt{&vals,(std::size_t)n});
        else if(elem==2)go(RawIt<Raw&>{&rw,0},RawIt<Raw&>{&rw,(std::size_t)n});
        else go(RawIt<const Raw&>{&rw,0},RawIt<const Raw&>{&rw,(std::size_t)n});}))return;
      expect_seq_insert<I>(s,vs,tags,pos);
    }
    else if(how==1){
      if(!guarded("insert(range)",p,[&]{
        if constexpr(keyed<I>)x.insert(vals.begin(),vals.end());else x.insert(pit,vals.begin(),vals.end());}))return;
      expect_seq_insert<I>(s,vs,tags,pos);
    }
    else if(how==2){ /* initializer list; list elements are copies with the same stamps */
      if(n<2)return;
      std::vector<V3> v2(vs.begin(),vs.begin()+2);std::vector<int> t2(tags.begin(),tags.begin()+2);
      {
        std::initializer_list<Val> il={vals[0],vals[1]};
        if(!guarded("insert(list)",p,[&]{
          if constexpr(keyed<I>)x.insert(il);else x.insert(pit,il);}))return;
      }
      expect_seq_insert<I>(s,v2,t2,pos);
    }
    else if constexpr(listed<I>){
      if(how==3){ /* n copies */
        V3 v=rv();if(msize(s)&&r.chance(1,3))v=vof(rnd_uid(s));
        Val own(v.id,v.a,v.b);const Val* vp=&own;
        if(msize(s)&&r.chance(1,3)){const El& e=els.find(rnd_uid(s))->second;vp=e.addr;v=e.v;}
        const Val& val=*vp;
        int m=r.below(4);
        if(!guarded("insert(n,x)",p,[&]{x.insert(pit,(typename Ix<I>::size_type)m,val);}))return;
        std::vector<V3> v2(m,v);std::vector<int> t2(m,-1);
        expect_seq_insert<I>(s,v2,t2,pos);
      }
      else if(how==4||how==5){ /* resize */
        int m=(int)msize(s);
        int nn=r.chance(1,2)?m+r.below(4):r.below(m+1);
        V3 v=how==4?rv():V3{0,0,0};
        Policy q=p;q.allow_missing=true;q.reorder_any=false;
        bool ok;
        if(how==4){Val own(v.id,v.a,v.b);const Val* vp=&own;
          if(m&&nn>m&&r.chance(1,2)){const El& e=els.find(rnd_uid(s))->second;vp=e.addr;v=e.v;}
          const Val& val=*vp;
          ok=guarded("resize(n,x)",q,[&]{x.resize((typename Ix<I>::size_type)nn,val);});}
        else ok=guarded("resize(n)",q,[&]{x.resize((typename Ix<I>::size_type)nn);});
        if(!ok)return;
        if(nn<=m){
          std::vector<int> kill(sl[s].ord[I].begin()+nn,sl[s].ord[I].end());
          for(int u:kill)drop(s,u);
          if(x.size()!=(std::size_t)nn)fail("resize","shrinking resize(%d) left %zu",nn,(std::size_t)x.size());
        }
        else{
          std::vector<V3> v2(nn-m,v);std::vector<int> t2(nn-m,-1);
          expect_seq_insert<I>(s,v2,t2,m);
        }
      }
      else{ /* assign */
        Policy q=p;q.allow_missing=true;
        int hw=r.below(5);
        std::vector<Raw> rw=raws(vals);
        bool ok;V3 v=rv();int m=r.below(4);
        if(hw==4)vs.resize(std::min(n,2)),tags.resize(std::min(n,2));
        if(hw==0)ok=guarded("assign(range)",q,[&]{RangeIt f{&vals,0},l{&vals,(std::size_t)n};x.assign(f,l);});
        else if(hw==1){Val val(v.id,v.a,v.b);ok=guarded("assign(n,x)",q,[&]{x.assign((typename Ix<I>::size_type)m,val);});}
        else if(hw==2)ok=guarded("assign(range)",q,[&]{x.assign(vals.begin(),vals.end());});
        else if(hw==3)ok=guarded("assign(range)",q,[&]{x.assign(RawIt<const Raw&>{&rw,0},RawIt<const Raw&>{&rw,(std::size_t)n});});
        else{
          auto put=[&](std::initializer_list<Val> il){ok=guarded("assign(list)",q,[&]{x.assign(il);});};
          if(n==0)put({});else if(n==1)put({vals[0]});else put({vals[0],vals[1]});
        }
        if(!ok)return;
        std::vector<int> kill=sl[s].ord[I];
        /* addresses of old elements may be reused: forget them first */
        for(int u:kill)drop(s,u);
        if(hw==1){std::vector<V3> v2(m,v);std::vector<int> t2(m,-1);expect_seq_insert<I>(s,v2,t2,0);}
        else expect_seq_insert<I>(s,vs,tags,0);
      }
    }
  }

  /* ------------------------------------------------------------ erasure */
  template<int I>It<I> itpos(int s,int k){ /* iterator at model position k of index I */
    auto& o=sl[s].ord[I];
    return k<(int)o.size()?std::get<I>(els.find(o[k])->second.its):ix<I>(s).end();
  }
  template<int I>void op_erase(int s){
    auto& x=ix<I>(s);
    int n=(int)msize(s);
    int how=r.below(12);
    Policy nt;nt.slot=s;nt.level=G_NOTHROW;
    if(n==0)return;
    if(how<5){
      int k=r.below(n);
      It<I> it=itpos<I>(s,k);
      lg("#%d s%d ix%d erase(pos %d)",opno,s,I,k);
      It<I> res;
      if(listed<I>&&how<2){
        if constexpr(listed<I>){
          bool front=how==0;
          k=front?0:n-1;
          if(!guarded("pop",nt,[&]{if(front)x.pop_front();else x.pop_back();}))return;
          drop(s,sl[s].ord[I][k]);
        }
        return;
      }
      if(!guarded("erase(pos)",nt,[&]{res=x.erase(it);}))return;
      drop(s,sl[s].ord[I][k]);
      if(!(res==itpos<I>(s,k)))fail("erase-result","erase(position) did not return the following element");
    }
    else if(how<8){
      int k=r.below(n+1),m=k+r.below(std::min(n-k,4)+1);
      It<I> f=itpos<I>(s,k),l=itpos<I>(s,m),res;
      lg("#%d s%d ix%d erase(range %d,%d)",opno,s,I,k,m);
      if(!guarded("erase(range)",nt,[&]{res=x.erase(f,l);}))return;
      std::vector<int> kill(sl[s].ord[I].begin()+k,sl[s].ord[I].begin()+m);
      for(int u:kill)drop(s,u);
      if(!(res==itpos<I>(s,k)))fail("erase-result","erase(range) did not return last");
    }
    else if(how<11){
      if constexpr(keyed<I>){
        V3 v=r.chance(3,4)?vof(rnd_uid(s)):rv();
        lg("#%d s%d ix%d erase(key of %s)",opno,s,I,v3s(v).c_str());
        Val probe(v.id,v.a,v.b);
        const typename Ix<I>::key_type keyv=x.key_extractor()(probe);
        const typename Ix<I>::key_type* keyp=&keyv;
        /* the key may belong to one of the elements to be erased */
        if constexpr(std::is_lvalue_reference<decltype(x.key_extractor()(probe))>::value){
          if(r.chance(1,2))for(int u:sl[s].ord[I])if(meq(I,vof(u),v)){keyp=&x.key_extractor()(*els.find(u)->second.addr);if(r.chance(1,2))break;}
        }
        const typename Ix<I>::key_type& key=*keyp;
        std::vector<int> kill;
        for(int u:sl[s].ord[I])if(meq(I,vof(u),v))kill.push_back(u);
        std::size_t cnt=0;
        Policy p;p.slot=s;p.level=G_BASIC;p.allow_missing=true;
        if(!guarded("erase(key)",p,[&]{cnt=x.erase(key);}))return;
        for(int u:kill)drop(s,u);
        if(cnt!=kill.size())fail("erase-result","erase(key) returned %zu, model says %zu",cnt,kill.size());
      }
    }
    else if(r.chance(1,2)){
      lg("#%d s%d ix%d clear",opno,s,I);
      if(!guarded("clear",nt,[&]{x.clear();}))return;
      std::vector<int> kill=sl[s].ord[I];
      for(int u:kill)drop(s,u);
    }
  }

  /* ------------------------------------------------- replace and modify */
  /* element u now has value v; key-equal indices keep its position exactly */
  void note_changed(int s,int u,const V3& v,int tag){
    V3 old=vof(u);
    El& e=els.find(u)->second;
    e.v=v;e.tag=tag;
    for(int i=0;i<N;++i){
      Kind k=spec(i).kind;
      if(k==SEQ||k==RND)continue;
      if(meq(i,old,v))continue;
      if(k==HSH){hfree[s][i]=true;continue;}
      auto& o=sl[s].ord[i];
      o.erase(std::find(o.begin(),o.end(),u));
      o.insert(o.begin()+ub(s,i,v),u);
      amb[s][i].push_back(u);
    }
  }
  V3 near(int s,const V3& o){
    V3 v=o;
    int m=r.below(6);
    if(m==0)v=rv();
    else if(m==1)v.id=r.below(dom_id);
    else if(m==2)v.a=r.below(dom_a);
    else if(m==3)v.b=r.below(dom_b);
    else if(m==4){if(msize(s))v=vof(rnd_uid(s));}
    else v.id=dom_id+r.below(50);
    return v;
  }
  template<int I>void op_replace(int s){
    if(!msize(s))return;
    auto& x=ix<I>(s);
    int u=rnd_uid(s);
    V3 v=near(s,vof(u));
    It<I> it=std::get<I>(els.find(u)->second.its);
    int how=r.below(3);
    bool b=blocked(s,v,u),res=false,ok;int tag;
    lg("#%d s%d ix%d replace(%d %s by %s) how=%d",opno,s,I,u,v3s(vof(u)).c_str(),v3s(v).c_str(),how);
    if(how==2){ /* aliasing: replace by (a reference to) another or the same element */
      int w=rnd_uid(s);v=vof(w);b=blocked(s,v,u);tag=els.find(w)->second.tag;
      const Val& rvw=*els.find(w)->second.addr;
      ok=guarded("replace(const&)",strong(s),[&]{res=x.replace(it,rvw);});
    }
    else{
      Val val(v.id,v.a,v.b);tag=val.tag;
      if(how==0)ok=guarded("replace(const&)",strong(s),[&]{res=x.replace(it,val);});
      else ok=guarded("replace(&&)",strong(s),[&]{res=x.replace(it,std::move(val));});
    }
    if(!ok)return;
    if(res!=!b)fail("replace-result","replace returned %d, model says %d",(int)res,(int)!b);
    if(res){note_changed(s,u,v,tag);count("replace-accepted");}
    else count("replace-rejected");
  }
  struct Mod{
    const Val* addr;V3 from,to;long* calls;
    void operator()(Val& x)const{
      ++*calls;
      if(&x!=addr)fail("modify-target","modifier was given a different element");
      x.check("modifier");
      if(x.id!=from.id||x.a!=from.a||x.b!=from.b)fail("modify-target","modifier was given an unexpected value");
      fp(F_MOD);
      x.id=to.id;x.a=to.a;x.b=to.b;
    }
  };
  struct Back{
    const Val* addr;V3 from,to;long* calls;
    void operator()(Val& x)const{
      ++*calls;
      faults().back_called=true;
      if(&x!=addr)fail("modify-target","rollback was given a different element");
      if(x.id!=from.id||x.a!=from.a||x.b!=from.b)fail("modify-target","rollback was given an unexpected value");
      fp(F_BACK);
      x.id=to.id;x.a=to.a;x.b=to.b;
    }
  };
  struct KMod{int from,to;long* calls;
    void operator()(int& k)const{++*calls;if(k!=from)fail("modify-target","modify_key was given an unexpected key");fp(F_MOD);k=to;}};
  struct KBack{int from,to;long* calls;
    void operator()(int& k)const{++*calls;faults().back_called=true;if(k!=from)fail("modify-target","modify_key rollback was given an unexpected key");fp(F_BACK);k=to;}};

  static int& keyref(KeyId k,V3& v){return k==K_ID?v.id:k==K_A?v.a:v.b;}

  /* post-condition of a failed modify: only that element is gone */
  void expect_gone(int s,int u){drop(s,u);}

  template<int I>void op_modify(int s){
    if(!msize(s))return;
    auto& x=ix<I>(s);
    int u=rnd_uid(s);
    V3 from=vof(u),to=near(s,from);
    const Val* addr=els.find(u)->second.addr;
    int tag=els.find(u)->second.tag;
    It<I> it=std::get<I>(els.find(u)->second.its);
    bool usekey=false,withback=r.chance(1,2),badback=withback&&r.chance(1,5);
    if constexpr(keyed<I>)if constexpr(KTI<I>::rw)usekey=r.chance(1,3);
    if(usekey){V3 t=from;keyref(spec(I).key,t)=keyref(spec(I).key,to);to=t;}
    V3 backto=from;
    if(badback){backto=near(s,from);
      if(usekey){V3 t=from;keyref(spec(I).key,t)=keyref(spec(I).key,backto);backto=t;}}
    bool b=blocked(s,to,u),res=false;
    long mc=0,bc=0;
    lg("#%d s%d ix%d modify%s(%d %s -> %s)%s%s",opno,s,I,usekey?"_key":"",u,v3s(from).c_str(),v3s(to).c_str(),
      withback?" rollback ":"",withback?v3s(backto).c_str():"");
    Mod m{addr,from,to,&mc};Back bk{addr,to,backto,&bc};
    bool thrown=false;
    std::string desc=std::string(usekey?"modify_key":"modify")+(withback?"+rollback":"");
    guard_desc=desc;
    long live0=vstats().live;std::size_t n0=sl[s].c->size();
    bool armed=arm();
    try{
      if(usekey){
        if constexpr(keyed<I>)if constexpr(KTI<I>::rw){
          V3 t=to,f=from,bb=backto;
          KMod km{keyref(spec(I).key,f),keyref(spec(I).key,t),&mc};
          KBack kb{keyref(spec(I).key,t),keyref(spec(I).key,bb),&bc};
          if(withback)res=x.modify_key(it,km,kb);
          else res=x.modify_key(it,km);
        }
      }
      else if(withback)res=x.modify(it,m,bk);
      else res=x.modify(it,m);
    }catch(const Boom&){thrown=true;}
    if(armed)disarm();
    Faults& fl=faults();
    if(armed&&fl.fired&&!thrown)fail("exception-swallowed","%s: a %s exception did not reach the caller",desc.c_str(),fk_name(fl.fired_kind));
    if(armed&&!fl.fired)count(("completed-unfaulted:"+desc).c_str());
    long dl=vstats().live-live0,dn=(long)sl[s].c->size()-(long)n0;
    if(dl!=dn)fail(thrown?"exception-leak":"element-count","%s: live element objects changed by %ld, container by %ld",desc.c_str(),dl,dn);
    if(thrown){
      fault_happened=true;
      count((std::string("fault:")+fk_name(fl.fired_kind)).c_str());
      count(("faulted:"+desc).c_str());
      bool kept=false;
      bool in_user_mod=fl.fired_kind==F_MOD||fl.fired_kind==F_BACK;
      /* strong guarantee: a throwing user operation other than mod/back, before back(e) was
         invoked, and back restored the element properly and nothing threw after it */
      if(withback&&!in_user_mod&&!fl.back_before_fire){
        if(bc==0){
          /* the exception came before any modification could have taken place only for modify_key's
             key access; then the modifier was not called either */
          if(mc!=0&&!(usekey&&(fl.fired_kind==F_KEY||fl.fired>1)))fail("modify-rollback","%s: a %s exception after modification did not invoke the rollback functor",desc.c_str(),fk_name(fl.fired_kind));
          /* thrown while applying the user modification: same as mod throwing -> erased */
          kept=false;
        }
        else if(bc>1)fail("modify-rollback","rollback functor invoked %ld times",bc);
        else if(fl.fired_after_back==0&&!badback)kept=true;
        else if(fl.fired_after_back==0&&badback){
          /* outcome depends on whether the value left by back is consistent */
          kept=settle_badback(s,u,backto);
          /* being consistent with the original position is up to the implementation in hashed indices */
          if(kept&&dn==-1)for(int i=0;i<N;++i)if(spec(i).kind==HSH&&!meq(i,from,backto))kept=false;
        }
      }
      if(kept){
        if(dn!=0)fail("modify-strong","%s: a %s exception before the rollback functor ran; it restored the element, yet the element was not kept",desc.c_str(),fk_name(fl.fired_kind));
        if(badback){set_value_same_pos(s,u,backto,tag);}
      }
      else{
        if(dn!=-1)fail("modify-basic","%s: after a %s exception the modified element must be erased",desc.c_str(),fk_name(fl.fired_kind));
        expect_gone(s,u);
      }
      free_hash(s);
      verify_all();
      return;
    }
    if(mc!=1)fail("modify-target","modifier invoked %ld times",mc);
    if(res!=!b)fail("modify-result","modify returned %d, model says %d",(int)res,(int)!b);
    if(bc!=((b&&withback)?1:0))fail("modify-rollback","rollback functor invoked %ld times (collision=%d)",bc,(int)b);
    if(!b){note_changed(s,u,to,tag);count("modify-accepted");return;}
    if(!withback){count("modify-collision-erased");expect_gone(s,u);return;}
    if(!badback){count("modify-rolled-back");if(dn!=0)fail("modify-rollback","collision with proper rollback must keep the element");return;}
    bool kept=settle_badback(s,u,backto);
    if(kept!=(dn==0)){
      /* "consistent with its original position" is implementation-defined for hashed indices only */
      bool hashonly=false;
      if(dn==-1)for(int i=0;i<N;++i)if(spec(i).kind==HSH&&!meq(i,from,backto))hashonly=true;
      if(dn==0||!hashonly)fail("modify-rollback","rollback left value %s: element %s, model says it should be %s",v3s(backto).c_str(),dn==0?"kept":"erased",kept?"kept":"erased");
      kept=false;
    }
    if(kept){
      for(int i=0;i<N;++i)if(spec(i).kind==HSH&&!meq(i,from,backto))hfree[s][i]=true;
      set_value_same_pos(s,u,backto,tag);count("modify-bad-rollback-kept");
    }
    else{expect_gone(s,u);count("modify-bad-rollback-erased");}
  }
  void set_value_same_pos(int,int u,const V3& v,int tag){El& e=els.find(u)->second;e.v=v;e.tag=tag;}
  /* would value v be consistent at u's present positions? */
  bool settle_badback(int s,int u,const V3& v){
    if(blocked(s,v,u))return false;
    for(int i=0;i<N;++i){
      if(spec(i).kind!=ORD&&spec(i).kind!=RNK)continue;
      int k=pos_of(s,i,u);auto& o=sl[s].ord[i];
      if(k>0){const V3& p=vof(o[k-1]);if(spec(i).unique?!mless(s,i,p,v):mless(s,i,v,p))return false;}
      if(k+1<(int)o.size()){const V3& q=vof(o[k+1]);if(spec(i).unique?!mless(s,i,v,q):mless(s,i,q,v))return false;}
    }
    return true;
  }

  /* -------------------------------------------------------- node handles */
  /* swap, move construction and assignment of handles, empty ones included */
  void handle_ops(int k){
    static constexpr bool pma=std::allocator_traits<A>::propagate_on_container_move_assignment::value;
    int j=r.below((int)pool.size()),form=r.below(9);
    PoolNode& p=pool[k];
    lg("#%d handle operation %d on %d %d",opno,form,k,j);
    long made=vstats().constructed,gone=vstats().destroyed;
    auto is=[&](Node& nh,bool full,const char* w){
      if(nh.empty()==full||(bool)nh!=full)fail("node-handle","%s: a handle is %s",w,full?"empty":"not empty");
      if(full){
        if(boost::addressof(nh.value())!=p.addr)fail("node-handle","%s: the handle holds another element",w);
        if(AllocOps<A>::id(nh.get_allocator())!=p.alloc)fail("node-handle","%s: get_allocator() is not the allocator of the element",w);
      }
    };
    count("handle-operations");
    switch(form){
    case 0:case 1:{ /* two elements */
      PoolNode& q=pool[j];
      if(j==k)break;
      if(p.alloc==q.alloc||AllocPocs<A>::value){
        if(form==0)p.nh.swap(q.nh);else{using std::swap;swap(p.nh,q.nh);}
        std::swap(p.v,q.v);std::swap(p.tag,q.tag);std::swap(p.addr,q.addr);std::swap(p.alloc,q.alloc);
        is(p.nh,true,"swap");
      }
      break;}
    case 2:{Node t(std::move(p.nh));is(t,true,"move construction");is(p.nh,false,"move construction");p.nh=std::move(t);is(p.nh,true,"assignment to an empty handle");is(t,false,"assignment to an empty handle");break;}
    case 3:{Node t;t.swap(p.nh);is(t,true,"swap of an empty handle");is(p.nh,false,"swap of an empty handle");t.swap(p.nh);is(p.nh,true,"swap with an empty handle");is(t,false,"swap with an empty handle");break;}
    case 4:{Node t,u;t.swap(u);t=std::move(u);is(t,false,"empty handles");is(u,false,"empty handles");using std::swap;swap(p.nh,t);swap(p.nh,t);is(p.nh,true,"free swap");break;}
    case 5:{Node& self=p.nh;p.nh=std::move(self);is(p.nh,true,"self-assignment");break;}
    case 6:{p.nh.swap(p.nh);is(p.nh,true,"self-swap");break;}
    case 7:{ /* an empty handle is assigned: the element goes */
      Node t;p.nh=std::move(t);is(p.nh,false,"assignment of an empty handle");
      if(vstats().destroyed!=gone+1)fail("node-handle","assigning an empty handle destroyed %ld elements",vstats().destroyed-gone);
      gone=vstats().destroyed;
      pool.remove(k);
      break;}
    case 8:{ /* the element held is replaced by another */
      if(j==k)break;
      PoolNode& q=pool[j];
      if(p.alloc!=q.alloc&&!pma)break;
      q.nh=std::move(p.nh);
      is(p.nh,false,"assignment");is(q.nh,true,"assignment");
      if(vstats().destroyed!=gone+1)fail("node-handle","assigning a handle destroyed %ld elements",vstats().destroyed-gone);
      gone=vstats().destroyed;
      q.v=p.v;q.tag=p.tag;q.addr=p.addr;q.alloc=p.alloc;
      pool.remove(k);
      break;}
    }
    if(vstats().constructed!=made||vstats().destroyed!=gone)fail("node-handle","a handle operation constructed or destroyed elements");
  }
  template<int I>void op_node(int s){
    auto& x=ix<I>(s);
    int n=(int)msize(s);
    if((pool.empty()||r.chance(1,2))&&n&&pool.size()<6){ /* extract */
      bool bykey=false;
      if constexpr(keyed<I>)bykey=r.chance(1,3);
      int k=r.below(n);
      if(!bykey){
        int u=sl[s].ord[I][k];El e=els.find(u)->second;
        lg("#%d s%d ix%d extract(pos %d)",opno,s,I,k);
        Policy nt;nt.slot=s;nt.level=G_NOTHROW;
        if(!guarded("extract(pos)",nt,[&]{pool.push_back(PoolNode{x.extract(std::get<I>(e.its)),e.v,e.tag,e.addr,sl[s].alloc});}))return;
        drop(s,u);
      }
      else if constexpr(keyed<I>){
        V3 v=r.chance(3,4)?vof(rnd_uid(s)):rv();
        Val probe(v.id,v.a,v.b);
        const typename Ix<I>::key_type key=x.key_extractor()(probe);
        lg("#%d s%d ix%d extract(key of %s)",opno,s,I,v3s(v).c_str());
        Node nh;bool ok=guarded("extract(key)",strong(s),[&]{
          Node t=x.extract(key);
          if(!t.empty())pool.push_back(PoolNode{std::move(t),V3{},0,nullptr,sl[s].alloc});
          else pool.push_back(PoolNode{Node(),V3{},0,nullptr,-1});
          if(pool.back().alloc<0)pool.pop_back();
          });
        if(!ok)return;
        std::vector<int> m;
        for(int u:sl[s].ord[I])if(meq(I,vof(u),v))m.push_back(u);
        bool got=!pool.empty()&&pool.back().addr==nullptr;
        if(got!=!m.empty())fail("extract-result","extract(key) returned %s handle",got?"a non-empty":"an empty");
        if(got){
          const Val* a=boost::addressof(pool.back().nh.value());
          auto f=byaddr.find(a);
          if(f==byaddr.end())fail("extract-result","extract(key) returned an unknown element");
          if(f->second!=m[0])fail("extract-result","extract(key) did not take the first element with that key");
          int u=f->second;
          PoolNode& p=pool.back();p.v=vof(u);p.tag=els.find(u)->second.tag;p.addr=a;
          drop(s,u);
        }
      }
      count("node-extracted");
      return;
    }
    if(pool.empty()){
      /* insertion of an empty handle */
      lg("#%d s%d ix%d insert(empty handle)",opno,s,I);
      if constexpr(keyed<I>){
        auto res=x.insert(Node());
        if(!(res.position==x.end())||res.inserted||!res.node.empty())fail("node-handle","inserting an empty handle");
        if(!(x.insert(x.end(),Node())==x.end()))fail("node-handle","hinted insertion of an empty handle");
      }
      else{
        auto res=x.insert(x.end(),Node());
        if(!(res.position==x.end())||res.inserted||!res.node.empty())fail("node-handle","inserting an empty handle");
      }
      return;
    }
    int k=r.below((int)pool.size());
    int what=r.below(8);
    if(what==0){ /* destroy the handle */
      lg("#%d drop handle %d",opno,k);
      pool.remove(k);count("node-dropped");return;
    }
    if(what==1){handle_ops(k);return;}
    if(what==2){ /* change the value while extracted */
      V3 v=rv();Val& w=pool[k].nh.value();w.id=v.id;w.a=v.a;w.b=v.b;pool[k].v=v;
      lg("#%d change value in handle %d to %s",opno,k,v3s(v).c_str());
      return;
    }
    if(pool[k].alloc!=sl[s].alloc)return; /* precondition: equal allocators */
    V3 v=pool[k].v;const Val* addr=pool[k].addr;
    std::vector<int> who;bool b=blocked(s,v,-1,&who);
    bool hinted=false;
    if constexpr(keyed<I>)hinted=r.chance(1,3);
    long copies=vstats().copied+vstats().moved+vstats().constructed;
    if(hinted){
      if constexpr(keyed<I>){
        int hu;It<I> h=hint_it<I>(s,hu);It<I> res;
        lg("#%d s%d ix%d insert(hint %d, handle %d %s)",opno,s,I,hu,k,v3s(v).c_str());
        if(!guarded("insert(hint,node)",strong(s),[&]{
          res=x.insert(h,std::move(pool[k].nh));
          if(pool[k].nh.empty()){pool.remove(k);k=-1;}
          })){return;}
        if(b){
          if(k<0||pool[k].nh.empty())fail("node-handle","rejected hinted insertion took the node");
          auto f=byaddr.find(boost::addressof(*res));
          if(f==byaddr.end()||std::find(who.begin(),who.end(),f->second)==who.end())fail("insert-result","rejected node insertion does not point to a banning element");
        }
        else{
          if(k>=0)fail("node-handle","handle not empty after successful insertion");
          if(boost::addressof(*res)!=addr)fail("node-handle","element relocated by node insertion");
          note_insert<I>(s,res,-1,v,0,true,hu,-1);
        }
      }
    }
    else{
      int n2=(int)msize(s),pos=-1;It<I> pit=x.end();
      if(listed<I>){pos=r.below(n2+1);pit=itpos<I>(s,pos);}
      lg("#%d s%d ix%d insert(handle %d %s) pos=%d",opno,s,I,k,v3s(v).c_str(),pos);
      It<I> respos;bool inserted=false,nodeback=false;
      if(!guarded("insert(node)",strong(s),[&]{
        auto fin=[&](auto&& res){
          respos=res.position;inserted=res.inserted;nodeback=!res.node.empty();
          if(!pool[k].nh.empty())fail("node-handle","source handle not empty after insertion attempt");
          if(nodeback)pool[k].nh=std::move(res.node);
          else pool.remove(k);
        };
        if constexpr(keyed<I>)fin(x.insert(std::move(pool[k].nh)));
        else fin(x.insert(pit,std::move(pool[k].nh)));
        }))return;
      if(inserted==b)fail("insert-result","node insertion inserted=%d, model says %d",(int)inserted,(int)!b);
      if(nodeback!=b)fail("node-handle","rejected node insertion must hand the node back (and only then)");
      if(b){
        auto f=byaddr.find(boost::addressof(*respos));
        if(f==byaddr.end()||std::find(who.begin(),who.end(),f->second)==who.end())fail("insert-result","rejected node insertion does not point to a banning element");
        if(boost::addressof(pool[k].nh.value())!=addr)fail("node-handle","returned handle owns a different element");
      }
      else{
        if(boost::addressof(*respos)!=addr)fail("node-handle","element relocated by node insertion");
        note_insert<I>(s,respos,1,v,0,false,-1,pos);
      }
    }
    if(vstats().copied+vstats().moved+vstats().constructed!=copies)fail("node-handle","node insertion constructed element objects");
    free_hash(s);
    count(b?"node-insert-rejected":"node-inserted");
  }

  /* ------------------------------------------------------------ transfer */
  /* move uid from container t to container s (same node), default placement */
  void transfer_el(int t,int s,int u){
    unplace(t,u);
    El& e=els.find(u)->second;e.slot=s;
    if(!std_iter_transfer)fill_its(s,e);
    place_default(s,u);
  }
  bool std_iter_transfer=true;
  template<int I,int J>void do_xfer(int s){
    int t=1-s;
    bool eqal=sl[s].alloc==sl[t].alloc;
    if(keyed<I>&&!eqal)return;
    bool samec=r.chance(1,6);
    int form=r.below(3); /* whole, single, range */
    auto& x=ix<I>(s);
    int src=samec?s:t;
    auto& y=ix<J>(src);
    int m=(int)msize(src);
    long cons0=vstats().constructed;
    int pos=-1;
    if(listed<I>)pos=(samec&&form==0)?(int)msize(s):r.below((int)msize(s)+1);
    It<I> pit=listed<I>?itpos<I>(s,pos):x.end();
    int f=0,l=m;
    if(form==1){if(!m)return;f=r.below(m);l=f+1;}
    if(form==2){f=r.below(m+1);l=f+r.below(m-f+1);}
    std::vector<int> cand(sl[src].ord[J].begin()+f,sl[src].ord[J].begin()+l);
    if(samec&&listed<I>&&form==2&&pos<(int)msize(s)){
      int pu=sl[s].ord[I][pos];
      if(std::find(cand.begin(),cand.end(),pu)!=cand.end())return; /* precondition */
    }
    It<J> fi=itpos<J>(src,f),li=itpos<J>(src,l);
    lg("#%d s%d ix%d <- %s ix%d %s form=%d pos=%d [%d,%d) of %d",opno,s,I,samec?"same":"other",J,listed<I>?"splice":"merge",form,pos,f,l,m);
    Policy p;p.slot=s;p.both=1;p.conserve=true;p.reorder_ix=-1;
    if(samec)p.level=G_NOTHROW;
    else if(form==1)p.level=G_STRONG;
    else p.level=G_BASIC;
    if(!eqal){p.allow_new=true;p.allow_missing=true;p.conserve=false;}
    std::pair<It<I>,bool> res;
    bool rval=r.chance(1,3);
    std::size_t tot0=sl[0].c->size()+sl[1].c->size();
    bool ok=guarded(listed<I>?"splice":"merge",p,[&]{
      if constexpr(listed<I>){
        if(rval){
          if(form==0)x.splice(pit,std::move(y));
          else if(form==1)res=x.splice(pit,std::move(y),fi);
          else x.splice(pit,std::move(y),fi,li);
        }
        else if(form==0)x.splice(pit,y);
        else if(form==1)res=x.splice(pit,y,fi);
        else x.splice(pit,y,fi,li);
      }
      else{
        if(rval){
          if(form==0)x.merge(std::move(y));
          else if(form==1)res=x.merge(std::move(y),fi);
          else x.merge(std::move(y),fi,li);
        }
        else if(form==0)x.merge(y);
        else if(form==1)res=x.merge(y,fi);
        else x.merge(y,fi,li);
      }
    });
    if(sl[0].c->size()+sl[1].c->size()!=tot0)fail("conservation","splice/merge changed the total number of elements from %zu to %zu",tot0,(std::size_t)(sl[0].c->size()+sl[1].c->size()));
    if(!ok)return;
    if(samec){
      if(vstats().constructed!=cons0)fail("transfer","same-container operation constructed elements");
      if constexpr(listed<I>){
        if(form==0&&J==I&&true){/* splice of itself onto its end: order stays */
          if(boost::addressof(*sl[s].c)==boost::addressof(*sl[src].c)){
            /* elements repositioned, in order, before end(): the resulting order is J's order */
            auto& o=sl[s].ord[I];o=cand;
          }
        }
        else if(form==1&&pos<(int)msize(s)&&sl[s].ord[I][pos]==cand[0]){}
        else reposition(s,I,cand,pos);
      }
      if(form==1){
        if(!res.second)fail("transfer-result","same-container operation must report success");
        if(boost::addressof(*res.first)!=els.find(cand[0])->second.addr)fail("transfer-result","returned iterator does not point to the element");
      }
      return;
    }
    int at=pos;
    for(int u:cand){
      V3 v=vof(u);
      std::vector<int> who;
      bool b=blocked(s,v,-1,&who);
      if(form==1){
        if(res.second==b)fail("transfer-result","transfer reported %d, model says %d",(int)res.second,(int)!b);
        if(b){
          auto q=byaddr.find(boost::addressof(*res.first));
          if(q==byaddr.end()||std::find(who.begin(),who.end(),q->second)==who.end())fail("transfer-result","rejected transfer does not point to a banning element");
        }
      }
      count(b?"transfer-rejected":"transferred");
      if(b)continue;
      if(eqal){
        transfer_el(t,s,u);
        if(form==1&&boost::addressof(*res.first)!=els.find(u)->second.addr)fail("transfer-result","returned iterator does not point to the transferred element");
        if(at>=0){move_in(s,I,u,at);++at;}
      }
      else{ /* destructive splice: a copy with the same stamp appears, the original goes */
        int tag=els.find(u)->second.tag;
        drop(t,u);
        const Val* q=nullptr;
        for(auto i0=ix<0>(s).begin();i0!=ix<0>(s).end();++i0)
          if(i0->tag==tag&&!byaddr.count(boost::addressof(*i0))){q=boost::addressof(*i0);break;}
        if(!q)fail("transfer","destructive splice lost an element");
        int w=add_el(s,q);place_default(s,w);
        if(at>=0){move_in(s,I,w,at);++at;}
      }
    }
    free_hash(t);free_hash(s);
    if(eqal&&vstats().constructed!=cons0)fail("transfer","node transfer constructed element objects");
  }
  /* reposition the elements cand, in order, before position pos of list index i */
  void reposition(int s,int i,const std::vector<int>& cand,int pos){
    auto& o=sl[s].ord[i];
    int anchor=pos<(int)o.size()?o[pos]:-1;
    std::vector<int> w;
    for(int u:o)if(std::find(cand.begin(),cand.end(),u)==cand.end())w.push_back(u);
    auto it=anchor<0?w.end():std::find(w.begin(),w.end(),anchor);
    w.insert(it,cand.begin(),cand.end());
    o=w;
  }
  template<int I>void op_xfer(int s){
    if(r.chance(1,2))do_xfer<I,I>(s);
    else do_xfer<I,(I+1)%N>(s);
  }

  /* -------------------------------------------------------- list operations */
  struct VCmp{int m;bool operator()(const Val& x,const Val& y)const{
    fp(F_PRED);++tally().cmp;x.check("cmp");y.check("cmp");
    return m==0?x.b<y.b:m==1?x.a>y.a:x.id%3<y.id%3;}};
  static bool vcmp3(int m,const V3& x,const V3& y){return m==0?x.b<y.b:m==1?x.a>y.a:m==2?x.id%3<y.id%3:(x.b!=y.b?x.b<y.b:x.a<y.a);}
  struct VPred{int k;bool operator()(const Val& x)const{fp(F_PRED);x.check("pred");return (x.a+x.b)%4==k;}};
  struct VBin{int k;bool operator()(const Val& x,const Val& y)const{fp(F_PRED);x.check("bin");y.check("bin");return k==0?x.a==y.a:x.b%2==1;}};

  void model_sort(int s,int i,int m){
    auto& o=sl[s].ord[i];
    std::stable_sort(o.begin(),o.end(),[&](int p,int q){return vcmp3(m,vof(p),vof(q));});
  }
  template<int I>void op_list(int s){
    if constexpr(listed<I>){
      auto& x=ix<I>(s);
      auto& o=sl[s].ord[I];
      int how=r.below(9);
      Policy p;p.slot=s;p.level=G_BASIC;
      if(kd<I> ==RND)p.reorder_ix=I; /* an interrupted removal may have moved elements about */
      if(how==0){
        V3 v=msize(s)?vof(rnd_uid(s)):rv();
        Val own(v.id,v.a,v.b);const Val* vp=&own;
        if(msize(s)&&r.chance(1,2)){const El& e=els.find(rnd_uid(s))->second;vp=e.addr;v=e.v;}
        const Val& val=*vp;
        lg("#%d s%d ix%d remove %s",opno,s,I,v3s(v).c_str());
        p.allow_missing=true;
        if(!guarded("remove",p,[&]{x.remove(val);}))return;
        std::vector<int> kill;for(int u:o){const V3& w=vof(u);if(w.id==v.id&&w.a==v.a&&w.b==v.b)kill.push_back(u);}
        for(int u:kill)drop(s,u);
      }
      else if(how==1){
        int k=r.below(4);
        lg("#%d s%d ix%d remove_if %d",opno,s,I,k);
        p.allow_missing=true;
        if(!guarded("remove_if",p,[&]{x.remove_if(VPred{k});}))return;
        std::vector<int> kill;for(int u:o){const V3& w=vof(u);if((w.a+w.b)%4==k)kill.push_back(u);}
        for(int u:kill)drop(s,u);
      }
      else if(how==2||how==3){
        int k=how==2?-1:r.below(2);
        lg("#%d s%d ix%d unique %d",opno,s,I,k);
        p.allow_missing=true;
        if(!guarded("unique",p,[&]{if(k<0)x.unique();else x.unique(VBin{k});}))return;
        /* "eliminates all but the first from every consecutive group for which pred(*i,*(i-1)) holds";
           predicate applied to the last kept element */
        std::vector<int> kill;int last=-1;
        for(int u:o){
          bool rm=false;
          if(last>=0){
            const V3& w=vof(u);const V3& z=vof(last);
            rm=k<0?(w.id==z.id&&w.a==z.a&&w.b==z.b):k==0?w.a==z.a:w.b%2==1;
          }
          if(rm)kill.push_back(u);else last=u;
        }
        for(int u:kill)drop(s,u);
      }
      else if(how==4||how==5){
        int m=how==4?3:r.below(3);
        lg("#%d s%d ix%d sort %d",opno,s,I,m);
        p.reorder_ix=I;
        if(!guarded("sort",p,[&]{if(m==3)x.sort();else x.sort(VCmp{m});}))return;
        model_sort(s,I,m);
      }
      else if(how==6){
        lg("#%d s%d ix%d reverse",opno,s,I);
        p.level=G_NOTHROW;
        if(!guarded("reverse",p,[&]{x.reverse();}))return;
        std::reverse(o.begin(),o.end());
      }
      else{ /* merge of sorted sequences */
        int m=r.below(4),t=1-s;
        bool self=r.chance(1,8);
        auto& y=ix<I>(t);
        {bool fn=fault_next;fault_next=false;
          if(m==3){x.sort();y.sort();}else{x.sort(VCmp{m});y.sort(VCmp{m});}
          model_sort(s,I,m);model_sort(t,I,m);fault_next=fn;verify(0);verify(1);}
        lg("#%d s%d ix%d merge %d %s: %s + %s",opno,s,I,m,self?"self":"other",show(s,I).c_str(),show(t,I).c_str());
        if(self){
          Policy q;q.level=G_NOTHROW;q.slot=s;
          guarded("list-merge",q,[&]{if(m==3)x.merge(x);else x.merge(x,VCmp{m});});
          return;
        }
        bool eqal=sl[s].alloc==sl[t].alloc;
        p.both=1;p.conserve=eqal;p.reorder_ix=I;
        if(!eqal){p.allow_new=p.allow_missing=true;}
        std::size_t tot0=sl[0].c->size()+sl[1].c->size();
        long cons0=vstats().constructed;
        bool ok=guarded("list-merge",p,[&]{if(m==3)x.merge(y);else x.merge(y,VCmp{m});});
        if(sl[0].c->size()+sl[1].c->size()!=tot0)fail("conservation","merge changed the total number of elements");
        if(!ok)return;
        std::vector<int> mine=sl[s].ord[I],theirs=sl[t].ord[I],moved;
        for(int u:theirs){
          if(blocked(s,vof(u),-1)){count("transfer-rejected");continue;}
          count("transferred");
          if(eqal){transfer_el(t,s,u);moved.push_back(u);}
          else{
            int tag=els.find(u)->second.tag;
            drop(t,u);
            const Val* q=nullptr;
            for(auto i0=ix<0>(s).begin();i0!=ix<0>(s).end();++i0)
              if(i0->tag==tag&&!byaddr.count(boost::addressof(*i0))){q=boost::addressof(*i0);break;}
            if(!q)fail("transfer","merge lost an element");
            int w=add_el(s,q);place_default(s,w);moved.push_back(w);
          }
        }
        if(eqal&&vstats().constructed!=cons0)fail("transfer","merge between equal allocators constructed element objects");
        std::vector<int> w;
        std::merge(mine.begin(),mine.end(),moved.begin(),moved.end(),std::back_inserter(w),
          [&](int p2,int q2){return vcmp3(m,vof(p2),vof(q2));});
        sl[s].ord[I]=w;
        free_hash(s);free_hash(t);
        /* order of transfer fixes the order among equivalents elsewhere */
      }
    }
    else op_erase<I>(s);
  }
  template<int I>void op_rearr(int s){
    if constexpr(listed<I>){
      auto& x=ix<I>(s);
      auto& o=sl[s].ord[I];
      int n=(int)o.size(),how=r.below(3);
      if(!n)return;
      Policy p;p.slot=s;p.level=G_NOTHROW;
      if(how==0){
        int pos=r.below(n+1),k=r.below(n);
        It<I> pi=itpos<I>(s,pos),ki=itpos<I>(s,k);
        lg("#%d s%d ix%d relocate %d before %d of %d",opno,s,I,k,pos,n);
        if(!guarded("relocate",p,[&]{x.relocate(pi,ki);}))return;
        if(pos!=k)reposition(s,I,std::vector<int>(1,o[k]),pos);
      }
      else if(how==1){
        int f=r.below(n+1),l=f+r.below(n-f+1),pos=r.below(n+1);
        if(pos>=f&&pos<l)pos=l;
        It<I> pi=itpos<I>(s,pos),fi=itpos<I>(s,f),li=itpos<I>(s,l);
        lg("#%d s%d ix%d relocate [%d,%d) before %d of %d",opno,s,I,f,l,pos,n);
        if(!guarded("relocate(range)",p,[&]{x.relocate(pi,fi,li);}))return;
        reposition(s,I,std::vector<int>(o.begin()+f,o.begin()+l),pos);
      }
      else{
        p.level=G_BASIC;p.reorder_ix=I;
        if(r.chance(1,2)){ /* shuffled view of references */
          std::vector<int> perm=o;
          for(int k=n-1;k>0;--k)std::swap(perm[k],perm[r.below(k+1)]);
          std::vector<boost::reference_wrapper<const Val>> view;
          for(int u:perm)view.push_back(boost::cref(*els.find(u)->second.addr));
          lg("#%d s%d ix%d rearrange shuffled",opno,s,I);
          if(!guarded("rearrange",p,[&]{x.rearrange(view.begin());}))return;
          o=perm;
        }
        else if constexpr(N>1){
          constexpr int J=(I+1)%N;
          lg("#%d s%d ix%d rearrange as ix%d",opno,s,I,J);
          std::vector<int> w=sl[s].ord[J];
          if(!guarded("rearrange",p,[&]{x.rearrange(ix<J>(s).begin());}))return;
          o=w;
        }
      }
    }
    else op_modify<I>(s);
  }

  /* -------------------------------------------------------- hash/capacity policy */
  template<int I>void op_policy(int s){
    auto& x=ix<I>(s);
    if constexpr(kd<I> ==HSH){
      int how=r.below(4);
      std::size_t bc=x.bucket_count();
      if(!vf_std_alloc&&r.chance(1,12)){ /* more than can be had */
        static const std::size_t huge[]={~std::size_t(0),~std::size_t(0)-1,~std::size_t(0)/2+1,std::size_t(1)<<61,std::size_t(1)<<45};
        std::size_t n=huge[r.below(5)];bool rh=r.chance(1,2);
        if(rh||(double)n/(double)sl[s].mlf[I]>1e10){
          lg("#%d s%d ix%d %s(%zu)",opno,s,I,rh?"rehash":"reserve",n);
          bool thrown=false;
          try{if(rh)x.rehash(n);else x.reserve(n);}catch(const std::bad_alloc&){thrown=true;}catch(const std::length_error&){thrown=true;}
          if(!thrown)fail("rehash","%s(%zu) reported nothing, bucket_count() is %zu",rh?"rehash":"reserve",n,(std::size_t)x.bucket_count());
          if(x.bucket_count()!=bc)fail("rehash","bucket_count() changed though the request failed");
          count("huge-requests");
        }
      }
      if(how==0){
        std::size_t n=r.chance(1,3)?0:(std::size_t)r.below(400);
        lg("#%d s%d ix%d rehash(%zu)",opno,s,I,n);
        if(!guarded("rehash",strong(s),[&]{x.rehash(n);}))return;
        hfree[s][I]=true;
        if(x.bucket_count()<n)fail("rehash","bucket_count() %zu after rehash(%zu)",(std::size_t)x.bucket_count(),n);
        if((double)x.size()>(double)sl[s].mlf[I]*(double)x.bucket_count()*(1+1e-5))fail("rehash","load factor exceeds maximum after rehash");
        if(x.bucket_count()<bc&&x.bucket_count()<n)fail("rehash","bucket count shrunk below request");
      }
      else if(how==1){
        std::size_t n=(std::size_t)r.below(300);
        if(r.chance(1,3)&&sl[s].mlf[I]<100)n=(std::size_t)((double)(r.chance(1,2)?bc:(std::size_t)97)*(double)sl[s].mlf[I])+(std::size_t)r.below(4); /* around a threshold */
        lg("#%d s%d ix%d reserve(%zu)",opno,s,I,n);
        if(!guarded("reserve",strong(s),[&]{x.reserve(n);}))return;
        hfree[s][I]=true;
        double need=std::ceil((double)n/(double)sl[s].mlf[I]);
        if((double)x.bucket_count()<need*(1-1e-5))fail("rehash","reserve(%zu): bucket_count() %zu below %g",n,(std::size_t)x.bucket_count(),need);
      }
      else{
        static const float z[]={0.25f,0.5f,1.0f,2.0f,4.0f,0.1f,3.3f,7.0f,1e30f,3.4e38f};
        float f=z[r.below(10)];
        if(r.chance(1,3)){ /* such that some elements more fill a number of buckets just so */
          static const int p[]={53,97,193};
          int b=r.chance(1,2)?(int)bc:p[r.below(3)],m=1+(int)x.size()+(r.chance(1,2)?r.below(4):-1);
          if(m>0&&b<2000)f=(float)m/((float)b+0.15f*(float)r.below(7));
        }
        lg("#%d s%d ix%d max_load_factor(%g)",opno,s,I,(double)f);
        x.max_load_factor(f);sl[s].mlf[I]=f;
        hfree[s][I]=true;
      }
    }
    else if constexpr(kd<I> ==RND){
      std::size_t cap=x.capacity();
      if(!vf_std_alloc&&r.chance(1,10)){ /* more than can be had */
        static const std::size_t huge[]={~std::size_t(0),~std::size_t(0)-1,~std::size_t(0)/8,~std::size_t(0)/8+1,std::size_t(1)<<60,std::size_t(1)<<45};
        std::size_t n=huge[r.below(6)];
        lg("#%d s%d ix%d reserve(%zu)",opno,s,I,n);
        bool thrown=false;
        try{x.reserve(n);}catch(const std::bad_alloc&){thrown=true;}catch(const std::length_error&){thrown=true;}
        if(!thrown)fail("capacity","reserve(%zu) reported nothing, capacity() is %zu",n,(std::size_t)x.capacity());
        if(x.capacity()!=cap)fail("capacity","capacity() changed though the request failed");
        count("huge-requests");
      }
      if(r.chance(1,2)){
        std::size_t n=(std::size_t)r.below(100);
        lg("#%d s%d ix%d reserve(%zu)",opno,s,I,n);
        if(!guarded("reserve",strong(s),[&]{x.reserve(n);}))return;
        if(x.capacity()<n||x.capacity()<cap)fail("capacity","reserve(%zu): capacity() %zu (was %zu)",n,(std::size_t)x.capacity(),cap);
        if(cap>=n&&x.capacity()!=cap)fail("capacity","reserve below capacity changed it");
        int k=r.below(3);
        (void)k;
      }
      else{
        lg("#%d s%d ix%d shrink_to_fit",opno,s,I);
        if(!guarded("shrink_to_fit",strong(s),[&]{x.shrink_to_fit();}))return;
        if(x.capacity()!=x.size())fail("capacity","shrink_to_fit left capacity %zu for size %zu",(std::size_t)x.capacity(),(std::size_t)x.size());
      }
    }
    else op_insert<I>(s);
  }

  /* -------------------------------------------------------- lookup monitors */
  template<int I>void lookups_for(int s,const V3& probe){
    auto& x=cix<I>(s);
    auto& o=sl[s].ord[I];
    if constexpr(keyed<I>){
      typename KTI<I>::real key=KTI<I>::mk(mkey(spec(I).key,probe));
      std::vector<int> m;
      for(int u:o)if(meq(I,vof(u),probe))m.push_back(u);
      auto it=x.find(key);
      if(m.empty()){if(!(it==x.end()))fail("lookup","find() found a key that is absent");}
      else{
        if(it==x.end())fail("lookup","slot %d index %d: find() missed key of %s",s,I,v3s(probe).c_str());
        auto f=byaddr.find(boost::addressof(*it));
        if(f==byaddr.end()||std::find(m.begin(),m.end(),f->second)==m.end())fail("lookup","find() returned a non-equivalent element");
      }
      if(x.count(key)!=m.size())fail("lookup","slot %d index %d: count()=%zu, model says %zu",s,I,(std::size_t)x.count(key),m.size());
      if(x.contains(key)!=!m.empty())fail("lookup","contains()");
      auto er=x.equal_range(key);
      if(m.empty()){
        if(!(er.first==er.second))fail("lookup","equal_range() of an absent key is not empty");
        if constexpr(kd<I> ==HSH)if(!(er.first==x.end()))fail("lookup","equal_range() of an absent key is not (end,end)");
      }
      else{
        std::size_t k=0;auto i2=er.first;
        for(;i2!=er.second;++i2,++k){
          if(k>=m.size())fail("lookup","equal_range() too long");
          if(boost::addressof(*i2)!=els.find(m[k])->second.addr)fail("lookup","equal_range() element %zu is wrong",k);
        }
        if(k!=m.size())fail("lookup","slot %d index %d: equal_range() has %zu elements, model says %zu",s,I,k,m.size());
      }
      if constexpr(sorted_ix<I>){
        int l=lb(s,I,probe),h=ub(s,I,probe);
        if(!(x.lower_bound(key)==itpos<I>(s,l)))fail("lookup","slot %d index %d: lower_bound()",s,I);
        if(!(x.upper_bound(key)==itpos<I>(s,h)))fail("lookup","slot %d index %d: upper_bound()",s,I);
        if(!(er.first==itpos<I>(s,l))||!(er.second==itpos<I>(s,h)))fail("lookup","equal_range() is not (lower_bound,upper_bound)");
        if constexpr(kd<I> ==RNK){
          std::size_t fr=x.find_rank(key);
          if(m.empty()?fr!=x.size():(fr<(std::size_t)l||fr>=(std::size_t)h))fail("rank","find_rank");
          if(fr!=x.rank(x.find(key)))fail("rank","find_rank(x) is not rank(find(x))");
          if(x.lower_bound_rank(key)!=(std::size_t)l||x.upper_bound_rank(key)!=(std::size_t)h)fail("rank","slot %d index %d: bound ranks (%zu,%zu), model says (%d,%d)",s,I,(std::size_t)x.lower_bound_rank(key),(std::size_t)x.upper_bound_rank(key),l,h);
          auto rr=x.equal_range_rank(key);
          if(rr.first!=(std::size_t)l||rr.second!=(std::size_t)h)fail("rank","equal_range_rank");
        }
      }
      else{
        std::size_t b=0;if constexpr(KTI<I>::rw)b=x.bucket(key);
        if(b>=x.bucket_count())fail("buckets","bucket(key) out of range");
      }
      seen(mix(mix(I*7+1,m.size()),mix(o.size(),(uint64_t)mkey(spec(I).key,probe).first*131+mkey(spec(I).key,probe).second)));
      count("lookups");
    }
    else{
      if(!o.empty()){
        if(boost::addressof(x.front())!=els.find(o.front())->second.addr)fail("positional","front()");
        if(boost::addressof(x.back())!=els.find(o.back())->second.addr)fail("positional","back()");
      }
    }
  }
  template<int I>void range_checks(int s){
    if constexpr(sorted_ix<I>){
      if constexpr(KTI<I>::rw){
        auto& x=cix<I>(s);
        auto& o=sl[s].ord[I];
        int d=sl[s].dir[I];
        int lo=r.range(-1,std::max(dom_id,dom_a)),hi=r.range(-1,std::max(dom_id,dom_a));
        if(r.chance(2,3)&&(d>0?hi<lo:lo<hi))std::swap(lo,hi);
        bool ls=r.chance(1,2),hs=r.chance(1,2); /* strict */
        int form=r.below(4);
        auto L=[=](int k){return d>0?(ls?k>lo:k>=lo):(ls?k<lo:k<=lo);};
        auto H=[=](int k){return d>0?(hs?k<hi:k<=hi):(hs?k>hi:k>=hi);};
        std::pair<It<I>,It<I>> p;
        if(form==0)p=x.range(L,H);
        else if(form==1)p=x.range(mi::unbounded,H);
        else if(form==2)p=x.range(L,mi::unbounded);
        else p=x.range(mi::unbounded,mi::unbounded);
        int a=-1,b=-1,firstL=(int)o.size();
        for(int k=0;k<(int)o.size();++k){
          int key=mkey(spec(I).key,vof(o[k])).first;
          bool l=(form&1)?true:L(key),h=(form&2)?true:H(key);
          if(l&&firstL==(int)o.size())firstL=k;
          if(l&&h){if(a<0)a=k;b=k+1;}
        }
        if(a<0)a=b=firstL;
        if(!(p.first==itpos<I>(s,a))||!(p.second==itpos<I>(s,b)))fail("range","slot %d index %d: range(%d%s,%d%s) form %d dir %d does not delimit positions [%d,%d)",s,I,lo,ls?" strict":"",hi,hs?" strict":"",form,d,a,b);
        if constexpr(kd<I> ==RNK){
          std::pair<std::size_t,std::size_t> q;
          if(form==0)q=x.range_rank(L,H);
          else if(form==1)q=x.range_rank(mi::unbounded,H);
          else if(form==2)q=x.range_rank(L,mi::unbounded);
          else q=x.range_rank(mi::unbounded,mi::unbounded);
          if(q.first!=(std::size_t)a||q.second!=(std::size_t)b)fail("rank","range_rank gives [%zu,%zu), model says [%d,%d)",q.first,q.second,a,b);
        }
        count("ranges");
      }
    }
    if constexpr(kd<I> ==RNK){
      auto& x=cix<I>(s);auto& o=sl[s].ord[I];
      for(std::size_t k=0;k<o.size()+2;++k){
        if(!(x.nth(k)==itpos<I>(s,(int)std::min(k,o.size()))))fail("rank","slot %d index %d: nth(%zu)",s,I,k);
        if(k<o.size()&&x.rank(std::get<I>(els.find(o[k])->second.its))!=k)fail("rank","slot %d index %d: rank of element at %zu is %zu",s,I,k,(std::size_t)x.rank(std::get<I>(els.find(o[k])->second.its)));
        if(o.size()>200&&k>4&&k+4<o.size())k+=(std::size_t)r.below((int)o.size()/20);
      }
      if(x.rank(x.end())!=o.size())fail("rank","rank(end())!=size()");
      count("rank-sweeps");
    }
  }
  /* one lookup under fault injection: whatever it throws, nothing changes */
  template<int I>void faulted_look(int s){
    auto& x=cix<I>(s);
    V3 v=r.chance(1,2)&&msize(s)?vof(rnd_uid(s)):V3{r.range(-1,dom_id),r.range(-1,dom_a),r.range(-1,dom_b)};
    int what=r.below(9);
    std::size_t sink=0;
    lg("#%d s%d ix%d lookup %d of %s",opno,s,I,what,v3s(v).c_str());
    if constexpr(keyed<I>){
      typename KTI<I>::real key=KTI<I>::mk(mkey(spec(I).key,v));
      guarded("lookup",strong(s),[&]{
        switch(what){
          case 0:sink+=x.find(key)==x.end();break;
          case 1:sink+=x.count(key);break;
          case 2:sink+=x.contains(key);break;
          case 3:{auto e=x.equal_range(key);sink+=e.first==e.second;break;}
          default:
            if constexpr(sorted_ix<I>){
              if(what==4)sink+=x.lower_bound(key)==x.end();
              else if(what==5)sink+=x.upper_bound(key)==x.end();
              if constexpr(kd<I> ==RNK){
                if(what==6)sink+=x.find_rank(key);
                else if(what==7)sink+=x.equal_range_rank(key).second;
                else if(what==8)sink+=x.lower_bound_rank(key)+x.upper_bound_rank(key);
              }
            }
            else if constexpr(KTI<I>::rw)sink+=x.bucket(key);
        }
      });
    }
    else{
      /* comparison of whole containers element by element */
      auto& y=cix<I>(1-s);
      guarded("comparison",strong(s),[&]{
        switch(what%3){case 0:sink+=x==y;break;case 1:sink+=x<y;break;default:sink+=x>=y;}
      });
    }
    seen(mix(I*31+what,sink));
  }
  template<int I>void op_look(int s){
    if(fault_next){faulted_look<I>(s);return;}
    lg("#%d s%d ix%d lookups",opno,s,I);
    int k=8+r.below(8);
    for(int j=0;j<k;++j){
      V3 v=r.chance(1,2)&&msize(s)?vof(rnd_uid(s)):V3{r.range(-1,dom_id),r.range(-1,dom_a),r.range(-1,dom_b)};
      lookups_for<I>(s,v);
    }
    range_checks<I>(s);
    /* projections */
    C& c=*sl[s].c;
    const C& cc=c;
    int u=rnd_uid(s);
    constexpr int J=(I+1)%N;
    if(u>=0){
      const El& e=els.find(u)->second;
      if(!(mi::project<J>(c,std::get<I>(e.its))==std::get<J>(e.its)))fail("project","project between indices");
      if(!(cc.template project<J>(std::get<I>(e.its))==std::get<J>(e.its)))fail("project","const project");
      if(!(ix<I>(s).iterator_to(*e.addr)==std::get<I>(e.its)))fail("project","iterator_to");
    }
    if(!(c.template project<J>(ix<I>(s).end())==ix<J>(s).end()))fail("project","project of end()");
    if(!(cc.template project<J>(cix<I>(s).end())==cix<J>(s).end()))fail("project","const project of end()");
  }
  void all_lookups(int s){
    each([&](auto ic){constexpr int I=decltype(ic)::value;
      for(int j=0;j<3;++j){
        V3 v=r.chance(1,2)&&msize(s)?vof(rnd_uid(s)):V3{r.range(-1,dom_id),r.range(-1,dom_a),r.range(-1,dom_b)};
        lookups_for<I>(s,v);
      }
      range_checks<I>(s);
      object_checks<I>(s);
    });
  }
  /* the observers give objects that order or tell apart keys as the container does */
  template<int I>void object_checks(int s){
    if constexpr(sorted_ix<I>||kd<I> ==HSH){
      if(!msize(s))return;
      for(int j=0;j<3;++j){
        int u=rnd_uid(s),w=rnd_uid(s);const El& x=els.find(u)->second;const El& y=els.find(w)->second;
        auto ke=cix<I>(s).key_extractor();
        if constexpr(sorted_ix<I>){
          auto vc=cix<I>(s).value_comp();auto kc=cix<I>(s).key_comp();
          bool l=mless(s,I,x.v,y.v);
          if(vc(*x.addr,*y.addr)!=l)fail("observers","slot %d index %d: value_comp()",s,I);
          if(kc(ke(*x.addr),ke(*y.addr))!=l)fail("observers","slot %d index %d: key_comp()",s,I);
        }else{
          auto h=cix<I>(s).hash_function();auto q=cix<I>(s).key_eq();
          bool l=meq(I,x.v,y.v);
          if(q(ke(*x.addr),ke(*y.addr))!=l)fail("observers","slot %d index %d: key_eq()",s,I);
          if(l&&h(ke(*x.addr))!=h(ke(*y.addr)))fail("observers","slot %d index %d: hash_function() differs for equal keys",s,I);
        }
        count("observers");
      }
    }
  }

  /* -------------------------------------------------------- whole-container operations */
  struct Snap{std::array<std::vector<std::array<int,4>>,N> seq;};
  Snap snap(int s){
    Snap q;
    for(int i=0;i<N;++i)for(int u:sl[s].ord[i]){const El& e=els.find(u)->second;q.seq[i].push_back({e.v.id,e.v.a,e.v.b,e.tag});}
    return q;
  }
  template<class CC>void check_seq(CC& c,const Snap& q,const char* what){
    each([&](auto ic){constexpr int I=decltype(ic)::value;
      auto& x=c.template get<I>();
      if(x.size()!=q.seq[I].size())fail("copy","%s: index %d has %zu elements, expected %zu",what,I,(std::size_t)x.size(),q.seq[I].size());
      std::size_t k=0;
      for(auto it=x.begin();it!=x.end();++it,++k){
        if(k>=q.seq[I].size())fail("copy","%s: traversal too long",what);
        auto& w=q.seq[I][k];
        if(it->id!=w[0]||it->a!=w[1]||it->b!=w[2]||it->tag!=w[3])fail("copy","%s: order on index %d not preserved at %zu",what,I,k);
      }
    });
  }
  /* slot s holds brand-new elements whose per-index order is given by q */
  void adopt_fresh(int s,const Snap& q,const char* what){
    check_seq(*sl[s].c,q,what);
    for(int i=0;i<N;++i)sl[s].ord[i].clear();
    std::unordered_map<const Val*,int> fresh;
    for(auto it=ix<0>(s).begin();it!=ix<0>(s).end();++it){int u=add_el(s,boost::addressof(*it));fresh[boost::addressof(*it)]=u;}
    each([&](auto ic){constexpr int I=decltype(ic)::value;
      for(auto it=ix<I>(s).begin();it!=ix<I>(s).end();++it){
        auto f=fresh.find(boost::addressof(*it));
        if(f==fresh.end())fail("coherence","%s: index %d holds an element index 0 does not",what,I);
        sl[s].ord[I].push_back(f->second);
      }
    });
  }
  void forget_all(int s){
    std::vector<int> k=sl[s].ord[0];
    for(int u:k)forget(u);
    for(int i=0;i<N;++i)sl[s].ord[i].clear();
  }
  void give_all(int from,int to){ /* model: all elements of `from` now belong to `to` (emptied before) */
    for(int u:sl[from].ord[0])els.find(u)->second.slot=to;
    for(int i=0;i<N;++i){sl[to].ord[i]=sl[from].ord[i];sl[from].ord[i].clear();}
  }
  void copy_funcs(int from,int to){
    for(int i=0;i<N;++i){sl[to].dir[i]=sl[from].dir[i];sl[to].salt[i]=sl[from].salt[i];sl[to].ktag[i]=sl[from].ktag[i];sl[to].mlf[i]=sl[from].mlf[i];}
  }
  void refresh_state(int s){ /* moved-from containers: valid; bring to a known state */
    C& c=*sl[s].c;
    /* moved-from: unspecified contents, but must be usable */
    c.clear();
    each([&](auto ic){constexpr int I=decltype(ic)::value;
      if constexpr(sorted_ix<I>){sl[s].dir[I]=KTI<I>::dirof(ix<I>(s).key_comp());sl[s].ktag[I]=KTI<I>::tagof(ix<I>(s).key_extractor());}
      if constexpr(kd<I> ==HSH){sl[s].salt[I]=KTI<I>::saltof(ix<I>(s).hash_function());sl[s].ktag[I]=KTI<I>::tagof(ix<I>(s).key_extractor());sl[s].mlf[I]=ix<I>(s).max_load_factor();}
    });
    sl[s].alloc=AllocOps<A>::id(c.get_allocator());
    take_ends(s);
  }
  static constexpr bool pocca=std::allocator_traits<A>::propagate_on_container_copy_assignment::value;
  static constexpr bool pocma=std::allocator_traits<A>::propagate_on_container_move_assignment::value;
  static constexpr bool pocs=std::allocator_traits<A>::propagate_on_container_swap::value;

  void op_copy(int s){
    int t=1-s;
    C& c=*sl[s].c;
    int how=r.below(18);
    Policy p;p.slot=s;
    Snap q=snap(s);
    int soccc=AllocOps<A>::id(std::allocator_traits<A>::select_on_container_copy_construction(c.get_allocator()));
    switch(how){
      case 0:case 1:{ /* copy construction (with allocator) into the other slot */
        std::unique_ptr<C> n;
        int al=how==0?soccc:(multi_alloc?1+r.below(2):sl[s].alloc);
        lg("#%d s%d copy construct%s",opno,s,how?" with allocator":"");
        long live0=vstats().live;
        bool armed=arm(),thrown=false;
        try{
          if(how==0)n.reset(new C(static_cast<const C&>(c)));
          else n.reset(new C(static_cast<const C&>(c),AllocOps<A>::make(al)));
        }catch(const Boom&){thrown=true;}
        if(armed)disarm();
        if(armed&&faults().fired&&!thrown)fail("exception-swallowed","copy construction");
        if(thrown){
          fault_happened=true;count("faulted:copy-construction");
          if(vstats().live!=live0)fail("exception-leak","failed copy construction leaked %ld elements",vstats().live-live0);
          verify_all();return;
        }
        if(n->size()!=msize(s)||vstats().live!=live0+(long)msize(s))fail("copy","copy has wrong number of elements");
        check_seq(c,q,"copy source");
        forget_all(t);
        sl[t].c=std::move(n);sl[t].alloc=al;
        copy_funcs(s,t);take_ends(t);
        adopt_fresh(t,q,"copy construction");
        if(!(*sl[t].c==c)||(*sl[t].c!=c))if(same_hash_semantics())fail("copy","copy does not compare equal to its source");
        break;}
      case 2:case 3:{ /* move construction */
        int al=how==2?sl[s].alloc:(multi_alloc?1+r.below(2):sl[s].alloc);
        lg("#%d s%d move construct%s",opno,s,how==3?" with allocator":"");
        bool xfer=al==sl[s].alloc;
        long cons=vstats().constructed,cop=vstats().copied;
        std::unique_ptr<C> n;
        bool armed=arm(),thrown=false;long live0=vstats().live;
        try{
          if(how==2)n.reset(new C(std::move(c)));
          else n.reset(new C(std::move(c),AllocOps<A>::make(al)));
        }catch(const Boom&){thrown=true;}
        if(armed)disarm();
        if(armed&&faults().fired&&!thrown)fail("exception-swallowed","move construction");
        if(thrown){
          fault_happened=true;count("faulted:move-construction");
          if(vstats().live-live0!=(long)c.size()-(long)msize(s))fail("exception-leak","failed move construction leaked elements");
          after_failed_move(s);return;
        }
        long steady=vstats().constructed-cons;
        std::vector<int> mine=sl[s].ord[0];
        forget_all(t);
        sl[t].c=std::move(n);sl[t].alloc=al;
        copy_funcs(s,t);
        if(xfer){
          if(steady!=0)fail("move","move construction with equal allocators constructed %ld elements",steady);
          give_all(s,t);take_ends(t);
        }
        else{
          if(vstats().copied!=cop)fail("move","move construction copied elements instead of moving them");
          for(int u:mine)forget(u);
          for(int i=0;i<N;++i)sl[s].ord[i].clear();
          take_ends(t);adopt_fresh(t,q,"move construction");
        }
        refresh_state(s);
        break;}
      case 4:{ /* copy assignment */
        lg("#%d s%d copy-assigned to other",opno,s);
        Snap old=snap(t);
        Policy g;g.slot=t;g.level=G_STRONG;
        if(!guarded("copy-assignment",g,[&]{*sl[t].c=static_cast<const C&>(c);}))return;
        forget_all(t);
        copy_funcs(s,t);if(pocca)sl[t].alloc=sl[s].alloc;
        retake_ends(t);
        adopt_fresh(t,q,"copy assignment");
        break;}
      case 5:{ /* move assignment */
        lg("#%d s%d move-assigned to other",opno,s);
        bool xfer=pocma||sl[s].alloc==sl[t].alloc;
        long cons=vstats().constructed,cop=vstats().copied;
        Policy g;g.slot=t;g.level=G_STRONG;
        bool armed=fault_next;
        if(!xfer&&armed){
          /* element-wise move: x's elements may have been moved from */
          bool a=arm(),thrown=false;long live0=vstats().live,n0=total_elements(*this);
          try{*sl[t].c=std::move(c);}catch(const Boom&){thrown=true;}
          if(a)disarm();
          if(thrown){
            fault_happened=true;count("faulted:move-assignment");
            if(vstats().live-live0!=total_elements(*this)-n0)fail("exception-leak","failed move assignment leaked elements");
            free_hash(t);verify(t);
            after_failed_move(s);return;
          }
          if(faults().fired)fail("exception-swallowed","move assignment");
        }
        else if(!guarded("move-assignment",g,[&]{*sl[t].c=std::move(c);}))return;
        std::vector<int> mine=sl[s].ord[0];
        forget_all(t);
        copy_funcs(s,t);if(pocma)sl[t].alloc=sl[s].alloc;
        if(xfer){
          if(vstats().constructed!=cons)fail("move","move assignment by transfer constructed elements");
          give_all(s,t);retake_ends(t);
        }
        else{
          if(vstats().copied!=cop)fail("move","move assignment copied elements");
          for(int u:mine)forget(u);
          for(int i=0;i<N;++i)sl[s].ord[i].clear();
          retake_ends(t);adopt_fresh(t,q,"move assignment");
        }
        refresh_state(s);
        break;}
      case 6:{ /* self copy assignment */
        lg("#%d s%d self-assignment",opno,s);
        C& alias=*sl[s].c;
        Policy g;g.slot=s;
        if(!guarded("copy-assignment",g,[&]{c=static_cast<const C&>(alias);}))return;
        forget_all(s);retake_ends(s);adopt_fresh(s,q,"self-assignment");
        break;}
      case 7:case 8:case 9:{ /* swap: member, free, through an index */
        if(!pocs&&sl[s].alloc!=sl[t].alloc)return;
        lg("#%d swap how=%d",opno,how);
        long cons=vstats().constructed;
        Policy g;g.slot=s;g.level=G_NOTHROW;
        if(!guarded("swap",g,[&]{
          if(how==7)c.swap(*sl[t].c);
          else if(how==8){using std::swap;swap(c,*sl[t].c);}
          else{
            constexpr int J=N-1;
            if(opno&1)ix<J>(s).swap(ix<J>(t));
            else{using std::swap;swap(ix<J>(s),ix<J>(t));}
          }
          }))return;
        if(vstats().constructed!=cons)fail("swap","swap constructed elements");
        for(int i=0;i<N;++i){
          std::swap(sl[0].ord[i],sl[1].ord[i]);std::swap(sl[0].dir[i],sl[1].dir[i]);
          std::swap(sl[0].salt[i],sl[1].salt[i]);std::swap(sl[0].ktag[i],sl[1].ktag[i]);std::swap(sl[0].mlf[i],sl[1].mlf[i]);
        }
        std::swap(sl[0].ends,sl[1].ends);
        if(pocs)std::swap(sl[0].alloc,sl[1].alloc);
        for(int k=0;k<2;++k)for(int u:sl[k].ord[0])els.find(u)->second.slot=k;
        break;}
      case 10:{ /* initializer-list assignment */
        V3 a=rv(),b=rv(),d=rv();
        lg("#%d s%d assign list %s %s %s",opno,s,v3s(a).c_str(),v3s(b).c_str(),v3s(d).c_str());
        std::vector<int> tags;
        {
          std::initializer_list<Val> il={Val(a.id,a.a,a.b),Val(b.id,b.a,b.b),Val(d.id,d.a,d.b)};
          for(auto& v:il)tags.push_back(v.tag);
          Policy g;g.slot=s;g.level=G_STRONG;
          bool idx=r.chance(1,2);
          if(!guarded("list-assignment",g,[&]{if(idx)ix<N-1>(s)=il;else c=il;}))return;
        }
        forget_all(s);retake_ends(s);
        /* the maximum load factor is not part of what a list assignment is said to preserve */
        each([&](auto ic){constexpr int I=decltype(ic)::value;
          if constexpr(kd<I> ==HSH)sl[s].mlf[I]=ix<I>(s).max_load_factor();});
        expect_seq_insert<0>(s,{a,b,d},tags,-1);
        break;}
      case 11:case 15:case 16:{ /* construction from a range or a list */
        int kind=how==11?0:r.below(5); /* input iterators, raw objects, vector iterators, list, nothing */
        int argf=how==16?r.below(3):0; /* everything given, allocator left out, nothing given */
        lg("#%d s%d construction from %d, arguments %d",opno,s,kind,argf);
        int n=r.below(6);
        std::vector<Val> vals;vals.reserve(8);std::vector<V3> vs;std::vector<int> tags;
        for(int k=0;k<n;++k){V3 v=rv();if(k&&r.chance(1,4))v=vs[r.below(k)];vals.emplace_back(v.id,v.a,v.b);vs.push_back(v);tags.push_back(vals.back().tag);}
        if(kind==3){std::size_t z=(std::size_t)(n<3?n:3);if(z==2)z=1;vs.resize(z);tags.resize(z);}
        if(kind==4){vs.clear();tags.clear();}
        std::vector<Raw> rw=raws(vals);
        int al=sl[s].alloc;
        if(argf&&(!multi_alloc||!std::is_default_constructible<A>::value)&&AllocOps<A>::id(AllocOps<A>::make(1))!=0)argf=0;
        std::unique_ptr<C> cn;long live0=vstats().live;
        bool armed=false,thrown=false;
        {
          std::initializer_list<Val> l0={};
          std::vector<std::unique_ptr<Val> > hold;
          auto cons=[&](auto... range){
            if(argf==0)cn.reset(new C(range...,mkargs(sl[s]),AllocOps<A>::make(al)));
            else if constexpr(std::is_default_constructible<A>::value){
              if(argf==1)cn.reset(new C(range...,mkargs(sl[s])));
              else cn.reset(new C(range...));
            }
          };
          auto list=[&](std::initializer_list<Val> il){
            live0=vstats().live;armed=arm();
            try{cons(il);}catch(const Boom&){thrown=true;}
            if(armed)disarm();
            live0-=(long)il.size();
          };
          if(kind==3){
            if(n==0)list(l0);
            else if(n<3)list({vals[0]});
            else list({vals[0],vals[1],vals[2]});
          }
          else{
            armed=arm();
            try{
              if(kind==0)cons(RangeIt{&vals,0},RangeIt{&vals,(std::size_t)n});
              else if(kind==1)cons(RawIt<Raw&>{&rw,0},RawIt<Raw&>{&rw,(std::size_t)n});
              else if(kind==2)cons(vals.begin(),vals.end());
              else if(argf==0&&r.chance(1,2)){cn.reset(new C(AllocOps<A>::make(al)));argf=3;}
              else cons();
            }catch(const Boom&){thrown=true;}
            if(armed)disarm();
          }
        }
        if(armed&&faults().fired&&!thrown)fail("exception-swallowed","construction from a range");
        if(thrown){
          fault_happened=true;count("faulted:range-construction");
          if(vstats().live!=live0)fail("exception-leak","failed construction leaked %ld elements",vstats().live-live0);
          verify_all();return;}
        forget_all(s);sl[s].c=std::move(cn);
        for(int i=0;i<N;++i){
          sl[s].mlf[i]=1.0f;
          if(argf>=2){sl[s].dir[i]=1;sl[s].salt[i]=0;sl[s].ktag[i]=0;}
        }
        if(argf==1||argf==2)if constexpr(std::is_default_constructible<A>::value)sl[s].alloc=AllocOps<A>::id(A());
        take_ends(s);check_internals(s);
        expect_seq_insert<0>(s,vs,tags,-1);
        break;}
      case 12:{ /* index-level assignment */
        lg("#%d s%d index-level copy assignment to other",opno,s);
        constexpr int J=N-1;
        Policy g;g.slot=t;g.level=G_STRONG;
        if(!guarded("index-assignment",g,[&]{ix<J>(t)=cix<J>(s);}))return;
        forget_all(t);copy_funcs(s,t);if(pocca)sl[t].alloc=sl[s].alloc;
        retake_ends(t);adopt_fresh(t,q,"index assignment");
        break;}
      default:compare_all();
    }
  }
  /* after whole-container replacement, are old end iterators still those of the container? Not promised
     for assignment; re-take them */
  void retake_ends(int s){take_ends(s);}
  void after_failed_move(int s){
    /* elements of the source may have been moved from; it must still be destructible and clearable */
    std::vector<int> mine=sl[s].ord[0];
    for(int u:mine)forget(u);
    for(int i=0;i<N;++i)sl[s].ord[i].clear();
    refresh_state(s);
    free_hash(0);free_hash(1);
    verify_all();
  }
  bool same_hash_semantics(){return true;}
  void compare_all(){
    lg("#%d compare",opno);
    each([&](auto ic){constexpr int I=decltype(ic)::value;
      auto& x=cix<I>(0);auto& y=cix<I>(1);
      auto eq3=[](const V3& a,const V3& b){return a.id==b.id&&a.a==b.a&&a.b==b.b;};
      auto lt3=[](const V3& a,const V3& b){return a.b!=b.b?a.b<b.b:a.a<b.a;};
      auto& o0=sl[0].ord[I];auto& o1=sl[1].ord[I];
      if constexpr(kd<I> ==HSH){
        if(sl[0].salt[I]!=sl[1].salt[I])return;
        bool e=o0.size()==o1.size();
        if(e){
          std::vector<std::array<int,3>> p,q;
          for(int u:o0){V3 v=vof(u);p.push_back({v.id,v.a,v.b});}
          for(int u:o1){V3 v=vof(u);q.push_back({v.id,v.a,v.b});}
          std::sort(p.begin(),p.end());std::sort(q.begin(),q.end());e=p==q;
        }
        if((x==y)!=e||(x!=y)!=!e)fail("comparison","hashed index %d: == is %d, model says %d",I,(int)(x==y),(int)e);
        if(!(x==x))fail("comparison","reflexivity");
      }
      else{
        bool e=o0.size()==o1.size(),l=false;
        if(e)for(std::size_t k=0;k<o0.size();++k)if(!eq3(vof(o0[k]),vof(o1[k]))){e=false;break;}
        std::size_t k=0;
        for(;;++k){
          if(k==o1.size()){l=false;break;}
          if(k==o0.size()){l=true;break;}
          if(lt3(vof(o0[k]),vof(o1[k]))){l=true;break;}
          if(lt3(vof(o1[k]),vof(o0[k]))){l=false;break;}
        }
        bool g=false;
        for(k=0;;++k){
          if(k==o0.size()){g=false;break;}
          if(k==o1.size()){g=true;break;}
          if(lt3(vof(o1[k]),vof(o0[k]))){g=true;break;}
          if(lt3(vof(o0[k]),vof(o1[k]))){g=false;break;}
        }
        if((x==y)!=e||(x!=y)!=!e)fail("comparison","index %d: == is %d, model says %d",I,(int)(x==y),(int)e);
        if((x<y)!=l||(y<x)!=g||(x>y)!=g||(x>=y)!=!l||(x<=y)!=!g)fail("comparison","index %d: relational operators disagree with lexicographical comparison",I);
        if(!(x==x)||x<x||!(x<=x))fail("comparison","reflexivity");
        if(I==0){
          const C& a=*sl[0].c;const C& b=*sl[1].c;
          if((a==b)!=e||(a!=b)!=!e||(a<b)!=l||(a>b)!=g||(a>=b)!=!l||(a<=b)!=!g)fail("comparison","container operators differ from those of index 0");
        }
      }
    });
  }

  /* ---------------------------------------------------------------- step */
  int pick_index(Cat c){
    double w[N],tot=0;
    for(int i=0;i<N;++i){
      w[i]=kindw[spec(i).kind];
      bool list=spec(i).kind==SEQ||spec(i).kind==RND;
      if((c==C_LIST||c==C_REARR)&&!list)w[i]=0;
      if(c==C_HINT&&list)w[i]=0;
      if(c==C_POL&&spec(i).kind!=HSH&&spec(i).kind!=RND)w[i]=0;
      tot+=w[i];
    }
    if(tot<=0)return -1;
    double z=(double)(r.next()%1000000)/1000000.0*tot;
    for(int i=0;i<N;++i){if(w[i]>0&&z<w[i])return i;z-=w[i];}
    for(int i=N-1;i>=0;--i)if(w[i]>0)return i;
    return 0;
  }
  void step(){
    ++opno;
    clear_expect();
    int tot=0;for(int i=0;i<C_NCAT;++i)tot+=catw[i];
    int z=r.below(tot),c=0;
    while(z>=catw[c]){z-=catw[c];++c;}
    /* keep sizes in range */
    int s=r.chance(2,3)?0:1;
    if(msize(s)<3&&r.chance(1,2))c=C_INS;
    run_cat((Cat)c,s);
  }
  void run_cat(Cat c,int s){
    count(cat_name(c));
    if(c==C_COPY){op_copy(s);return;}
    int i=pick_index(c);
    if(i<0){i=0;c=C_INS;}
    struct Room{std::size_t bc,n;float mlf;}room[2][N];
    bool watch=c==C_INS||c==C_HINT||c==C_NODE||c==C_XFER;
    if(watch)for(int q=0;q<2;++q)each([&](auto ic){constexpr int J=decltype(ic)::value;
      if constexpr(kd<J> ==HSH)room[q][J]=Room{ix<J>(q).bucket_count(),msize(q),sl[q].mlf[J]};});
    dispatch(i,[&](auto ic){constexpr int I=decltype(ic)::value;
      switch(c){
        case C_INS:op_insert<I>(s);break;
        case C_HINT:op_hint<I>(s);break;
        case C_BULK:op_bulk<I>(s);break;
        case C_ERASE:op_erase<I>(s);break;
        case C_REPL:op_replace<I>(s);break;
        case C_MOD:op_modify<I>(s);break;
        case C_NODE:op_node<I>(s);break;
        case C_XFER:op_xfer<I>(s);break;
        case C_LIST:op_list<I>(s);break;
        case C_REARR:op_rearr<I>(s);break;
        case C_LOOK:op_look<I>(s);break;
        case C_POL:op_policy<I>(s);break;
        default:break;
      }
    });
    /* insertions rehash only when the load would exceed the maximum */
    if(watch)for(int q=0;q<2;++q)each([&](auto ic){constexpr int J=decltype(ic)::value;
      if constexpr(kd<J> ==HSH){
        Room& w=room[q][J];std::size_t top=std::max(w.n,msize(q))+1;
        if(w.mlf==sl[q].mlf[J]&&(double)top<=(double)w.mlf*(double)w.bc*(1-1e-5)-1){
          count("room-checks");
          if(ix<J>(q).bucket_count()!=w.bc)fail("rehash","slot %d index %d: rehashed from %zu to %zu buckets although %zu elements fit",q,J,w.bc,(std::size_t)ix<J>(q).bucket_count(),top);
        }
      }});
  }
  void teardown(){
    clear_expect();
    pool.clear();
    std::size_t n=msize(0)+msize(1);
    (void)n;
    sl[0].c.reset();sl[1].c.reset();
    els.clear();byaddr.clear();
    if(vstats().live!=0)fail("leak","%ld element objects outlive every container and handle",vstats().live);
    if(!blocks().empty())fail("alloc-leak","%zu allocator blocks were never returned",blocks().size());
    if(ahooks().constructed!=ahooks().destroyed)fail("alloc-hooks","%ld elements constructed through the allocator but %ld destroyed",ahooks().constructed,ahooks().destroyed);
  }
};

} /* namespace vf */
#endif
