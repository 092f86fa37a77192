// Driver for the reference-model monitor. -DCFG=<n> selects the container.
#ifndef CFG
#define CFG 0
#endif
#if defined(VF_SAFE)
#include <boost/multi_index/safe_mode_errors.hpp>
#include <cstdio>
#include <cstdlib>
extern "C" void vf_safe_mode_report(int code);
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr,error_code) \
 do{if(!(expr))vf_safe_mode_report((int)(error_code));}while(0)
#endif
#include "engine.hpp"
#ifdef VF_SAFE
extern "C" void vf_safe_mode_report(int code){
  vf::fail("safe-mode-false-alarm","safe mode reported error %d in a history of valid operations",code);
}
#endif
using namespace vf;
namespace mi=boost::multi_index;

#ifndef ALLOC_BITS
#define ALLOC_BITS 0
#endif
#ifdef STD_ALLOC
typedef std::allocator<Val> Al;
#else
typedef TA<Val,ALLOC_BITS> Al;
#endif

#define CONFIG(n,...) \
 struct Config##n{typedef mi::multi_index_container<Val,mi::indexed_by<__VA_ARGS__>,Al> C;

#if CFG==0 /* one of everything */
CONFIG(0,VF_OU(K_ID),VF_HN(K_B),VF_SQ,VF_RN(K_A),VF_RA,VF_ON(K_AB),VF_HU(K_BID))
 static constexpr Spec spec[]={{ORD,true,K_ID},{HSH,false,K_B},{SEQ,false,K_NONE},{RNK,false,K_A},{RND,false,K_NONE},{ORD,false,K_AB},{HSH,true,K_BID}};
#elif CFG==1 /* sequenced first, few elements are equivalent */
CONFIG(1,VF_SQ,VF_HU(K_ID),VF_ON(K_A),VF_SQ)
 static constexpr Spec spec[]={{SEQ,false,K_NONE},{HSH,true,K_ID},{ORD,false,K_A},{SEQ,false,K_NONE}};
#elif CFG==2 /* random access first; no unique index at all */
CONFIG(2,VF_RA,VF_HN(K_A),VF_RN(K_B),VF_RA)
 static constexpr Spec spec[]={{RND,false,K_NONE},{HSH,false,K_A},{RNK,false,K_B},{RND,false,K_NONE}};
#elif CFG==3 /* hashed pair */
CONFIG(3,VF_HN(K_A),VF_HU(K_ID),VF_HN(K_AB))
 static constexpr Spec spec[]={{HSH,false,K_A},{HSH,true,K_ID},{HSH,false,K_AB}};
#elif CFG==4 /* ordered trio */
CONFIG(4,VF_ON(K_A),VF_OU(K_BID),VF_ON(K_B))
 static constexpr Spec spec[]={{ORD,false,K_A},{ORD,true,K_BID},{ORD,false,K_B}};
#elif CFG==5 /* ranked */
CONFIG(5,VF_RN(K_A),VF_RU(K_ID),VF_RN(K_AB))
 static constexpr Spec spec[]={{RNK,false,K_A},{RNK,true,K_ID},{RNK,false,K_AB}};
#elif CFG==6 /* several competing unique constraints */
CONFIG(6,VF_OU(K_ID),VF_HU(K_AB),VF_RU(K_BID),VF_SQ,VF_HU(K_ID))
 static constexpr Spec spec[]={{ORD,true,K_ID},{HSH,true,K_AB},{RNK,true,K_BID},{SEQ,false,K_NONE},{HSH,true,K_ID}};
#elif CFG==7 /* sequenced + random access with a keyed gate behind them */
CONFIG(7,VF_RA,VF_SQ,VF_HU(K_ID))
 static constexpr Spec spec[]={{RND,false,K_NONE},{SEQ,false,K_NONE},{HSH,true,K_ID}};
#elif CFG==10
CONFIG(10,VF_ON(K_A))
 static constexpr Spec spec[]={{ORD,false,K_A}};
#elif CFG==11
CONFIG(11,VF_OU(K_ID))
 static constexpr Spec spec[]={{ORD,true,K_ID}};
#elif CFG==12
CONFIG(12,VF_HN(K_A))
 static constexpr Spec spec[]={{HSH,false,K_A}};
#elif CFG==13
CONFIG(13,VF_HU(K_ID))
 static constexpr Spec spec[]={{HSH,true,K_ID}};
#elif CFG==14
CONFIG(14,VF_SQ)
 static constexpr Spec spec[]={{SEQ,false,K_NONE}};
#elif CFG==15
CONFIG(15,VF_RA)
 static constexpr Spec spec[]={{RND,false,K_NONE}};
#elif CFG==16
CONFIG(16,VF_RN(K_A))
 static constexpr Spec spec[]={{RNK,false,K_A}};
#endif
 static constexpr int N=(int)(sizeof(spec)/sizeof(Spec));
};
#define VF_CAT2(a,b) a##b
#define VF_CAT(a,b) VF_CAT2(a,b)
typedef VF_CAT(Config,CFG) Conf;
typedef World<Conf> W;

static std::vector<std::string> split(const std::string& s,char d){
  std::vector<std::string> o;std::string t;
  for(char c:s){if(c==d){if(!t.empty())o.push_back(t);t.clear();}else t+=c;}
  if(!t.empty())o.push_back(t);
  return o;
}
static void apply_weights(W& w){
  std::string cs=opt("cats");
  if(!cs.empty()){
    if(cs[0]=='='){for(int i=0;i<C_NCAT;++i)w.catw[i]=0;cs=cs.substr(1);}
    for(auto& p:split(cs,',')){
      auto e=p.find(':');
      for(int i=0;i<C_NCAT;++i)if(p.substr(0,e)==cat_name(i))w.catw[i]=atoi(p.c_str()+e+1);
    }
  }
  std::string ks=opt("kinds"); /* ord,rnk,hsh,seq,rnd weights */
  if(!ks.empty()){auto v=split(ks,',');for(int i=0;i<5&&i<(int)v.size();++i)w.kindw[i]=atof(v[i].c_str());}
}
static void domains(W& w,Rng& r){
  static const int di[]={3,8,12,20,40,200};
  static const int da[]={1,2,3,4,6,30};
  w.dom_id=di[r.below(6)];w.dom_a=da[r.below(6)];w.dom_b=da[r.below(6)];
}
/* one history; when fault>0 the last operation is run with a fault armed.
   returns true if the fault fired */
/* large containers: deep trees, many rehashes, long lists */
static void big_history(uint64_t caseseed,int len){
  Rng r(caseseed);
  tagctr()=0;
  W w(r);
  static const bool ma=opt("multialloc")=="1";
  w.multi_alloc=ma;
  w.init();
  w.deep=false;
  static const int sizes[]={70,150,300,600,1200,2500};
  int want=sizes[r.below(6)];
  w.dom_id=want*4;w.dom_a=r.chance(1,2)?want:3+want/8;w.dom_b=r.chance(1,2)?want:5+want/20;
  int pat=r.below(4);
  lg("large history: %d insertions, pattern %d",want,pat);
  for(int k=0;k<want;++k){
    V3 v=w.rv();
    if(pat==1){v.id=k*2;v.a=k/3;v.b=k%7;}
    else if(pat==2){v.id=want*4-k*2;v.a=want-k;v.b=k/5;}
    else if(pat==3){v.id=(k%2)?k:want*3-k;v.a=k%11;v.b=(k*7)%want;}
    w.opno++;w.clear_expect();
    w.insert_value(0,v);
    if(k%97==96||k==want-1){w.verify(0);w.all_lookups(0);}
    ++ctx().evaluations;
  }
  apply_weights(w);
  w.catw[C_COPY]=1;
  for(int i=0;i<len;++i){
    w.step();
    w.verify(0);w.verify(1);
    w.verify_live("after operation");
    if(i%4==3){w.all_lookups(0);}
    ++ctx().evaluations;
  }
  /* drain from random places */
  while(w.msize(0)){
    w.opno++;w.clear_expect();
    w.erase_some(0);
    if(w.msize(0)%61==0){w.verify(0);w.all_lookups(0);}
    ++ctx().evaluations;
  }
  w.verify_all();
  w.teardown();
}
/* repeated filling of either container with whole-container operations in
   between: what a copied, moved-from or swapped container does when it grows */
static void waves_history(uint64_t caseseed,int len){
  Rng r(caseseed);
  tagctr()=0;
  W w(r);
  static const bool ma=opt("multialloc")=="1";
  w.multi_alloc=ma;
  w.init();
  w.deep=false;
  w.dom_id=2000;w.dom_a=r.chance(1,2)?300:12;w.dom_b=r.chance(1,2)?300:20;
  apply_weights(w);
  static const int sizes[]={5,30,60,110,150,230};
  for(int wave=0;wave<len;++wave){
    for(int s=0;s<2;++s){
      if(r.chance(1,3))continue;
      int want=sizes[r.below(6)];
      lg("wave %d: up to %d insertions into container %d",wave,want,s);
      if((int)w.msize(s)>260){while(w.msize(s)>20){w.opno++;w.clear_expect();w.erase_some(s);}}
      for(int k=0;k<want;++k){
        w.opno++;w.clear_expect();
        w.insert_value(s,w.rv());
        if(k%13==12)w.verify(s);
        ++ctx().evaluations;
      }
      w.verify(s);
      if(r.chance(1,3))w.all_lookups(s);
    }
    int n=1+r.below(3);
    for(int i=0;i<n;++i){w.step();w.verify(0);w.verify(1);w.verify_live("after operation");++ctx().evaluations;}
  }
  w.verify_all();
  w.all_lookups(0);w.all_lookups(1);
  w.teardown();
}
static bool history(uint64_t caseseed,int len,long fault,int mask,bool persistent,bool final_look){
  Rng r(caseseed);
  /* identical seeds must give identical histories up to the faulted operation */
  tagctr()=0;
  W w(r);
  apply_weights(w);
  domains(w,r);
  static const bool ma=opt("multialloc")=="1";
  w.multi_alloc=ma;
  w.init();
  bool fired=false;
  if(len>400)w.deep=false;
  for(int i=0;i<len;++i){
    if(fault>0&&i==len-1){
      std::string fc=opt("fcats");
      if(!fc.empty()){
        for(int k=0;k<C_NCAT;++k)w.catw[k]=0;
        for(auto& p:split(fc,',')){auto e=p.find(':');
          for(int k=0;k<C_NCAT;++k)if(p.substr(0,e)==cat_name(k))w.catw[k]=e==std::string::npos?1:atoi(p.c_str()+e+1);}
      }
      w.fault_next=true;w.fault_k=fault;w.fault_mask=mask;w.fault_persistent=persistent;
    }
    w.step();
    w.fault_next=false;
    if(w.deep||i%16==15||i==len-1){w.verify(0);w.verify(1);w.verify_pool();}
    w.verify_live("after operation");
    if(w.deep&&(i%7)==3)w.all_lookups(r.below(2));
    ++ctx().evaluations;
  }
  if(fault>0)fired=w.fault_happened;
  if(final_look){w.all_lookups(0);w.all_lookups(1);w.compare_all();}
  /* the containers must remain usable afterwards */
  if(fired){
    apply_weights(w);for(int k=0;k<C_NCAT;++k)w.catw[k]=4;
    for(int i=0;i<6;++i){w.step();w.verify(0);w.verify(1);w.verify_pool();w.verify_live("after a fault");}
    w.all_lookups(0);w.all_lookups(1);
  }
  w.teardown();
  return fired;
}

int main(int argc,char** argv){
  init(argc,argv);
  const std::string mode=ctx().mode;
  if(mode=="fault"){
    /* systematic: for each history, the final operation is repeated with a
       fault at its 1st, 2nd, ... fault point until it completes unharmed */
    int mask=opt("mask").empty()?0xffff:atoi(opt("mask").c_str());
    int maxk=opt("maxk").empty()?400:atoi(opt("maxk").c_str());
    return run_cases([&](uint64_t k,Rng& r){
      uint64_t cs=r.next();
      int len=3+r.below(ctx().len);
      bool pers=(k%3)==1;
      long n=0;
      for(long f=1;f<=maxk;++f){
        begin_case(k);
        lg("history seed %llu len %d, fault point %ld%s",(unsigned long long)cs,len,f,pers?" (persistent)":"");
        if(!history(cs,len,f,mask,pers,false))break;
        ++n;
      }
      count("fault-runs",n);
      if(n==0)count("histories-without-fault-points");
      if(k%50==0)sample_log();
    });
  }
  if(mode=="big"){
    return run_cases([&](uint64_t k,Rng& r){
      big_history(r.next(),ctx().len);
      if(k<2)sample_log(300);
    });
  }
  if(mode=="waves"){
    return run_cases([&](uint64_t k,Rng& r){
      waves_history(r.next(),ctx().len);
      if(k<2)sample_log(300);
    });
  }
  return run_cases([&](uint64_t k,Rng& r){
    uint64_t cs=r.next();
    int len=ctx().len/3+r.below(ctx().len);
    if(r.chance(1,40))len*=4;
    history(cs,len,0,0,false,true);
    if(k<3)sample_log();
  });
}
