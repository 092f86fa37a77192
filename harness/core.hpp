// Shared monitoring runtime: seeded RNG, operation log, verdict reporting,
// observation counters, fault points, tracked values, functors and allocators.
// Everything here observes the library strictly through its public interface.
#ifndef VF_CORE_HPP
#define VF_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <array>
#include <memory>
#include <functional>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)||__has_feature(thread_sanitizer)
#define VF_SAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)||defined(__SANITIZE_THREAD__)
#define VF_SAN 1
#endif
#ifdef VF_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vf{

/* ---------------------------------------------------------------- RNG */
struct Rng{
  uint64_t s;
  explicit Rng(uint64_t x=1):s(x){}
  uint64_t next(){
    uint64_t z=(s+=0x9e3779b97f4a7c15ULL);
    z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL;
    z=(z^(z>>27))*0x94d049bb133111ebULL;
    return z^(z>>31);
  }
  int below(int n){return n<=0?0:(int)(next()%(uint64_t)n);}
  int range(int lo,int hi){return lo+below(hi-lo+1);} /* inclusive */
  bool chance(int num,int den){return below(den)<num;}
};
inline uint64_t mix(uint64_t a,uint64_t b){Rng r(a*0x9e3779b97f4a7c15ULL^b);return r.next();}

/* ------------------------------------------------------------ context */
struct Ctx{
  std::string prop="?",cfg="?",out=".",stats,mode;
  uint64_t seed=1,cases=10,start=0;
  int len=60;
  std::map<std::string,std::string> opts;
  uint64_t cur_case=0;
  /* rolling op log, async-signal-readable */
  static const size_t LOGMAX=1<<20;
  char *log=new char[LOGMAX];
  size_t loglen=0;
  std::map<std::string,uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t evaluations=0;
  uint64_t trace=0; /* hash of everything observed in the current case */
  bool verbose=false;
};
inline Ctx& ctx(){static Ctx* c=new Ctx;return *c;}

inline void vlg(const char* fmt,va_list ap){
  Ctx& c=ctx();
  if(c.loglen+512>Ctx::LOGMAX)return;
  int n=vsnprintf(c.log+c.loglen,500,fmt,ap);
  if(n<0)n=0;
  if(n>499)n=499;
  c.loglen+=n;
  c.log[c.loglen++]='\n';
  c.log[c.loglen]=0;
  if(c.verbose){fprintf(stderr,"%s\n",c.log+c.loglen-n-1);}
}
inline void lg(const char* fmt,...)__attribute__((format(printf,1,2)));
inline void lg(const char* fmt,...){va_list ap;va_start(ap,fmt);vlg(fmt,ap);va_end(ap);}
inline void begin_case(uint64_t k){
  Ctx& c=ctx();c.cur_case=k;c.loglen=0;c.log[0]=0;c.trace=0;
}
inline void count(const char* n,uint64_t by=1){ctx().counters[n]+=by;}
inline void seen(uint64_t h){ctx().trace=mix(ctx().trace,h);if(ctx().distinct.size()<4000000)ctx().distinct.insert(h);}
inline void sample(const std::string& s){if(ctx().samples.size()<6)ctx().samples.push_back(s);}
inline void sample_log(size_t maxchars=900){
  Ctx& c=ctx();
  if(c.samples.size()<4){
    std::string s(c.log,std::min(c.loglen,maxchars));
    c.samples.push_back("case "+std::to_string(c.cur_case)+": "+s);
  }
}

inline void write_all(int fd,const char* p,size_t n){
  while(n){ssize_t k=::write(fd,p,n);if(k<=0)return;p+=k;n-=(size_t)k;}
}
inline void replay_path(char* buf,size_t n){
  Ctx& c=ctx();
  snprintf(buf,n,"%s/%s-%s-s%llu-c%llu.replay",c.out.c_str(),c.prop.c_str(),
    c.cfg.c_str(),(unsigned long long)c.seed,(unsigned long long)c.cur_case);
}
inline void dump_replay(const char* key,const char* msg){
  Ctx& c=ctx();
  char path[1024];replay_path(path,sizeof path);
  int fd=::open(path,O_CREAT|O_TRUNC|O_WRONLY,0644);
  if(fd<0)return;
  char head[4096];
  int n=snprintf(head,sizeof head,
    "property=%s\nconfig=%s\nseed=%llu\ncase=%llu\nlen=%d\nmode=%s\nkey=%s\nmessage=%s\n--- operation history of this case ---\n",
    c.prop.c_str(),c.cfg.c_str(),(unsigned long long)c.seed,
    (unsigned long long)c.cur_case,c.len,c.mode.c_str(),key,msg);
  if(n>(int)sizeof head)n=sizeof head;
  write_all(fd,head,(size_t)n);
  write_all(fd,c.log,c.loglen);
  ::close(fd);
}
/* a monitor saw a violation */
[[noreturn]] inline void fail(const char* key,const char* fmt,...)__attribute__((format(printf,2,3)));
[[noreturn]] inline void fail(const char* key,const char* fmt,...){
  char msg[2048];va_list ap;va_start(ap,fmt);vsnprintf(msg,sizeof msg,fmt,ap);va_end(ap);
  dump_replay(key,msg);
  char path[1024];replay_path(path,sizeof path);
  fflush(stdout);
  printf("MONITOR-VIOLATION key=%s replay=%s msg=%s\n",key,path,msg);
  fflush(stdout);
  _exit(10);
}
/* a violation reported without stopping */
inline void finding(const char* key,const char* fmt,...)__attribute__((format(printf,2,3)));
inline void finding(const char* key,const char* fmt,...){
  char msg[2048];va_list ap;va_start(ap,fmt);vsnprintf(msg,sizeof msg,fmt,ap);va_end(ap);
  dump_replay(key,msg);
  char path[1024];replay_path(path,sizeof path);
  printf("MONITOR-FINDING key=%s replay=%s msg=%s\n",key,path,msg);
  fflush(stdout);
}
/* harness trouble: never a verdict */
[[noreturn]] inline void harness_error(const char* msg){
  printf("HARNESS-ERROR %s\n",msg);fflush(stdout);_exit(20);
}
inline void death(){
  static volatile int in=0;
  if(in)return;
  in=1;
  dump_replay("crash","the process was stopped by a sanitizer or a signal during this history");
}
inline void on_signal(int sig){
  death();
  signal(sig,SIG_DFL);
  raise(sig);
}

inline void init(int argc,char** argv){
  Ctx& c=ctx();
  for(int i=1;i<argc;++i){
    std::string a=argv[i];
    auto val=[&]{if(i+1>=argc)harness_error("missing value");return std::string(argv[++i]);};
    if(a=="--prop")c.prop=val();
    else if(a=="--cfg")c.cfg=val();
    else if(a=="--seed")c.seed=strtoull(val().c_str(),0,10);
    else if(a=="--cases")c.cases=strtoull(val().c_str(),0,10);
    else if(a=="--start")c.start=strtoull(val().c_str(),0,10);
    else if(a=="--len")c.len=atoi(val().c_str());
    else if(a=="--out")c.out=val();
    else if(a=="--stats")c.stats=val();
    else if(a=="--mode")c.mode=val();
    else if(a=="--verbose")c.verbose=true;
    else if(a.rfind("--",0)==0){std::string k=a.substr(2);c.opts[k]=val();}
  }
  c.log[0]=0;
#ifdef VF_SAN
  __sanitizer_set_death_callback(death);
#else
  signal(SIGSEGV,on_signal);signal(SIGBUS,on_signal);signal(SIGFPE,on_signal);
  signal(SIGILL,on_signal);
#endif
  signal(SIGABRT,on_signal);
}
inline std::string opt(const char* k,const std::string& d=""){
  auto it=ctx().opts.find(k);return it==ctx().opts.end()?d:it->second;
}
inline std::string jesc(const std::string& s){
  std::string o;char b[8];
  for(unsigned char ch:s){
    if(ch=='"'||ch=='\\'){o+='\\';o+=(char)ch;}
    else if(ch=='\n')o+="; ";
    else if(ch<0x20||ch>=0x7f){snprintf(b,sizeof b,"\\u%04x",ch);o+=b;}
    else o+=(char)ch;
  }
  return o;
}
inline int finish(){
  Ctx& c=ctx();
  if(!c.stats.empty()){
    FILE* f=fopen(c.stats.c_str(),"w");
    if(!f)harness_error("cannot write stats");
    fprintf(f,"{\"evaluations\":%llu,\"counters\":{",(unsigned long long)c.evaluations);
    bool first=true;
    for(auto& p:c.counters){fprintf(f,"%s\"%s\":%llu",first?"":",",jesc(p.first).c_str(),(unsigned long long)p.second);first=false;}
    fprintf(f,"},\"samples\":[");
    first=true;
    for(auto& s:c.samples){fprintf(f,"%s\"%s\"",first?"":",",jesc(s).c_str());first=false;}
    fprintf(f,"]}\n");
    fclose(f);
    f=fopen((c.stats+".distinct").c_str(),"wb");
    if(f){for(uint64_t h:c.distinct)fwrite(&h,8,1,f);fclose(f);}
  }
  printf("DONE cases=%llu evaluations=%llu distinct=%zu\n",
    (unsigned long long)c.cases,(unsigned long long)c.evaluations,c.distinct.size());
  fflush(stdout);
  return 0;
}

/* -------------------------------------------------------- fault points */
enum FK{F_ALLOC=1,F_COPY=2,F_MOVE=4,F_ASSIGN=8,F_CMP=16,F_HASH=32,F_EQ=64,
  F_KEY=128,F_MOD=256,F_BACK=512,F_PRED=1024,F_RANGE=2048,F_CTOR=4096};
inline const char* fk_name(int k){
  switch(k){case F_ALLOC:return "allocation";case F_COPY:return "copy-construction";
  case F_MOVE:return "move-construction";case F_ASSIGN:return "assignment";
  case F_CMP:return "comparison";case F_HASH:return "hash";case F_EQ:return "equality";
  case F_KEY:return "key-extraction";case F_MOD:return "modifier";case F_BACK:return "rollback";
  case F_PRED:return "predicate";case F_RANGE:return "range-iterator";case F_CTOR:return "construction";}
  return "?";
}
struct Boom{int kind;};
struct Faults{
  bool armed=false;      /* points are counted and may fire */
  bool persistent=false; /* after firing keep failing (same kinds) */
  int  mask=0;
  long countdown=0;      /* fire at the countdown-th point */
  long passed=0;
  int  fired=0;          /* number of times fired */
  int  fired_kind=0;
  bool back_called=false;bool back_before_fire=false;
  int  fired_after_back=0;
};
inline Faults& faults(){static Faults f;return f;}
inline void fp(int kind){
  Faults& f=faults();
  if(!f.armed||!(kind&f.mask))return;
  ++f.passed;
  if(f.passed==f.countdown||(f.persistent&&f.fired)){
    if(!f.fired){f.fired_kind=kind;f.back_before_fire=f.back_called;}
    if(f.back_called)++f.fired_after_back;
    ++f.fired;
    lg("    [fault injected at point %ld: %s]",f.passed,fk_name(kind));
    throw Boom{kind};
  }
}

/* operation tallies usable by complexity monitors */
struct Tally{uint64_t cmp=0,hash=0,eq=0,key=0,copy=0,move=0,assign=0,alloc=0,dealloc=0,hops=0;};
inline Tally& tally(){static Tally t;return t;}

/* -------------------------------------------------------- tracked value */
struct ValStats{long live=0,constructed=0,destroyed=0,copied=0,moved=0,assigned=0;};
inline ValStats& vstats(){static ValStats s;return s;}

inline int& tagctr(){static int t=0;return t;}
struct Raw{int id,a,b,tag;}; /* something a Val can be made from */
struct Val{
  int id,a,b;
  int tag; /* identity stamp: copied along, never part of a key or of == */
private:
  const Val* self;
  int* heap; /* owned resource: leaks/double frees are visible to ASan too */
  void born(){self=this;heap=new int(id*31+a*7+b);++vstats().live;++vstats().constructed;}
public:
  void check(const char* where)const{
    if(self!=this)fail("lifetime","%s: element accessed outside its lifetime (or bitwise-relocated)",where);
  }
  Val():id(0),a(0),b(0),tag(++tagctr()){fp(F_CTOR);born();}
  Val(int i,int x,int y):id(i),a(x),b(y),tag(++tagctr()){fp(F_CTOR);born();}
  explicit Val(int i):id(i),a(i%5),b(i%7),tag(++tagctr()){fp(F_CTOR);born();}
  explicit Val(const Raw& v):id(v.id),a(v.a),b(v.b),tag(v.tag){fp(F_CTOR);born();}
  Val(const Val& v):id(v.id),a(v.a),b(v.b),tag(v.tag){
    v.check("copy source");fp(F_COPY);born();++vstats().copied;++tally().copy;}
  Val(Val&& v):id(v.id),a(v.a),b(v.b),tag(v.tag){
    v.check("move source");fp(F_MOVE);born();++vstats().moved;++tally().move;
    if(&v!=this){v.id=-1000001;v.a=-1000002;v.b=-1000003;}}
  Val& operator=(const Val& v){
    check("assign target");v.check("assign source");fp(F_ASSIGN);++tally().assign;
    ++vstats().assigned;id=v.id;a=v.a;b=v.b;tag=v.tag;return *this;}
  Val& operator=(Val&& v){
    check("move-assign target");v.check("move-assign source");fp(F_ASSIGN);++tally().assign;
    ++vstats().assigned;id=v.id;a=v.a;b=v.b;tag=v.tag;
    if(&v!=this){v.id=-1000001;v.a=-1000002;v.b=-1000003;}
    return *this;}
  ~Val(){
    if(self!=this)fail("lifetime","destructor run on a non-live element");
    self=nullptr;delete heap;heap=nullptr;--vstats().live;++vstats().destroyed;}
};
inline bool operator==(const Val& x,const Val& y){fp(F_PRED);x.check("==");y.check("==");return x.id==y.id&&x.a==y.a&&x.b==y.b;}
inline bool operator!=(const Val& x,const Val& y){return !(x==y);}
inline bool operator<(const Val& x,const Val& y){
  fp(F_PRED);x.check("<");y.check("<");
  return x.b!=y.b?x.b<y.b:x.a<y.a;} /* a strict weak order coarser than == on purpose */
inline bool operator>(const Val& x,const Val& y){return y<x;}
inline bool operator<=(const Val& x,const Val& y){return !(y<x);}
inline bool operator>=(const Val& x,const Val& y){return !(x<y);}

/* -------------------------------------------------------------- functors */
struct KId{typedef int result_type;int tag;explicit KId(int t=0):tag(t){}
  const int& operator()(const Val& v)const{fp(F_KEY);++tally().key;v.check("key");return v.id;}
  int& operator()(Val& v)const{fp(F_KEY);v.check("key");return v.id;}};
struct KA{typedef int result_type;int tag;explicit KA(int t=0):tag(t){}
  const int& operator()(const Val& v)const{fp(F_KEY);++tally().key;v.check("key");return v.a;}
  int& operator()(Val& v)const{fp(F_KEY);v.check("key");return v.a;}};
struct KB{typedef int result_type;int tag;explicit KB(int t=0):tag(t){}
  const int& operator()(const Val& v)const{fp(F_KEY);++tally().key;v.check("key");return v.b;}
  int& operator()(Val& v)const{fp(F_KEY);v.check("key");return v.b;}};
/* stateful comparison: dir travels with the container's internal objects */
struct CmpDir{
  int dir;
  explicit CmpDir(int d=1):dir(d){}
  bool operator()(int x,int y)const{fp(F_CMP);++tally().cmp;return dir>0?x<y:y<x;}
};
struct HashSalt{
  int salt; /* low 8 bits: modulus selector; collisions are frequent for small moduli */
  explicit HashSalt(int s=0):salt(s){}
  std::size_t operator()(int x)const{
    fp(F_HASH);++tally().hash;
    std::size_t h=(std::size_t)(unsigned)x*(2*(std::size_t)(salt>>8)+1);
    switch(salt&3){case 0:return h;case 1:return h%3;case 2:return 7;default:return h*0x9e3779b97f4a7c15ULL;}
  }
};
struct EqSalt{
  int tag;
  explicit EqSalt(int t=0):tag(t){}
  bool operator()(int x,int y)const{fp(F_EQ);++tally().eq;return x==y;}
};

/* ------------------------------------------------------ tracked allocator */
struct Blk{int id;std::size_t bytes;};
inline std::unordered_map<const void*,Blk>& blocks(){static auto* m=new std::unordered_map<const void*,Blk>;return *m;}
inline void* tracked_alloc(int id,std::size_t bytes){
  fp(F_ALLOC);++tally().alloc;
  void* p=::operator new(bytes);
  blocks()[p]=Blk{id,bytes};
  return p;
}
inline void tracked_free(int id,void* p,std::size_t bytes){
  ++tally().dealloc;
  auto it=blocks().find(p);
  if(it==blocks().end())fail("alloc-unknown","deallocate() of a block that is not outstanding");
  if(it->second.id!=id)fail("alloc-wrong-instance","block obtained from allocator %d returned to unequal allocator %d",it->second.id,id);
  if(it->second.bytes!=bytes)fail("alloc-wrong-size","block of %zu bytes deallocated with size %zu",it->second.bytes,bytes);
  blocks().erase(it);
  ::operator delete(p);
}
/* Bits: 1=POCCA 2=POCMA 4=POCS 8=SOCCC returns id 9 16=construct/destroy hooks counted */
struct AllocHooks{long constructed=0,destroyed=0;};
inline AllocHooks& ahooks(){static AllocHooks h;return h;}
/* the lifetime of the allocator objects themselves */
struct AlLife{
  const AlLife* self;
  static long& live(){static long n=0;return n;}
  AlLife():self(this){++live();}
  AlLife(const AlLife& x):self(this){x.check();++live();}
  AlLife& operator=(const AlLife& x){check();x.check();return *this;}
  ~AlLife(){check();self=0;--live();}
  void check()const{if(self!=this)fail("alloc-object","an allocator object is used outside its lifetime");}
};
#ifdef VF_FANCY
/* class-type pointer: never converts to or from raw pointers by itself */
template<class T>class FP{
public:
  typedef std::ptrdiff_t difference_type;typedef T value_type;typedef T* pointer;typedef T& reference;
  typedef std::random_access_iterator_tag iterator_category;
  FP():p(reinterpret_cast<T*>(std::uintptr_t(0xdeadbee8))){} /* no null by default initialisation */
  explicit FP(T* q):p(q){}
  /* &*p of a null pointer appears in empty copies; using what it names is a fault */
  T& operator*()const{return *(p?p:reinterpret_cast<T*>(std::uintptr_t(0x1000)));}
  T* operator->()const{if(!p)fail("fancy-pointer","null class-type pointer dereferenced");return p;}
  FP& operator++(){++p;return *this;}
  FP operator++(int){FP t(*this);++p;return t;}
  FP& operator--(){--p;return *this;}
  FP operator--(int){FP t(*this);--p;return t;}
  FP& operator+=(std::ptrdiff_t n){p+=n;return *this;}
  FP& operator-=(std::ptrdiff_t n){p-=n;return *this;}
  T& operator[](std::ptrdiff_t n)const{return p[n];}
  T* raw()const{return p;}
  friend FP operator+(const FP& x,std::ptrdiff_t n){return FP(x.p+n);}
  friend FP operator+(std::ptrdiff_t n,const FP& x){return FP(x.p+n);}
  friend FP operator-(const FP& x,std::ptrdiff_t n){return FP(x.p-n);}
  friend std::ptrdiff_t operator-(const FP& x,const FP& y){return x.p-y.p;}
  friend bool operator==(const FP& x,const FP& y){return x.p==y.p;}
  friend bool operator!=(const FP& x,const FP& y){return x.p!=y.p;}
  friend bool operator<(const FP& x,const FP& y){return std::less<T*>()(x.p,y.p);}
  friend bool operator>(const FP& x,const FP& y){return std::less<T*>()(y.p,x.p);}
  friend bool operator<=(const FP& x,const FP& y){return !(y<x);}
  friend bool operator>=(const FP& x,const FP& y){return !(x<y);}
private:
  T* p;
};
#endif
template<class T,int Bits=0>
struct TA{
  typedef T value_type;
  int id;
  AlLife life;
  typedef std::integral_constant<bool,(Bits&1)!=0> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool,(Bits&2)!=0> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool,(Bits&4)!=0> propagate_on_container_swap;
  typedef std::false_type is_always_equal;
  template<class U>struct rebind{typedef TA<U,Bits> other;};
  explicit TA(int i=0):id(i){}
  template<class U>TA(const TA<U,Bits>& x):id(x.id){x.life.check();}
#ifdef VF_FANCY
  typedef FP<T> pointer;typedef FP<const T> const_pointer;typedef void* void_pointer;typedef const void* const_void_pointer;
  typedef T& reference;typedef const T& const_reference;typedef std::size_t size_type;typedef std::ptrdiff_t difference_type;
  FP<T> allocate(std::size_t n){
    life.check();
    if(n>(std::size_t(1)<<28)/sizeof(T))throw std::bad_alloc();
    return FP<T>(static_cast<T*>(tracked_alloc(id,n*sizeof(T))));}
  void deallocate(FP<T> p,std::size_t n){life.check();tracked_free(id,p.raw(),n*sizeof(T));}
#else
  /* the C++03 allocator interface, for builds without std::allocator_traits */
  typedef T* pointer;typedef const T* const_pointer;typedef T& reference;typedef const T& const_reference;
  typedef std::size_t size_type;typedef std::ptrdiff_t difference_type;
  size_type max_size()const{return std::size_t(-1)/sizeof(T);}
  T* allocate(std::size_t n){
    life.check();
    if(n>(std::size_t(1)<<28)/sizeof(T))throw std::bad_alloc();
    return static_cast<T*>(tracked_alloc(id,n*sizeof(T)));}
  void deallocate(T* p,std::size_t n){life.check();tracked_free(id,p,n*sizeof(T));}
#endif
  template<class U,class... A>void construct(U* p,A&&... a){
    ::new(static_cast<void*>(p))U(std::forward<A>(a)...);++ahooks().constructed;}
  template<class U>void destroy(U* p){++ahooks().destroyed;p->~U();}
  TA select_on_container_copy_construction()const{
    return (Bits&8)?TA(9):*this;}
  friend bool operator==(const TA& x,const TA& y){return x.id==y.id;}
  friend bool operator!=(const TA& x,const TA& y){return x.id!=y.id;}
};

/* ------------------------------------------------------------- main loop */
template<class F>
inline int run_cases(F f){
  Ctx& c=ctx();
  const std::string dig=opt("digest");
  for(uint64_t k=c.start;k<c.start+c.cases;++k){
    begin_case(k);
    Rng r(mix(c.seed,mix(k,0x51)));
    long alive=AlLife::live();
    f(k,r);
    if(AlLife::live()!=alive)fail("alloc-object","%ld allocator objects outlive the containers",AlLife::live()-alive);
    if(!dig.empty()){ /* observations and operation log, to compare builds */
      uint64_t h=1469598103934665603ULL;
      for(std::size_t i=0;i<c.loglen;++i)h=(h^(unsigned char)c.log[i])*1099511628211ULL;
      printf("DIGEST %s-%llu %016llx\n",dig.c_str(),(unsigned long long)k,(unsigned long long)mix(h,c.trace));
    }
  }
  return finish();
}

} /* namespace vf */
#endif
