/* Instrumentation shared by every driver: live-object registry, fault
 * injection, and a stateful tracking allocator. Nothing here depends on the
 * internals of the library under test. */
#ifndef VERIF_TRACK_HPP
#define VERIF_TRACK_HPP

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VT_ASAN
#endif
#elif defined(__SANITIZE_ADDRESS__)
#define VT_ASAN
#endif
#if defined(VT_ASAN)
#include <sanitizer/asan_interface.h>
#endif
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vt{

struct fault{};                              /* thrown by injected element faults */

struct state
{
  std::unordered_map<const void*,int> live;   /* live element cells -> type id    */
  std::unordered_map<const void*,std::pair<int,std::size_t>> blocks;
  std::map<int,long> outstanding;             /* blocks per allocator id          */
  std::vector<std::string> anomalies;
  long ncopy=0,nmove=0,nmassign=0,neq=0,nalloc=0;
  long ctor=0,dtor=0;                         /* allocator construct/destroy      */
  /* fault injection: mask of kinds, countdown */
  enum kind:int{COPY=1,MOVE=2,ASSIGN=4,EQ=8,CTOR=16,ALLOC=32,USER=64};
  int  fmask=0;
  long fcount=0;       /* ticks seen since arm()        */
  long ftarget=0;      /* fault fires at this tick; 0 = never */
  bool fired=false;
  bool counting=false;
  /* log of elementary steps: allocations, births, deaths and uses */
  bool micro=false,muse=false;
  std::map<const char*,std::size_t> extent;
  std::vector<int> mlog;                      /* groups of four integers          */
};

inline state& S(){static state s;return s;}

inline void anomaly(const std::string& s)
{
  if(S().anomalies.size()<8)S().anomalies.push_back(s);
}

inline bool tick(int k)
{
  auto& s=S();
  if(!s.counting||!(s.fmask&k))return false;
  ++s.fcount;
  if(s.ftarget&&s.fcount==s.ftarget){s.fired=true;return true;}
  return false;
}

inline void arm(int mask,long target)
{
  auto& s=S();
  s.fmask=mask;s.ftarget=target;s.fcount=0;s.fired=false;s.counting=true;
}
inline void disarm(){S().counting=false;}

/* suspends fault ticks within a scope */
struct quiet
{
  bool c;
  quiet():c{S().counting}{S().counting=false;}
  ~quiet(){S().counting=c;}
};

inline int tok(const void* p);
inline void step(int k,int a,int b,int c)
{
  auto& m=S().mlog;
  m.push_back(k);m.push_back(a);m.push_back(b);m.push_back(c);
}
/* the block an address lies in, 0 if none */
inline int block_of(const void* p)
{
  auto& x=S().extent;
  auto it=x.upper_bound((const char*)p);
  if(it==x.begin())return 0;
  --it;
  return (const char*)p<it->first+it->second?tok(it->first):0;
}

inline void born(const void* p,int id)
{
  if(S().micro)step(3,tok(p),id,block_of(p));
  auto r=S().live.insert({p,id});
  if(!r.second)anomaly("construct-over-live");
}
inline void dead(const void* p,int id)
{
  if(S().micro)step(4,tok(p),id,0);
  auto it=S().live.find(p);
  if(it==S().live.end())anomaly("destroy-of-dead");
  else{
    if(it->second!=id)anomaly("destroy-wrong-type");
    S().live.erase(it);
  }
}
inline void use(const void* p,int id)
{
  if(S().muse)step(5,tok(p),id,0);
  auto it=S().live.find(p);
  if(it==S().live.end())anomaly("use-of-dead");
  else if(it->second!=id)anomaly("use-wrong-type");
}

/* payload cell. NT: nothrow move construction/assignment */

template<int Id,bool NT>
struct cell
{
  int v;

  explicit cell(int v_):v{v_}
  {
    if(tick(state::CTOR))throw fault{};
    born(this,Id);
  }
  cell(const cell& x):v{x.v}
  {
    use(&x,Id);
    ++S().ncopy;
    if(tick(state::COPY))throw fault{};
    born(this,Id);
  }
  cell(cell&& x)noexcept(NT):v{x.v}
  {
    use(&x,Id);
    ++S().nmove;
    if(!NT&&tick(state::MOVE))throw fault{};
    x.v=-1;
    born(this,Id);
  }
  cell& operator=(const cell& x)
  {
    use(this,Id);use(&x,Id);
    ++S().ncopy;
    if(tick(state::COPY))throw fault{};
    v=x.v;
    return *this;
  }
  cell& operator=(cell&& x)noexcept(NT)
  {
    use(this,Id);use(&x,Id);
    ++S().nmassign;
    if(!NT&&tick(state::ASSIGN))throw fault{};
    if(this!=&x){v=x.v;x.v=-1;}
    return *this;
  }
  ~cell(){dead(this,Id);v=-77;}

  int get()const{use(this,Id);return v;}
  bool eq(const cell& x)const
  {
    use(this,Id);use(&x,Id);
    ++S().neq;
    if(tick(state::EQ))throw fault{};
    return v==x.v;
  }
};

struct no_copy
{
  no_copy()=default;
  no_copy(const no_copy&)=delete;
  no_copy(no_copy&&)noexcept{}
  no_copy& operator=(const no_copy&)=delete;
  no_copy& operator=(no_copy&&)noexcept{return *this;}
};
struct no_assign
{
  no_assign()=default;
  no_assign(const no_assign&)=default;
  no_assign(no_assign&&)noexcept{}
  no_assign& operator=(const no_assign&)=delete;
  no_assign& operator=(no_assign&&)=delete;
};
struct nothing{};

/* tracking allocator.
 * Flags: 1 POCCA, 2 POCMA, 4 POCS, 8 always equal, 16 SOCCC changes id */

template<typename U,typename=void> struct is_element:std::false_type{};
template<typename U>
struct is_element<U,std::void_t<typename U::verif_element>>:std::true_type{};

/* arguments of emplacement: received once, as they were passed */

struct probe
{
  probe()=default;
  probe(const probe&)=delete;
  probe& operator=(const probe&)=delete;
};
struct probes{probe a,b;const probe c;int received=0;};
inline probes& P(){static probes p;return p;}
template<typename A,typename B,typename C>
void receive(A&& a,B&& b,C&& c)
{
  auto& p=P();
  if(++p.received>1)anomaly("emplace-args-used-twice");
  if(!std::is_same<A,probe&>::value||!std::is_same<B,probe>::value||
     !std::is_same<C,const probe&>::value)anomaly("emplace-args-category");
  if((const void*)&a!=&p.a||(const void*)&b!=&p.b||(const void*)&c!=&p.c)
    anomaly("emplace-args-identity");
}

#if !defined(VT_MAXN)
#define VT_MAXN 9
#endif
enum:int{F_POCCA=1,F_POCMA=2,F_POCS=4,F_AEQ=8,F_SOCCC=16,F_MAX=32};

/* memory aligned as requested and not more */

inline std::size_t raw_pad(std::size_t a){return a<8?8:a;}
inline void* raw_allocate(std::size_t n,std::size_t a)
{
  const std::size_t p=raw_pad(a);
  char* r=static_cast<char*>(::operator new(n+p,std::align_val_t(2*p)));
#if defined(VT_ASAN)
  __asan_poison_memory_region(r,p);
#endif
  return r+p;
}
inline void raw_deallocate(void* q,std::size_t a)noexcept
{
  const std::size_t p=raw_pad(a);
  char* r=static_cast<char*>(q)-p;
#if defined(VT_ASAN)
  __asan_unpoison_memory_region(r,p);
#endif
  ::operator delete(r,std::align_val_t(2*p));
}

template<typename T,int Flags>
struct talloc
{
  using value_type=T;
  using propagate_on_container_copy_assignment=
    std::integral_constant<bool,(Flags&F_POCCA)!=0>;
  using propagate_on_container_move_assignment=
    std::integral_constant<bool,(Flags&F_POCMA)!=0>;
  using propagate_on_container_swap=
    std::integral_constant<bool,(Flags&F_POCS)!=0>;
  using is_always_equal=std::integral_constant<bool,(Flags&F_AEQ)!=0>;
  template<typename U> struct rebind{using other=talloc<U,Flags>;};

  int id=0;

  talloc()=default;
  explicit talloc(int id_):id{id_}{}
  talloc(const talloc&)=default;
  template<typename U>
  talloc(const talloc<U,Flags>& x)noexcept:id{x.id}{}
  talloc& operator=(const talloc&)=default;

  T* allocate(std::size_t n)
  {
    auto& s=S();
    ++s.nalloc;
    if(n>std::size_t(-1)/2/sizeof(T))throw std::bad_alloc{};
    if(n*sizeof(T)>(std::size_t(1)<<32))throw std::bad_alloc{};
    if(tick(state::ALLOC))throw std::bad_alloc{};
    T* p=static_cast<T*>(raw_allocate(n*sizeof(T),alignof(T)));
    if(s.micro){
      s.extent[(const char*)p]=n*sizeof(T);
      step(1,tok(p),Flags&F_AEQ?0:id,int(n*sizeof(T)));
    }
    s.blocks[p]={Flags&F_AEQ?0:id,n*sizeof(T)};
    ++s.outstanding[Flags&F_AEQ?0:id];
    return p;
  }
  void deallocate(T* p,std::size_t n)noexcept
  {
    auto& s=S();
    if(s.micro){
      step(2,tok(p),Flags&F_AEQ?0:id,int(n*sizeof(T)));
      s.extent.erase((const char*)p);
    }
    auto it=s.blocks.find(p);
    if(it==s.blocks.end()){anomaly("dealloc-unknown-block");return;}
    if(it->second.first!=(Flags&F_AEQ?0:id))anomaly("dealloc-wrong-allocator");
    if(it->second.second!=n*sizeof(T))anomaly("dealloc-wrong-size");
    --s.outstanding[it->second.first];
    s.blocks.erase(it);
    raw_deallocate(p,alignof(T));
  }
  template<typename U,typename... Args>
  void construct(U* p,Args&&... args)
  {
    if(!is_element<U>::value)anomaly("construct-of-non-element");
    ::new((void*)p) U(std::forward<Args>(args)...);
    ++S().ctor;
  }
  template<typename U>
  void destroy(U* p)
  {
    if(!is_element<U>::value)anomaly("destroy-of-non-element");
    ++S().dtor;
    p->~U();
  }
  std::size_t max_size()const noexcept
  {
    return Flags&F_MAX?VT_MAXN:std::size_t(-1)/2/sizeof(T);
  }
  talloc select_on_container_copy_construction()const
  {
    return Flags&F_SOCCC?talloc(id+100):*this;
  }
};
template<typename T,typename U,int F>
bool operator==(const talloc<T,F>& x,const talloc<U,F>& y)noexcept
{return (F&F_AEQ)||x.id==y.id;}
template<typename T,typename U,int F>
bool operator!=(const talloc<T,F>& x,const talloc<U,F>& y)noexcept
{return !(x==y);}

/* a std::type_info object distinct from, but equal to, the given one */

class info_clone:public std::type_info
{
public:
  explicit info_clone(const char* n):std::type_info{n}{}
};
inline const std::type_info& clone_of(const std::type_info& i)
{
  static std::map<std::string,const info_clone*> m;
  auto& p=m[i.name()];
  if(!p){
    char* n=new char[std::strlen(i.name())+1];
    std::strcpy(n,i.name());
    p=new info_clone{n};
  }
  return *p;
}

/* address -> small token */

inline int tok(const void* p)
{
  static std::unordered_map<const void*,int> m;
  return m.insert({p,(int)m.size()+1}).first->second;
}

} /* namespace vt */

#endif
