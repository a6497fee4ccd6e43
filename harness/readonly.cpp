/* Executes the const interface of the collections with all their memory
 * write-protected. KIND 0 base, 1 function, 2 any.
 * usage: prog out seed rounds cur
 * With THREADS, the const interface is executed by several threads at once
 * instead (to be compiled with -fsanitize=thread).
 */
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <random>
#include <string>
#include <typeinfo>
#include <vector>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <boost/poly_collection/algorithm.hpp>
#include <boost/poly_collection/base_collection.hpp>
#include <boost/poly_collection/function_collection.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>

/* ----------------------------------------------------------------- memory */

struct region
{
  static constexpr std::size_t size=1<<18;
  char* mem;
  std::size_t used=0;
  bool locked=false;
  region()
  {
    mem=(char*)mmap(nullptr,size,PROT_READ|PROT_WRITE,
      MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
    if(mem==MAP_FAILED)std::abort();
  }
  void* get(std::size_t n,std::size_t al)
  {
    used=(used+al-1)/al*al;
    void* p=mem+used;
    used+=n;
    if(used>size)throw std::bad_alloc{};
    return p;
  }
  void lock(){locked=true;mprotect(mem,size,PROT_READ);}
  void unlock(){locked=false;mprotect(mem,size,PROT_READ|PROT_WRITE);}
};

constexpr int NR=8;
static thread_local int mine=3; /* region for private copies */
static region* R[NR];
static volatile int writes;

static void on_segv(int,siginfo_t* si,void*)
{
  char* a=(char*)si->si_addr;
  for(int i=0;i<NR;++i)if(R[i]&&R[i]->locked&&a>=R[i]->mem&&a<R[i]->mem+region::size){
    writes=writes+1;
    /* let the write through: it has been recorded */
    mprotect(R[i]->mem,region::size,PROT_READ|PROT_WRITE);
    return;
  }
  static const char m[]="unexpected segfault\n";
  (void)!write(2,m,sizeof(m)-1);
  _exit(7);
}

template<typename T> struct ralloc
{
  using value_type=T;
  int id;
  explicit ralloc(int id):id{id}{}
  template<typename U> ralloc(const ralloc<U>& x):id{x.id}{}
  T* allocate(std::size_t n){return (T*)R[id]->get(n*sizeof(T),alignof(T));}
  void deallocate(T*,std::size_t){}
  friend bool operator==(const ralloc& x,const ralloc& y){return x.id==y.id;}
  friend bool operator!=(const ralloc& x,const ralloc& y){return x.id!=y.id;}
};

/* --------------------------------------------------------------- elements */

#if KIND==0
struct base{virtual ~base()=default;virtual int operator()(int)const=0;};
#define BASE_ :base
#else
#define BASE_
#endif
template<int I> struct E BASE_
{
  explicit E(int v):v{v}{}
  int operator()(int x)const{return v*10+x;}
  bool operator==(const E& x)const{return v==x.v;}
  int v;
};
namespace te=boost::type_erasure;
#if KIND==0
using A=ralloc<base>;using coll=boost::base_collection<base,A>;
#elif KIND==1
using fv=boost::poly_collection::function_collection_value_type<int(int)>;
using A=ralloc<fv>;using coll=boost::function_collection<int(int),A>;
#else
using concept_=boost::mpl::vector<te::callable<int(int),const te::_self>>;
using av=boost::poly_collection::any_collection_value_type<concept_>;
using A=ralloc<av>;using coll=boost::any_collection<concept_,A>;
#endif

struct clone_info:std::type_info
{clone_info(const std::type_info& x):std::type_info(x.name()){}};
constexpr int NT=6;
template<int I,typename F> void with(int t,F f)
{
  if constexpr(I<NT){
    if(t==I)f((E<I>*)nullptr);else with<I+1>(t,f);
  }
}
template<typename T>
const std::type_info& info(int form)
{
  static clone_info* c1=new clone_info(typeid(T));
  if(form==3)return *new clone_info(typeid(T)); /* never seen before */
  return form==2?(const std::type_info&)*c1:typeid(T);
}

static std::vector<int> digest(const coll& c)
{
  std::vector<int> r;
  for(auto s:c.segment_traversal()){
    r.push_back(-1);
    for(auto& x:s)r.push_back(x(0));
  }
  return r;
}

using rng=std::mt19937;
static long pick(rng& g,long n){return (long)(g()%(unsigned long)n);}

static void mutate(rng& g,coll& c,coll& d,int n)
{
  for(int i=0;i<n;++i){
    int t=(int)pick(g,NT);int form=1+(int)pick(g,2);
    with<0>(t,[&](auto* p){
      using T=typename std::remove_pointer<decltype(p)>::type;
      try{
        switch(pick(g,12)){
          case 0:c.template register_types<T>();break;
          case 1:case 2:case 3:c.template emplace<T>((int)pick(g,4)+1);break;
          case 4:c.insert(T((int)pick(g,4)+1));break;
          case 5:if(c.size(info<T>(form)))c.erase(c.begin(info<T>(form)));break;
          case 6:c.template reserve<T>((std::size_t)pick(g,6));break;
          case 7:(void)c.size(info<T>(form));break;
          case 8:c.shrink_to_fit();break;
          case 9:c.clear(info<T>(form));break;
          case 10:if(pick(g,4)==0)c=d;break;
          default:(void)c.begin(info<T>(form));
        }
      }
      catch(const boost::poly_collection::unregistered_type&){}
    });
  }
}

struct sum
{
  long* s;
  template<typename X> void operator()(const X& x)const{*s+=x(0);}
};
struct odd
{
  template<typename X> bool operator()(const X& x)const{return x(1)%2==0;}
};

static const char* opn[]={"traverse","local","typed","segments","segment",
  "sizes","is_registered","equal","copy","assign_from","algorithms",
  "insert_from","get_allocator"};
constexpr int NOPS=13;

template<typename T>
static std::string exec(int op,int form,const coll& c,const coll& d,rng& g)
{
  auto& ti=info<T>(form);
  long s=0;
  std::string r;
  try{
    switch(op){
      case 0:for(auto& x:c)s+=x(0);
             for(auto it=c.cbegin();it!=c.cend();++it)s+=(*it)(0);
             break;
      case 1:for(auto it=c.begin(ti),e=c.end(ti);it!=e;++it)s+=(*it)(0);
             for(auto it=c.cbegin(ti),e=c.cend(ti);it!=e;++it)s+=(*it)(0);
             break;
      case 2:if(form==0)for(auto it=c.template begin<T>();it!=c.template end<T>();++it)s+=it->v;
             else for(auto it=c.template cbegin<T>();it!=c.template cend<T>();++it)s+=it->v;
             break;
      case 3:for(auto x:c.segment_traversal()){
               s+=(long)(x.type_info()==ti);
               for(auto& y:x)s+=y(0);
             }
             break;
      case 4:if(form==0)for(auto& x:c.template segment<T>())s+=x.v;
             else for(auto& x:c.segment(ti))s+=x(0);
             break;
      case 5:s+=(long)c.size()+c.empty();
             if(form==0)s+=(long)(c.template size<T>()+c.template empty<T>()+c.template capacity<T>()+(c.template max_size<T>()>0));
             else s+=(long)(c.size(ti)+c.empty(ti)+c.capacity(ti)+(c.max_size(ti)>0));
             break;
      case 6:s+=form==0?c.template is_registered<T>():c.is_registered(ti);break;
      case 7:s+=(c==d)+2*(d==c)+4*(c!=d)+8*(c==c);break;
      case 8:{coll e(c,A{mine});s+=(long)e.size();break;}
      case 9:{coll e(A{mine});e.template emplace<T>(1);e=c;s+=(long)e.size();break;}
      case 10:{
        namespace pc=boost::poly_collection;
        pc::for_each<T>(c.begin(),c.end(),sum{&s});
        pc::for_each(c.begin(),c.end(),sum{&s});
        s+=pc::count_if<T,E<0>>(c.begin(),c.end(),odd{});
        s+=pc::find_if<T>(c.begin(),c.end(),odd{})!=c.end();
        s+=pc::all_of<T>(c.cbegin(),c.cend(),odd{});
        break;
      }
      case 11:{
        coll e(A{mine});
        e.template register_types<E<0>,E<1>,E<2>,E<3>,E<4>,E<5>>();
        e.insert(c.begin(),c.end());
        s+=(long)e.size();
        if(c.is_registered(ti)){e.insert(c.begin(ti),c.end(ti));s+=(long)e.size();}
        break;
      }
      default:s+=c.get_allocator().id;
    }
  }
  catch(const boost::poly_collection::unregistered_type& e){r="unreg";s=*e.pinfo==typeid(T);}
  return r+":"+std::to_string(s);
}

int main(int,char** argv)
{
  FILE* f=std::fopen(argv[1],"w");
  unsigned seed=(unsigned)std::atoi(argv[2]);
  int rounds=std::atoi(argv[3]);
  FILE* cur=std::fopen(argv[4],"w");
  for(auto& r:R)r=new region;
  struct sigaction sa;
  std::memset(&sa,0,sizeof(sa));
  sa.sa_sigaction=on_segv;sa.sa_flags=SA_SIGINFO|SA_NODEFER;
  sigaction(SIGSEGV,&sa,nullptr);sigaction(SIGBUS,&sa,nullptr);
  auto putv=[&](const std::vector<int>& v){
    std::fputc('[',f);for(std::size_t i=0;i<v.size();++i)std::fprintf(f,i?",%d":"%d",v[i]);std::fputc(']',f);};
  for(int n=0;n<rounds;++n){
    alarm(60);
    rng g(seed*1000003u+(unsigned)n);
    R[0]->used=R[1]->used=0;
    coll* c=new (R[0]->get(sizeof(coll),alignof(coll))) coll(A{0});
    coll* d=new (R[1]->get(sizeof(coll),alignof(coll))) coll(A{1});
    mutate(g,*d,*c,(int)pick(g,8));
    if(pick(g,3)==0)*c=*d;
    if(pick(g,8)==0){R[2]->used=0;coll e(A{2});mutate(g,e,*d,10);*c=std::move(e);}
    mutate(g,*c,*d,(int)pick(g,25));
#ifdef THREADS
    {
      auto d0=digest(*c);auto e0=digest(*d);
      std::vector<std::thread> th;
      unsigned s0=(unsigned)g();
      for(int i=0;i<3;++i)th.emplace_back([&,i]{
        mine=3+i;
        rng h(s0+(unsigned)i);
        for(int k=0;k<12;++k){
          R[mine]->used=0;
          int op=(int)pick(h,NOPS),t=(int)pick(h,NT),form=(int)pick(h,3);
          with<0>(t,[&](auto* p){
            exec<typename std::remove_pointer<decltype(p)>::type>(op,form,*c,*d,h);});
        }
      });
      for(auto& t:th)t.join();
      auto d1=digest(*c);auto e1=digest(*d);
      std::fprintf(f,"{\"k\":\"ro\",\"op\":\"concurrent\",\"t\":0,\"form\":0,\"wr\":0,\"got\":\"\",\"want\":\"\",\"w\":\"seed %u round %d\",\"d0\":",seed,n);
      putv(d0);std::fputs(",\"d1\":",f);putv(d1);
      std::fputs(",\"e0\":",f);putv(e0);std::fputs(",\"e1\":",f);putv(e1);std::fputs("}\n",f);
    }
#else
    for(int k=0;k<6;++k){
      auto d0=digest(*c);auto e0=digest(*d);
      int op=(int)pick(g,NOPS),t=(int)pick(g,NT),form=(int)pick(g,4);
      R[2]->used=R[3]->used=0;
      rng h=g;
      std::string want,got;
      std::rewind(cur);std::fprintf(cur,"seed %u round %d op %s type %d form %d          \n",seed,n,opn[op],t,form);std::fflush(cur);
      /* reference result on a private copy, then the protected one */
      R[0]->lock();R[1]->lock();
      writes=0;
      with<0>(t,[&](auto* p){
        got=exec<typename std::remove_pointer<decltype(p)>::type>(op,form,*c,*d,h);});
      int w1=writes;
      R[0]->unlock();R[1]->unlock();R[3]->used=0;
      rng h2=g;
      with<0>(t,[&](auto* p){
        want=exec<typename std::remove_pointer<decltype(p)>::type>(op,form,*c,*d,h2);});
      auto d1=digest(*c);auto e1=digest(*d);
      std::fprintf(f,"{\"k\":\"ro\",\"op\":\"%s\",\"t\":%d,\"form\":%d,\"wr\":%d,\"got\":\"%s\",\"want\":\"%s\",\"w\":\"seed %u round %d\",\"d0\":",
        opn[op],t,form,w1,got.c_str(),want.c_str(),seed,n);
      putv(d0);std::fputs(",\"d1\":",f);putv(d1);
      std::fputs(",\"e0\":",f);putv(e0);std::fputs(",\"e1\":",f);putv(e1);std::fputs("}\n",f);
      mutate(g,*c,*d,(int)pick(g,4));
    }
#endif
    c->~coll();d->~coll();
  }
  std::fclose(f);
  std::fprintf(stderr,"done\n");
}
