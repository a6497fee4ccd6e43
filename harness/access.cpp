/* Elements reached through every access path, for many layouts of classes
 * (KIND 0), signatures of callables (KIND 1, SIG) and concepts (KIND 2, SIG).
 * usage: prog out seed episodes cur
 * Every element has a state n; using it with x adds x to n (types that hold
 * no state excepted) and yields 10*(n+x)+type. */
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <vector>
#include <boost/poly_collection/algorithm.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/poly_collection/base_collection.hpp>
#include <boost/poly_collection/function_collection.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/call.hpp>
#include <boost/type_erasure/typeid_of.hpp>

#ifndef SIG
#define SIG 0
#endif

using ints=std::vector<long>;

static int tok(const void* p)
{
  static std::map<const void*,int> m;
  return m.insert({p,(int)m.size()+1}).first->second;
}

/* argument whose copies are counted */
static long ncopies;
struct tr
{
  int v;
  explicit tr(int n):v{n}{}
  tr(const tr& x):v{x.v}{++ncopies;}
  tr(tr&& x)noexcept:v{x.v}{x.v=-1000;}
  tr& operator=(const tr& x){v=x.v;++ncopies;return *this;}
  tr& operator=(tr&& x)noexcept{v=x.v;x.v=-1000;return *this;}
};
static const void* arg_at;  /* where the callee found its argument */

/* ---------------------------------------------------------------- elements */

#if KIND==0

struct base
{
  virtual ~base()=default;
  virtual int use(int)=0;
  virtual int peek()const=0;
};
struct pad1{virtual ~pad1()=default;virtual int p1(){return 1;}char c[5]={1};};
struct pad2{char d[40]={2};};
#define BODY(T,Id)                                                            \
  static constexpr int id=Id;                                                 \
  int n;                                                                      \
  explicit T(int n_):n{n_}{}                                                  \
  int use(int x)override{n+=x;return n*10+id;}                                \
  int peek()const override{return n;}
struct E0:base{BODY(E0,0)};
struct E1:pad1,base{BODY(E1,1)};
struct V1:pad1,base{int a=1;};
struct E2:pad2,V1{BODY(E2,2)};
struct pad3{virtual ~pad3()=default;};
struct pad3b{virtual ~pad3b()=default;double d=1;};
struct V2:virtual pad3,V1{int b=2;};
struct E3:virtual pad2,V2,pad3b{BODY(E3,3)};
struct E4 final:pad2,pad1,base{BODY(E4,4)};
struct E5:E0
{
  static constexpr int id=5;
  explicit E5(int n_):E0{n_}{}
  int use(int x)override{n+=x;return n*10+5;}
  char more[33]={0};
};
struct alignas(128) E6:base{BODY(E6,6)};
/* other members of the hierarchy overload operators */
struct E7:base
{
  BODY(E7,7)
  void* operator&(){return nullptr;}
  const void* operator&()const{return nullptr;}
  bool operator==(const E7& x)const{return n==x.n;}
};
constexpr int NT=8;
template<int> struct type_of_;
template<> struct type_of_<0>{using type=E0;};
template<> struct type_of_<1>{using type=E1;};
template<> struct type_of_<2>{using type=E2;};
template<> struct type_of_<3>{using type=E3;};
template<> struct type_of_<4>{using type=E4;};
template<> struct type_of_<5>{using type=E5;};
template<> struct type_of_<6>{using type=E6;};
template<> struct type_of_<7>{using type=E7;};
constexpr bool stateless(int){return false;}
using coll=boost::base_collection<base>;
template<typename T> T make(int n){return T(n);}
template<typename T> int peek(const T& x){return x.peek();}

#elif KIND==1

#if SIG==0
using R=int;using A=int;
#elif SIG==1
using R=int;using A=tr;
#elif SIG==2
using R=int;using A=const tr&;
#elif SIG==3
using R=int;using A=tr&&;
#elif SIG==4
using R=long;using A=tr&;
#elif SIG==5
using R=tr&;using A=tr&;
#elif SIG==6
using R=void;using A=tr&;
#else
using R=std::unique_ptr<int>;using A=std::unique_ptr<int>;
#endif
using signature=R(A);

static int valof(int x){return x;}
static int valof(const tr& x){arg_at=&x;return x.v;}
static int valof(const std::unique_ptr<int>& x){return *x;}
/* what the callee does with its argument and the result */
#if SIG==0
static int finish(int& a,int r){return r;}
#elif SIG<=3
template<typename Q> static int finish(Q&& a,int r){return r;}
#elif SIG==4
static short finish(tr& a,int r){a.v=r;return (short)r;}
#elif SIG==5
static tr& finish(tr& a,int r){a.v=r;return a;}
#elif SIG==6
static int finish(tr& a,int r){a.v=r;return 12345;}
#else
static std::unique_ptr<int> finish(std::unique_ptr<int>& a,int r)
{auto p=std::move(a);*p=r;return p;}
#endif

struct F0
{
  int n;
  explicit F0(int n_):n{n_}{}
  decltype(auto) operator()(A a){n+=valof(a);return finish(a,n*10+0);}
};
struct F1 final
{
  char pad[9]={0};
  int n;
  explicit F1(int n_):n{n_}{}
  decltype(auto) operator()(A a){n+=valof(a);return finish(a,n*10+1);}
};
template<int V> static R fn(A a)
{
#if SIG==6
  finish(a,(V+valof(a))*10+2);
#else
  return finish(a,(V+valof(a))*10+2);
#endif
}
using F2=R(*)(A);
struct alignas(64) F3
{
  int n;
  explicit F3(int n_):n{n_}{}
  decltype(auto) operator()(A a){n+=valof(a);return finish(a,n*10+3);}
  char big[200]={0};
  void* operator&(){return nullptr;}
};
struct F4 /* move-only */
{
  std::unique_ptr<int> n;
  explicit F4(int n_):n{new int{n_}}{}
  decltype(auto) operator()(A a){*n+=valof(a);return finish(a,*n*10+4);}
};
struct F5_
{
  std::shared_ptr<int> n;
  R operator()(A a)
  {
    *n+=valof(a);
#if SIG==6
    finish(a,*n*10+5);
#else
    return finish(a,*n*10+5);
#endif
  }
};
using F5=std::function<R(A)>;
struct F6 /* const call operator */
{
  mutable int n;
  explicit F6(int n_):n{n_}{}
  decltype(auto) operator()(A a)const{n+=valof(a);return finish(a,n*10+6);}
};
constexpr int NT=7;
template<int> struct type_of_;
template<> struct type_of_<0>{using type=F0;};
template<> struct type_of_<1>{using type=F1;};
template<> struct type_of_<2>{using type=F2;};
template<> struct type_of_<3>{using type=F3;};
template<> struct type_of_<4>{using type=F4;};
template<> struct type_of_<5>{using type=F5;};
template<> struct type_of_<6>{using type=F6;};
constexpr bool stateless(int t){return t==2;}
using coll=boost::function_collection<signature>;
template<typename T> struct maker{static T get(int n){return T(n);}};
template<> struct maker<F2>
{static F2 get(int n){return n==1?fn<1>:n==2?fn<2>:n==3?fn<3>:fn<4>;}};
template<> struct maker<F5>
{static F5 get(int n){return F5_{std::make_shared<int>(n)};}};
template<typename T> T make(int n){return maker<T>::get(n);}
template<typename T> int peek(const T& x){return x.n;}
inline int peek(const F4& x){return *x.n;}
inline int peek(const F2& x){return x==fn<1>?1:x==fn<2>?2:x==fn<3>?3:4;}
inline int peek(const F5& x){return *x.target<F5_>()->n;}

#else

namespace te=boost::type_erasure;
template<typename T> int use_of(T& x,int d){return x.use(d);}
inline int use_of(int& x,int d){x+=d;return x*10+1;}
template<typename C,typename T> int use_of(te::any<C,T>&,int);
template<typename T=te::_self>
struct c_use{static int apply(T& x,int d){return use_of(x,d);}};
template<typename C,typename T> int use_of(te::any<C,T>& x,int d)
{return te::call(c_use<>{},x,d);}
#if SIG==0
using concept_=boost::mpl::vector<c_use<>>;
#elif SIG==1
using concept_=boost::mpl::vector<te::typeid_<>,c_use<>>;
#else
using concept_=boost::mpl::vector<c_use<>,te::relaxed,te::destructible<>>;
#endif
#define ABODY(T,Id)                                                           \
  int n;                                                                      \
  explicit T(int n_):n{n_}{}                                                  \
  int use(int x){n+=x;return n*10+Id;}
struct A0{ABODY(A0,0)};
using A1=int;
struct alignas(64) A2 final{ABODY(A2,2) char big[77]={0};};
struct A3:A0{explicit A3(int n_):A0{n_}{}int use(int x){n+=x;return n*10+3;}};
struct A4i{ABODY(A4i,4)};
/* an any without type information (te::relaxed would add it) is an element
 * in its own right */
using A4=te::any<boost::mpl::vector<
  te::copy_constructible<>,te::assignable<>,c_use<>>>;
struct A5{ABODY(A5,5) virtual ~A5()=default;void* operator&(){return nullptr;}};
constexpr int NT=6;
template<int> struct type_of_;
template<> struct type_of_<0>{using type=A0;};
template<> struct type_of_<1>{using type=A1;};
template<> struct type_of_<2>{using type=A2;};
template<> struct type_of_<3>{using type=A3;};
template<> struct type_of_<4>{using type=A4;};
template<> struct type_of_<5>{using type=A5;};
constexpr bool stateless(int){return false;}
using coll=boost::any_collection<concept_>;
/* owning any with type information: stands for what it contains */
using carrier=te::any<boost::mpl::vector<
  te::copy_constructible<>,te::typeid_<>,te::relaxed,c_use<>>>;
template<typename T> struct maker{static T get(int n){return T(n);}};
template<> struct maker<A4>{static A4 get(int n){return A4(A4i(n));}};
template<typename T> T make(int n){return maker<T>::get(n);}
template<typename T> int peek(const T& x){return x.n;}
inline int peek(const int& x){return x;}
inline int peek(const A4& x)
{
  /* no type information to look inside: use it with 0 */
  return (te::call(c_use<>{},const_cast<A4&>(x),0)-4)/10;
}

#endif

template<int N> using type_of=typename type_of_<N>::type;
using value_type=coll::value_type;

template<typename T> struct tag{using type=T;};
template<int N=0,typename F> void with_type(int t,F&& f)
{
  if(t==N)f(tag<type_of<N>>{});
  else if constexpr(N+1<NT)with_type<N+1>(t,std::forward<F>(f));
}
template<typename T,int N=0> struct t_of:std::conditional<
  std::is_same<T,type_of<N>>::value,std::integral_constant<int,N>,t_of<T,N+1>>::type{};
template<typename T> struct t_of<T,NT>:std::integral_constant<int,NT>{};
constexpr bool castable(int){return true;}
static const std::type_info& info_of(int t)
{
  const std::type_info* p=nullptr;
  with_type(t,[&](auto g){p=&typeid(typename decltype(g)::type);});
  return *p;
}

/* ------------------------------------------------- polymorphic access */

/* result, copies made of the argument, argument found where it was (1/0) */
#if KIND==0
static ints use_(value_type& x,int d,bool){return {x.use(d),0,1};}
template<typename T> static ints use_typed(T& x,int d,bool){return {x.use(d),0,1};}
static const std::type_info& pinfo(const value_type& x){return typeid(x);}
static const void* pwhere(const value_type& x){return dynamic_cast<const void*>(&x);}
#elif KIND==1
template<typename F> static ints use_fn(F&& x,int d,bool rv)
{
  ncopies=0;
#if SIG==0
  return {(long)x(d),0,1};
#elif SIG==1
  tr a{d};
  long r=rv?x(std::move(a)):x(a);
  return {r,ncopies,1};
#elif SIG==2
  tr a{d};
  long r=x(a);
  return {r,ncopies,arg_at==&a};
#elif SIG==3
  tr a{d};
  long r=x(std::move(a));
  return {r,ncopies,arg_at==&a};
#elif SIG==4
  tr a{d};
  long r=x(a);
  return {a.v==r?r:-1,ncopies,arg_at==&a};
#elif SIG==5
  tr a{d};
  tr& b=x(a);
  return {b.v,ncopies,arg_at==&a&&&b==&a};
#elif SIG==6
  tr a{d};
  x(a);
  return {a.v,ncopies,arg_at==&a};
#else
  std::unique_ptr<int> a{new int{d}};
  const int* p=a.get();
  auto r=x(std::move(a));
  return {*r,0,r.get()==p};
#endif
}
static ints use_(const value_type& x,int d,bool rv){return use_fn(x,d,rv);}
template<typename T> static ints use_typed(T& x,int d,bool rv)
{
  ints r=use_fn(x,d,rv);
  r[1]=SIG==1&&!rv; /* direct call: not about the library */
  return r;
}
static const std::type_info& pinfo(const value_type& x){return x.target_type();}
static const void* pwhere(const value_type& x){return x.data();}
#else
static ints use_(const value_type& x,int d,bool)
{return {te::call(c_use<>{},const_cast<value_type&>(x),d),0,1};}
template<typename T> static ints use_typed(T& x,int d,bool){return {c_use<T>::apply(x,d),0,1};}
inline ints use_typed(A4& x,int d,bool){return {te::call(c_use<>{},x,d),0,1};}
static const std::type_info& pinfo(const value_type& x){return te::typeid_of(x);}
static const void* pwhere(const value_type& x)
{return te::any_cast<const void*>(&x);}
#endif

/* ------------------------------------------------------------------ log */

static FILE *out,*cur;
static std::string js(const ints& v)
{
  std::string r="[";
  for(std::size_t i=0;i<v.size();++i){if(i)r+=",";r+=std::to_string(v[i]);}
  return r+"]";
}

/* what is seen: per type, values and addresses through typed access, and
 * discrepancies found when going through the other paths */
static std::string observe(coll& c)
{
  const coll& cc=c;
  std::string r="[";
  ints bad;
  std::map<const void*,int> where;
  for(int t=0;t<NT;++t)with_type(t,[&](auto g){
    using T=typename decltype(g)::type;
    ints e,a,pa;
    if(c.template is_registered<T>()){
      for(auto& x:c.template segment<T>()){
        const T* p=boost::addressof(x);
        e.push_back(peek(*p));a.push_back(tok(p));where[p]=t;
        volatile std::uintptr_t ad=(std::uintptr_t)p;
        if(ad%alignof(T))bad.push_back(1000+t);
      }
      long i=0;
      for(auto it=cc.begin(typeid(T));it!=cc.end(typeid(T));++it,++i){
        pa.push_back(tok(pwhere(*it)));
        if(pinfo(*it)!=typeid(T))bad.push_back(2000+t);
        /* conversion of local iterators to their typed counterparts */
        if constexpr(castable(t_of<T>::value)){
          auto lt=static_cast<typename coll::template const_local_iterator<T>>(it);
          if(i<(long)a.size()&&tok(boost::addressof(*lt))!=a[i])bad.push_back(3000+t);
          if(lt-cc.template begin<T>()!=i)bad.push_back(3100+t);
          auto bk=static_cast<typename coll::const_local_base_iterator>(lt);
          if(bk!=it)bad.push_back(3300+t);
        }
      }
      i=0;
      for(auto it=c.begin(typeid(T));it!=c.end(typeid(T));++it,++i){
        auto lt=c.template begin<T>()+i;
        if constexpr(castable(t_of<T>::value)){
          auto l2=static_cast<typename coll::template local_iterator<T>>(it);
          if(i<(long)a.size()&&tok(boost::addressof(*l2))!=a[i])bad.push_back(3200+t);
          auto l3=static_cast<typename coll::template const_local_iterator<T>>(it);
          if(l3!=l2||l2!=lt)bad.push_back(3400+t);
          auto bk=static_cast<typename coll::local_base_iterator>(l2);
          if(bk!=it)bad.push_back(3500+t);
        }
#if KIND==1
        const value_type& w=*it;
        if(!w)bad.push_back(4000+t);
        value_type v2=w;
        if(v2.template target<T>()!=w.data())bad.push_back(4100+t);
        if(w.template target<T>()!=pwhere(w))bad.push_back(4200+t);
        struct stranger{R operator()(A a);};
        if(w.template target<stranger>()||v2.template target<stranger>())bad.push_back(4300+t);
        with_type((t+1)%NT,[&](auto h){
          if(w.template target<typename decltype(h)::type>())bad.push_back(4400+t);});
#elif KIND==2
        const T* q=te::any_cast<const T*>(&*it);
        if(q!=pwhere(*it))bad.push_back(4000+t);
        try{
          T& q2=te::any_cast<T&>(const_cast<value_type&>(*it));
          if(boost::addressof(q2)!=pwhere(*it))bad.push_back(4100+t);
        }
        catch(te::bad_any_cast&){bad.push_back(4200+t);}
        struct stranger{};
        if(te::any_cast<const stranger*>(&*it))bad.push_back(4300+t);
#else
        if(dynamic_cast<T*>(&*it)!=boost::addressof(*lt))bad.push_back(4000+t);
        base* b=boost::addressof(*lt);
        if(b!=&*it)bad.push_back(4100+t);
#endif
      }
    }
    if(t)r+=",";
    r+="{\"e\":"+js(e)+",\"a\":"+js(a)+",\"pa\":"+js(pa)+"}";
  });
  /* global traversal reaches exactly these objects, with these types */
  ints g;
  for(auto& x:cc){
    auto w=where.find(pwhere(x));
    if(w==where.end()){g.push_back(-1);continue;}
    g.push_back(tok(w->first));
    if(pinfo(x)!=info_of(w->second))bad.push_back(5000+w->second);
  }
  return "\"S\":"+r+"],\"g\":"+js(g)+",\"bad\":"+js(bad);
}

static void log(const char* op,const ints& a,const ints& r,coll& c)
{
  std::fprintf(out,"{\"op\":\"%s\",\"a\":%s,\"r\":%s,%s}\n",op,js(a).c_str(),js(r).c_str(),observe(c).c_str());
  std::fflush(out);
}
static void at(const char* op,const ints& a)
{
  std::fseek(cur,0,SEEK_SET);
  std::fprintf(cur,"%s %s                              \n",op,js(a).c_str());
  std::fflush(cur);
}

/* ----------------------------------------------------------------- main */

int main(int argc,char** argv)
{
  if(argc<5)return 2;
  out=std::fopen(argv[1],"w");
  std::mt19937 rng(std::atoi(argv[2]));
  int eps=std::atoi(argv[3]);
  cur=std::fopen(argv[4],"w");
  if(!out||!cur)return 2;
  auto rnd=[&](int n){return int(rng()%n);};
  ints sl;
  for(int t=0;t<NT;++t)if(stateless(t))sl.push_back(t);
  std::fprintf(out,"{\"op\":\"hdr\",\"kind\":%d,\"sig\":%d,\"nt\":%d,\"sl\":%s}\n",KIND,SIG,NT,js(sl).c_str());
  for(int ep=0;ep<eps;++ep){
    auto pc=std::make_unique<coll>();
    log("new",{},{},*pc);
    int len=10+rnd(25);
    int only=rnd(3)?-1:rnd(NT);
    for(int k=0;k<len;++k){
      alarm(30);
      coll& c=*pc;
      int t=only>=0&&rnd(2)?only:rnd(NT);
      int what=rnd(20);
      with_type(t,[&](auto g){
        using T=typename decltype(g)::type;
        long n=c.template is_registered<T>()?(long)c.template size<T>():0;
        if(what<6||n==0){
          int v=1+rnd(4),form=rnd(4);
          at("put",{t,v,form});
          if constexpr(!std::is_copy_constructible<T>::value)form|=1;
          if(form==0){
            T x=make<T>(v);
            if constexpr(std::is_copy_constructible<T>::value)c.insert(x);
          }
          else if(form==1)c.insert(make<T>(v));
          else if(form==2){
            /* through a polymorphic reference */
            c.template register_types<T>();
            coll d;d.insert(make<T>(v));
            if constexpr(std::is_copy_constructible<T>::value)c.insert(*d.begin());
          }
          else{
#if KIND==2
            if constexpr(std::is_same<T,A4>::value)c.insert(make<T>(v));
            else{
              c.template register_types<T>();
              carrier x{make<T>(v)};
              if(rnd(2))c.insert(x);
              else{
                const carrier& y=x;
                c.insert(y);
              }
            }
#else
            c.template emplace<T>(make<T>(v));
#endif
          }
          log("put",{t,v,form},{},c);
        }
        else if(what<8){
          int i=rnd(n);
          at("del",{t,i});
          if(rnd(2))c.erase(c.template begin<T>()+i);else c.erase(c.begin(typeid(T))+i);
          log("del",{t,i},{},c);
        }
        else if(what<10){
          int m=rnd(9);
          at("cap",{t,m});
          if(m<7)c.template reserve<T>(m+n);
          else if(m==7)c.shrink_to_fit();
          else c.reserve(n+3);
          log("cap",{t,m},{},c);
        }
        else if(what==10){
          int m=rnd(4);
          at("mov",{m});
          if(m==0)pc=std::make_unique<coll>(std::move(c));
          else if(m==1){
            auto d=std::make_unique<coll>();
            d->insert(make<T>(3));
            *d=std::move(c);pc=std::move(d);
          }
          else if(m==2){
            auto d=std::make_unique<coll>();
            d->insert(make<T>(3));
            d->swap(c);pc=std::move(d);
          }
          else{ /* element by element */
            bool ok=true;
            auto d=std::make_unique<coll>();
            try{*d=c;}catch(boost::poly_collection::not_copy_constructible&){ok=false;}
#if KIND==1
            /* copies of a std::function share their state: leave them */
            if(c.template is_registered<F5>()&&c.template size<F5>())ok=false;
#endif
            if(ok)pc=std::move(d);
          }
          log("mov",{m},{},*pc);
        }
        else{
          int i=rnd(n),x=rnd(5),path=rnd(9);
          bool rv=rnd(2);
          ints a={t,i,x,path,rv,SIG};
          at("use",a);
          ints r;
          const coll& cc=c;
          long off=0;
          for(auto s:cc.segment_traversal()){
            if(s.type_info()==typeid(T))break;
            off+=s.end()-s.begin();
          }
          long flat=off+i;
          switch(path){
          case 0:r=use_(*std::next(c.begin(),flat),x,rv);break;
          case 1:r=use_(c.begin(typeid(T))[i],x,rv);break;
          case 2:r=use_typed(c.template begin<T>()[i],x,rv);break;
          case 3:{
            auto s=c.segment(typeid(T));
            r=use_(*(s.begin()+i),x,rv);
            break;
          }
          case 4:{
            long q=0;
            boost::poly_collection::for_each(c.begin(),c.end(),[&](auto& y){
              if(q++==flat)r=use_(y,x,rv);});
            break;
          }
          case 5:{
            long q=0;
            if constexpr(!castable(t_of<T>::value))r=use_typed(c.template begin<T>()[i],x,rv);
            else boost::poly_collection::for_each<T>(c.begin(),c.end(),[&](auto& y){
              if(q++==flat){
                if constexpr(std::is_same<std::remove_const_t<std::remove_reference_t<decltype(y)>>,T>::value)r=use_typed(y,x,rv);
                else r={-5,0,0};
              }});
            break;
          }
          case 6:{
#if KIND==1
            const value_type& w=*std::next(cc.begin(),flat);
            std::function<R(A)> f=w;
            r=use_fn(f,x,rv);
#else
            auto it=c.end(typeid(T))-(n-i);
            r=use_(*it,x,rv);
#endif
            break;
          }
          case 7:{
#if KIND==1
            r=use_(*std::next(cc.begin(),flat),x,rv);
#else
            auto it=c.segment(typeid(T)).begin();
            it+=i;
            r=use_(*it,x,rv);
#endif
            break;
          }
          default:{
            for(auto s:c.segment_traversal())if(s.type_info()==typeid(T)){
              auto it=s.template begin<T>();
              r=use_typed(*(it+i),x,rv);
            }
          }}
          log("use",a,r,c);
        }
      });
    }
  }
  std::fclose(out);
  return 0;
}
