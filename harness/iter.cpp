/* Exercises the iterators of a collection as cursors: every operation of the
 * category of each kind of iterator, from every position, with every
 * argument, and every way of traversing. Answers are logged (without
 * repetition) and validated by spec/CursorTrace.tla.
 *
 * iter out seed episodes cur
 * KIND 0 base_collection, 1 function_collection, 2 any_collection
 */
#include <boost/poly_collection/base_collection.hpp>
#include <boost/poly_collection/function_collection.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/call.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/mpl/vector.hpp>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <iterator>
#include <random>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <vector>

using ints=std::vector<long>;

/* ids are 1000*type+index */

#if KIND==0
struct base{virtual ~base()=default;virtual int id()const=0;};
struct other{virtual ~other()=default;char c[13]={0};};
#define BODY(T) int n;explicit T(int n_):n{n_}{} int id()const override{return n;}
struct E0:base{BODY(E0)};
struct E1:other,base{BODY(E1)};
struct E2 final:base{BODY(E2) char big[70000];};
struct alignas(64) E3:other,base{BODY(E3)};
struct E4:E0{char more=1;explicit E4(int n_):E0{n_}{}};
using coll=boost::base_collection<base>;
using value_type=base;
static int pid(const value_type& x){return x.id();}
template<typename T> static int tid(const T& x){return x.n;}
#elif KIND==1
#define BODY(T) int n;explicit T(int n_):n{n_}{} int operator()(int x)const{return n+x;}
struct E0{BODY(E0)};
struct E1 final{BODY(E1) char big[70000];};
struct alignas(64) E2{BODY(E2)};
struct E3:E0{double d=0;explicit E3(int n_):E0{n_}{}};
struct E4{short n;explicit E4(int n_):n(short(n_)){}int operator()(int x)const{return n+x;}};
using coll=boost::function_collection<int(int)>;
using value_type=coll::value_type;
static int pid(const value_type& x){return x(0);}
template<typename T> static int tid(const T& x){return x.n;}
#else
namespace te=boost::type_erasure;
template<typename T> int id_of(const T& x){return x.n;}
inline int id_of(int x){return x;}
inline int id_of(double x){return int(x);}
template<typename C,typename T> int id_of(const te::any<C,T>&);
template<typename T=te::_self>
struct c_id{static int apply(const T& x){return id_of(x);}};
template<typename C,typename T> int id_of(const te::any<C,T>& x){return te::call(c_id<>{},x);}
using concept_=boost::mpl::vector<c_id<>,te::copy_constructible<>,te::relaxed,te::typeid_<>>;
using E0=int;
struct E1{int n;explicit E1(int n_):n{n_}{}char big[70000];};
struct alignas(64) E2 final{int n;explicit E2(int n_):n{n_}{}};
using E3=double;
struct E4{short n;explicit E4(int n_):n(short(n_)){}};
using coll=boost::any_collection<concept_>;
using value_type=coll::value_type;
static int pid(const value_type& x){return te::call(c_id<>{},x);}
template<typename T> static int tid(const T& x){return id_of(x);}
#endif
constexpr int NT=5;
template<typename T> struct tag{using type=T;};
template<typename F> static void with_type(int t,F f)
{
  switch(t){
    case 0:f(tag<E0>{});break;case 1:f(tag<E1>{});break;
    case 2:f(tag<E2>{});break;case 3:f(tag<E3>{});break;
    default:f(tag<E4>{});
  }
}

static FILE *out,*cur;
using rec=std::tuple<std::string,int,long,long,long,ints>;
static std::set<rec> seen;
static int kind_;
static long n_;
static void put(const char* op,long p,long q,ints r)
{
  rec x{op,kind_,n_,p,q,r};
  if(!seen.insert(x).second)return;
  std::string s;
  for(long v:r)s+=(s.empty()?"":",")+std::to_string(v);
  std::fprintf(out,"{\"op\":\"%s\",\"k\":%d,\"n\":%ld,\"p\":%ld,\"q\":%ld,\"r\":[%s]}\n",
    op,kind_,n_,p,q,s.c_str());
}
static void at(const char* what){alarm(30);std::rewind(cur);std::fprintf(cur,"kind %d n %ld %-20s\n",kind_,n_,what);std::fflush(cur);}

static long off[NT];                     /* flat position of each segment */
static long flat(int id){return id<0||id/1000>=NT?-2:off[id/1000]+id%1000;}

/* index read through an iterator, relative to the range */
template<bool Global> struct reader
{
  static long get(const value_type& x,std::true_type)
  {int i=pid(x);return Global?flat(i):i%1000;}
  template<typename T> static long get(const T& x,std::false_type){return tid(x)%1000;}
  template<typename T> static long read(const T& x)
  {return get(x,std::is_same<T,value_type>{});}
};

/* with long segments, some positions only */
static bool sel(long p,long n){return n<=12||p<=1||p>=n-1||p==n/2||(p*7919+n)%97==0;}
template<typename It> static It upto(It first,long p){while(p-->0)++first;return first;}

template<typename It,bool Global> struct laws
{
  It first,last;long n;
  using R=reader<Global>;
  long pos(It x)const
  {
    long k=0;
    for(It y=first;;++y,++k){
      if(y==x)return k;
      if(k>=n)return -3;
    }
  }
  ints see(It x)const
  {
    long k=pos(x);
    return {k,k<0||k==n?-1:R::read(*x)};
  }
  ints see2(It x,It y)const{ints a=see(x),b=see(y);a.insert(a.end(),b.begin(),b.end());return a;}
  static ints b(bool x){return {x?1:0};}

  void forward()const
  {
    at("forward");
    put("dflt",0,0,b(It{}==It{}));
    put("dist",n,0,{(long)std::distance(first,last)});
    for(long p=0;p<=n;++p)if(sel(p,n)){
      const It i=upto(first,p);
      put("copy",p,0,see(It(i)));
      put("dist",p,0,{(long)std::distance(first,i)});
      if(p<n){
        put("der",p,0,{R::read(*i)});
        put("arrow",p,0,{R::read(*i.operator->())});
        {It j=i;It& k=++j;put("inc",p,0,see2(j,k));}
        {It j=i;It k=j++;put("incp",p,0,see2(j,k));}
        {It j=i;auto&& x=*j++;ints r=see(j);r.push_back(R::read(x));put("incd",p,0,r);}
      }
      for(long q=0;q<=n;++q)if(sel(q,n)){
        const It j=upto(first,q);
        put("eq",p,q,b(i==j));put("ne",p,q,b(i!=j));
        if(q>=p)put("next",p,q-p,see(std::next(i,q-p)));
        {It k=i;It& l=(k=j);put("assign",p,q,see2(k,l));}
        {It k=i,l=j;using std::swap;swap(k,l);put("swap",p,q,see2(k,l));}
      }
    }
  }
  void random()const
  {
    at("random");
    put("cat",0,0,b(std::is_base_of<std::random_access_iterator_tag,
      typename std::iterator_traits<It>::iterator_category>::value));
    for(long p=0;p<=n;++p)if(sel(p,n)){
      const It i=upto(first,p);
      if(p>0){
        {It j=i;It& k=--j;put("dec",p,0,see2(j,k));}
        {It j=i;It k=j--;put("decp",p,0,see2(j,k));}
        put("prev",p,0,see(std::prev(i)));
        put("rev",p,0,{R::read(*std::reverse_iterator<It>(i))});
      }
      for(long q=0;q<=n;++q)if(sel(q,n)){
        const It j=upto(first,q);
        const long d=q-p;
        put("lt",p,q,b(i<j));put("le",p,q,b(i<=j));
        put("gt",p,q,b(i>j));put("ge",p,q,b(i>=j));
        put("diff",p,q,{(long)(i-j)});
        put("add",p,d,see(i+d));put("radd",p,d,see(d+i));
        {It k=i;It& l=(k+=d);put("addeq",p,d,see(l));put("addeq",p,d,see(k));}
        put("add",p,d,see(i+int(d)));
        {It k=i;std::advance(k,d);put("adv",p,d,see(k));}
        put("sub",p,-d,see(i-(-d)));
        {It k=i;It& l=(k-=-d);put("subeq",p,-d,see(l));put("subeq",p,-d,see(k));}
        if(q<n){
          put("idx",p,d,{R::read(i[d])});
          put("idx",p,d,{R::read(i[int(d)])});
        }
      }
    }
  }
  /* conversion from It2, and comparisons with it */
  template<typename It2> void from(const laws<It2,Global>& o,std::true_type)const
  {
    at("conversion");
    for(long p=0;p<=n;++p)if(sel(p,n)){
      const It2 i=upto(o.first,p);
      {It x=i;put("cvt",p,0,see(x));}
      {It x{};x=i;put("cvta",p,0,see(x));}
      for(long q=0;q<=n;++q)if(sel(q,n)){
        const It j=upto(first,q);
        put("eq",p,q,b(i==j));put("ne",p,q,b(i!=j));
        put("eq",q,p,b(j==i));put("ne",q,p,b(j!=i));
      }
    }
  }
  template<typename It2> void compare(const laws<It2,Global>& o)const
  {
    for(long p=0;p<=n;++p)for(long q=0;q<=n;++q)if(sel(p,n)&&sel(q,n)){
      const It2 i=upto(o.first,p);const It j=upto(first,q);
      put("lt",p,q,b(i<j));put("le",p,q,b(i<=j));put("gt",p,q,b(i>j));put("ge",p,q,b(i>=j));
      put("lt",q,p,b(j<i));put("gt",q,p,b(j>i));
      put("diff",p,q,{(long)(i-j)});put("diff",q,p,{(long)(j-i)});
    }
  }
  template<typename It2> void from(const laws<It2,Global>& o,std::false_type)const
  {
    at("explicit conversion");
    for(long p=0;p<=n;++p)if(sel(p,n))put("cvt",p,0,see(It(upto(o.first,p))));
  }
};
template<bool G,typename It> laws<It,G> make(It f,It l,long n){return {f,l,n};}

template<bool G,typename It> static void trav(It f,It l,const char*)
{
  ints r;long k=0;
  for(;f!=l&&k<=n_;++f,++k)r.push_back(reader<G>::read(*f));
  put("trav",0,0,r);
}

/* traversals by segments, with the segments concatenated */
template<typename Rng> static ints cat(Rng f)
{
  ints r;
  f([&](auto b,auto e){
    long k=0;
    for(;b!=e&&k<=n_;++b,++k){
      using V=typename std::decay<decltype(*b)>::type;
      long id;
      if constexpr(std::is_same<V,value_type>::value)id=pid(*b);else id=tid(*b);
      r.push_back(flat((int)id));
    }
  });
  return r;
}

static void check(coll& c,const std::vector<int>& len)
{
  const coll& cc=c;
  /* order of segments */
  std::vector<int> order;
  for(auto s:cc.segment_traversal())
    for(int t=0;t<NT;++t)with_type(t,[&](auto g){
      if(s.type_info()==typeid(typename decltype(g)::type))order.push_back(t);});
  long total=0;
  for(int t:order){off[t]=total;total+=len[t];}
  auto each=[&](auto f){for(int t:order)with_type(t,f);};
  n_=total;

  kind_=0;auto G0=make<true>(c.begin(),c.end(),total);G0.forward();
  kind_=1;auto G1=make<true>(cc.begin(),cc.end(),total);G1.forward();
  kind_=6;G1.from(G0,std::true_type{});

  /* whole traversals */
  kind_=20;at("traversal");
  trav<true>(c.begin(),c.end(),"");trav<true>(cc.begin(),cc.end(),"");
  trav<true>(c.cbegin(),c.cend(),"");trav<true>(cc.cbegin(),cc.cend(),"");
  trav<true>(coll::const_iterator(c.begin()),cc.end(),"");
  {ints r;for(auto& x:c)r.push_back(flat(pid(x)));put("trav",0,0,r);}
  kind_=21;
  put("trav",0,0,cat([&](auto f){for(auto s:c.segment_traversal())f(s.begin(),s.end());}));
  put("trav",0,0,cat([&](auto f){for(auto s:cc.segment_traversal())f(s.begin(),s.end());}));
  put("trav",0,0,cat([&](auto f){for(auto s:c.segment_traversal())f(s.cbegin(),s.cend());}));
  put("trav",0,0,cat([&](auto f){auto t=cc.segment_traversal();
    for(auto i=t.cbegin();i!=t.cend();i++)f(i->begin(),i->end());}));
  put("trav",0,0,cat([&](auto f){auto t=c.segment_traversal();
    for(auto i=t.begin();i!=t.end();){auto s=*i++;f(s.begin(),s.end());}}));
  put("trav",0,0,cat([&](auto f){auto t=c.segment_traversal();
    for(coll::const_base_segment_info_iterator i=t.begin();i!=t.cend();++i)f(i->cbegin(),i->cend());}));
  put("trav",0,0,cat([&](auto f){auto t=c.segment_traversal();
    coll::const_base_segment_info_iterator i,e;i=t.begin();e=t.end();
    for(;i!=e;++i)f(i->begin(),i->end());}));
  kind_=22;
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;f(c.begin(typeid(T)),c.end(typeid(T)));});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;f(cc.begin(typeid(T)),cc.end(typeid(T)));});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;f(c.cbegin(typeid(T)),c.cend(typeid(T)));});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;f(c.template begin<T>(),c.template end<T>());});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;f(cc.template begin<T>(),cc.template end<T>());});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;f(c.template cbegin<T>(),c.template cend<T>());});}));
  kind_=23;
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;auto s=c.segment(typeid(T));f(s.begin(),s.end());});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;auto s=cc.segment(typeid(T));f(s.begin(),s.end());});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;auto s=c.segment(typeid(T));
    f(s.template begin<T>(),s.template end<T>());});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;auto s=cc.segment(typeid(T));
    f(s.template begin<T>(),s.template end<T>());});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;auto s=c.segment(typeid(T));
    f(s.template cbegin<T>(),s.template cend<T>());});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;auto s=c.template segment<T>();f(s.begin(),s.end());});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;auto s=cc.template segment<T>();f(s.begin(),s.end());});}));
  put("trav",0,0,cat([&](auto f){each([&](auto g){
    using T=typename decltype(g)::type;auto s=c.template segment<T>();f(s.cbegin(),s.cend());});}));

  /* local iterators */
  each([&](auto g){
    using T=typename decltype(g)::type;
    long n=n_=cc.template size<T>();
    using LB=coll::local_base_iterator;using CLB=coll::const_local_base_iterator;
    using L=coll::local_iterator<T>;using CL=coll::const_local_iterator<T>;
    auto lb=make<false>(c.begin(typeid(T)),c.end(typeid(T)),n);
    auto clb=make<false>(cc.begin(typeid(T)),cc.end(typeid(T)),n);
    auto l=make<false>(c.template begin<T>(),c.template end<T>(),n);
    auto cl=make<false>(cc.template begin<T>(),cc.template end<T>(),n);
    kind_=2;lb.forward();lb.random();
    kind_=3;clb.forward();clb.random();
    kind_=4;l.forward();l.random();
    kind_=5;cl.forward();cl.random();
    std::true_type imp;std::false_type exp;
    kind_=7;clb.from(lb,imp);clb.compare(lb);
    kind_=8;cl.from(l,imp);cl.compare(l);
    kind_=9;l.from(lb,exp);cl.from(lb,exp);cl.from(clb,exp);
    kind_=10;lb.from(l,exp);clb.from(l,exp);clb.from(cl,exp);
    (void)(LB*)0;(void)(CLB*)0;(void)(L*)0;(void)(CL*)0;
    /* mutable access to a segment through standard algorithms */
    kind_=11;at("reverse and sort");
    auto ids=[&]{ints r;for(auto i=c.template begin<T>();i!=c.template end<T>();++i)r.push_back(tid(*i)%1000);return r;};
    std::reverse(c.template begin<T>(),c.template end<T>());
    put("reverse",0,0,ids());
    std::sort(c.template begin<T>(),c.template end<T>(),[](const T& x,const T& y){return tid(x)<tid(y);});
    put("sort",0,0,ids());
    std::reverse(c.segment(typeid(T)).template begin<T>(),c.segment(typeid(T)).template end<T>());
    std::sort(c.template begin<T>(),c.template end<T>(),[](const T& x,const T& y){return tid(x)<tid(y);});
    put("sort",0,0,ids());
  });
}

int main(int argc,char** argv)
{
  if(argc<5)return 2;
  out=std::fopen(argv[1],"w");cur=std::fopen(argv[4],"w");
  if(!out||!cur)return 2;
  std::fprintf(out,"{\"op\":\"hdr\",\"kind\":%d}\n",KIND);
  std::mt19937 r(std::atoi(argv[2]));
  int eps=std::atoi(argv[3]);
  /* every arrangement of lengths 0..2 over the first three types,
   * then random ones */
  auto run=[&](std::vector<int> len,std::vector<int> reg){
    coll c;
    std::vector<int> ord={0,1,2,3,4};
    std::shuffle(ord.begin(),ord.end(),r);
    for(int t:ord)with_type(t,[&](auto g){
      using T=typename decltype(g)::type;
      if(reg[t]||len[t])c.template register_types<T>();
      if(r()%2)c.template reserve<T>(len[t]+r()%3);
      const int n=len[t];
      switch(r()%5){
        case 0: /* from the back to the front */
          for(int k=n;k--;)c.template emplace_pos<T>(c.template begin<T>(),1000*t+k);
          break;
        case 1: /* even ones first, then the rest in between */
          for(int k=0;k<n;k+=2)c.template emplace<T>(1000*t+k);
          for(int k=1;k<n;k+=2)c.template emplace_pos<T>(c.template begin<T>()+k,1000*t+k);
          break;
        case 2: /* with others erased afterwards */
          for(int k=0;k<n;++k){c.template emplace<T>(1000*t+999);c.template emplace<T>(1000*t+k);}
          for(int k=0;k<n;++k)c.erase(c.template begin<T>()+k);
          break;
        case 3:{
          std::vector<T> v;
          for(int k=0;k<n;++k)v.push_back(T(1000*t+k));
          c.insert(v.begin(),v.end());
          break;
        }
        default:
          for(int k=0;k<n;++k)c.template emplace<T>(1000*t+k);
      }
    });
    for(int t=0;t<NT;++t)if(len[t]==0)with_type(t,[&](auto g){
      c.template register_types<typename decltype(g)::type>();});
    /* iterators obtained from operations go on to the end like any other */
    kind_=30;at("returned iterators");
    auto chk=[&](coll::const_iterator it){
      long p=0,n=n_=(long)c.size();
      for(auto i=c.cbegin();p<n&&i!=it;++i)++p;
      long d=0;
      for(;it!=c.cend()&&d<=n;++it)++d;
      put("dist",n-p,0,{d});
    };
    for(int t=0;t<NT;++t)with_type(t,[&](auto g){
      using T=typename decltype(g)::type;
      auto h=c.begin();
      for(long k=c.empty()?0:(long)(r()%c.size());k--;)++h;
      auto go=[&](coll::iterator it){chk(it);auto e=c.erase(it);chk(e);return e;};
      go(c.template emplace<T>(1000*t));
      h=go(c.template emplace_hint<T>(c.begin(),1000*t));
      go(c.template emplace_hint<T>(c.end(),1000*t));
      h=go(c.insert(T(1000*t)));
      go(c.insert(h,T(1000*t)));
      {T x(1000*t);go(c.insert(c.begin(),x));go(c.insert(x));}
      chk(c.erase(h,h));chk(c.erase(c.end(),c.end()));
      /* erasing from the first element of the type on, in a copy */
      coll d(c);
      std::swap(c,d);
      auto f=c.begin();
      for(long k=c.empty()?0:(long)(r()%c.size());k--;)++f;
      auto l=f;
      for(long k=(long)(r()%4);k--&&l!=c.end();)++l;
      chk(c.erase(f,l));
      std::swap(c,d);
    });
    switch(r()%4){
      case 0:{coll d(c);check(d,len);break;}
      case 1:{coll d(std::move(c));check(d,len);break;}
      case 2:{coll d;d.template register_types<E1>();swap(c,d);check(d,len);break;}
      default:check(c,len);
    }
  };
  for(int a=0;a<3;++a)for(int b=0;b<3;++b)for(int d=0;d<3;++d)
    run({a,b,d,0,0},{1,0,1,0,0});
  run({0,0,0,0,0},{0,0,0,0,0});
  for(int e=0;e<eps;++e){
    std::vector<int> len(NT);
    for(auto& x:len)x=r()%3==0?0:r()%(e%4==0?12:5);
    run(len,{0,1,0,1,0});
  }
  for(int e=0;e<2+eps/50;++e){
    std::vector<int> len(NT);
    for(auto& x:len)x=r()%3==0?0:r()%3;
    int t=r()%NT;
    with_type(t,[&](auto g){if(sizeof(typename decltype(g)::type)<1000)len[t]=260+r()%200;});
    run(len,{0,1,0,1,0});
  }
  std::fclose(out);
  std::fprintf(stderr,"done\n");
}
