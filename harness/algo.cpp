/* Runs the poly_collection algorithms over every small sequence, every
 * partition of it in segments and every subrange, and records the distinct
 * (algorithm, arguments, sequence, outcome) and (algorithm, argument,
 * requested types, element type, received type) tuples met.
 *
 * KIND 0 base_collection, 1 function_collection, 2 any_collection
 * TSL  list of restitution types     CST const iterators
 * ARENA segments are laid out one right after the other in memory
 */
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <map>
#include <unistd.h>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <boost/poly_collection/algorithm.hpp>
#include <boost/poly_collection/base_collection.hpp>
#include <boost/poly_collection/function_collection.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>

namespace A{

struct Arg{};
struct Val{int v;};           /* plain value to compare elements with */

#if KIND==0
struct base{virtual ~base()=default;virtual int operator()(Arg)const=0;};
#define BASE_ :base
#else
#define BASE_
#endif
struct other{virtual ~other()=default;char pad[9];};

template<int I> struct E BASE_
{
  static constexpr int id=I;
  E(int v,int u):e{v+16*u}{}
  int operator()(Arg)const{return e;}
  int e;
};
#if KIND==0
template<> struct E<1>:other,base
#else
template<> struct E<1>:other
#endif
{
  static constexpr int id=1;
  E(int v,int u):e{v+16*u}{}
  int operator()(Arg)const{return e;}
  int e;double d[3]={0};
};
template<> struct E<2> final BASE_
{
  static constexpr int id=2;
  E(int v,int u):e{v+16*u}{}
  int operator()(Arg)const{return e;}
  char c[5]={0};int e;
};
} /* namespace A */

namespace te=boost::type_erasure;

#ifndef ARENA
#define ARENA 0
#endif
alignas(64) static unsigned char arena[1<<16];
static std::size_t arena_n;
template<typename T> struct bump
{
  using value_type=T;
  bump()=default;
  template<typename U> bump(const bump<U>&){}
  T* allocate(std::size_t n)
  {
    arena_n=(arena_n+alignof(T)-1)/alignof(T)*alignof(T);
    T* r=(T*)(arena+arena_n);
    arena_n+=n*sizeof(T);
    if(arena_n>sizeof(arena))std::abort();
    return r;
  }
  void deallocate(T*,std::size_t){}
  friend bool operator==(const bump&,const bump&){return true;}
  friend bool operator!=(const bump&,const bump&){return false;}
};
#if ARENA
template<typename T> using al_of=bump<T>;
#else
template<typename T> using al_of=std::allocator<T>;
#endif

#if KIND==0
using coll=boost::base_collection<A::base,al_of<A::base>>;
#elif KIND==1
using coll=boost::function_collection<int(A::Arg),al_of<boost::
  poly_collection::function_collection_value_type<int(A::Arg)>>>;
#else
using concept_=boost::mpl::vector<te::callable<int(A::Arg),const te::_self>>;
using coll=boost::any_collection<concept_,al_of<
  boost::poly_collection::any_collection_value_type<concept_>>>;
#endif
using vtype=coll::value_type;
/* second ranges held in a collection, of the same type if ARENA==0 */
#if KIND==0
using coll2=boost::base_collection<A::base>;
#elif KIND==1
using coll2=boost::function_collection<int(A::Arg)>;
#else
using coll2=boost::any_collection<concept_>;
#endif
static_assert(std::is_same<coll2::value_type,vtype>::value,"");
constexpr int foreign=255;
using A::E;using A::Val;

template<typename X> using raw=typename std::remove_cv<
  typename std::remove_reference<X>::type>::type;
template<typename X> struct rid_:std::integral_constant<int,-2>{};
template<int I> struct rid_<E<I>>:std::integral_constant<int,I>{};
template<> struct rid_<vtype>:std::integral_constant<int,-1>{};
template<typename X> constexpr bool is_el(){return rid_<raw<X>>::value!=-2;}

template<typename X> int enc(const X& x){return x(A::Arg{});}
inline int enc(const Val& x){return x.v;}
template<typename X> int val(const X& x){return enc(x)&15;}
template<typename X> int uid(const X& x){return enc(x)>>4;}

/* ------------------------------------------------------------- recording */

static int cur_alg,cur_i,cur_j;       /* running algorithm and subrange */
static int utype[256];                 /* type of each element */
static bool oob;                      /* function object met a foreign element*/
static long calls;
static bool quiet_;                   /* elements come from both ranges */
static std::set<std::vector<int>> res_set;
static std::vector<int> ts_list;
static int ord_flag;

template<typename X>
void note(int arg)
{(void)arg;}
template<typename X>
void note(int arg,const raw<X>& x,bool cst)
{
  if constexpr(is_el<X>()){
    int u=uid(x);
    if(u==foreign||quiet_)return;
    if(u<cur_i||u>=cur_j){oob=true;return;}
    std::vector<int> k{cur_alg,arg,utype[u],rid_<raw<X>>::value,cst?1:0};
    static thread_local std::vector<int> last;
    if(k!=last){res_set.insert(k);last=k;}
  }
}
#define NOTE(arg,X,x)                                                         \
  note<X>(arg,x,std::is_const<typename std::remove_reference<X>::type>::value)

/* comparison without predicates */
namespace A{
template<typename X>
typename std::enable_if<is_el<X>(),bool>::type
operator==(const X& x,const Val& y)
{note<X>(10,x,CST);++calls;return val(x)==y.v;}
template<typename X>
typename std::enable_if<is_el<X>(),bool>::type
operator==(const Val& y,const X& x)
{note<X>(11,x,CST);++calls;return val(x)==y.v;}
template<typename X,typename Y>
typename std::enable_if<is_el<X>()&&is_el<Y>(),bool>::type
operator==(const X& x,const Y& y)
{note<X>(10,x,CST);note<Y>(11,y,CST);++calls;return val(x)==val(y);}
inline bool operator==(const Val& x,const Val& y){return x.v==y.v;}
}

struct up
{
  int k;
  template<typename X> bool operator()(X&& x)const
  {
    NOTE(0,X,x);++calls;
    int v=val(x);
    return k==0?v==1:k==1?v==0:k==2;
  }
};
struct bp
{
  int k;
  template<typename X,typename Y> bool operator()(X&& x,Y&& y)const
  {
    NOTE(0,X,x);NOTE(1,Y,y);++calls;
    int v=val(x),w=val(y);
    return k==0?v==w:k==1?v<=w:k==2?v<w:true;
  }
};
struct fe /* stateful */
{
  std::vector<int>* o;
  long n=0;
  template<typename X> void operator()(X&& x)
  {NOTE(0,X,x);++n;o->push_back(uid(x)-cur_i);}
};
struct uop
{
  template<typename X> Val operator()(X&& x)const
  {NOTE(0,X,x);++calls;return{val(x)+3};}
};
struct bop
{
  template<typename X,typename Y> Val operator()(X&& x,Y&& y)const
  {NOTE(0,X,x);NOTE(1,Y,y);++calls;return{val(x)*4+val(y)};}
};

/* output iterator: records what is written */
struct outit
{
  using iterator_category=std::output_iterator_tag;
  using value_type=void;using difference_type=std::ptrdiff_t;
  using pointer=void;using reference=void;
  std::vector<int>* o;
  long pos;
  bool rv;                       /* elements are expected as rvalues */
  outit& operator*(){return *this;}
  outit& operator++(){++pos;return *this;}
  outit operator++(int){auto r=*this;++pos;return r;}
  template<typename X,typename std::enable_if<
    !std::is_same<raw<X>,outit>::value>::type* =nullptr>
  outit& operator=(X&& x)
  {
    if constexpr(is_el<X>()){
      NOTE(20,X,x);
      o->push_back(std::is_lvalue_reference<X>::value==!rv?uid(x)-cur_i:-50);
    }
    else o->push_back(100+x.v);
    return *this;
  }
};

/* single-pass input iterator over values */
struct inseq{const std::vector<int>* q;std::size_t n=0;bool bad=false;};
struct init
{
  using iterator_category=std::input_iterator_tag;
  using value_type=Val;using difference_type=std::ptrdiff_t;
  using pointer=const Val*;using reference=Val;
  inseq* s;std::size_t k;        /* s==nullptr: end */
  Val operator*()const
  {
    if(k!=s->n||k>=s->q->size()){s->bad=true;return{9};}
    return{(*s->q)[k]};
  }
  init& operator++(){if(k!=s->n||k>=s->q->size())s->bad=true;++s->n;k=s->n;return *this;}
  struct prx{Val v;Val operator*()const{return v;}};
  prx operator++(int){prx r{**this};++*this;return r;}
  friend bool operator==(const init& x,const init& y){return x.at()==y.at();}
  friend bool operator!=(const init& x,const init& y){return !(x==y);}
  long at()const{return k==(std::size_t)-1?(long)s->q->size():(long)k;}
};

using vals=std::vector<Val>;
using ints=std::vector<int>;

struct tuple_rec{int alg;ints p,s,q,o;long c;std::string w;};
static std::unordered_set<std::uint64_t> seen;
static std::vector<tuple_rec> tuples;
static long ncalls;
static std::string witness;

static std::uint64_t mix(std::uint64_t h,std::uint64_t x)
{h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2);h*=0xff51afd7ed558ccdull;h^=h>>33;return h;}
static void record(const ints& p,const ints& s,const ints& q,ints o)
{
  if(oob){o.push_back(-77);}
  ++ncalls;
  std::uint64_t h=mix(cur_alg+1,calls);
  for(auto v:{&p,&s,&q,(const ints*)&o}){h=mix(h,v->size()+1000);for(int x:*v)h=mix(h,x+500);}
  if(seen.insert(h).second)tuples.push_back({cur_alg,p,s,q,o,calls,witness});
}

static const char* names[]={
 "all_of","any_of","none_of","for_each","for_each_n","find","find_if",
 "find_if_not","find_end","find_end_p","find_first_of","find_first_of_p",
 "adjacent_find","adjacent_find_p","count","count_if","mismatch3",
 "mismatch3_p","mismatch4","mismatch4_p","equal3","equal3_p","equal4",
 "equal4_p","is_permutation3","is_permutation3_p","is_permutation4",
 "is_permutation4_p","search","search_p","search_n","search_n_p",
 "copy","copy_n","copy_if","move","transform1","transform2","replace_copy",
 "replace_copy_if","remove_copy","remove_copy_if","unique_copy",
 "unique_copy_p","rotate_copy","sample","is_partitioned","partition_copy",
 "partition_point","sample_dist"};
enum{
 all_of_,any_of_,none_of_,for_each_,for_each_n_,find_,find_if_,
 find_if_not_,find_end_,find_end_p_,find_first_of_,find_first_of_p_,
 adjacent_find_,adjacent_find_p_,count_,count_if_,mismatch3_,
 mismatch3_p_,mismatch4_,mismatch4_p_,equal3_,equal3_p_,equal4_,
 equal4_p_,is_permutation3_,is_permutation3_p_,is_permutation4_,
 is_permutation4_p_,search_,search_p_,search_n_,search_n_p_,
 copy_,copy_n_,copy_if_,move_,transform1_,transform2_,replace_copy_,
 replace_copy_if_,remove_copy_,remove_copy_if_,unique_copy_,
 unique_copy_p_,rotate_copy_,sample_,is_partitioned_,partition_copy_,
 partition_point_,sample_dist_};

static std::vector<ints> shortq;      /* all sequences of length 0..3 */
static std::vector<ints> extraq;      /* more of them, for long sequences */
/* arguments used with long sequences: a few */
static bool pick(int k,int n){return n<=9||k<=1||k>=n-1||(unsigned)(k*37+n*11)%8==0;}
static int group=3;                   /* 1 queries, 2 copying, 3 both */
static std::set<int> only;            /* algorithms, if not all */

static vals to_vals(const ints& q){vals r;for(int x:q)r.push_back({x});return r;}

namespace pc=boost::poly_collection;

template<typename... Ts> struct list
{
  /* position of an iterator with respect to first */
  template<typename It>
  static int at(It first,const It& last,const It& x)
  {
    int n=0;
    for(;;++first,++n){
      if(first==x)break;
      if(first==last)return -99;
    }
    /* the iterator returned works as such */
    int m=n;
    for(It y=x;;++y,++m){
      if(y==last)break;
      if(cur_i+m>=cur_j||uid(*y)!=cur_i+m)return -98;
    }
    return m==cur_j-cur_i?n:-97;
  }

  /* second range in a collection, or the first range itself */
  template<typename It,typename It2>
  static void seconds(const It& f,const It& l,const ints& s,
    const It2& f2,const It2& l2,const ints& q)
  {
    int n=(int)s.size();
    if((int)q.size()>=n){
      if(begin(equal3_)){int r=pc::equal<Ts...>(f,l,f2);record({},s,q,{r,0});}
      if(begin(is_permutation3_)){int r=pc::is_permutation<Ts...>(f,l,f2);record({},s,q,{r});}
    }
    if(begin(equal4_)){int r=pc::equal<Ts...>(f,l,f2,l2);record({},s,q,{r,0});}
    if(begin(mismatch4_p_)){
      auto r=pc::mismatch<Ts...>(f,l,f2,l2,bp{1});
      record({1},s,q,{at(f,l,r.first),(int)std::distance(f2,r.second),0});
    }
    if(begin(is_permutation4_)){int r=pc::is_permutation<Ts...>(f,l,f2,l2);record({},s,q,{r});}
    if(begin(search_)){int r=at(f,l,pc::search<Ts...>(f,l,f2,l2));record({},s,q,{r});}
    if(begin(find_end_)){int r=at(f,l,pc::find_end<Ts...>(f,l,f2,l2));record({},s,q,{r});}
    if(begin(find_first_of_)){int r=at(f,l,pc::find_first_of<Ts...>(f,l,f2,l2));record({},s,q,{r});}
  }

  static bool begin(int a)
  {
    if(!only.empty()&&!only.count(a))return false;
    cur_alg=a;calls=0;oob=false;return true;
  }

  template<typename It>
  static void queries(const It& f,const It& l,const ints& s,
    const std::vector<It>& its)
  {
    int n=(int)s.size();
    (void)its;
    for(int k=0;k<4;++k){
      if(begin(all_of_)){int r=pc::all_of<Ts...>(f,l,up{k});record({k},s,{},{r,(int)calls});}
      if(begin(any_of_)){int r=pc::any_of<Ts...>(f,l,up{k});record({k},s,{},{r,(int)calls});}
      if(begin(none_of_)){int r=pc::none_of<Ts...>(f,l,up{k});record({k},s,{},{r,(int)calls});}
      if(begin(find_if_)){int r=at(f,l,pc::find_if<Ts...>(f,l,up{k}));record({k},s,{},{r,(int)calls});}
      if(begin(find_if_not_)){int r=at(f,l,pc::find_if_not<Ts...>(f,l,up{k}));record({k},s,{},{r,(int)calls});}
      if(begin(count_if_)){int r=(int)pc::count_if<Ts...>(f,l,up{k});record({k},s,{},{r,(int)calls});}
      if(begin(is_partitioned_)){int r=pc::is_partitioned<Ts...>(f,l,up{k});record({k},s,{},{r});}
      if(begin(partition_point_)){
        bool ok=true,seenf=false;
        for(int v:s){bool b=k==0?v==1:k==1?v==0:k==2;if(!b)seenf=true;else if(seenf)ok=false;}
        if(ok){int r=at(f,l,pc::partition_point<Ts...>(f,l,up{k}));record({k},s,{},{r});}
      }
    }
    if(begin(for_each_)){
      ints o;fe fn{&o};
      auto g=pc::for_each<Ts...>(f,l,fn);
      o.push_back(1000+(int)g.n);record({},s,{},o);
    }
    for(int k=-1;k<=n;++k)if(pick(k,n)&&begin(for_each_n_)){
      ints o;
      int r=k>=0&&k%2?at(f,l,pc::for_each_n<Ts...>(f,(unsigned char)k,fe{&o})):at(f,l,pc::for_each_n<Ts...>(f,(long)k,fe{&o}));
      o.push_back(1000+r);record({k},s,{},o);
    }
    for(int v=0;v<3;++v){
      Val x{v};
      if(begin(find_)){int r=at(f,l,pc::find<Ts...>(f,l,x));record({v},s,{},{r});}
      if(begin(count_)){int r=(int)pc::count<Ts...>(f,l,x);record({v},s,{},{r});}
    }
    std::vector<ints> pats=shortq;
    pats.insert(pats.end(),extraq.begin(),extraq.end());
    for(auto& q:pats){
      vals y=to_vals(q);
      if(begin(search_)){int r=at(f,l,pc::search<Ts...>(f,l,y.begin(),y.end()));record({},s,q,{r});}
      if(begin(find_end_)){int r=at(f,l,pc::find_end<Ts...>(f,l,y.begin(),y.end()));record({},s,q,{r});}
      if(begin(find_first_of_)){int r=at(f,l,pc::find_first_of<Ts...>(f,l,y.begin(),y.end()));record({},s,q,{r});}
      for(int k:{0,1,2}){
        if(begin(search_p_)){int r=at(f,l,pc::search<Ts...>(f,l,y.begin(),y.end(),bp{k}));record({k},s,q,{r});}
        if(begin(find_end_p_)){int r=at(f,l,pc::find_end<Ts...>(f,l,y.begin(),y.end(),bp{k}));record({k},s,q,{r});}
        if(begin(find_first_of_p_)){int r=at(f,l,pc::find_first_of<Ts...>(f,l,y.begin(),y.end(),bp{k}));record({k},s,q,{r});}
      }
    }
    if(n<=4){
      static std::map<ints,coll2> cs;
      auto of=[&](const ints& q)->const coll2&{
        auto& c=cs[q];
        if(c.size()!=q.size()){c.clear();for(int v:q)c.emplace<E<2>>(v,foreign);}
        return c;
      };
      for(auto& q:shortq){auto& c=of(q);seconds(f,l,s,c.begin(),c.end(),q);}
      {auto& c=of(s);seconds(f,l,s,c.begin(),c.end(),s);}
      quiet_=true;seconds(f,l,s,f,l,s);quiet_=false;
    }
    if(begin(adjacent_find_)){int r=at(f,l,pc::adjacent_find<Ts...>(f,l));record({},s,{},{r});}
    for(int k=0;k<4;++k)
      if(begin(adjacent_find_p_)){int r=at(f,l,pc::adjacent_find<Ts...>(f,l,bp{k}));record({k},s,{},{r});}
    for(int m=-1;m<=n+1;++m)if(pick(m,n)||m<16)for(int v=0;v<2;++v){
      Val x{v};
      if(begin(search_n_)){int r=at(f,l,pc::search_n<Ts...>(f,l,m,x));record({m,v},s,{},{r});}
      if(m>=0&&begin(search_n_)){int r=m%2?at(f,l,pc::search_n<Ts...>(f,l,(std::size_t)m,x)):at(f,l,pc::search_n<Ts...>(f,l,(unsigned char)m,x));record({m,v},s,{},{r});}
      for(int k:{0,1,2})
        if(begin(search_n_p_)){int r=at(f,l,pc::search_n<Ts...>(f,l,m,x,bp{k}));record({m,v,k},s,{},{r});}
    }
    /* second ranges alike the first */
    std::vector<ints> like{s};
    for(int i=0;i<n;++i)if(pick(i,n)){ints q=s;q[i]=!q[i];like.push_back(q);}
    for(auto& q:like){
      inseq z;
      auto fresh=[&]{z=inseq{&q};return init{&z,0};};
      auto fin=[&]{return init{&z,(std::size_t)-1};};
      if(begin(equal3_)){auto b=fresh();int r=pc::equal<Ts...>(f,l,b);record({},s,q,{r,z.bad});}
      if(begin(mismatch3_)){auto b=fresh();auto r=pc::mismatch<Ts...>(f,l,b);record({},s,q,{at(f,l,r.first),(int)r.second.at(),z.bad});}
      for(int k:{0,1,2}){
        if(begin(equal3_p_)){auto b=fresh();int r=pc::equal<Ts...>(f,l,b,bp{k});record({k},s,q,{r,z.bad});}
        if(begin(mismatch3_p_)){auto b=fresh();auto r=pc::mismatch<Ts...>(f,l,b,bp{k});record({k},s,q,{at(f,l,r.first),(int)r.second.at(),z.bad});}
      }
      (void)fin;
    }
    {ints q=s;q.push_back(0);like.push_back(q);q.back()=1;like.push_back(q);
     if(n){q=s;q.pop_back();like.push_back(q);q.assign(s.begin()+1,s.end());like.push_back(q);}}
    for(auto& q:like){
      inseq z;
      auto fresh=[&]{z=inseq{&q};return init{&z,0};};
      auto fin=[&]{return init{&z,(std::size_t)-1};};
      if(begin(equal4_)){auto b=fresh();int r=pc::equal<Ts...>(f,l,b,fin());record({},s,q,{r,z.bad});}
      if(begin(mismatch4_)){auto b=fresh();auto r=pc::mismatch<Ts...>(f,l,b,fin());record({},s,q,{at(f,l,r.first),(int)r.second.at(),z.bad});}
      for(int k:{0,1,2}){
        if(begin(equal4_p_)){auto b=fresh();int r=pc::equal<Ts...>(f,l,b,fin(),bp{k});record({k},s,q,{r,z.bad});}
        if(begin(mismatch4_p_)){auto b=fresh();auto r=pc::mismatch<Ts...>(f,l,b,fin(),bp{k});record({k},s,q,{at(f,l,r.first),(int)r.second.at(),z.bad});}
      }
      /* random access second range */
      vals y=to_vals(q);
      if(begin(equal4_)){int r=pc::equal<Ts...>(f,l,y.begin(),y.end());record({},s,q,{r,0});}
      if(begin(mismatch4_)){auto r=pc::mismatch<Ts...>(f,l,y.begin(),y.end());record({},s,q,{at(f,l,r.first),(int)(r.second-y.begin()),0});}
    }
    std::vector<ints> perms=like;
    for(int i=1;i<n;++i)if(pick(i,n)){ints q=s;std::rotate(q.begin(),q.begin()+i,q.end());perms.push_back(q);
      perms.push_back(ints(q.rbegin(),q.rend()));}
    for(auto& q:perms){
      vals y=to_vals(q);
      if((int)q.size()>=n){
        if(begin(is_permutation3_)){int r=pc::is_permutation<Ts...>(f,l,y.begin());record({},s,q,{r});}
        if(begin(is_permutation3_p_)){int r=pc::is_permutation<Ts...>(f,l,y.begin(),bp{0});record({0},s,q,{r});}
      }
      if(begin(is_permutation4_)){int r=pc::is_permutation<Ts...>(f,l,y.begin(),y.end());record({},s,q,{r});}
      if(begin(is_permutation4_p_)){int r=pc::is_permutation<Ts...>(f,l,y.begin(),y.end(),bp{0});record({0},s,q,{r});}
    }
  }

  /* o: what was written, followed by 1000+number of increments */
  template<typename F>
  static void out(const ints& p,const ints& s,const ints& q,F f,bool rv=false)
  {
    ints o;
    outit r=f(outit{&o,0,rv});
    o.push_back(1000+(int)r.pos);
    record(p,s,q,o);
  }

  template<typename It>
  static void copies(const It& f,const It& l,const ints& s,
    const std::vector<It>& its)
  {
    int n=(int)s.size();
    if(begin(copy_))out({},s,{},[&](outit r){return pc::copy<Ts...>(f,l,r);});
    if(begin(move_))out({},s,{},[&](outit r){return pc::move<Ts...>(f,l,r);},true);
    for(int k=-1;k<=n;++k)if(pick(k,n))
      if(begin(copy_n_))out({k},s,{},[&](outit r){return pc::copy_n<Ts...>(f,(long)k,r);});
    for(int k=0;k<=n;++k)if(pick(k,n)){
      if(begin(copy_n_))out({k},s,{},[&](outit r){return k%2?pc::copy_n<Ts...>(f,(unsigned char)k,r):pc::copy_n<Ts...>(f,(std::size_t)k,r);});
      if(begin(rotate_copy_))out({k},s,{},[&](outit r){return pc::rotate_copy<Ts...>(f,its[k],l,r);});
    }
    for(int k=0;k<4;++k){
      if(begin(copy_if_))out({k},s,{},[&](outit r){return pc::copy_if<Ts...>(f,l,r,up{k});});
      if(begin(remove_copy_if_))out({k},s,{},[&](outit r){return pc::remove_copy_if<Ts...>(f,l,r,up{k});});
      if(begin(replace_copy_if_))out({k},s,{},[&](outit r){return pc::replace_copy_if<Ts...>(f,l,r,up{k},Val{5});});
      if(begin(partition_copy_)){
        ints o,o2;
        auto r=pc::partition_copy<Ts...>(f,l,outit{&o,0,false},outit{&o2,0,false},up{k});
        o.push_back(1000+(int)r.first.pos);
        o.insert(o.end(),o2.begin(),o2.end());
        o.push_back(1000+(int)r.second.pos);
        record({k},s,{},o);
      }
    }
    if(begin(transform1_))out({},s,{},[&](outit r){return pc::transform<Ts...>(f,l,r,uop{});});
    std::vector<ints> like{s};
    if(n){ints q=s;for(auto& x:q)x=!x;like.push_back(q);q=s;std::rotate(q.begin(),q.begin()+1,q.end());like.push_back(q);
      q.push_back(2);like.push_back(q);}
    for(auto& q:like)if(begin(transform2_)){
      inseq z{&q};
      ints o;
      auto r=pc::transform<Ts...>(f,l,init{&z,0},outit{&o,0,false},bop{});
      o.push_back(1000+(int)r.pos);if(z.bad)o.push_back(-5);
      record({},s,q,o);
    }
    for(int v=0;v<3;++v){
      if(begin(remove_copy_))out({v},s,{},[&](outit r){return pc::remove_copy<Ts...>(f,l,r,Val{v});});
      if(begin(replace_copy_))out({v},s,{},[&](outit r){return pc::replace_copy<Ts...>(f,l,r,Val{v},Val{6});});
    }
    if(begin(unique_copy_))out({},s,{},[&](outit r){return pc::unique_copy<Ts...>(f,l,r);});
    for(int k:{0,3})
      if(begin(unique_copy_p_))out({k},s,{},[&](outit r){return pc::unique_copy<Ts...>(f,l,r,bp{k});});
    for(int k=0;k<=n+1;++k)if(pick(k,n)&&begin(sample_)){
      std::mt19937 g((unsigned)(k*7+n));
      out({k},s,{},[&](outit r){return pc::sample<Ts...>(f,l,r,k,g);});
    }
    /* how often each selection is obtained */
    if(n==4&&s==ints(4,0))for(int k=1;k<n;++k)if(begin(sample_dist_)){
      std::mt19937 g((unsigned)(k+10));
      ints cnt(16,0);
      const int N=2000;
      for(int x=0;x<N;++x){
        ints o;int m=0;
        pc::sample<Ts...>(f,l,outit{&o,0,false},k,g);
        for(int y:o)if(y>=0&&y<4)m|=1<<y;
        ++cnt[m];
      }
      calls=0;
      record({k,N},s,{},cnt);
    }
  }
};

#if TSL==0
using L=list<>;
#elif TSL==1
using L=list<E<0>>;
#elif TSL==2
using L=list<E<1>>;
#elif TSL==3
using L=list<E<2>,E<0>>;
#elif TSL==4
using L=list<E<0>,E<1>,E<2>>;
#elif TSL==5
using L=list<E<2>,E<1>>;
#elif TSL==6
using L=list<E<3>,E<2>>;
#else
using L=list<E<1>,E<2>,E<0>,E<3>>;
#endif

template<typename... Ts> void ids(list<Ts...>){ts_list={rid_<Ts>::value...};}

static void fill(coll& c,int t,int v,int u)
{
  switch(t){
    case 0:c.emplace<E<0>>(v,u);break;
    case 1:c.emplace<E<1>>(v,u);break;
    case 2:c.emplace<E<2>>(v,u);break;
    default:c.emplace<E<3>>(v,u);
  }
}

static int nlong=0,maxseg=30;               /* random long sequences */
static std::mt19937 rng;
static FILE* fout;
static void put(const ints& v)
{
  std::fputc('[',fout);
  for(std::size_t i=0;i<v.size();++i)std::fprintf(fout,i?",%d":"%d",v[i]);
  std::fputc(']',fout);
}

int main(int argc,char** argv)
{
  /* out maxlen_sub maxlen_full nvals group [cur [alg..]] */
  fout=std::fopen(argv[1],"w");
  int lsub=std::atoi(argv[2]),lfull=std::atoi(argv[3]),nv=std::atoi(argv[4]);
  group=std::atoi(argv[5]);
  FILE* cur=argc>6?std::fopen(argv[6],"w"):nullptr;
  for(int i=7;i<argc;++i)only.insert(std::atoi(argv[i]));
  if(auto e=std::getenv("VT_LONG"))nlong=std::atoi(e);
  if(auto e=std::getenv("VT_SEED"))rng.seed((unsigned)std::atoi(e));
  ids(L{});
  shortq={{}};
  for(std::size_t i=0,b=0;i<3;++i){
    std::size_t e=shortq.size();
    for(;b<e;++b)for(int v=0;v<2;++v){auto q=shortq[b];q.push_back(v);shortq.push_back(q);}
  }
  /* sets of registered types, so that there are 1 to 4 segments */
  std::vector<ints> regs={{0,1,2},{2,0,1,3},{1},{0,2}};
  for(auto& rg:regs){
    auto reg_types=[&](coll& c){
      for(int t:rg)switch(t){
        case 0:c.register_types<E<0>>();break;
        case 1:c.register_types<E<1>>();break;
        case 2:c.register_types<E<2>>();break;
        default:c.register_types<E<3>>();
      }
    };
    coll c;
    reg_types(c);
    ints order;
    for(auto s:c.segment_traversal()){
      auto& ti=s.type_info();
      order.push_back(ti==typeid(E<0>)?0:ti==typeid(E<1>)?1:ti==typeid(E<2>)?2:3);
    }
    int ns=(int)order.size();
    int status=0;
    /* one collection with the given sizes of segments and values */
    auto with=[&](const ints& sz,const ints& s,auto&& wanted){
      int len=(int)s.size();
#if ARENA
      c=coll{};arena_n=0;
      coll d;reg_types(d);
      for(int k_=0;k_<ns;++k_){int k=ARENA==1?k_:ns-1-k_;d.reserve(
        order[k]==0?typeid(E<0>):order[k]==1?typeid(E<1>):
        order[k]==2?typeid(E<2>):typeid(E<3>),(std::size_t)sz[k]);}
      c=std::move(d);
#else
      c.clear();
#endif
      int u=0;
      for(int k=0;k<ns;++k)for(int i=0;i<sz[k];++i,++u){
        utype[u]=order[k];fill(c,order[k],s[u],u);
      }
#if CST
      const coll& cc=c;
#else
      coll& cc=c;
#endif
      std::vector<decltype(cc.begin())> its;
      auto it=cc.begin();
      for(int i=0;i<=len;++i){its.push_back(it);if(i<len)++it;}
      for(int i=0;i<=len;++i)for(int j=i;j<=len;++j){
        if(!wanted(i,j))continue;
        cur_i=i;cur_j=j;
        ints ss(s.begin()+i,s.begin()+j);
        witness="types";for(int t:order)witness+=" "+std::to_string(t);
        witness+=" sizes";for(int t:sz)witness+=" "+std::to_string(t);
        witness+=" values";for(int t:s)witness+=" "+std::to_string(t);
        witness+=" range "+std::to_string(i)+" "+std::to_string(j);
        alarm(30);
        if(cur){
          std::rewind(cur);std::fprintf(cur,"%-100s\n",witness.c_str());std::fflush(cur);
        }
        std::vector<decltype(cc.begin())> sub(its.begin()+i,its.begin()+j+1);
        if(group&1)L::queries(its[i],its[j],ss,sub);
        if(group&2)L::copies(its[i],its[j],ss,sub);
        if(it!=cc.end()){std::fprintf(stderr,"end mismatch\n");status=3;return;}
        /* inputs are unmodified */
        int w=0;
        for(auto& e:cc)if(w>=len||enc(e)!=s[w]+16*w){cur_alg=copy_;record({-9},ss,{},{-1});break;}else ++w;
      }
    };
    int lmax=std::max(lsub,lfull);
    if(ns==4||ns==1)lmax=std::min(lmax,ns==4?3:5);
    for(int len=0;len<=lmax;++len){
      /* compositions of len in ns parts */
      std::vector<ints> parts;
      ints p(ns,0);
      auto rec=[&](auto&& self,int k,int rest)->void{
        if(k==ns-1){p[k]=rest;parts.push_back(p);return;}
        for(int i=0;i<=rest;++i){p[k]=i;self(self,k+1,rest-i);}
      };
      rec(rec,0,len);
      long combos=1;for(int i=0;i<len;++i)combos*=nv;
      for(auto& sz:parts)for(long m=0;m<combos;++m){
        ints s;long x=m;
        for(int i=0;i<len;++i){s.push_back((int)(x%nv));x/=nv;}
        with(sz,s,[&](int i,int j){
          if(len>lsub&&(i!=0||j!=len))return false;
          return !(len>lfull&&i==0&&j==len&&len>lsub);
        });
        if(status)return status;
      }
    }
    /* long sequences, made of runs */
    for(int k=0;k<nlong;++k){
      ints sz(ns,0),s;
      for(int& z:sz)z=rng()%4==0?0:(int)(rng()%(rng()%3?maxseg:6));
      int len=std::accumulate(sz.begin(),sz.end(),0);
      bool part=rng()%4==0;
      int cut=len?(int)(rng()%(unsigned)(len+1)):0;
      while((int)s.size()<len){
        int v=(int)(rng()%(unsigned)nv),r=1+(int)(rng()%(rng()%2?3:15));
        if(part)v=(int)s.size()<cut;
        while(r--&&(int)s.size()<len)s.push_back(v);
      }
      extraq.clear();
      for(int q=0;q<2&&len>=4;++q){
        int b=(int)(rng()%(unsigned)(len-3)),m=4+(int)(rng()%12);
        extraq.emplace_back(s.begin()+b,s.begin()+std::min(len,b+m));
        if(q&&rng()%2)extraq.back().back()^=1;
      }
      int i0=(int)(rng()%(unsigned)(len+1)),j0=i0+(int)(rng()%(unsigned)(len+1-i0));
      with(sz,s,[&](int i,int j){return (i==0&&j==len)||(i==i0&&j==j0);});
      if(status)return status;
    }
    extraq.clear();
  }
  for(auto& t:tuples){
    std::fprintf(fout,"{\"k\":\"t\",\"alg\":\"%s\",\"p\":",names[t.alg]);put(t.p);
    std::fputs(",\"s\":",fout);put(t.s);std::fputs(",\"q\":",fout);put(t.q);
    std::fputs(",\"o\":",fout);put(t.o);std::fprintf(fout,",\"c\":%ld,\"w\":\"%s\"}\n",t.c,t.w.c_str());
  }
  for(auto& r:res_set){
    std::fprintf(fout,"{\"k\":\"r\",\"alg\":\"%s\",\"arg\":%d,\"et\":%d,\"rt\":%d,\"c\":%d,\"ts\":",
      names[r[0]],r[1],r[2],r[3],r[4]);
    put(ts_list);std::fprintf(fout,",\"cst\":%d}\n",CST);
  }
  std::fclose(fout);
  std::fprintf(stderr,"done %ld calls %zu tuples %zu restitutions\n",ncalls,tuples.size(),res_set.size());
}
