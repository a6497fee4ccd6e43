/* Element types and collection kinds.
 * KIND: 0 base_collection over an abstract base, 1 base_collection over a
 * concrete base, 2 function_collection, 3 any_collection. */
#ifndef VERIF_KINDS_HPP
#define VERIF_KINDS_HPP

#include "track.hpp"

#ifndef KIND
#define KIND 0
#endif
#ifndef ALF
#define ALF 0
#endif

#if KIND<=1
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==2
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/mpl/vector/vector10.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/call.hpp>
#include <boost/type_erasure/operators.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
#include <boost/poly_collection/exception.hpp>
#include <tuple>

namespace vk{

using vt::cell;

struct feat{bool copy,eq,assign,nt,fin;};

/* id:            0      1      2      3      4      5      6      7      8 */
constexpr feat feats[]={
  /* 0 plain               */ {true ,true ,true ,true ,false},
  /* 1 final               */ {true ,true ,true ,true ,true },
  /* 2 offset, overaligned */ {true ,true ,true ,true ,false},
  /* 3 move-only           */ {false,true ,true ,true ,false},
  /* 4 not comparable      */ {true ,false,true ,true ,false},
  /* 5 not assignable      */ {true ,true ,false,true ,false},
  /* 6 throwing move       */ {true ,true ,true ,false,false},
  /* 7 throwing, move-only */ {false,true ,true ,false,true },
  /* 8 derived from 0      */ {true ,true ,true ,true ,false},
};
constexpr int NT_FULL=9;
#ifndef NFILL
#define NFILL 0
#endif
constexpr int NTYPES=NT_FULL+NFILL;
constexpr feat feat_of(int id)
{return id<NT_FULL?feats[id]:feat{true,true,true,true,false};}

#if KIND<=1
struct root
{
  virtual ~root()=default;
#if KIND==0
  virtual int val()const=0;
  virtual int tid()const=0;
  virtual const void* where()const=0;
#else
  /* the base class is itself an element type (type 4, not comparable). Its
   * lifetime is not tracked as every derived object embeds one. */
  using verif_element=void;
  static constexpr int id=4;
  int b=0;
  root()=default;
  explicit root(int n):b{n}{}
  template<typename A,typename B,typename C>
  root(int n,A&& a,B&& b_,C&& c):b{n}
  {vt::receive(std::forward<A>(a),std::forward<B>(b_),std::forward<C>(c));}
  root(const root& x):b{x.b}{}
  root(root&& x)noexcept:b{x.b}{x.b=-1;}
  root& operator=(const root& x){b=x.b;return *this;}
  root& operator=(root&& x)noexcept
  {if(this!=&x){b=x.b;x.b=-1;}return *this;}
  virtual int val()const{return b;}
  virtual int tid()const{return 4;}
  virtual const void* where()const{return this;}
#endif
};
#else
struct root{};
#endif

struct other_root
{
  virtual ~other_root()=default;
  char pad[13]={1,2,3};
};

template<int Id,bool C,bool A>
using mixin=typename std::conditional<!C,vt::no_copy,
  typename std::conditional<!A,vt::no_assign,vt::nothing>::type>::type;

#if KIND<=1
#define VK_VIRTUAL virtual
#define VK_OVERRIDE override
#define VK_ROOT root,
#else
#define VK_VIRTUAL
#define VK_OVERRIDE
#define VK_ROOT
#endif

#define VK_BODY(Id_)                                                         \
  using verif_element=void;                                                  \
  static constexpr int id=Id_;                                               \
  VK_VIRTUAL int val()const VK_OVERRIDE{return this->get();}                 \
  VK_VIRTUAL int tid()const VK_OVERRIDE{return Id_;}                         \
  VK_VIRTUAL const void* where()const VK_OVERRIDE{return this;}              \
  int operator()(int x)const{return this->get()*10+x;}

template<int Id>
struct elem:VK_ROOT mixin<Id,feat_of(Id).copy,feat_of(Id).assign>,
  cell<Id,feat_of(Id).nt>
{
  explicit elem(int n):cell<Id,feat_of(Id).nt>{n}{}
  template<typename A,typename B,typename C>
  elem(int n,A&& a,B&& b,C&& c):cell<Id,feat_of(Id).nt>{n}
  {vt::receive(std::forward<A>(a),std::forward<B>(b),std::forward<C>(c));}
  VK_BODY(Id)
  template<int Id2,typename std::enable_if<
    Id2==Id&&feat_of(Id2).eq>::type* =nullptr>
  bool operator==(const elem<Id2>& x)const{return this->eq(x);}
};
struct final_elem final:VK_ROOT cell<1,true>
{
  explicit final_elem(int n):cell<1,true>{n}{}
  template<typename A,typename B,typename C>
  final_elem(int n,A&& a,B&& b,C&& c):cell<1,true>{n}
  {vt::receive(std::forward<A>(a),std::forward<B>(b),std::forward<C>(c));}
  VK_BODY(1)
  bool operator==(const final_elem& x)const{return eq(x);}
};
#if KIND<=1
struct alignas(64) offset_elem:other_root,root,cell<2,true>
#else
struct alignas(64) offset_elem:other_root,cell<2,true>
#endif
{
  explicit offset_elem(int n):cell<2,true>{n}{}
  template<typename A,typename B,typename C>
  offset_elem(int n,A&& a,B&& b,C&& c):cell<2,true>{n}
  {vt::receive(std::forward<A>(a),std::forward<B>(b),std::forward<C>(c));}
  VK_BODY(2)
  bool operator==(const offset_elem& x)const{return eq(x);}
  char more[100]={0};
};
struct final_mo final:VK_ROOT vt::no_copy,cell<7,false>
{
  explicit final_mo(int n):cell<7,false>{n}{}
  template<typename A,typename B,typename C>
  final_mo(int n,A&& a,B&& b,C&& c):cell<7,false>{n}
  {vt::receive(std::forward<A>(a),std::forward<B>(b),std::forward<C>(c));}
  VK_BODY(7)
  bool operator==(const final_mo& x)const{return eq(x);}
};
#if KIND<=1
struct derived_elem:elem<0>
{
  explicit derived_elem(int n):elem<0>{n}{}
  template<typename A,typename B,typename C>
  derived_elem(int n,A&& a,B&& b,C&& c):elem<0>{n}
  {vt::receive(std::forward<A>(a),std::forward<B>(b),std::forward<C>(c));}
  using verif_element=void;
  static constexpr int id=8;
  int tid()const override{return 8;}
  const void* where()const override{return this;}
  bool operator==(const derived_elem& x)const{return eq(x);}
};
#else
struct derived_elem:elem<0>
{
  explicit derived_elem(int n):elem<0>{n}{}
  template<typename A,typename B,typename C>
  derived_elem(int n,A&& a,B&& b,C&& c):elem<0>{n}
  {vt::receive(std::forward<A>(a),std::forward<B>(b),std::forward<C>(c));}
  static constexpr int id=8;
  int tid()const{return 8;}
  bool operator==(const derived_elem& x)const{return eq(x);}
};
#endif

template<int Id> struct type_of_{using type=elem<Id>;};
template<> struct type_of_<1>{using type=final_elem;};
template<> struct type_of_<2>{using type=offset_elem;};
template<> struct type_of_<7>{using type=final_mo;};
template<> struct type_of_<8>{using type=derived_elem;};
#if KIND==1
template<> struct type_of_<4>{using type=root;};
#endif
constexpr bool tracked(int id){return KIND!=1||id!=4;}
template<int Id> using type_of=typename type_of_<Id>::type;

/* collections */

#if KIND<=1
template<typename A> using coll_t=boost::base_collection<root,A>;
using alloc_value=root;
#elif KIND==2
template<typename A> using coll_t=boost::function_collection<int(int),A>;
using alloc_value=
  boost::poly_collection::function_collection_value_type<int(int)>;
#else
template<typename T=boost::type_erasure::_self>
struct c_val{static int apply(const T& x){return x.val();}};
template<typename T=boost::type_erasure::_self>
struct c_tid{static int apply(const T& x){return x.tid();}};
template<typename T=boost::type_erasure::_self>
struct c_where{static const void* apply(const T& x){return x.where();}};
using concept_=boost::mpl::vector3<c_val<>,c_tid<>,c_where<>>;
template<typename A> using coll_t=boost::any_collection<concept_,A>;
using alloc_value=boost::poly_collection::any_collection_value_type<concept_>;
#endif

using alloc=vt::talloc<alloc_value,ALF>;
using coll=coll_t<alloc>;
using value_type=coll::value_type;

/* access through the polymorphic value_type */

#if KIND<=1
inline int pval(const value_type& x){return x.val();}
inline int ptid(const value_type& x){return x.tid();}
inline const void* pwhere(const value_type& x){return x.where();}
inline const std::type_info& pinfo(const value_type& x){return typeid(x);}
#elif KIND==2
inline int pval(const value_type& x){int r=x(3);return (r-3)/10;}
inline const void* pwhere(const value_type& x){return x.data();}
inline const std::type_info& pinfo(const value_type& x){return x.target_type();}
#else
inline int pval(const value_type& x)
{return boost::type_erasure::call(c_val<>{},x);}
inline int ptid(const value_type& x)
{return boost::type_erasure::call(c_tid<>{},x);}
inline const void* pwhere(const value_type& x)
{return boost::type_erasure::call(c_where<>{},x);}
inline const std::type_info& pinfo(const value_type& x)
{return boost::type_erasure::typeid_of(x);}
#endif

/* type-indexed dispatch over all types / over fully exercised types */

template<typename T> struct tag{using type=T;};

template<int N,typename F>
void with_type_(int t,F&& f)
{
  if(t==N)f(tag<type_of<N>>{});
  else if constexpr(N+1<NTYPES)with_type_<N+1>(t,std::forward<F>(f));
}
template<typename F> void with_type(int t,F&& f){with_type_<0>(t,f);}
template<int N,typename F>
void with_full_(int t,F&& f)
{
  if(t==N)f(tag<type_of<N>>{});
  else if constexpr(N+1<NT_FULL)with_full_<N+1>(t,std::forward<F>(f));
}
template<typename F> void with_full(int t,F&& f){with_full_<0>(t,f);}

inline const std::type_info& info_of(int t)
{
  const std::type_info* p=nullptr;
  with_type(t,[&](auto g){p=&typeid(typename decltype(g)::type);});
  return *p;
}
inline int type_index(const std::type_info& i)
{
  static std::map<std::string,int> m;
  if(m.empty())for(int t=0;t<NTYPES;++t)m[info_of(t).name()]=t;
  auto it=m.find(i.name());
  return it==m.end()?-1:it->second;
}

} /* namespace vk */

#endif
