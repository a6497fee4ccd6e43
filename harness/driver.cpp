/* Script-driven recorder. Reads a script of operations, executes them against
 * the real collections through the public API only and logs, for every
 * operation, its arguments, outcome and the complete observable state of all
 * collections. The log is checked against the TLA+ specification. */

#include "kinds.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <fstream>
#include <iostream>
#include <iterator>
#include <list>
#include <sstream>
#include <stdexcept>
#include <unistd.h>

using namespace vk;
using vt::S;

#ifndef NSLOTS
#define NSLOTS 3
#endif
constexpr int NS=NSLOTS;
/* LEAN: only the basic forms of each operation are instantiated */
#ifndef LEAN
#define LEAN 0
#endif
template<typename T> constexpr bool is_full(){return T::id<NT_FULL&&!LEAN;}

inline std::unique_ptr<coll> C[NS];
inline FILE* out=nullptr;
inline FILE* cur=nullptr;
inline bool  opt_handles=true;

using ints=std::vector<long>;

/* ------------------------------------------------------------------ json */

struct js
{
  std::string s;
  template<typename T> static std::string num(T x){return std::to_string((long)x);}
  template<typename V> static std::string arr(const V& v)
  {
    std::string r="[";bool f=true;
    for(auto x:v){if(!f)r+=",";f=false;r+=num(x);}
    return r+"]";
  }
  template<typename V> static std::string arr2(const V& v)
  {
    std::string r="[";bool f=true;
    for(auto& x:v){if(!f)r+=",";f=false;r+=arr(x);}
    return r+"]";
  }
};

/* ------------------------------------------------------------ projection */

struct pseg{int t;ints e,a;std::vector<const void*> p;long cap;};
struct pcoll
{
  bool on=false;long al=0,n=0,em=0;
  std::vector<pseg> segs;
  ints g;
  std::vector<ints> vd;
  const pseg* seg(int t)const
  {
    for(auto& s:segs)if(s.t==t)return &s;
    return nullptr;
  }
};

struct hbase;
struct range_src;
using seg_info=std::decay<
  decltype(*std::declval<const coll&>().segment_traversal().begin())>::type;

/* operations on a given type; explicitly instantiated in the PART_* units */

template<typename T>
struct ops
{
  static void project_seg(coll& c,const seg_info& si,pcoll& r,pseg& s);
  static hbase* make_handle(coll& c,long i);
  static void scratch_emplace(coll& sc,long v,std::size_t res);
  static bool ins(int slot,int svar,int pvar,int ht,long hi,int v);
  static bool ali(int slot,long i,int svar,int pvar,int ht,long hi);
  static bool insr(int slot,range_src s,int pvar,int ht,long hi);
  static void ctorr(int slot,int al,const range_src& s);
  static bool er(int slot,long i,int form);
  static bool err(int slot,long i1,long i2,int form);
  static bool qry(int slot,int q,int form);
  static void clrshr(coll& c,bool clr,int form);
  static void rest(coll& c,long n,int form);
  static void reg(coll& c);
};

template<typename It>
static bool same_typed(It f,It l,const pseg& s)
{
  std::size_t i=0;
  if(l-f!=(std::ptrdiff_t)s.e.size())return false;
  for(;f!=l;++f,++i){
    if(i>=s.e.size())return false;
    if((const void*)&*f!=s.p[i]||f->val()!=s.e[i])return false;
  }
  return i==s.e.size();
}

/* returns 0 ok, 1 positions differ, 2 polymorphic access differs */

template<typename T,typename V>
static int check_value(V& x,const void* p,long v)
{
#if KIND<=1
  auto q=static_cast<const T*>(p);
  const value_type& r=x;
  if(&r!=static_cast<const root*>(q))return 1;
  if(dynamic_cast<const void*>(&r)!=p)return 2;
  if(typeid(r)!=typeid(T))return 2;
  if(ptid(x)!=T::id||pwhere(x)!=p||pval(x)!=v)return 2;
#elif KIND==2
  const value_type& r=x;
  if(r.data()!=p||x.data()!=p)return 1;
  if(r.target_type()!=typeid(T))return 2;
  if(r.template target<T>()!=p||x.template target<T>()!=p)return 2;
  if(r.template target<int(*)(int)>()!=nullptr)return 2;
  if(T::id!=0&&r.template target<elem<0>>()!=nullptr)return 2;
  if(T::id!=6&&r.template target<elem<6>>()!=nullptr)return 2;
  if(!r)return 2;
  if(r(5)!=v*10+5||x(5)!=v*10+5)return 2;
  std::function<int(int)> f=r;
  if(!f||f(4)!=v*10+4)return 2;
  /* the std::function refers to the element, it does not copy it */
  auto rw=f.template target<std::reference_wrapper<T>>();
  if(rw&&(const void*)&rw->get()!=p)return 2;
#else
  using boost::type_erasure::any_cast;
  const value_type& r=x;
  if(any_cast<const T*>(&r)!=p)return 1;
  if(&any_cast<const T&>(r)!=p)return 1;
  if(boost::type_erasure::typeid_of(r)!=typeid(T))return 2;
  if(any_cast<const int*>(&r)!=nullptr)return 2;
  if(T::id!=0&&any_cast<const elem<0>*>(&r)!=nullptr)return 2;
  if(ptid(x)!=T::id||pwhere(x)!=p||pval(x)!=v)return 2;
#endif
  return 0;
}

template<typename T,typename It>
static int same_base(It f,It l,const pseg& s)
{
  std::size_t i=0;
  if(l-f!=(std::ptrdiff_t)s.e.size())return 1;
  for(;f!=l;++f,++i){
    if(i>=s.e.size())return 1;
    if(int r=check_value<T>(*f,s.p[i],s.e[i]))return r;
  }
  return i==s.e.size()?0:1;
}

inline bool light=false; /* cheaper projection */

template<typename T>
void ops<T>::project_seg(coll& c,const seg_info& si,pcoll& r,pseg& s)
{
      const coll& cc=c;
      const int t=T::id;
      auto bad=[&](long code,long t){r.vd.push_back({code,t});};
      const auto& ti=typeid(T);
      const auto& tc=vt::clone_of(ti);
      s.cap=cc.capacity<T>();
      for(auto it=cc.cbegin<T>();it!=cc.cend<T>();++it){
        const T& x=*it;
        s.e.push_back(x.val());
        s.a.push_back(vt::tok(&x));
        s.p.push_back(&x);
        if(s.e.size()>100000){bad(3,t);break;}
        volatile std::uintptr_t where=(std::uintptr_t)&x;
        if(where%alignof(T))bad(120,t);
        if(x.tid()!=T::id)bad(121,t);
      }
      long n=s.e.size();
      if((long)cc.size<T>()!=n||(long)cc.size(ti)!=n||(long)cc.size(tc)!=n)
        bad(10,t);
      if(cc.empty<T>()!=(n==0)||cc.empty(ti)!=(n==0))bad(11,t);
      if((long)cc.capacity(ti)!=s.cap)bad(12,t);
      if(s.cap<n)bad(13,t);
      if(!cc.is_registered<T>()||!cc.is_registered(tc))bad(14,t);
      if((long)cc.max_size<T>()<n||cc.max_size<T>()!=cc.max_size(ti))bad(15,t);
      if constexpr(!is_full<T>()){r.segs.push_back(s);return;}
      else{
      if(!same_typed(c.begin<T>(),c.end<T>(),s))bad(20,t);
      if(!same_typed(cc.begin<T>(),cc.end<T>(),s))bad(21,t);
      if(!same_typed(c.segment<T>().begin(),c.segment<T>().end(),s))bad(22,t);
      if(!same_typed(cc.segment<T>().begin(),cc.segment<T>().end(),s))bad(23,t);
      if(!same_typed(cc.segment<T>().cbegin(),cc.segment<T>().cend(),s))bad(24,t);
      {
        auto sg=c.segment(ti);
        if(!same_typed(sg.template begin<T>(),sg.template end<T>(),s))bad(25,t);
        if(!same_typed(sg.template cbegin<T>(),sg.template cend<T>(),s))bad(26,t);
        auto csg=cc.segment(tc);
        if(!same_typed(csg.template begin<T>(),csg.template end<T>(),s))bad(27,t);
      }
      auto base=[&](int code,auto f,auto l){
        int k=same_base<T>(f,l,s);
        if(k)bad(k==1?code:code+100,t);
      };
      base(30,c.begin(ti),c.end(ti));
      base(31,cc.begin(ti),cc.end(ti));
      base(32,cc.cbegin(tc),cc.cend(tc));
      base(33,c.segment(ti).begin(),c.segment(ti).end());
      base(34,cc.segment(ti).begin(),cc.segment(ti).end());
      base(35,si.begin(),si.end());
      base(36,si.cbegin(),si.cend());
      if(!same_typed(si.template begin<T>(),si.template end<T>(),s))bad(37,t);
      if(!same_typed(si.template cbegin<T>(),si.template cend<T>(),s))bad(38,t);
      /* random access and conversions between local iterators */
      {
        auto lb=c.begin(ti),le=c.end(ti);
        auto clb=cc.begin(ti);
        auto lf=c.begin<T>(),ll=c.end<T>();
        typename coll::template const_local_iterator<T> clf=lf;
        typename coll::const_local_base_iterator xlb=lb;
        if(le-lb!=n||ll-lf!=n||xlb!=clb)bad(40,t);
        for(long i=0;i<n;++i){
          if(&lf[i]!=s.p[i]||&*(ll-(n-i))!=s.p[i]||&clf[i]!=s.p[i])bad(41,t);
          if(pwhere(lb[i])!=s.p[i]||pwhere(*(le-(n-i)))!=s.p[i])bad(42,t);
          if(pwhere(clb[i])!=s.p[i])bad(43,t);
          auto j=static_cast<typename coll::template local_iterator<T>>(lb+i);
          if(&*j!=s.p[i]||j!=lf+i||!(j<ll)||j>=ll)bad(44,t);
          auto cj=static_cast<typename coll::template const_local_iterator<T>>(clb+i);
          if(&*cj!=s.p[i]||cj!=clf+i)bad(45,t);
          auto b=static_cast<coll::local_base_iterator>(lf+i);
          if(b!=lb+i||pwhere(*b)!=s.p[i]||(b-lb)!=i)bad(46,t);
          auto cb=static_cast<coll::const_local_base_iterator>(clf+i);
          if(cb!=clb+i||pwhere(*cb)!=s.p[i])bad(47,t);
          if((lb+i<le)!=true||(le>lb+i)!=true||!(lb+i<=le)||!(lb<=lb+i))bad(48,t);
          auto k=lb+i;auto k0=k++;--k;
          if(k!=k0||(k+=1)-k0!=1||(k-=1)!=k0)bad(49,t);
        }
        auto e=static_cast<typename coll::template local_iterator<T>>(le);
        if(e!=ll)bad(50,t);
        auto eb=static_cast<coll::local_base_iterator>(ll);
        if(eb!=le)bad(51,t);
      }
      r.segs.push_back(s);
      }
}

static pcoll project(coll* pc)
{
  vt::quiet q;
  pcoll r;
  if(!pc)return r;
  coll& c=*pc;
  const coll& cc=c;
  r.on=true;
  r.al=cc.get_allocator().id;
  r.n=cc.size();
  r.em=cc.empty()?1:0;
  auto bad=[&](long code,long t){r.vd.push_back({code,t});};
  auto tr=cc.segment_traversal();
  int guard=0;
  for(auto sit=tr.begin();sit!=tr.end();++sit){
    if(++guard>200){bad(1,-1);break;}
    auto si=*sit;
    int t=type_index(si.type_info());
    if(t<0){bad(2,-1);continue;}
    pseg s;
    s.t=t;
    with_type(t,[&](auto g){
      ops<typename decltype(g)::type>::project_seg(c,si,r,s);
    });
  }
  /* global traversal */
  {
    long i=0;
    std::vector<const void*> gp;
    for(auto it=cc.begin();it!=cc.end();++it){
      const void* p=pwhere(*it);
      gp.push_back(p);
      r.g.push_back(vt::tok(p));
      if(++i>r.n+4)break;
    }
    std::size_t k=0;
    bool ok=true;
    for(auto it=c.begin();it!=c.end();++it){
      if(k>=gp.size()||pwhere(*it)!=gp[k]){ok=false;break;}
      coll::const_iterator ci=it;
      if(pwhere(*ci)!=gp[k]){ok=false;break;}
      auto post=it;
      auto old=post++;
      if(pwhere(*old)!=gp[k]||post==it||old!=it){ok=false;break;}
      ++k;
    }
    if(!ok||k!=gp.size())bad(60,-1);
    k=0;
    for(auto it=cc.cbegin();it!=cc.cend();++it,++k)
      if(k>=gp.size()||pwhere(*it)!=gp[k])break;
    if(k!=gp.size())bad(61,-1);
    /* mutable segment traversal sees the same segments in the same order */
    k=0;
    for(auto x:c.segment_traversal()){
      if(k>=r.segs.size()||type_index(x.type_info())!=r.segs[k].t){bad(62,-1);break;}
      long m=x.end()-x.begin();
      if(m!=(long)r.segs[k].e.size())bad(63,r.segs[k].t);
      ++k;
    }
    if(k!=r.segs.size())bad(64,-1);
    if((c.begin()==c.end())!=(r.n==0))bad(65,-1);
  }
  return r;
}

static std::string slot_json(const pcoll& p)
{
  if(!p.on)return "{\"on\":0,\"al\":0,\"n\":0,\"em\":1,\"S\":[],\"g\":[],\"vd\":[]}";
  std::string r="{\"on\":1,\"al\":"+js::num(p.al)+",\"n\":"+js::num(p.n)+
    ",\"em\":"+js::num(p.em)+",\"S\":[";
  bool f=true;
  for(auto& s:p.segs){
    if(!f)r+=",";f=false;
    r+="{\"t\":"+js::num(s.t)+",\"e\":"+js::arr(s.e)+",\"cap\":"+js::num(s.cap)+
      ",\"a\":"+js::arr(s.a)+"}";
  }
  r+="],\"g\":"+js::arr(p.g)+",\"vd\":"+js::arr2(p.vd)+"}";
  return r;
}

/* ---------------------------------------------------------------- handles */

struct hbase
{
  virtual ~hbase(){}
  virtual const void* deref()const=0;   /* element address    */
  virtual long off(coll&)const=0;       /* offset from begin  */
};
template<typename T>
struct htyped:hbase
{
  typename coll::template local_iterator<T> it;
  typename coll::template const_local_iterator<T> cit;
  const void* deref()const override{return &*it==&*cit?&*it:nullptr;}
  long off(coll& c)const override
  {
    const coll& cc=c;
    long a=it-c.template begin<T>(),b=cit-cc.template begin<T>();
    return a==b?a:-1;
  }
};
template<typename T>
hbase* ops<T>::make_handle(coll& c,long i)
{
  const coll& cc=c;
  if constexpr(is_full<T>()){
    auto p=new htyped<T>();
    p->it=c.begin<T>()+i;
    p->cit=cc.begin<T>()+i;
    return p;
  }
  else return nullptr;
}
struct handle
{
  int slot,t;long idx,flat;bool end;const void* p;
  coll::iterator g;coll::const_iterator cg;
  coll::local_base_iterator lb;coll::const_local_base_iterator clb;
  std::unique_ptr<hbase> h;
};

static std::vector<handle> take_handles()
{
  vt::quiet q;
  std::vector<handle> v;
  for(int s=0;s<NS;++s)if(C[s]){
    coll& c=*C[s];
    const coll& cc=c;
    {
      handle h;h.slot=s;h.t=-1;h.idx=0;h.flat=0;h.end=true;h.p=nullptr;
      h.g=c.end();h.cg=cc.end();
      v.push_back(std::move(h));
    }
    auto g=c.begin();
    long flat=0;
    for(auto x:c.segment_traversal()){
      int t=type_index(x.type_info());
      if(t<0)continue;
      long n=x.end()-x.begin();
      for(long i=0;i<=n;++i){
        handle h;
        h.slot=s;h.t=t;h.idx=i;h.end=i==n;h.flat=flat;
        h.lb=x.begin()+i;
        h.clb=cc.begin(x.type_info())+i;
        with_type(t,[&](auto gg){
          h.h.reset(ops<typename decltype(gg)::type>::make_handle(c,i));
        });
        if(i<n){
          h.p=pwhere(*h.lb);
          h.g=g;h.cg=g;
          ++g;++flat;
        }
        else h.p=nullptr;
        v.push_back(std::move(h));
      }
    }
  }
  return v;
}

/* ------------------------------------------------------------------ event */

struct event
{
  std::string op;
  ints a;                 /* arguments as executed                */
  std::string x;          /* exception                            */
  long xi=-1;             /* type carried by the exception        */
  ints r;                 /* result                               */
  ints sv;                /* values of source objects afterwards  */
  std::vector<ints> src;  /* source list (type,value) of ranges   */
  /* which part of the state was affected (driver-side rule used only to
   * choose which handles may be examined; the spec has its own) */
  std::map<std::pair<int,int>,long> keep; /* (slot,type)->valid positions */
  std::set<int> nokeep;                   /* slots with no valid handles  */
  std::map<int,int> follow;               /* slot -> slot handles moved to*/
};

inline event ev;
inline std::array<pcoll,NS> pre,post;

static void affect(int slot,int t,long n){
  auto k=std::make_pair(slot,t);
  auto it=ev.keep.find(k);
  if(it==ev.keep.end())ev.keep[k]=n;
  else it->second=std::min(it->second,n);
}

static void set_result(coll& c,coll::const_iterator it)
{
  vt::quiet q;
  const coll& cc=c;
  long n=0,m=cc.size();
  auto f=cc.begin();
  for(;n<=m&&f!=it&&f!=cc.end();++f)++n;
  if(f==it&&it==cc.end())ev.r={0,m,0};
  else if(f==it)ev.r={0,n,vt::tok(pwhere(*it))};
  else ev.r={0,-1,0};
  /* it can be used as any other iterator */
  if(f==it){
    long k=n;
    for(;it!=cc.end()&&k<=m;++it)++k;
    if(k!=m)ev.r={0,-2,0};
  }
}
/* an empty range given by the iterator is an empty range of its segment */
template<typename It> static void probe_local(coll& c,It it,long n,long m)
{
  if(n<0||n>m)return;
  long t=(long)c.size();
  auto r=c.erase(it,it);
  if(!(r==it)||(long)c.size()!=t)ev.r[1]=-2;
}
template<typename T>
static void set_result_local(coll& c,coll::const_local_base_iterator it)
{
  vt::quiet q;
  const coll& cc=c;
  long n=it-cc.begin(typeid(T));
  long m=cc.size<T>();
  ev.r={1,n,n>=0&&n<m?vt::tok(pwhere(*it)):0,T::id};
  probe_local(c,it,n,m);
}
template<typename T>
static void set_result_typed(coll& c,typename coll::template const_local_iterator<T> it)
{
  vt::quiet q;
  const coll& cc=c;
  long n=it-cc.template begin<T>();
  long m=cc.template size<T>();
  ev.r={2,n,n>=0&&n<m?vt::tok(&*it):0,T::id};
  probe_local(c,it,n,m);
  if(coll::const_local_base_iterator(it)-cc.begin(typeid(T))!=n)ev.r[1]=-2;
}
struct set_res
{
  coll& c;
};
template<typename T,typename It>
static void record(coll& c,It it)
{
  if constexpr(std::is_convertible<It,coll::const_iterator>::value){
    static_assert(std::is_same<It,coll::iterator>::value,"");
    set_result(c,it);
  }
  else if constexpr(std::is_convertible<It,coll::const_local_base_iterator>::value){
    static_assert(std::is_same<It,coll::local_base_iterator>::value,"");
    set_result_local<T>(c,it);
  }
  else{
    static_assert(std::is_same<It,typename coll::template local_iterator<T>>::value,"");
    set_result_typed<T>(c,it);
  }
}

static coll::iterator global_at(coll& c,int t,long i)
{
  vt::quiet q;
  auto g=c.begin();
  for(auto x:c.segment_traversal()){
    int u=type_index(x.type_info());
    long n=x.end()-x.begin();
    if(u==t){
      if(i<0||i>=n)return c.end();
      while(i--)++g;
      return g;
    }
    while(n--)++g;
  }
  return c.end();
}

/* position forms: 0 none, 1 iterator hint, 2 const_iterator hint,
 * 3 local_base, 4 const_local_base, 5 local<T>, 6 const_local<T> */

template<typename T,typename F>
static void with_position(coll& c,int pvar,int ht,long hi,F f)
{
  const coll& cc=c;
  switch(pvar){
    case 0:f();break;
    case 1:{auto g=global_at(c,ht,hi);f(g);break;}
    case 2:{coll::const_iterator g=global_at(c,ht,hi);f(g);break;}
    case 3:{auto p=c.begin(typeid(T))+hi;f(p);break;}
    case 4:{auto p=cc.begin(typeid(T))+hi;f(p);break;}
    case 5:{auto p=c.begin<T>()+hi;f(p);break;}
    case 6:{auto p=cc.begin<T>()+hi;f(p);break;}
  }
}

template<typename T,typename... P>
struct pos_kind;
template<typename T> struct pos_kind<T>{static constexpr int v=0;};
template<typename T,typename P> struct pos_kind<T,P>
{
  static constexpr int v=
    std::is_convertible<P,coll::const_iterator>::value?1:
    std::is_convertible<P,coll::const_local_base_iterator>::value?2:3;
};

/* calls f, recording exceptions */

static void note_fault(const char* n){ev.x=n;}

template<typename F>
static void guarded(F f)
{
  try{f();}
  catch(boost::poly_collection::unregistered_type& e)
  {vt::quiet q;ev.x="unreg";ev.xi=type_index(*e.pinfo);}
  catch(boost::poly_collection::not_copy_constructible& e)
  {vt::quiet q;ev.x="nocopy";ev.xi=type_index(*e.pinfo);}
  catch(boost::poly_collection::not_equality_comparable& e)
  {vt::quiet q;ev.x="noeq";ev.xi=type_index(*e.pinfo);}
  catch(vt::fault&){note_fault("fault");}
  catch(std::length_error&){ev.x="len";}
  catch(std::bad_alloc&){ev.x="badalloc";}
  catch(std::exception&){ev.x="other";}
  vt::disarm();
}

/* fault arming happens right before the call under test */
inline int  armed_mask=0;
inline long armed_target=0;
inline bool armed_now=false;
static void fire_zone(){if(armed_now)vt::arm(armed_mask,armed_target);
  S().ncopy=S().nmove=S().nmassign=S().neq=0;}

/* -------------------------------------------------------------- insertion */

static coll scratch(int al=50){return coll{alloc(al)};}

/* source forms: 0 const T&, 1 T&, 2 T&&, 3 const T&&, 4 const value_type&,
 * 5 value_type&, 6 value_type&&, 7 emplace(int), 8 emplace(const T&),
 * 9 emplace(T&&), 10 intermediate static type&, 11 intermediate static type&& */

template<typename T>
bool ops<T>::ins(int slot,int svar,int pvar,int ht,long hi,int v)
{
  coll& c=*C[slot];
  bool reg=pre[slot].seg(T::id)!=nullptr;
  long n=reg?pre[slot].seg(T::id)->e.size():0;
  constexpr bool full=is_full<T>();
  if constexpr(!full){
    if(svar!=0&&svar!=2&&svar!=7)svar=7;
    if(pvar>1)pvar=0;
  }
  if(!feat_of(T::id).copy&&svar==8)svar=9;
  if(!(KIND<=1&&T::id==8&&full)&&(svar==10||svar==11))svar=svar==10?5:6;
  if constexpr(!full)if(svar!=0&&svar!=2&&svar!=7)svar=7;
  if(pvar>=3){
    if(!reg)return false;
    hi=n?hi%(n+1):0;
    ht=T::id;
  }
  else if(pvar==1||pvar==2){
    auto s=pre[slot].seg(ht);
    if(!s||s->e.empty()){ht=-1;hi=0;}
    else hi=hi%s->e.size();
  }
  else{ht=-1;hi=0;}
  bool poly=((svar>=4&&svar<=6)&&!(KIND==1&&T::id==4))||svar==10||svar==11;
  bool rv=svar==2||svar==6||svar==9||svar==11;
  int  how=svar==7||svar==12?2:rv?1:0; /* 0 copy, 1 move, 2 construct */
  ev.op="ins";
  /* c t v pos-form ht hi poly how svar */
  ev.a={slot,T::id,v,pvar==0?0:pvar<=2?1:pvar<=4?2:3,ht,hi,poly,how,svar,pvar};
  long p=(pvar>=3||ht==T::id)?hi:n;
  long cap=reg?pre[slot].seg(T::id)->cap:0;
  affect(slot,T::id,n+1<=cap?p:0);

  auto emp=[&](auto&&... arg){
    with_position<T>(c,pvar,ht,hi,[&](auto... p){
      constexpr int k=pos_kind<T,decltype(p)...>::v;
      if constexpr(!full&&k>=2){}
      else guarded([&]{
        fire_zone();
        if constexpr(k==0){auto it=c.template emplace<T>(std::forward<decltype(arg)>(arg)...);
          vt::disarm();record<T>(c,it);}
        else if constexpr(k==1){auto it=c.template emplace_hint<T>(p...,std::forward<decltype(arg)>(arg)...);
          vt::disarm();record<T>(c,it);}
        else if constexpr(k==2){auto it=c.template emplace_pos<T>(p...,std::forward<decltype(arg)>(arg)...);
          vt::disarm();record<T>(c,it);}
        else{auto it=c.emplace_pos(p...,std::forward<decltype(arg)>(arg)...);
          vt::disarm();record<T>(c,it);}
      });
    });
  };
  auto ins=[&](auto&& arg){
    using A=decltype(arg);
    with_position<T>(c,pvar,ht,hi,[&](auto... p){
      constexpr int k=pos_kind<T,decltype(p)...>::v;
      if constexpr(!full&&k>=2){}
      else guarded([&]{
        fire_zone();
        auto it=c.insert(p...,std::forward<A>(arg));
        vt::disarm();record<T>(c,it);
      });
    });
  };
  switch(svar){
    case 0:{T x(v);const T& r=x;ins(r);ev.sv.push_back(x.val());break;}
    case 2:{T x(v);ins(std::move(x));ev.sv.push_back(x.val());break;}
    case 7:emp(+v);break;
    default:if constexpr(full)switch(svar){
      case 1:{T x(v);ins(x);ev.sv.push_back(x.val());break;}
      case 3:{T x(v);const T& r=x;ins(std::move(r));ev.sv.push_back(x.val());break;}
      case 4:case 5:case 6:{
#if KIND<=1
        T x(v);value_type& r=x;
#else
        auto sc=scratch();
        value_type& r=*sc.template emplace<T>(v);
        T& x=*sc.template begin<T>();
#endif
        const value_type& cr=r;
        if(svar==4)ins(cr);
        else if(svar==5)ins(r);
        else ins(std::move(r));
        ev.sv.push_back(x.val());
        break;
      }
      case 8:if constexpr(feat_of(T::id).copy){
        T x(v);const T& r=x;emp(r);ev.sv.push_back(x.val());
      }break;
      case 12:{
        auto& p=vt::P();
        p.received=0;
        emp(+v,p.a,std::move(p.b),p.c);
        if(ev.x.empty()&&p.received!=1)vt::anomaly("emplace-args-not-used");
        break;
      }
      case 9:{T x(v);emp(std::move(x));ev.sv.push_back(x.val());break;}
#if KIND<=1
      case 10:case 11:if constexpr(T::id==8){
        T x(v);elem<0>& r=x;
        if(svar==10)ins(r);else ins(std::move(r));
        ev.sv.push_back(x.val());
      }break;
#endif
    }
  }
  return true;
}

/* insertion of an element of the collection into the collection itself.
 * svar: 0 const T&, 1 value_type const&, 2 emplace(const T&), 3 T&& (moves from
 * the element), 4 emplace(T&&) */

template<typename T>
bool ops<T>::ali(int slot,long i,int svar,int pvar,int ht,long hi)
{
  if constexpr(!is_full<T>())return false;
  else{
  coll& c=*C[slot];
  auto s=pre[slot].seg(T::id);
  if(!s||s->e.empty())return false;
  long n=s->e.size();
  i=i%n;
  if(!feat_of(T::id).copy&&svar==2)svar=0;
  if(pvar>=3){hi=hi%(n+1);ht=T::id;}
  else if(pvar>=1){
    auto h=pre[slot].seg(ht);
    if(!h||h->e.empty()){ht=-1;hi=0;}
    else hi=hi%h->e.size();
  }
  else{ht=-1;hi=0;}
  int how=svar>=3?1:0;
  ev.op="ali";
  ev.a={slot,T::id,i,pvar==0?0:pvar<=2?1:pvar<=4?2:3,ht,hi,0,how,svar,pvar};
  long p=(pvar>=3||ht==T::id)?hi:n;
  affect(slot,T::id,n+1<=s->cap?(how==1?std::min(p,i):p):0);
  T& x=*(c.template begin<T>()+i);
  value_type& vx=*(c.begin(typeid(T))+i);
  auto run=[&](bool emp,auto&& arg){
    using A=decltype(arg);
    with_position<T>(c,pvar,ht,hi,[&](auto... p){
      constexpr int k=pos_kind<T,decltype(p)...>::v;
      guarded([&]{
        fire_zone();
        if(!emp){auto it=c.insert(p...,std::forward<A>(arg));
          vt::disarm();record<T>(c,it);return;}
        if constexpr(std::is_constructible<T,A>::value){
          if constexpr(k==0){auto it=c.template emplace<T>(std::forward<A>(arg));
            vt::disarm();record<T>(c,it);}
          else if constexpr(k==1){auto it=c.template emplace_hint<T>(p...,std::forward<A>(arg));
            vt::disarm();record<T>(c,it);}
          else if constexpr(k==2){auto it=c.template emplace_pos<T>(p...,std::forward<A>(arg));
            vt::disarm();record<T>(c,it);}
          else{auto it=c.emplace_pos(p...,std::forward<A>(arg));
            vt::disarm();record<T>(c,it);}
        }
      });
    });
  };
  const T& cx=x;const value_type& cvx=vx;
  switch(svar){
    case 0:run(false,cx);break;
    case 1:run(false,cvx);break;
    case 2:run(true,cx);break;
    case 3:run(false,std::move(x));break;
    default:run(true,std::move(x));break;
  }
  return true;
  }
}

/* ----------------------------------------------------------------- ranges */

/* truly single pass: all the copies of an iterator advance together; at end
 * the shared state is exhausted or there is none */

template<typename Source>
struct in_state{const Source* v;std::size_t i,n;};

template<typename D,typename Source>
struct in_base
{
  using iterator_category=std::input_iterator_tag;
  using difference_type=std::ptrdiff_t;
  in_state<Source>* s=nullptr;
  bool at_end()const{return !s||s->i>=s->n;}
  D& self(){return static_cast<D&>(*this);}
  D& operator++()
  {
    if(vt::tick(vt::state::USER))throw vt::fault{};
    if(at_end())vt::anomaly("increment-past-end");else ++s->i;
    return self();
  }
  struct old
  {
    const Source* v;std::size_t i;
    decltype(auto) operator*()const{return D::get(*v,i);}
  };
  old operator++(int){old r{s->v,s->i};++*this;return r;}
  decltype(auto) operator*()const
  {
    if(at_end())vt::anomaly("dereference-past-end");
    return D::get(*s->v,s->i);
  }
  friend bool operator==(const D& x,const D& y){return x.at_end()==y.at_end();}
  friend bool operator!=(const D& x,const D& y){return x.at_end()!=y.at_end();}
};
template<typename T>
struct in_ref:in_base<in_ref<T>,std::vector<T>> /* yields const T& */
{
  using value_type=T;using pointer=const T*;using reference=const T&;
  static const T& get(const std::vector<T>& v,std::size_t i){return v[i];}
};
template<typename T>
struct in_val:in_base<in_val<T>,ints> /* yields prvalues */
{
  using value_type=T;using pointer=const T*;using reference=T;
  static T get(const ints& v,std::size_t i){return T((int)v[i]);}
};
struct poly_it:in_base<poly_it,std::vector<vk::value_type*>> /* value_type& */
{
  using value_type=vk::value_type;
  using pointer=value_type*;using reference=value_type&;
  static value_type& get(const std::vector<value_type*>& v,std::size_t i)
  {return *v[i];}
};

/* source forms: 0 vector<T>::iterator, 1 list<T>::const_iterator, 2 in_ref,
 * 3 in_val, 4 move_iterator, 5 poly_it (mixed), 6 iterator (mixed),
 * 7 const_iterator (mixed), 8 local_base, 9 const_local_base, 10 local<T>,
 * 11 const_local<T>, 12 ints (typed local positions only) */

struct range_src
{
  int sform;
  ints types,vals;
};

template<typename T,typename F>
static void with_range_T(const range_src& s,F f)
{
  const auto& vals=s.vals;
  switch(LEAN&&s.sform!=4?0:s.sform){
    case 0:{
      std::vector<T> v;v.reserve(vals.size());
      for(long x:vals){v.emplace_back((int)x);ev.src.push_back({T::id,x});}
      f(v.begin(),v.end());
      for(auto& x:v)ev.sv.push_back(x.val());
      break;
    }
#if !LEAN
    case 1:{
      std::list<T> v;
      for(long x:vals){v.emplace_back((int)x);ev.src.push_back({T::id,x});}
      f(v.cbegin(),v.cend());
      for(auto& x:v)ev.sv.push_back(x.val());
      break;
    }
    case 2:{
      std::vector<T> v;v.reserve(vals.size());
      for(long x:vals){v.emplace_back((int)x);ev.src.push_back({T::id,x});}
      in_state<std::vector<T>> st{&v,0,v.size()};
      in_ref<T> it;it.s=&st;
      f(it,in_ref<T>{});
      for(auto& x:v)ev.sv.push_back(x.val());
      break;
    }
    case 3:{
      for(long x:vals){ev.src.push_back({T::id,x});}
      in_state<ints> st{&vals,0,vals.size()};
      in_val<T> it;it.s=&st;
      f(it,in_val<T>{});
      break;
    }
#endif
    case 4:{
      std::vector<T> v;v.reserve(vals.size());
      for(long x:vals){v.emplace_back((int)x);ev.src.push_back({T::id,x});}
      f(std::make_move_iterator(v.begin()),std::make_move_iterator(v.end()));
      for(auto& x:v)ev.sv.push_back(x.val());
      break;
    }
#if !LEAN
    case 8:case 9:case 10:case 11:{
      auto sc=scratch();
      sc.template reserve<T>(vals.size()+1);
      for(long x:vals){sc.template emplace<T>((int)x);ev.src.push_back({T::id,x});}
      if(vals.empty())sc.template register_types<T>();
      const auto& csc=sc;
      if(s.sform==8)f(sc.begin(typeid(T)),sc.end(typeid(T)));
      else if(s.sform==9)f(csc.begin(typeid(T)),csc.end(typeid(T)));
      else if(s.sform==10)f(sc.template begin<T>(),sc.template end<T>());
      else f(csc.template begin<T>(),csc.template end<T>());
      for(auto it=sc.template begin<T>();it!=sc.template end<T>();++it)
        ev.sv.push_back(it->val());
      break;
    }
#endif
  }
}

template<typename T>
void ops<T>::scratch_emplace(coll& sc,long v,std::size_t res)
{
  sc.template reserve<T>(res);
  sc.template emplace<T>((int)v);
}

template<typename F>
static void with_range_mixed(const range_src& s,F f)
{
  auto sc=scratch();
  std::vector<value_type*> ptrs;
  for(std::size_t i=0;i<s.types.size();++i)
    with_type(s.types[i],[&](auto g){
      ops<typename decltype(g)::type>::scratch_emplace(
        sc,s.vals[i],s.types.size());
    });
  const auto& csc=sc;
  if(s.sform==5){
    /* original order */
    std::map<int,long> k;
    for(std::size_t i=0;i<s.types.size();++i){
      auto it=sc.begin(info_of(s.types[i]))+k[s.types[i]]++;
      ptrs.push_back(&*it);
      ev.src.push_back({s.types[i],s.vals[i]});
    }
    in_state<std::vector<value_type*>> st{&ptrs,0,ptrs.size()};
    poly_it it;it.s=&st;
    f(it,poly_it{});
    for(auto p:ptrs)ev.sv.push_back(pval(*p));
  }
  else{
    for(auto it=csc.begin();it!=csc.end();++it)
      ev.src.push_back({type_index(pinfo(*it)),pval(*it)});
    if(s.sform==6)f(sc.begin(),sc.end());
    else f(csc.begin(),csc.end());
    for(auto it=csc.begin();it!=csc.end();++it)ev.sv.push_back(pval(*it));
  }
}

template<typename T>
bool ops<T>::insr(int slot,range_src s,int pvar,int ht,long hi)
{
  if constexpr(T::id>=NT_FULL)return false;
  else{
      coll& c=*C[slot];
      const int t=T::id;
      if(LEAN){if(s.sform>4)s.sform=0;if(pvar>1)pvar=0;}
      auto sg=pre[slot].seg(t);
      long n=sg?sg->e.size():0;
      if(pvar>=3){if(!sg)return false;hi=hi%(n+1);ht=t;}
      else if(pvar>=1){
        auto h=pre[slot].seg(ht);
        if(!h||h->e.empty()){ht=-1;hi=0;}else hi=hi%h->e.size();
      }
      else{ht=-1;hi=0;}
      long m=s.vals.size();
      ev.op="insr";
      int how=s.sform==3||s.sform==4?1:s.sform==12?2:0;
      /* reg: 0 element needs registration beforehand, 1 registers */
      int reg=s.sform==5?(KIND==1&&t==4?1:0):1;
      ev.a={slot,pvar==0?0:pvar<=2?1:pvar<=4?2:3,ht,hi,reg,how,s.sform,pvar};
      long p=(pvar>=3||ht==t)?hi:n;
      affect(slot,t,m==0?n+1:(n+m<=(sg?sg->cap:0)?p:0));
      auto go=[&](auto f,auto l){
        with_position<T>(c,pvar,ht,hi,[&](auto... p){
          constexpr int k=pos_kind<T,decltype(p)...>::v;
          using It=decltype(f);
          constexpr bool isint=std::is_same<It,ints::const_iterator>::value;
          if constexpr((isint&&k!=3)||(LEAN&&k>1)){}
          else guarded([&]{
            fire_zone();
            if constexpr(k<=1)c.insert(p...,f,l);
            else{
              auto it=c.insert(p...,f,l);
              vt::disarm();record<T>(c,it);
            }
          });
        });
      };
      if constexpr(!LEAN){
        if(s.sform==12){
          for(long x:s.vals)ev.src.push_back({T::id,x});
          const ints& cv=s.vals;
          go(cv.begin(),cv.end());
          return true;
        }
        else if(s.sform>=5&&s.sform<=7){with_range_mixed(s,go);return true;}
      }
      with_range_T<T>(s,go);
      return true;
  }
}

static bool op_insr(int slot,range_src s,int pvar,int ht,long hi)
{
  coll& c=*C[slot];
  if(s.types.empty()&&s.sform>=5&&s.sform<=7)s.types={},s.vals={};
  if(pvar>=3||!(s.sform>=5&&s.sform<=7)){
    /* single-type range */
    int t=s.types.empty()?0:s.types[0];
    if(t>=NT_FULL)t=t%NT_FULL;
    if(s.sform==12&&pvar<5)s.sform=0;
    for(auto& x:s.types)x=t;
    bool done=false;
    with_full(t,[&](auto g){
      done=ops<typename decltype(g)::type>::insr(slot,s,pvar,ht,hi);
    });
    return done;
  }
  else{
    for(auto& x:s.types)x%=NTYPES;
    if(pvar>=1){
      auto h=pre[slot].seg(ht);
      if(!h||h->e.empty()){ht=-1;hi=0;}else hi=hi%h->e.size();
    }
    else{ht=-1;hi=0;}
    ev.op="insr";
    ev.a={slot,pvar==0?0:1,ht,hi,s.sform==5?0:1,0,s.sform,pvar};
    std::map<int,long> cnt;
    for(auto t:s.types)++cnt[t];
    for(auto& p:cnt){
      auto sg=pre[slot].seg(p.first);
      long n=sg?sg->e.size():0;
      long q=ht==p.first?hi:n;
      affect(slot,p.first,n+p.second<=(sg?sg->cap:0)?q:0);
    }
    with_range_mixed(s,[&](auto f,auto l){
      guarded([&]{
        fire_zone();
        if(pvar==0)c.insert(f,l);
        else if(pvar==1)c.insert(global_at(c,ht,hi),f,l);
        else{coll::const_iterator h=global_at(c,ht,hi);c.insert(h,f,l);}
      });
    });
    return true;
  }
}

struct ctorr_go
{
  int slot,al;
  template<typename It> void operator()(It f,It l)const
  {
    guarded([&]{
      fire_zone();
      C[slot].reset(new coll(f,l,alloc(al)));
    });
  }
};
template<typename T>
void ops<T>::ctorr(int slot,int al,const range_src& s)
{
  if constexpr(T::id<NT_FULL)with_range_T<T>(s,ctorr_go{slot,al});
}

static bool op_ctorr(int slot,int al,range_src s)
{
  ev.op="ctorr";
  ev.nokeep.insert(slot);
  C[slot].reset();
  ctorr_go go{slot,al};
  if(s.sform>=5&&s.sform<=7){
    for(auto& x:s.types)x%=NTYPES;
    ev.a={slot,al,s.sform==5?0:1,0,s.sform};
    with_range_mixed(s,go);
  }
  else{
    int t=s.types.empty()?0:s.types[0]%NT_FULL;
    for(auto& x:s.types)x=t;
    if(s.sform>11)s.sform=0;
    int how=s.sform==3||s.sform==4?1:0;
    ev.a={slot,al,1,how,s.sform};
    with_full(t,[&](auto g){ops<typename decltype(g)::type>::ctorr(slot,al,s);});
  }
  return true;
}

/* ------------------------------------------------------------------ erase */

template<typename T>
bool ops<T>::er(int slot,long i,int form)
{
  coll& c=*C[slot];const coll& cc=c;
  auto s=pre[slot].seg(T::id);
  if(!s||s->e.empty())return false;
  i%=s->e.size();
  if constexpr(!is_full<T>())form%=2;
  ev.op="er";
  ev.a={slot,T::id,i,T::id,i+1,form<2?0:form<4?1:2,form};
  affect(slot,T::id,i);
  auto go=[&](auto p){
    guarded([&]{fire_zone();auto it=c.erase(p);vt::disarm();record<T>(c,it);});
  };
  switch(form){
    case 0:go(global_at(c,T::id,i));break;
    case 1:go(coll::const_iterator(global_at(c,T::id,i)));break;
    default:if constexpr(is_full<T>())switch(form){
    case 2:go(c.begin(typeid(T))+i);break;
    case 3:go(cc.begin(typeid(T))+i);break;
    case 4:go(c.begin<T>()+i);break;
    default:go(cc.begin<T>()+i);break;
    }
  }
  return true;
}

static long flat_of(const pcoll& p,int t,long i)
{
  long f=0;
  for(auto& s:p.segs){
    if(s.t==t)return i<(long)s.e.size()?f+i:f+(long)s.e.size();
    f+=s.e.size();
  }
  return f;
}

template<typename T>
bool ops<T>::err(int slot,long i1,long i2,int form)
{
  if constexpr(!is_full<T>())return false;
  else{
      coll& c=*C[slot];const coll& cc=c;
      auto s=pre[slot].seg(T::id);
      if(!s)return false;
      long n=s->e.size();
      i1%=n+1;i2%=n+1;
      if(i2<i1)std::swap(i1,i2);
      ev.a={slot,T::id,i1,T::id,i2,form<4?1:2,form};
      if(i1<i2)affect(slot,T::id,i1);
      auto go=[&](auto f,auto l){
        guarded([&]{fire_zone();auto it=c.erase(f,l);vt::disarm();record<T>(c,it);});
      };
      switch(form){
        case 2:{auto b=c.begin(typeid(T));go(b+i1,b+i2);break;}
        case 3:{auto b=cc.begin(typeid(T));go(b+i1,b+i2);break;}
        case 4:{auto b=c.begin<T>();go(b+i1,b+i2);break;}
        default:{auto b=cc.begin<T>();go(b+i1,b+i2);break;}
      }
      return true;
  }
}

static bool op_err(int slot,int t1,long i1,int t2,long i2,int form)
{
  coll& c=*C[slot];const coll& cc=c;
  ev.op="err";
  if(form<2){
    auto s1=pre[slot].seg(t1),s2=pre[slot].seg(t2);
    if(s1&&!s1->e.empty())i1%=s1->e.size();else t1=-1;
    if(s2&&!s2->e.empty())i2%=s2->e.size();else t2=-1;
    long n=0;for(auto& s:pre[slot].segs)n+=s.e.size();
    long f1=t1<0?n:flat_of(pre[slot],t1,i1),f2=t2<0?n:flat_of(pre[slot],t2,i2);
    if(f2<f1){std::swap(f1,f2);}
    ev.a={slot,-1,f1,-1,f2,0,form};
    /* affected segments */
    long f=0;
    for(auto& s:pre[slot].segs){
      long b=f,e=f+s.e.size();
      f=e;
      if(b<e&&f1<f2&&f1<e&&f2>b)affect(slot,s.t,std::max(0l,f1-b));
    }
    auto it1=c.begin(),it2=c.begin();
    {vt::quiet q;std::advance(it1,f1);std::advance(it2,f2);}
    guarded([&]{
      fire_zone();
      if(form==0){auto it=c.erase(it1,it2);vt::disarm();record<void>(c,it);}
      else{
        auto it=c.erase(coll::const_iterator(it1),coll::const_iterator(it2));
        vt::disarm();record<void>(c,it);
      }
    });
    return true;
  }
  else{
    bool done=false;
    if(t1>=NT_FULL)return false;
    with_full(t1,[&](auto g){
      done=ops<typename decltype(g)::type>::err(slot,i1,i2,form);
    });
    return done;
  }
}

/* ---------------------------------------------------------------- queries */

template<typename T>
bool ops<T>::qry(int slot,int q,int form)
{
  coll& c=*C[slot];const coll& cc=c;
  const std::type_info& ti=form==2?vt::clone_of(typeid(T)):typeid(T);
  ev.op="qry";
  ev.a={slot,T::id,q,form};
  bool ty=form==0;
  guarded([&]{
    fire_zone();
    long r=0;
    switch(q){
      case 0:if(ty)(void)c.begin<T>();else (void)c.begin(ti);break;
      case 1:if(ty)(void)c.end<T>();else (void)c.end(ti);break;
      case 2:if(ty)(void)cc.begin<T>();else (void)cc.begin(ti);break;
      case 3:if(ty)(void)cc.end<T>();else (void)cc.end(ti);break;
      case 4:if(ty)(void)c.cbegin<T>();else (void)c.cbegin(ti);break;
      case 5:if(ty)(void)c.cend<T>();else (void)c.cend(ti);break;
      case 6:if(ty)(void)c.segment<T>();else (void)c.segment(ti);break;
      case 7:if(ty)(void)cc.segment<T>();else (void)cc.segment(ti);break;
      case 8:r=ty?cc.empty<T>():cc.empty(ti);break;
      case 9:r=ty?cc.size<T>():cc.size(ti);break;
      case 10:if(ty)(void)cc.max_size<T>();else (void)cc.max_size(ti);break;
      case 11:r=ty?cc.capacity<T>():cc.capacity(ti);break;
      default:r=ty?cc.is_registered<T>():cc.is_registered(ti);break;
    }
    vt::disarm();
    ev.r={r};
  });
  return true;
}

template<typename T>
void ops<T>::clrshr(coll& c,bool clr,int form)
{
  const std::type_info& ti=form==2?vt::clone_of(typeid(T)):typeid(T);
  guarded([&]{
    fire_zone();
    if(clr){if(form==0)c.clear<T>();else c.clear(ti);}
    else{if(form==0)c.shrink_to_fit<T>();else c.shrink_to_fit(ti);}
  });
}
template<typename T>
void ops<T>::rest(coll& c,long n_,int form)
{
  const std::type_info& ti=form==2?vt::clone_of(typeid(T)):typeid(T);
  std::size_t n=n_;
  if(n_<0){
    if(!c.is_registered<T>())n=(std::size_t)-1;
    else n=n_==-1?c.max_size<T>()+1:n_==-2?(std::size_t)-1:
           c.max_size<T>()+(((std::size_t)-1)-c.max_size<T>())/2;
  }
  guarded([&]{
    fire_zone();
    if(form==0)c.reserve<T>(n);else c.reserve(ti,n);
  });
}
template<typename T>
void ops<T>::reg(coll& c)
{
  guarded([&]{fire_zone();c.register_types<T>();});
}

/* ---------------------------------------------- explicit instantiations */

#ifndef PART
#define PART -1 /* everything in one unit */
#endif
#if PART>=0
extern template struct ops<type_of<0>>;
extern template struct ops<type_of<1>>;
extern template struct ops<type_of<2>>;
extern template struct ops<type_of<3>>;
extern template struct ops<type_of<4>>;
extern template struct ops<type_of<5>>;
extern template struct ops<type_of<6>>;
extern template struct ops<type_of<7>>;
extern template struct ops<type_of<8>>;
#endif
#if PART==1
template struct ops<type_of<0>>;
template struct ops<type_of<8>>;
#elif PART==2
template struct ops<type_of<1>>;
template struct ops<type_of<2>>;
#elif PART==3
template struct ops<type_of<3>>;
template struct ops<type_of<4>>;
#elif PART==4
template struct ops<type_of<5>>;
template struct ops<type_of<6>>;
#elif PART==5
template struct ops<type_of<7>>;
#endif

#if PART<=0
/* ---------------------------------------------------------- reset, runner */

static void destroy_all(){for(auto& p:C)p.reset();}

static bool exec(const std::string& op,const ints& a)
{
  auto A=[&](std::size_t i)->long{return i<a.size()?a[i]:0;};
  auto on=[&](long s){return s>=0&&s<NS&&C[s];};
  auto valid=[&](long s){return s>=0&&s<NS;};
  auto swap_follow=[&](int x,int y,bool pocs){
    if(pocs||pre[x].al==pre[y].al||(ALF&vt::F_AEQ)){ev.follow[x]=y;ev.follow[y]=x;}
    else{ev.nokeep.insert(x);ev.nokeep.insert(y);}
  };
  if(op=="new"){
    if(!valid(A(0)))return false;
    ev.op=op;ev.a={A(0),A(1)};
    ev.nokeep.insert(A(0));
    C[A(0)].reset();
    guarded([&]{fire_zone();C[A(0)].reset(new coll(alloc((int)A(1))));});
    return true;
  }
  if(op=="del"){
    if(!on(A(0)))return false;
    ev.op=op;ev.a={A(0)};
    ev.nokeep.insert(A(0));
    guarded([&]{fire_zone();C[A(0)].reset();});
    return true;
  }
  if(op=="ins"){
    if(!on(A(0)))return false;
    bool r=false;
    with_type(A(1),[&](auto g){
      r=ops<typename decltype(g)::type>::ins(A(0),A(2),A(3),A(4),A(5),A(6));});
    return r;
  }
  if(op=="ali"){
    if(!on(A(0)))return false;
    bool r=false;
    with_full(A(1),[&](auto g){
      r=ops<typename decltype(g)::type>::ali(A(0),A(2),A(3),A(4),A(5),A(6));});
    return r;
  }
  if(LEAN&&op=="ali")return false;
  if(op=="insr"){
    /* c sform pvar ht hi n (t v)* */
    if(!on(A(0)))return false;
    range_src s;s.sform=A(1);
    if(LEAN&&s.sform>7)s.sform=s.sform%8;
    if(LEAN&&s.sform<4)s.sform=0;
    for(int i=0;i<A(5);++i){s.types.push_back(A(6+2*i));s.vals.push_back(A(7+2*i));}
    return op_insr(A(0),s,A(2),A(3),A(4));
  }
  if(op=="ctorr"){
    /* c al sform n (t v)* */
    if(!valid(A(0)))return false;
    range_src s;s.sform=A(2);
    if(LEAN&&s.sform>7)s.sform=s.sform%8;
    if(LEAN&&s.sform<4)s.sform=0;
    for(int i=0;i<A(3);++i){s.types.push_back(A(4+2*i));s.vals.push_back(A(5+2*i));}
    return op_ctorr(A(0),A(1),s);
  }
  if(op=="er"){
    if(!on(A(0)))return false;
    bool r=false;
    with_type(A(1),[&](auto g){
      r=ops<typename decltype(g)::type>::er(A(0),A(2),A(3));});
    return r;
  }
  if(op=="err"){
    if(!on(A(0)))return false;
    return op_err(A(0),A(1),A(2),A(3),A(4),A(5));
  }
  if(op=="clr"){
    if(!on(A(0)))return false;
    ev.op=op;ev.a={A(0)};
    for(auto& s:pre[A(0)].segs)affect(A(0),s.t,0);
    guarded([&]{fire_zone();C[A(0)]->clear();});
    return true;
  }
  if(op=="clrt"||op=="shrt"){
    if(!on(A(0)))return false;
    ev.op=op;ev.a={A(0),A(1),A(2)};
    if(pre[A(0)].seg(A(1)))affect(A(0),A(1),0);
    coll& c=*C[A(0)];
    with_type(A(1),[&](auto g){
      ops<typename decltype(g)::type>::clrshr(c,op=="clrt",A(2));});
    return true;
  }
  if(op=="shr"){
    if(!on(A(0)))return false;
    ev.op=op;ev.a={A(0)};
    for(auto& s:pre[A(0)].segs)affect(A(0),s.t,0);
    guarded([&]{fire_zone();C[A(0)]->shrink_to_fit();});
    return true;
  }
  if(op=="res"){
    if(!on(A(0)))return false;
    ev.op=op;ev.a={A(0),A(1)};
    for(auto& s:pre[A(0)].segs)
      affect(A(0),s.t,A(1)<=s.cap?(long)s.e.size()+1:0);
    guarded([&]{fire_zone();C[A(0)]->reserve(A(1));});
    return true;
  }
  if(op=="rest"){
    /* c t n form ; n<0: beyond max_size */
    if(!on(A(0)))return false;
    ev.op=op;ev.a={A(0),A(1),A(2),A(3)};
    coll& c=*C[A(0)];
    if(auto s=pre[A(0)].seg(A(1)))
      affect(A(0),A(1),A(2)>=0&&A(2)<=s->cap?(long)s->e.size()+1:0);
    with_type(A(1),[&](auto g){
      ops<typename decltype(g)::type>::rest(c,A(2),A(3));});
    return true;
  }
  if(op=="reg"){
    /* c n t... (n<=2) */
    if(!on(A(0)))return false;
    ev.op=op;ev.a={A(0)};
    coll& c=*C[A(0)];
    if(A(1)<=1){
      ev.a.push_back(A(2));
      with_type(A(2),[&](auto g){
        ops<typename decltype(g)::type>::reg(c);});
    }
    else if(A(1)==2){
      /* fixed pairs to bound instantiations */
      ev.a.push_back(0);ev.a.push_back(3);
      guarded([&]{fire_zone();c.register_types<type_of<0>,type_of<3>>();});
    }
    else{
      for(int i=0;i<NT_FULL;++i)ev.a.push_back(i);
      guarded([&]{fire_zone();c.register_types<
        type_of<0>,type_of<1>,type_of<2>,type_of<3>,type_of<4>,type_of<5>,
        type_of<6>,type_of<7>,type_of<8>>();});
    }
    return true;
  }
  if(op=="qry"){
    if(!on(A(0)))return false;
    bool r=false;
    with_type(A(1),[&](auto g){
      r=ops<typename decltype(g)::type>::qry(A(0),A(2),A(3));});
    return r;
  }
  if(op=="cpc"||op=="cpca"||op=="mvc"||op=="mvca"){
    if(!valid(A(0))||!on(A(1))||A(0)==A(1))return false;
    ev.op=op;ev.a={A(0),A(1),A(2)};
    auto &d=C[A(0)],&s=C[A(1)];
    d.reset();
    ev.nokeep.insert(A(0));
    if(op=="mvc"||(op=="mvca"&&(pre[A(1)].al==A(2)||(ALF&vt::F_AEQ))))ev.follow[A(1)]=A(0);
    else if(op=="mvca")ev.nokeep.insert(A(1));
    guarded([&]{
      fire_zone();
      if(op=="cpc")d.reset(new coll(*s));
      else if(op=="cpca")d.reset(new coll(*s,alloc((int)A(2))));
      else if(op=="mvc")d.reset(new coll(std::move(*s)));
      else d.reset(new coll(std::move(*s),alloc((int)A(2))));
    });
    return true;
  }
  if(op=="cpa"){
    if(!on(A(0))||!on(A(1)))return false;
    ev.op=op;ev.a={A(0),A(1)};
    if(A(0)!=A(1))ev.nokeep.insert(A(0));
    guarded([&]{fire_zone();*C[A(0)]=*C[A(1)];});
    return true;
  }
  if(op=="mva"){
    if(!on(A(0))||!on(A(1))||A(0)==A(1))return false;
    ev.op=op;ev.a={A(0),A(1)};
    ev.nokeep.insert(A(0));
    if((ALF&(vt::F_POCMA|vt::F_AEQ))||pre[A(0)].al==pre[A(1)].al)ev.follow[A(1)]=A(0);
    else ev.nokeep.insert(A(1));
    guarded([&]{fire_zone();*C[A(0)]=std::move(*C[A(1)]);});
    return true;
  }
  if(op=="swp"){
    if(!on(A(0))||!on(A(1)))return false;
    /* swapping with unequal, non-propagating allocators is undefined */
    if(!(ALF&(vt::F_POCS|vt::F_AEQ))&&pre[A(0)].al!=pre[A(1)].al)return false;
    ev.op=op;ev.a={A(0),A(1),A(2)};
    if(A(0)!=A(1))swap_follow(A(0),A(1),(ALF&vt::F_POCS)!=0);
    guarded([&]{
      fire_zone();
      if(A(2)==0)C[A(0)]->swap(*C[A(1)]);
      else{using std::swap;swap(*C[A(0)],*C[A(1)]);}
    });
    return true;
  }
  if(op=="eq"){
    if(!on(A(0))||!on(A(1)))return false;
    ev.op=op;ev.a={A(0),A(1),A(2)};
    const coll &x=*C[A(0)],&y=*C[A(1)];
    guarded([&]{
      fire_zone();
      bool r=A(2)==0?x==y:!(x!=y);
      vt::disarm();
      ev.r={r};
    });
    return true;
  }
  return false;
}

static long epno=0;
static void log_event(long k,bool fired,const std::vector<handle>& hs)
{
  for(int i=0;i<NS;++i)post[i]=project(C[i].get());
  /* handles */
  std::vector<ints> hx,hd;
  if(opt_handles&&ev.x.empty()){
    vt::quiet q;
    /* iterator tables of the current state */
    std::array<std::vector<coll::iterator>,NS> its;
    for(int i=0;i<NS;++i)if(C[i]){
      auto it=C[i]->begin();
      long n=C[i]->size();
      for(long k=0;k<n;++k,++it)its[i].push_back(it);
      its[i].push_back(C[i]->end());
    }
    for(auto& h:hs){
      int to=h.slot;
      if(ev.follow.count(h.slot))to=ev.follow[h.slot];
      else if(ev.nokeep.count(h.slot))continue;
      if(!C[to])continue;
      coll& c=*C[to];const coll& cc=c;
      if(h.t<0){ /* global end */
        if(ev.follow.count(h.slot))continue;
        if(h.g!=c.end()||h.cg!=cc.end())hd.push_back({h.slot,-1,0,9});
        continue;
      }
      long nv=pre[h.slot].seg(h.t)?(long)pre[h.slot].seg(h.t)->e.size()+1:0;
      auto k=ev.keep.find({h.slot,h.t});
      if(k!=ev.keep.end())nv=k->second;
      if(h.idx==0)hx.push_back({h.slot,h.t,nv});
      if(h.idx>=nv)continue;
      auto sg=post[to].seg(h.t);
      if(!sg){hd.push_back({h.slot,h.t,h.idx,1});continue;}
      long m=sg->e.size();
      auto badh=[&](int code){hd.push_back({h.slot,h.t,h.idx,code});};
      if(h.end){
        if(h.lb!=c.end(info_of(h.t))||h.clb!=cc.end(info_of(h.t)))badh(2);
        if(h.h&&h.h->off(c)!=m)badh(3);
      }
      else{
        if(pwhere(*h.lb)!=h.p||pwhere(*h.clb)!=h.p)badh(4);
        if(h.lb-c.begin(info_of(h.t))!=h.idx)badh(5);
        if(h.h&&(h.h->deref()!=h.p||h.h->off(c)!=h.idx))badh(6);
        if(pwhere(*h.g)!=h.p||pwhere(*h.cg)!=h.p)badh(7);
        /* the iterator still continues the traversal */
        long f=flat_of(post[to],h.t,h.idx);
        if(f>=0&&f+1<(long)its[to].size()){
          auto g=h.g;++g;
          auto cg=h.cg;++cg;
          if(h.g!=its[to][f]||g!=its[to][f+1]||cg!=coll::const_iterator(its[to][f+1]))badh(8);
        }
        else badh(8);
      }
    }
  }
  std::string r="{\"op\":\""+ev.op+"\",\"ep\":"+js::num(epno)+",\"a\":"+js::arr(ev.a)+",\"x\":\""+ev.x+
    "\",\"xi\":"+js::num(ev.xi)+",\"r\":"+js::arr(ev.r)+",\"sv\":"+js::arr(ev.sv)+
    ",\"src\":"+js::arr2(ev.src)+",\"k\":"+js::num(k)+",\"fd\":"+js::num(fired?1:0)+
    ",\"nc\":"+js::num(S().ncopy)+",\"lv\":"+js::num(S().live.size())+
    ",\"cd\":"+js::num(S().ctor-S().dtor)+",\"hx\":"+js::arr2(hx)+",\"hd\":"+js::arr2(hd)+
    ",\"ob\":[";
  bool f=true;
  for(auto& p:S().outstanding)if(p.second){
    if(!f)r+=",";f=false;
    r+="["+js::num(p.first)+","+js::num(p.second)+"]";
  }
  r+="],\"an\":[";
  f=true;
  for(auto& a:S().anomalies){if(!f)r+=",";f=false;r+="\""+a+"\"";}
  S().anomalies.clear();
  r+="]";
  if(S().micro){
    r+=",\"m\":[";
    auto& m=S().mlog;
    for(std::size_t i=0;i<m.size();i+=4){
      if(i)r+=",";
      r+="["+js::num(m[i])+","+js::num(m[i+1])+","+js::num(m[i+2])+","+js::num(m[i+3])+"]";
    }
    m.clear();
    r+="]";
  }
  r+=",\"st\":[";
  for(int i=0;i<NS;++i){if(i)r+=",";r+=slot_json(post[i]);}
  r+="]}\n";
  std::fwrite(r.data(),1,r.size(),out);
  std::fflush(out);
  pre=post;
}

static void log_reset()
{
  destroy_all();
  ev=event{};
  ev.op="reset";
  for(auto& p:pre)p=pcoll{};
  log_event(0,false,{});
}

struct line{std::string op;ints a;bool target;std::string text;};

static unsigned watch=20;
static void run_line(const line& l,int mask,long k,long& ticks)
{
  alarm(watch);                      /* no operation takes that long */
  std::fseek(cur,0,SEEK_SET);
  std::fprintf(cur,"%-200s %ld\n",l.text.c_str(),k);
  std::fflush(cur);
  std::vector<handle> hs;
  if(opt_handles)hs=take_handles();
  ev=event{};
  armed_now=l.target&&mask;
  armed_mask=mask;armed_target=k;
  S().fcount=0;S().fired=false;
  S().muse=S().micro;
  bool done=exec(l.op,l.a);
  S().muse=false;
  if(!done){vt::disarm();armed_now=false;return;}
  vt::disarm();
  armed_now=false;
  if(l.target)ticks=S().fcount;
  log_event(l.target?k:0,l.target&&S().fired,hs);
}

/* with a bounding allocator, maximum size advertised for segments */

static long max_size_probe()
{
  if(!(ALF&vt::F_MAX))return 0;
  auto sc=scratch();
  long r=0;
  with_type(0,[&](auto g){
    using T=typename decltype(g)::type;
    sc.template register_types<T>();
    r=(long)sc.template max_size<T>();
  });
  return r;
}

int main(int argc,char** argv)
{
  if(argc<4){std::fprintf(stderr,"usage: driver script out cur\n");return 2;}
  std::ifstream in(argv[1]);
  out=std::fopen(argv[2],"w");
  cur=std::fopen(argv[3],"w");
  if(!in||!out||!cur)return 2;
  if(argc>4)watch=(unsigned)std::atoi(argv[4]);
  S().micro=std::getenv("VT_MICRO")!=nullptr;
  /* header: type features */
  {
    std::string r="{\"op\":\"hdr\",\"kind\":"+js::num(KIND)+",\"alf\":"+js::num(ALF)+
      ",\"ns\":"+js::num(NS)+",\"mx\":"+js::num(max_size_probe())+",\"ty\":[";
    for(int t=0;t<NTYPES;++t){
      auto f=feat_of(t);
      if(KIND==1&&t==4)f.eq=false;
      if(t)r+=",";
      r+=js::arr(std::vector<int>{f.copy,f.eq,f.assign,f.nt,tracked(t),t==8?0:t});
    }
    r+="]}\n";
    std::fwrite(r.data(),1,r.size(),out);
  }
  std::string s;
  std::vector<line> ep;
  int mask=0;
  long maxk=64;
  auto flush=[&]{
    if(ep.empty())return;
    long ticks=0;
    log_reset();
    for(auto& l:ep)run_line(l,mask,0,ticks);
    if(mask){
      long n=std::min(ticks,maxk);
      for(long k=1;k<=n;++k){
        long dummy;
        log_reset();
        for(auto& l:ep)run_line(l,mask,k,dummy);
      }
    }
    ep.clear();
  };
  while(std::getline(in,s)){
    if(s.empty()||s[0]=='#')continue;
    std::istringstream is(s);
    line l;
    l.text=s;
    is>>l.op;
    l.target=l.op[0]=='!';
    if(l.target)l.op=l.op.substr(1);
    long x;
    while(is>>x)l.a.push_back(x);
    if(l.op=="ep"){
      flush();
      ++epno;
      mask=l.a.empty()?0:l.a[0];
      if(l.a.size()>1)maxk=l.a[1];
    }
    else if(l.op=="opt"){flush();if(!l.a.empty())opt_handles=l.a[0]&1,light=l.a[0]&2;}
    else ep.push_back(l);
  }
  flush();
  log_reset();
  std::fclose(out);
  std::fprintf(stderr,"done\n");
  return 0;
}
#endif /* PART<=0 */
