From 070fda2b73b08d715f7626e9e33bfa5bd58cbb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:02 +0000
Subject: [PATCH 01/15] fix: keep the cached segment sentinel in sync when an
 operation throws midway

---
 .../boost/poly_collection/detail/segment.hpp  | 93 ++++++++++++++-----
 1 file changed, 72 insertions(+), 21 deletions(-)

diff --git a/include/boost/poly_collection/detail/segment.hpp b/include/boost/poly_collection/detail/segment.hpp
index a080839..60f7543 100644
--- a/include/boost/poly_collection/detail/segment.hpp
+++ b/include/boost/poly_collection/detail/segment.hpp
@@ -115,33 +115,52 @@ public:
   template<typename U>
   std::size_t          max_size()const noexcept
                          {return impl<U>().nv_max_size();}
-  void                 reserve(std::size_t n){filter(impl().reserve(n));}
+  void                 reserve(std::size_t n)
+  {
+    sentinel_guard g{*this};
+    g.filter(impl().reserve(n));
+  }
   template<typename U>
-  void                 reserve(std::size_t n){filter(impl<U>().nv_reserve(n));}
+  void                 reserve(std::size_t n)
+  {
+    sentinel_guard g{*this};
+    g.filter(impl<U>().nv_reserve(n));
+  }
   std::size_t          capacity()const noexcept{return impl().capacity();}
   template<typename U>
   std::size_t          capacity()const noexcept
                          {return impl<U>().nv_capacity();}
-  void                 shrink_to_fit(){filter(impl().shrink_to_fit());}
+  void                 shrink_to_fit()
+  {
+    sentinel_guard g{*this};
+    g.filter(impl().shrink_to_fit());
+  }
   template<typename U>
-  void                 shrink_to_fit(){filter(impl<U>().nv_shrink_to_fit());}
+  void                 shrink_to_fit()
+  {
+    sentinel_guard g{*this};
+    g.filter(impl<U>().nv_shrink_to_fit());
+  }
 
   template<typename U,typename Iterator,typename... Args>
   base_iterator emplace(Iterator it,Args&&... args)
   {
-    return filter(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
+    sentinel_guard g{*this};
+    return g.filter(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
   }
 
   template<typename U,typename... Args>
   base_iterator emplace_back(Args&&... args)
   {
-    return filter(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
+    sentinel_guard g{*this};
+    return g.filter(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
   }
 
   template<typename T>
   base_iterator push_back(const T& x)
   {
-    return filter(impl().push_back(subaddress(x)));
+    sentinel_guard g{*this};
+    return g.filter(impl().push_back(subaddress(x)));
   }
 
   template<
@@ -152,26 +171,30 @@ public:
   >
   base_iterator push_back(T&& x)
   {
-    return filter(impl().push_back_move(subaddress(x)));
+    sentinel_guard g{*this};
+    return g.filter(impl().push_back_move(subaddress(x)));
   }
 
   template<typename U>
   base_iterator push_back_terminal(U&& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g.filter(
       impl<typename std::decay<U>::type>().nv_push_back(std::forward<U>(x)));
   }
 
   template<typename T>
   base_iterator insert(const_base_iterator it,const T& x)
   {
-    return filter(impl().insert(it,subaddress(x)));
+    sentinel_guard g{*this};
+    return g.filter(impl().insert(it,subaddress(x)));
   }
 
   template<typename U,typename T>
   base_iterator insert(const_iterator<U> it,const T& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g.filter(
       impl<U>().nv_insert(it,*static_cast<const U*>(subaddress(x))));
   }
 
@@ -183,7 +206,8 @@ public:
   >
   base_iterator insert(const_base_iterator it,T&& x)
   {
-    return filter(impl().insert_move(it,subaddress(x)));
+    sentinel_guard g{*this};
+    return g.filter(impl().insert_move(it,subaddress(x)));
   }
 
   template<
@@ -194,14 +218,16 @@ public:
   >
   base_iterator insert(const_iterator<U> it,T&& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g.filter(
       impl<U>().nv_insert(it,std::move(*static_cast<U*>(subaddress(x)))));
   }
 
   template<typename InputIterator>
   base_iterator insert(InputIterator first,InputIterator last)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g.filter(
       impl<typename std::iterator_traits<InputIterator>::value_type>().
         nv_insert(first,last));
   }
@@ -220,41 +246,48 @@ public:
   base_iterator insert(
     const_iterator<U> it,InputIterator first,InputIterator last)
   {
-    return filter(impl<U>().nv_insert(it,first,last));
+    sentinel_guard g{*this};
+    return g.filter(impl<U>().nv_insert(it,first,last));
   }
 
   base_iterator erase(const_base_iterator it)
   {
-    return filter(impl().erase(it));
+    sentinel_guard g{*this};
+    return g.filter(impl().erase(it));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> it)
   {
-    return filter(impl<U>().nv_erase(it));
+    sentinel_guard g{*this};
+    return g.filter(impl<U>().nv_erase(it));
   }
 
   base_iterator erase(const_base_iterator f,const_base_iterator l)
   {
-    return filter(impl().erase(f,l));
+    sentinel_guard g{*this};
+    return g.filter(impl().erase(f,l));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> f,const_iterator<U> l)
   {
-    return filter(impl<U>().nv_erase(f,l));
+    sentinel_guard g{*this};
+    return g.filter(impl<U>().nv_erase(f,l));
   }
 
   template<typename Iterator>
   base_iterator erase_till_end(Iterator f)
   {
-    return filter(impl().erase_till_end(f));
+    sentinel_guard g{*this};
+    return g.filter(impl().erase_till_end(f));
   }
 
   template<typename Iterator>
   base_iterator erase_from_begin(Iterator l)
   {
-    return filter(impl().erase_from_begin(l));
+    sentinel_guard g{*this};
+    return g.filter(impl().erase_from_begin(l));
   }
   
   void                 clear()noexcept{filter(impl().clear());}
@@ -303,6 +336,24 @@ private:
   void          filter(base_sentinel x){snt=x;}
   base_iterator filter(const range& x){snt=x.second;return x.first;}
 
+  /* If a segment_backend op throws after having modified the sequence or its
+   * storage, snt must be brought back in sync with the current end.
+   */
+
+  struct sentinel_guard
+  {
+    explicit sentinel_guard(segment& x):x(x){}
+    sentinel_guard(const sentinel_guard&)=delete;
+    sentinel_guard& operator=(const sentinel_guard&)=delete;
+    ~sentinel_guard(){if(!done)x.set_sentinel();}
+
+    void          filter(base_sentinel y){x.filter(y);done=true;}
+    base_iterator filter(const range& y){done=true;return x.filter(y);}
+
+    segment& x;
+    bool     done=false;
+  };
+
   segment_backend_unique_ptr pimpl;
   base_sentinel              snt;
 };
-- 
2.43.0


From ef8b88a7c0a9d906f62a27dbfc4ae9549cad4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:40 +0000
Subject: [PATCH 02/15] fix: keep the index of split segments consistent with
 the store upon exceptions

---
 .../poly_collection/detail/split_segment.hpp  | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 4c18788..620e070 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -164,8 +164,9 @@ public:
   template<typename Iterator,typename... Args>
   range nv_emplace(Iterator p,Args&&... args)
   {
-    auto q=prereserve(p);
-    auto it=s.emplace(
+    auto        q=prereserve(p);
+    index_guard g{*this};
+    auto        it=s.emplace(
       iterator_from(q),
       value_holder_emplacing_ctor,std::forward<Args>(args)...);
     push_index_entry();
@@ -209,7 +210,8 @@ public:
   range nv_insert(const_iterator p,const Concrete& x)
   {
     p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),x);
+    index_guard g{*this};
+    auto        it=s.emplace(iterator_from(p),x);
     push_index_entry();
     return range_from(it);
   }
@@ -220,7 +222,8 @@ public:
   range nv_insert(const_iterator p,Concrete&& x)
   {
     p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),std::move(x));
+    index_guard g{*this};
+    auto        it=s.emplace(iterator_from(p),std::move(x));
     push_index_entry();
     return range_from(it);
   }
@@ -245,8 +248,9 @@ public:
 
   range nv_erase(const_iterator p)
   {
+    auto it=s.erase(iterator_from(p));
     pop_index_entry();
-    return range_from(s.erase(iterator_from(p)));
+    return range_from(it);
   }
     
   virtual range erase(const_base_iterator first,const_base_iterator last)
@@ -314,6 +318,7 @@ private:
     i{{},typename index::allocator_type{al}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -321,6 +326,7 @@ private:
     s{std::move(s_)},i{{},typename index::allocator_type{s.get_allocator()}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -400,6 +406,18 @@ private:
     while(n--)i.pop_back();
   }
 
+  /* an insertion that throws midway may still have added an element to s */
+
+  struct index_guard
+  {
+    explicit index_guard(split_segment& x):x(x){}
+    index_guard(const index_guard&)=delete;
+    index_guard& operator=(const index_guard&)=delete;
+    ~index_guard(){x.build_index(x.i.size());}
+
+    split_segment& x;
+  };
+
   static Concrete& concrete_ref(value_pointer p)noexcept
   {
     return *static_cast<Concrete*>(p);
@@ -470,6 +488,7 @@ private:
     std::size_t n=0;
     for(;first!=last;++first,++n,++p){
       p=prereserve(p);
+      index_guard g{*this};
       s.emplace(iterator_from(p),*first);
       push_index_entry();
     }
-- 
2.43.0


From 6f738a5eaf3b69fd94a229ff5ec0088e6f9e9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:21 +0000
Subject: [PATCH 03/15] fix: allow insertion of an element of a
 function/any_collection into itself when reallocation is due

---
 .../poly_collection/detail/split_segment.hpp  | 83 ++++++++++++-------
 1 file changed, 52 insertions(+), 31 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 620e070..8028f6c 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -164,22 +164,20 @@ public:
   template<typename Iterator,typename... Args>
   range nv_emplace(Iterator p,Args&&... args)
   {
-    auto        q=prereserve(p);
-    index_guard g{*this};
-    auto        it=s.emplace(
-      iterator_from(q),
-      value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
-    return range_from(it);
+    if(s.size()==s.capacity()){
+      store ss=single_store(
+        value_holder_emplacing_ctor,std::forward<Args>(args)...);
+      return emplace_single(prereserve(p),std::move(ss.front()));
+    }
+    return emplace_single(
+      p,value_holder_emplacing_ctor,std::forward<Args>(args)...);
   }
 
   template<typename... Args>
   range nv_emplace_back(Args&&... args)
   {
-    prereserve();
-    s.emplace_back(value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
-    return range_from(s.size()-1);
+    return emplace_back_single(
+      value_holder_emplacing_ctor,std::forward<Args>(args)...);
   }
 
   virtual range push_back(const_value_pointer x)
@@ -187,10 +185,7 @@ public:
 
   range nv_push_back(const Concrete& x)
   {
-    prereserve();
-    s.emplace_back(x);
-    push_index_entry();
-    return range_from(s.size()-1);
+    return emplace_back_single(x);
   }
 
   virtual range push_back_move(value_pointer x)
@@ -198,10 +193,7 @@ public:
 
   range nv_push_back(Concrete&& x)
   {
-    prereserve();
-    s.emplace_back(std::move(x));
-    push_index_entry();
-    return range_from(s.size()-1);
+    return emplace_back_single(std::move(x));
   }
 
   virtual range insert(const_base_iterator p,const_value_pointer x)
@@ -209,11 +201,11 @@ public:
 
   range nv_insert(const_iterator p,const Concrete& x)
   {
-    p=prereserve(p);
-    index_guard g{*this};
-    auto        it=s.emplace(iterator_from(p),x);
-    push_index_entry();
-    return range_from(it);
+    if(s.size()==s.capacity()){
+      store ss=single_store(x);
+      return emplace_single(prereserve(p),std::move(ss.front()));
+    }
+    return emplace_single(p,x);
   }
 
   virtual range insert_move(const_base_iterator p,value_pointer x)
@@ -221,11 +213,11 @@ public:
 
   range nv_insert(const_iterator p,Concrete&& x)
   {
-    p=prereserve(p);
-    index_guard g{*this};
-    auto        it=s.emplace(iterator_from(p),std::move(x));
-    push_index_entry();
-    return range_from(it);
+    if(s.size()==s.capacity()){
+      store ss=single_store(std::move(x));
+      return emplace_single(prereserve(p),std::move(ss.front()));
+    }
+    return emplace_single(p,std::move(x));
   }
 
   template<typename InputIterator>
@@ -330,9 +322,38 @@ private:
     build_index();
   }
 
-  void prereserve()
+  /* When expansion is due, the new element is constructed beforehand into an
+   * auxiliary store, as the arguments may refer to elements of the segment.
+   */
+
+  template<typename... Args>
+  store single_store(Args&&... args)
   {
-    if(s.size()==s.capacity())expand();
+    store ss{s.get_allocator()};
+    ss.emplace_back(std::forward<Args>(args)...);
+    return ss;
+  }
+
+  template<typename Iterator,typename... Args>
+  range emplace_single(Iterator p,Args&&... args)
+  {
+    index_guard g{*this};
+    auto        it=s.emplace(iterator_from(p),std::forward<Args>(args)...);
+    push_index_entry();
+    return range_from(it);
+  }
+
+  template<typename... Args>
+  range emplace_back_single(Args&&... args)
+  {
+    if(s.size()==s.capacity()){
+      store ss=single_store(std::forward<Args>(args)...);
+      expand();
+      s.emplace_back(std::move(ss.front()));
+    }
+    else s.emplace_back(std::forward<Args>(args)...);
+    push_index_entry();
+    return range_from(s.size()-1);
   }
 
   const_base_iterator prereserve(const_base_iterator p)
-- 
2.43.0


From 8c44386ee79164ac19f25cc5aa421d8e7890e8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:03 +0000
Subject: [PATCH 04/15] fix: move rather than copy non-copyable elements with
 potentially throwing move ctors on reallocation

---
 .../poly_collection/detail/value_holder.hpp   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/boost/poly_collection/detail/value_holder.hpp b/include/boost/poly_collection/detail/value_holder.hpp
index b4cef22..5d5ee28 100644
--- a/include/boost/poly_collection/detail/value_holder.hpp
+++ b/include/boost/poly_collection/detail/value_holder.hpp
@@ -31,9 +31,9 @@ namespace detail{
 
 /* Segments of a poly_collection maintain vectors of value_holder<T>
  * rather than directly T. This serves several purposes:
- *  - value_holder<T> is copy constructible and equality comparable even if T
- *    is not: executing the corresponding op results in a reporting exception
- *    being thrown. This allows the segment to offer its full virtual
+ *  - value_holder<T> can be copied (through its allocator-extended ctor) and
+ *    compared for equality even if T does not support it: executing the
+ *    corresponding op results in a reporting exception being thrown. This allows the segment to offer its full virtual
  *    interface regardless of the properties of the concrete class contained.
  *  - value_holder<T> emulates move assignment when T is not move assignable
  *    (nothrow move constructibility required); this happens most notably with
@@ -80,6 +80,17 @@ class value_holder:public value_holder_base<T>
   using is_nothrow_equality_comparable=
     detail::is_nothrow_equality_comparable<T>;
 
+  /* value_holder<T> must not advertise itself as copy constructible when T is
+   * not: otherwise, stdlib vectors would copy (and hence throw) rather than
+   * move elements on reallocation if T's move ctor is not noexcept.
+   */
+
+  struct not_copy_constructible_arg{};
+  using copy_ctor_arg=typename std::conditional<
+    is_copy_constructible::value,
+    const value_holder&,const not_copy_constructible_arg&
+  >::type;
+
   T*       data()noexcept{return reinterpret_cast<T*>(&this->s);}
   const T* data()const noexcept
                 {return reinterpret_cast<const T*>(&this->s);}
@@ -139,7 +150,7 @@ public:
   template<typename... Args>
   value_holder(value_holder_emplacing_ctor_t,Args&&... args)
     {::new ((void*)data()) T(std::forward<Args>(args)...);}
-  value_holder(const value_holder& x)
+  value_holder(copy_ctor_arg x)
     noexcept(is_nothrow_copy_constructible::value)
     {copy(x.value());}
   value_holder(value_holder&& x)
-- 
2.43.0


From 6a935ef9c8ef4aa9b081433fae7d671df94758b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:38 +0000
Subject: [PATCH 05/15] fix: throw std::length_error when reserving beyond
 max_size in function/any_collection

---
 include/boost/poly_collection/detail/split_segment.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 8028f6c..726e1df 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -18,6 +18,7 @@
 #include <iterator>
 #include <memory>
 #include <new>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -128,6 +129,9 @@ public:
 
   base_sentinel nv_reserve(std::size_t n)
   {
+    if(n>nv_max_size()){
+      throw std::length_error{"length exceeds maximum size of the segment"};
+    }
     bool rebuild=n>s.capacity();
     i.reserve(n+1);
     s.reserve(n);
-- 
2.43.0


From 6bb2bab37e6be4578d01e39be57e78487a9b2576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:27 +0000
Subject: [PATCH 06/15] fix: restitute the type of the previous element in
 adjacent_find and unique_copy across segments

---
 include/boost/poly_collection/algorithm.hpp | 22 +++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 67c4fc3..1bc6a60 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -236,6 +236,18 @@ Iterator find_first_of(
   return generic_find<std_find_first_of,Ts...>(first1,last1,first2,last2,pred);
 }
 
+/* typeid of the type LocalIterator has been restituted to, typeid(void) if
+ * LocalIterator is the (non-restituted) base iterator.
+ */
+
+template<typename LocalIterator,typename LocalBaseIterator>
+const std::type_info& restituted_typeid()noexcept
+{
+  return std::is_same<LocalIterator,LocalBaseIterator>::value?
+    typeid(void):
+    typeid(typename std::iterator_traits<LocalIterator>::value_type);
+}
+
 template<typename... Ts>
 struct adjacent_find_alg
 {
@@ -244,7 +256,7 @@ struct adjacent_find_alg
   >
   LocalBaseIterator operator()(
     LocalIterator first,LocalIterator last,BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(first==last)return LocalBaseIterator{last};
@@ -255,8 +267,7 @@ struct adjacent_find_alg
     auto res=std::adjacent_find(first,last,pred);
     if(res==last){
       carry=true;
-      prev_info=&typeid(
-        typename std::iterator_traits<LocalIterator>::value_type);
+      prev_info=&restituted_typeid<LocalIterator,LocalBaseIterator>();
       prev=LocalBaseIterator{last-1};
     }
     else carry=false;
@@ -955,7 +966,7 @@ struct unique_copy_alg
   OutputIterator operator()(
     LocalIterator first,LocalIterator last,
     OutputIterator res, BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(carry){
@@ -965,8 +976,7 @@ struct unique_copy_alg
     if(first==last)return res;
     res=std::unique_copy(first,last,res,pred);
     carry=true;
-    prev_info=&typeid(
-      typename std::iterator_traits<LocalIterator>::value_type);
+    prev_info=&restituted_typeid<LocalIterator,LocalBaseIterator>();
     prev=LocalBaseIterator{last-1};
     return res;
   }
-- 
2.43.0


From 236c0e7edfd550e445aea20b7df550d2ff47e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:13 +0000
Subject: [PATCH 07/15] fix: let copy_n accept sizes of a type other than
 std::ptrdiff_t

---
 include/boost/poly_collection/algorithm.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 1bc6a60..11b4ca5 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -789,10 +789,11 @@ OutputIterator copy_n(const Iterator& first,Size count,OutputIterator res)
   auto lbit=traits::local_base_iterator_from(first);
   auto sit=traits::base_segment_info_iterator_from(first);
   for(;;){
-    auto n=(std::min)(count,sit->end()-lbit);
+    auto m=sit->end()-lbit;
+    auto n=count<=m?static_cast<decltype(m)>(count):m;
     auto alg=restitute_iterator<Ts...>(std_copy_n{},n,res);
     res=alg(sit->type_info(),lbit);
-    if((count-=n)==0)break;
+    if((count-=static_cast<Size>(n))==0)break;
     ++sit;
     lbit=sit->begin();
   }
-- 
2.43.0


From 1e8526bf3aac4d19a4978726ab9ab1b96d176a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:23 +0000
Subject: [PATCH 08/15] fix: don't compare iterators of different segments in
 adjacent_find

---
 include/boost/poly_collection/algorithm.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 11b4ca5..8cc1cb9 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -262,7 +262,7 @@ struct adjacent_find_alg
     if(first==last)return LocalBaseIterator{last};
     if(carry){
       auto p=restitute_iterator<Ts...>(deref_to(pred));
-      if(p(*prev_info,prev,first))return prev;
+      if(p(*prev_info,prev,first)){carry=false;return prev;}
     }
     auto res=std::adjacent_find(first,last,pred);
     if(res==last){
@@ -288,8 +288,18 @@ Iterator adjacent_find(
   bool                  carry=false;
   const std::type_info* prev_info{&typeid(void)};
   local_base_iterator   prev;
-  return generic_find<adjacent_find_alg<Ts...>,Ts...>(
-    first,last,pred,carry,prev_info,prev);  
+  auto                  alg=restitute_range<Ts...>(
+                          cast_return<local_base_iterator>(
+                            adjacent_find_alg<Ts...>{}),
+                          pred,carry,prev_info,prev);
+  for(auto i:detail::segment_split(first,last)){
+    if(i.begin()==i.end())continue;
+    auto it=alg(i);
+    if(!carry) /* can't check it!=i.end() as it may belong to a prior segment */
+      return traits::iterator_from(
+        it,traits::end_base_segment_info_iterator_from(last));
+  }
+  return last;
 }
 
 template<
-- 
2.43.0


From a3b2e9b87f7594416e1232328678608140ca3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:01 +0000
Subject: [PATCH 09/15] fix: keep the source consistent when an element-wise
 move to another allocator throws midway

---
 include/boost/poly_collection/detail/segment.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/boost/poly_collection/detail/segment.hpp b/include/boost/poly_collection/detail/segment.hpp
index 60f7543..957249a 100644
--- a/include/boost/poly_collection/detail/segment.hpp
+++ b/include/boost/poly_collection/detail/segment.hpp
@@ -71,7 +71,7 @@ public:
 
   /* TODO: try ptr-level move before impl().move() */
   segment(segment&& x,const allocator_type& al):
-    pimpl{x.impl().move(al)}{set_sentinel();}
+    pimpl{move_impl(x,al)}{set_sentinel();}
 
   segment& operator=(const segment& x)
   {
@@ -83,8 +83,8 @@ public:
   
   segment& operator=(segment&& x)
   {
-    pimpl=x.impl().move(
-      allocator_traits::propagate_on_container_move_assignment::value?
+    pimpl=move_impl(
+      x,allocator_traits::propagate_on_container_move_assignment::value?
       x.impl().get_allocator():impl().get_allocator());
     set_sentinel();
     return *this;
@@ -354,6 +354,15 @@ private:
     bool     done=false;
   };
 
+  /* the elements of x may be gone even if move throws */
+
+  static segment_backend_unique_ptr move_impl(
+    segment& x,const allocator_type& al)
+  {
+    sentinel_guard g{x};
+    return x.impl().move(al);
+  }
+
   segment_backend_unique_ptr pimpl;
   base_sentinel              snt;
 };
-- 
2.43.0


From a2ab0595a5a37404d721772b35096eac39fc3b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:01 +0000
Subject: [PATCH 10/15] fix: propagate the allocator to the type cache on copy
 assignment

---
 .../boost/poly_collection/detail/type_info_map.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index f983b82..64f4c6f 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -100,12 +100,12 @@ public:
   {
     if(this!=&x)try{
       map=x.map;
-      cache=make<cache_type>(map.get_allocator());
+      reset_cache();
       build_cache(x.cache);
     }
     catch(...){
       map.clear();
-      cache.clear();
+      reset_cache();
       throw;
     }
     return *this;
@@ -229,6 +229,16 @@ private:
   }
 #endif
 
+  /* upon copy assignment, the allocator of cache must be propagated exactly
+   * when that of map is
+   */
+
+  void reset_cache()
+  {
+    const cache_type c=make<cache_type>(map.get_allocator());
+    cache=c;
+  }
+
   void build_cache(const cache_type& x)
   {
     for(const auto& p:x)cache.insert({p.first,map.find(p.first)});
-- 
2.43.0


From 323766a77cb9f6b8ff34b0cd97f9eb1b44bbb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:31 +0000
Subject: [PATCH 11/15] fix: leave no dangling entries in the source's type
 cache when allocator-extended move construction throws

---
 include/boost/poly_collection/detail/type_info_map.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index 64f4c6f..08d8fea 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -89,9 +89,14 @@ public:
       make<cache_type>(al)
     }
   {
-    if(!(al==allocator_type{x.map.get_allocator()}&&x.map.empty())){
+    if(!(al==allocator_type{x.map.get_allocator()}&&x.map.empty()))try{
       build_cache(x.cache);
     }
+    catch(...){ /* x.cache may refer to elements no longer in x.map */
+      x.map.clear();
+      x.cache.clear();
+      throw;
+    }
     x.map.clear();
     x.cache.clear();
   }
-- 
2.43.0


From 4ed8b7fa65a6bc8ffc27917e31f794407a9a6822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:03 +0000
Subject: [PATCH 12/15] fix: allow conversion to const Callable of callables
 with a non-const call operator in function_collection

---
 .../boost/poly_collection/detail/callable_wrapper_iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp b/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
index fb3ca23..46c3aca 100644
--- a/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
@@ -69,7 +69,8 @@ public:
   template<
     typename Callable,
     typename std::enable_if<
-      std::is_constructible<CWrapper,Callable&>::value&&
+      std::is_constructible<
+        CWrapper,typename std::remove_const<Callable>::type&>::value&&
       (!std::is_const<CWrapper>::value||std::is_const<Callable>::value)
     >::type* =nullptr
   >
-- 
2.43.0


From dcb82e6f9dff27cfb897b3f00ee6aca4c77b4028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:03 +0000
Subject: [PATCH 13/15] fix: support signatures returning references in
 function_collection

---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 9b339db..442dcb1 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -78,7 +78,7 @@ private:
   static table* info(Callable&)noexcept
   {
     static table t={
-      [](void* p,Args... args){
+      [](void* p,Args... args)->R{
         auto r=std::ref(*static_cast<Callable*>(p));
         return static_cast<R>(r(std::forward<Args>(args)...));
       },
-- 
2.43.0


From 5c74a84c37a0351c7bcb2c435d0cfa46819c9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:03 +0000
Subject: [PATCH 14/15] fix: support callables overloading operator& in
 function_collection

---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 442dcb1..ddd281b 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -14,6 +14,7 @@
 #endif
 
 #include <boost/poly_collection/detail/is_invocable.hpp>
+#include <boost/core/addressof.hpp>
 #include <functional>
 #include <type_traits>
 #include <typeinfo>
@@ -41,7 +42,7 @@ public:
       is_invocable_r<R,Callable,Args...>::value
     >::type* =nullptr
   >
-  explicit callable_wrapper(Callable& x)noexcept:pt{info(x)},px{&x}{}
+  explicit callable_wrapper(Callable& x)noexcept:pt{info(x)},px{boost::addressof(x)}{}
   callable_wrapper(const callable_wrapper&)=default;
   callable_wrapper& operator=(const callable_wrapper&)=default;
 
-- 
2.43.0


From 7260241c6356d67201f1b613e9f1bef2476ac3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:03 +0000
Subject: [PATCH 15/15] fix: keep the source element when insertion by move
 runs out of memory in split segments

---
 include/boost/poly_collection/detail/split_segment.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 726e1df..02560b8 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -197,6 +197,7 @@ public:
 
   range nv_push_back(Concrete&& x)
   {
+    if(s.size()==s.capacity())expand(); /* x must be kept if this throws */
     return emplace_back_single(std::move(x));
   }
 
@@ -217,11 +218,7 @@ public:
 
   range nv_insert(const_iterator p,Concrete&& x)
   {
-    if(s.size()==s.capacity()){
-      store ss=single_store(std::move(x));
-      return emplace_single(prereserve(p),std::move(ss.front()));
-    }
-    return emplace_single(p,std::move(x));
+    return emplace_single(prereserve(p),std::move(x));
   }
 
   template<typename InputIterator>
-- 
2.43.0

