From c03d39c99135ca4f5f00cfed3dd591ca5729d09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 01/14] fix: make sequenced index sort stable

Each carry run holds elements that come after those already in the counter
slots, so it has to be collated into the slot and not the other way around;
otherwise equivalent elements ended up in reverse order.
---
 include/boost/multi_index/detail/seq_index_ops.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/detail/seq_index_ops.hpp b/include/boost/multi_index/detail/seq_index_ops.hpp
index b12cc32..ebb888d 100644
--- a/include/boost/multi_index/detail/seq_index_ops.hpp
+++ b/include/boost/multi_index/detail/seq_index_ops.hpp
@@ -160,7 +160,10 @@ void sequenced_index_sort(Node* header,Compare comp)
       impl_type::relink(carry.next(),header->next());
       std::size_t i=0;
       while(i<fill&&counter[i].next()!=static_cast<impl_pointer>(&counter[i])){
-        sequenced_index_collate<Node>(&carry,&counter[i++],comp);
+        sequenced_index_collate<Node>(&counter[i],&carry,comp);
+        impl_type::swap(
+          static_cast<impl_pointer>(&carry),
+          static_cast<impl_pointer>(&counter[i++]));
       }
       impl_type::swap(
         static_cast<impl_pointer>(&carry),
-- 
2.43.0


From 73a5cb84cf553511245e3876acd8b9daf50bc34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 02/14] fix: rethrow exceptions from sequenced index range
 splice

The handler relinked the elements already transferred but swallowed the
exception, after which the relinking was done a second time.
---
 include/boost/multi_index/sequenced_index.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 770a6ce..3ea6f5f 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -1110,6 +1110,7 @@ private:
       BOOST_CATCH(...){
         ++first_to_relink;
         relink(position.get_node(),first_to_relink.get_node(),header());
+        BOOST_RETHROW;
       }
       BOOST_CATCH_END
       ++first_to_relink;
-- 
2.43.0


From 48e8c7408c672d6c052109ff5828c140a806294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 03/14] fix: keep rolled back element when modify exits with an
 exception

The rethrow after a successful rollback was caught by the handler meant for
exceptions thrown by the rollback itself, so that the element was erased
(twice, if the rollback check had already erased it).
---
 include/boost/multi_index_container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/multi_index_container.hpp b/include/boost/multi_index_container.hpp
index 8ac43fc..6a1d248 100644
--- a/include/boost/multi_index_container.hpp
+++ b/include/boost/multi_index_container.hpp
@@ -1077,13 +1077,13 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
       BOOST_TRY{
         back_(const_cast<value_type&>(x->value()));
         if(!super::check_rollback_(x))this->erase_(x);
-        BOOST_RETHROW;
       }
       BOOST_CATCH(...){
         this->erase_(x);
         BOOST_RETHROW;
       }
       BOOST_CATCH_END
+      BOOST_RETHROW;
     }
     BOOST_CATCH_END
 
-- 
2.43.0


From 9d8183910016a628e77cf8845ba44c028f6e0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:11 +0000
Subject: [PATCH 04/14] fix: use own allocator for bucket and pointer arrays of
 copies

When a container is copy or move constructed with an allocator different from
that of the source, internal arrays were obtained from the latter's allocator
and later returned to the former's.
---
 include/boost/multi_index/hashed_index.hpp        | 4 ++--
 include/boost/multi_index/random_access_index.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/multi_index/hashed_index.hpp b/include/boost/multi_index/hashed_index.hpp
index 5100d3c..72deff6 100644
--- a/include/boost/multi_index/hashed_index.hpp
+++ b/include/boost/multi_index/hashed_index.hpp
@@ -770,7 +770,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),x.buckets.size()),
+    buckets(this->get_allocator(),header()->impl(),x.buckets.size()),
     mlf(x.mlf),
     max_load(x.max_load)
 
@@ -791,7 +791,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),0),
+    buckets(this->get_allocator(),header()->impl(),0),
     mlf(1.0f)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 96b4565..a86fb6d 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -766,7 +766,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
 
   random_access_index(const random_access_index<SuperMeta,TagList>& x):
     super(x),
-    ptrs(x.get_allocator(),header()->impl(),x.size())
+    ptrs(this->get_allocator(),header()->impl(),x.size())
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
@@ -780,7 +780,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
   random_access_index(
     const random_access_index<SuperMeta,TagList>& x,do_not_copy_elements_tag):
     super(x,do_not_copy_elements_tag()),
-    ptrs(x.get_allocator(),header()->impl(),0)
+    ptrs(this->get_allocator(),header()->impl(),0)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
-- 
2.43.0


From 99c59265c2920f602c74091f8bc0e532e6f8a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 05/14] fix: splice from another index of a container with two
 random access indices

The implicit conversion from node to node implementation is ambiguous, and
does not compile, when there is more than one random access index.
---
 include/boost/multi_index/random_access_index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index a86fb6d..268ed67 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -1157,7 +1157,7 @@ private:
     /* relink [first, last) */
 
     for(Iterator it=first;it!=last;++it,++pp){
-      *pp=static_cast<index_node_type*>(it.get_node());
+      *pp=static_cast<index_node_type*>(it.get_node())->impl();
       (*pp)->up()=pp;
     }
   }
-- 
2.43.0


From e596082a6dfb7fdeda46eeba7d6a7e68db39f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 06/14] fix: call binary predicate of random access unique as
 documented

unique(binary_pred) is specified in terms of binary_pred(*i,*(i-1)), but the
arguments were passed the other way around (sequenced indices get it right).
---
 include/boost/multi_index/detail/rnd_index_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index/detail/rnd_index_ops.hpp b/include/boost/multi_index/detail/rnd_index_ops.hpp
index f5e76e4..6ed6745 100644
--- a/include/boost/multi_index/detail/rnd_index_ops.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ops.hpp
@@ -64,8 +64,8 @@ Node* random_access_index_unique(
   if(first!=last){
     for(;++first!=last;){
       if(!binary_pred(
-           const_cast<const value_type&>(Node::from_impl(*res)->value()),
-           const_cast<const value_type&>(Node::from_impl(*first)->value()))){
+           const_cast<const value_type&>(Node::from_impl(*first)->value()),
+           const_cast<const value_type&>(Node::from_impl(*res)->value()))){
         ++res;
         if(first!=res){
           std::swap(*first,*res);
-- 
2.43.0


From 2e4585283d904e5a23841fd0a6d356524cd618cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 07/14] fix: splice of a whole index of the same container

splice(position,x) is specified as splice(position,x,x.begin(),x.end()), but
nothing was done when x is a different index of the same container.
---
 include/boost/multi_index/random_access_index.hpp | 1 +
 include/boost/multi_index/sequenced_index.hpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 268ed67..52c9ade 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -536,6 +536,7 @@ public:
     if(x.end().get_node()==this->header()){ /* same container */
       BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(
         position==end(),safe_mode::inside_range);
+      internal_splice(position,x.begin(),x.end());
     }
     else{
       external_splice(
diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 3ea6f5f..6f84388 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -487,6 +487,7 @@ public:
     if(x.end().get_node()==this->header()){ /* same container */
       BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(
         position==end(),safe_mode::inside_range);
+      internal_splice(position,x.begin(),x.end());
     }
     else{
       external_splice(
-- 
2.43.0


From 61f04c42a15ac1939e8aa0bb9d3ead14ad4ac24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:57 +0000
Subject: [PATCH 08/14] fix: check the position of range insertion in sequenced
 and random access indices

---
 include/boost/multi_index/random_access_index.hpp | 2 ++
 include/boost/multi_index/sequenced_index.hpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 52c9ade..1af7fd2 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -1046,6 +1046,8 @@ private:
   void insert_iter(
     iterator position,InputIterator first,InputIterator last,mpl::true_)
   {
+    BOOST_MULTI_INDEX_CHECK_VALID_ITERATOR(position);
+    BOOST_MULTI_INDEX_CHECK_IS_OWNER(position,*this);
     BOOST_MULTI_INDEX_RND_INDEX_CHECK_INVARIANT;
     size_type s=0;
     BOOST_TRY{
diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 6f84388..f404e22 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -974,6 +974,8 @@ private:
   void insert_iter(
     iterator position,InputIterator first,InputIterator last,mpl::true_)
   {
+    BOOST_MULTI_INDEX_CHECK_VALID_ITERATOR(position);
+    BOOST_MULTI_INDEX_CHECK_IS_OWNER(position,*this);
     BOOST_MULTI_INDEX_SEQ_INDEX_CHECK_INVARIANT;
     for(;first!=last;++first){
       std::pair<final_node_type*,bool> p=
-- 
2.43.0


From 0cfef59d21d33be0b1b3212254746c77dbd11e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:57 +0000
Subject: [PATCH 09/14] fix: support class-type pointers in list sort, merge
 and splice

---
 include/boost/multi_index/detail/rnd_index_node.hpp | 4 ++--
 include/boost/multi_index/detail/seq_index_ops.hpp  | 4 ++--
 include/boost/multi_index/random_access_index.hpp   | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/multi_index/detail/rnd_index_node.hpp b/include/boost/multi_index/detail/rnd_index_node.hpp
index 9f76eed..6b4c0ac 100644
--- a/include/boost/multi_index/detail/rnd_index_node.hpp
+++ b/include/boost/multi_index/detail/rnd_index_node.hpp
@@ -173,14 +173,14 @@ struct random_access_index_node_impl
     ptr_pointer pbegin,ptr_pointer pend,ptr_pointer x)
   {
     for(ptr_pointer p=pbegin;p!=x;++p){
-      if(*p){
+      if(*p!=pointer(0)){
         *pbegin=*p;
         (*pbegin)->up()=pbegin;
         ++pbegin;
       }
     }
     for(ptr_pointer p=pend;p!=x;){
-      if(*--p){
+      if(*--p!=pointer(0)){
         *--pend=*p;
         (*pend)->up()=pend;
       }
diff --git a/include/boost/multi_index/detail/seq_index_ops.hpp b/include/boost/multi_index/detail/seq_index_ops.hpp
index ebb888d..545e7dd 100644
--- a/include/boost/multi_index/detail/seq_index_ops.hpp
+++ b/include/boost/multi_index/detail/seq_index_ops.hpp
@@ -85,9 +85,9 @@ void sequenced_index_collate(
   typedef typename Node::impl_pointer impl_pointer;
 
   impl_pointer first0=x->next();
-  impl_pointer last0=x;
+  impl_pointer last0=static_cast<impl_pointer>(x);
   impl_pointer first1=y->next();
-  impl_pointer last1=y;
+  impl_pointer last1=static_cast<impl_pointer>(y);
   while(first0!=last0&&first1!=last1){
     if(comp(
         Node::from_impl(first1)->value(),Node::from_impl(first0)->value())){
diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 1af7fd2..310aed6 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -1150,7 +1150,8 @@ private:
     /* null out [first, last) positions in ptrs array */
 
     for(Iterator it=first;it!=last;++it){ 
-      *(static_cast<index_node_type*>(it.get_node())->up())=0;
+      *(static_cast<index_node_type*>(it.get_node())->up())=
+        typename node_impl_type::pointer(0);
     }
 
     node_impl_ptr_pointer pp=node_impl_type::gather_nulls(
-- 
2.43.0


From 1db091b7aa36dc61b3a0806cf70282c59e44bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 10/14] fix: rearrange with element types that overload
 operator&

sequenced_index::rearrange and random_access_index::rearrange took the address
of the elements with operator&, unlike iterator_to, which uses boost::addressof.
---
 include/boost/multi_index/random_access_index.hpp | 3 ++-
 include/boost/multi_index/sequenced_index.hpp     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 310aed6..927d52e 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -744,7 +744,8 @@ public:
     for(node_impl_ptr_pointer p0=ptrs.begin(),p0_end=ptrs.end();
         p0!=p0_end;++first,++p0){
       const value_type& v1=*first;
-      node_impl_ptr_pointer p1=node_from_value<index_node_type>(&v1)->up();
+      node_impl_ptr_pointer p1=
+        node_from_value<index_node_type>(boost::addressof(v1))->up();
 
       std::swap(*p0,*p1);
       (*p0)->up()=p0;
diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index f404e22..c30a7e3 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -664,7 +664,7 @@ public:
     index_node_type* pos=header();
     for(size_type s=size();s--;){
       const value_type& v=*first++;
-      relink(pos,node_from_value<index_node_type>(&v));
+      relink(pos,node_from_value<index_node_type>(boost::addressof(v)));
     }
   }
 
-- 
2.43.0


From aac645ebd7dda401482cb9acbc1cb3778e223fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:05 +0000
Subject: [PATCH 11/14] fix: random_access reserve with the largest size_type
 value

The number of positions to allocate, one more than the capacity, wrapped
around to zero and the pointers were then written to a null array.
---
 .../boost/multi_index/detail/rnd_index_ptr_array.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/detail/rnd_index_ptr_array.hpp b/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
index e758b62..10ff409 100644
--- a/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
@@ -19,6 +19,9 @@
 #include <boost/multi_index/detail/allocator_traits.hpp>
 #include <boost/multi_index/detail/auto_space.hpp>
 #include <boost/multi_index/detail/rnd_index_node.hpp>
+#include <boost/throw_exception.hpp>
+#include <limits>
+#include <stdexcept>
 
 namespace boost{
 
@@ -69,7 +72,14 @@ public:
 
   void reserve(size_type c)
   {
-    if(c>capacity_)set_capacity(c);
+    if(c>capacity_){
+      /* c+1 positions are allocated */
+
+      if(c==(std::numeric_limits<size_type>::max)()){
+        throw_exception(std::length_error("random access index"));
+      }
+      set_capacity(c);
+    }
   }
 
   void shrink_to_fit()
-- 
2.43.0


From 1106f1cffc2473c268815424b108772b58b2e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:05 +0000
Subject: [PATCH 12/14] fix: hashed reserve whose number of buckets is beyond
 size_type

Converting the quotient to size_type is undefined when it does not fit,
as with reserve(n) for large n and max_load_factor() below one.
---
 include/boost/multi_index/hashed_index.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/hashed_index.hpp b/include/boost/multi_index/hashed_index.hpp
index 72deff6..f3ace30 100644
--- a/include/boost/multi_index/hashed_index.hpp
+++ b/include/boost/multi_index/hashed_index.hpp
@@ -744,7 +744,10 @@ public:
 
   void reserve(size_type n)
   {
-    rehash(static_cast<size_type>(std::ceil(static_cast<float>(n)/mlf)));
+    size_type bc =(std::numeric_limits<size_type>::max)();
+    float     fbc=static_cast<float>(std::ceil(static_cast<float>(n)/mlf));
+    if(bc>fbc)bc=static_cast<size_type>(fbc);
+    rehash(bc);
   }
 
 BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
-- 
2.43.0


From 315d5e659e0f6f9c0dde08f956cdb7f456d6eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 13/14] fix: report arrays larger than the allocator's
 size_type can count

Bucket arrays and the pointer arrays of random access indices were sized
with silently wrapping arithmetic when the allocator's size_type is narrow,
after which writing to them overran the memory obtained. A length error is
thrown now, as reserve does.
---
 .../boost/multi_index/detail/bucket_array.hpp    | 16 ++++++++++++++--
 .../multi_index/detail/rnd_index_ptr_array.hpp   |  6 ++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index/detail/bucket_array.hpp b/include/boost/multi_index/detail/bucket_array.hpp
index ccab197..8a7941f 100644
--- a/include/boost/multi_index/detail/bucket_array.hpp
+++ b/include/boost/multi_index/detail/bucket_array.hpp
@@ -23,13 +23,15 @@
 #include <boost/preprocessor/seq/elem.hpp>
 #include <boost/preprocessor/seq/enum.hpp>
 #include <boost/preprocessor/seq/size.hpp>
+#include <boost/throw_exception.hpp> 
 #include <cstddef>
+#include <limits>
 #include <limits.h>
+#include <stdexcept>
 
 #if !defined(BOOST_MULTI_INDEX_DISABLE_SERIALIZATION)
 #include <boost/core/serialization.hpp>
 #include <boost/multi_index/detail/bad_archive_exception.hpp>
-#include <boost/throw_exception.hpp> 
 #endif
 
 namespace boost{
@@ -141,7 +143,7 @@ public:
 
   bucket_array(const Allocator& al,pointer end_,std::size_t size_):
     size_index_(super::size_index(size_)),
-    spc(al,static_cast<auto_space_size_type>(super::sizes[size_index_]+1))
+    spc(al,spc_size(super::sizes[size_index_]))
   {
     clear(end_);
   }
@@ -192,6 +194,16 @@ private:
     return spc.data();
   }
 
+  static auto_space_size_type spc_size(std::size_t n)
+  {
+    /* n+1 positions are allocated */
+
+    if(n>=(std::numeric_limits<auto_space_size_type>::max)()){
+      throw_exception(std::length_error("hashed index"));
+    }
+    return static_cast<auto_space_size_type>(n+1);
+  }
+
 #if !defined(BOOST_MULTI_INDEX_DISABLE_SERIALIZATION)
   friend class boost::serialization::access;
   
diff --git a/include/boost/multi_index/detail/rnd_index_ptr_array.hpp b/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
index 10ff409..9bf3355 100644
--- a/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
@@ -66,6 +66,12 @@ public:
   void room_for_one()
   {
     if(size_==capacity_){
+      const size_type max_=(std::numeric_limits<size_type>::max)();
+
+      if(capacity_/2>=max_-capacity_){
+        reserve(capacity_<max_-1?static_cast<size_type>(max_-1):max_);
+        return;
+      }
       reserve(capacity_<=10?15:capacity_+capacity_/2);
     }
   }
-- 
2.43.0


From 743632c194f6d87507d082c9fcdce070f7eb6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:07 +0000
Subject: [PATCH 14/14] fix: copy assignment required allocators to be
 swappable

Allocators are exchanged on copy assignment only if they propagate;
otherwise they are equal and may lack swap and assignment, as
std::pmr::polymorphic_allocator does, for which copy assignment did
not compile.
---
 include/boost/multi_index_container.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index_container.hpp b/include/boost/multi_index_container.hpp
index 6a1d248..15deca3 100644
--- a/include/boost/multi_index_container.hpp
+++ b/include/boost/multi_index_container.hpp
@@ -352,7 +352,12 @@ public:
       x,
       node_alloc_traits::propagate_on_container_copy_assignment::value?
         x.get_allocator():this->get_allocator());
-    swap_(y,boost::true_type() /* swap_allocators */);
+    swap_(
+      y,
+      boost::integral_constant<
+        bool,
+        node_alloc_traits::propagate_on_container_copy_assignment::value>()
+        /* swap_allocators */);
     return *this;
   }
 #endif
@@ -364,7 +369,12 @@ public:
       x,
       node_alloc_traits::propagate_on_container_copy_assignment::value?
         x.get_allocator():this->get_allocator());
-    swap_(y,boost::true_type() /* swap_allocators */);
+    swap_(
+      y,
+      boost::integral_constant<
+        bool,
+        node_alloc_traits::propagate_on_container_copy_assignment::value>()
+        /* swap_allocators */);
     return *this;
   }
 
-- 
2.43.0

