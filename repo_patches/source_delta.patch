From 9b19102282f1cfa33d9b6cd2ad596028118e7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:25 +0000
Subject: [PATCH 1/5] fix: assignment from a variant whose content is in a heap
 backup

After a failed assignment a variant may hold its content through a
backup_holder. Assigning such a variant to one with a different which_
passed the backup_holder itself to assigner/move_assigner, which copied
the holder (asserting, or leaving a null holder treated as the content).
Assign from the held content instead.
---
 include/boost/variant/variant.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 33bdcb7..a49f527 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1797,6 +1797,12 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        template <typename RhsT>
+        void internal_visit(const detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            internal_visit( rhs_content.get(), 1L );
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
@@ -1915,6 +1921,12 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        template <typename RhsT>
+        void internal_visit(detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            internal_visit( rhs_content.get(), 1L );
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
-- 
2.43.0


From 0554f12bebaa1b21dce8f6e8aaba77aed15c42d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:19 +0000
Subject: [PATCH 2/5] fix: back up nothrow-copyable, throwing-move content in
 place on assignment

backup_assigner moved the old content to the heap whenever its move
constructor may throw, but visitation assumes types with a nothrow copy
constructor are never in a heap backup. After a failed assignment such a
variant treated the backup pointer as the content. Use the in-place
backup for these types, copying where only copying is nothrow.
---
 include/boost/variant/variant.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index a49f527..53a8195 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -17,6 +17,7 @@
 
 #include <cstddef> // for std::size_t
 #include <new> // for placement new
+#include <utility> // for std::move_if_noexcept
 
 #include <boost/type_index.hpp>
 
@@ -755,13 +756,13 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           LhsT& lhs_content
-        , mpl::true_ // is_nothrow_move_constructible
+        , mpl::true_ // is_nothrow_move_constructible or has_nothrow_copy
         , int
         )
     {
-        // Move lhs content to backup...
+        // Move (or copy, if only that is nothrow) lhs content to backup...
         LhsT backup_lhs_content(
-              ::boost::detail::variant::move(lhs_content)
+              std::move_if_noexcept(lhs_content)
             ); // nothrow
 
         // ...destroy lhs content...
@@ -777,7 +778,7 @@ private: // helpers, for visitor interface (below)
             // In case of failure, restore backup content to lhs storage...
             new(lhs_.storage_.address())
                 LhsT(
-                      ::boost::detail::variant::move(backup_lhs_content)
+                      std::move_if_noexcept(backup_lhs_content)
                     ); // nothrow
 
             // ...and rethrow:
@@ -833,10 +834,13 @@ public: // visitor interface
     template <typename LhsT>
     void internal_visit(LhsT& lhs_content, int)
     {
-        typedef typename is_nothrow_move_constructible<LhsT>::type
-            nothrow_move;
+        // NOTE: must agree with visitation's notion of types that never use backup.
+        typedef typename mpl::or_< // reduces compile-time
+              is_nothrow_move_constructible<LhsT>
+            , has_nothrow_copy<LhsT>
+            >::type nothrow_backup;
 
-        backup_assign_impl( lhs_content, nothrow_move(), 1L);
+        backup_assign_impl( lhs_content, nothrow_backup(), 1L);
     }
 
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
-- 
2.43.0


From 182a732aa4d0fc29c4ae4458274d26af6e6a3a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:28 +0000
Subject: [PATCH 3/5] fix: construct the fallback type, not an MPL iterator,
 after a failed assignment

find_fallback_type returned the search result's iterator as the fallback
type, so after a failed assignment the variant reported the fallback
alternative while its storage held no object of that type (unnoticed for
the empty boost::blank). Return the type itself, and value-initialise it
as variant's default constructor does.
---
 include/boost/variant/variant.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 53a8195..bd2e043 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -205,17 +205,28 @@ private: // helpers, for metafunction result (below)
 
     typedef typename second_result_::second second_result_it;
 
+    // [...turn a search result (index and iterator) into index and type...]
+
+    template <typename Result>
+    struct index_and_type
+    {
+        typedef mpl::pair<
+              typename Result::first
+            , typename mpl::deref< typename Result::second >::type
+            > type;
+    };
+
 public: // metafunction result
 
     // [...and return the results of the search:]
     typedef typename mpl::eval_if<
           is_same< second_result_it,end_it >
-        , mpl::if_<
+        , mpl::eval_if<
               is_same< first_result_it,end_it >
-            , mpl::pair< no_fallback_type,no_fallback_type >
-            , first_result_
+            , mpl::identity< mpl::pair< no_fallback_type,no_fallback_type > >
+            , index_and_type< first_result_ >
             >
-        , mpl::identity< second_result_ >
+        , index_and_type< second_result_ >
         >::type type;
 
 };
@@ -1730,7 +1741,7 @@ private: // helpers, for modifiers (below)
         void construct_fallback() const BOOST_NOEXCEPT {
             // In case of failure, default-construct fallback type in lhs's storage...
             new (lhs_.storage_.address())
-                fallback_type_; // nothrow
+                fallback_type_(); // nothrow
 
             // ...indicate construction of fallback type...
             lhs_.indicate_which(
-- 
2.43.0


From 6516f45100761115116d33b6d7acae1d16bdf422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:00 +0000
Subject: [PATCH 4/5] fix: prefer boost::blank as the fallback type, as
 documented

The search for boost::blank among the bounded types compared MPL
iterators, not the types they refer to, with boost::blank and so never
found it unless blank was the first nothrow-default-constructible type.
---
 include/boost/variant/variant.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index bd2e043..54a0909 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -177,6 +177,19 @@ struct find_fallback_type_pred
     };
 };
 
+struct find_blank_pred
+{
+    template <typename Iterator>
+    struct apply
+    {
+    private:
+        typedef typename mpl::deref<Iterator>::type t_;
+
+    public:
+        typedef mpl::not_< is_same<t_, boost::blank> > type;
+    };
+};
+
 template <typename Types>
 struct find_fallback_type
 {
@@ -200,7 +213,7 @@ private: // helpers, for metafunction result (below)
     typedef typename mpl::iter_fold_if<
           mpl::iterator_range< first_result_it,end_it >
         , first_result_index, mpl::protect< mpl::next<> >
-        , mpl::protect< mpl::not_same_as<boost::blank> >
+        , mpl::protect< find_blank_pred >
         >::type second_result_;
 
     typedef typename second_result_::second second_result_it;
-- 
2.43.0


From 7a96afaae3ac1c222f8713ec834b343ed02f51af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:46 +0000
Subject: [PATCH 5/5] fix: take the address of assigned content with addressof

backup_assigner took it with a plain &, so assigning content whose class
overloads operator& read the wrong object.
---
 include/boost/variant/variant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 54a0909..1c465b2 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -54,6 +54,7 @@
 #include <boost/type_traits/is_constructible.hpp>
 #include <boost/type_traits/add_lvalue_reference.hpp>
 #include <boost/type_traits/declval.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/variant/recursive_wrapper_fwd.hpp>
@@ -727,7 +728,7 @@ public: // structors
     backup_assigner(Variant& lhs, int rhs_which, const RhsT& rhs_content)
         : lhs_(lhs)
         , rhs_which_(rhs_which)
-        , rhs_content_(&rhs_content)
+        , rhs_content_(boost::addressof(rhs_content))
         , copy_rhs_content_(&construct_impl<RhsT>)
     {
     }
-- 
2.43.0

