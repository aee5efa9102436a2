From 60a04dfe6493767a5f11d1a07f72c1b50429f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 01/13] fix: polymorphic_cxx14: initializer-list constructor
 built T instead of U

---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 0849204..08a0964 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -237,7 +237,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From 6cddb3066ae50285da9075f10145ffaebc91d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 02/13] fix: polymorphic_cxx14: allocator-extended move must
 test is_always_equal

---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 08a0964..73afc47 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -333,7 +333,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From 5dcf01ae8ddbd41d0c195e9f861643da87baf558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 03/13] fix: indirect_cxx14: converting assignment must not
 accept an indirect lvalue

---
 indirect_cxx14.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c45aeb7..8475268 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -300,11 +300,14 @@ class indirect : private detail::empty_base_optimization<A> {
     return *this;
   }
 
-  template <class U, typename std::enable_if<
-                         (std::is_constructible<T, U>::value &&
-                          std::is_assignable<T&, U>::value &&
-                          !std::is_same<std::remove_cv_t<U>, indirect>::value),
-                         int>::type = 0>
+  template <class U,
+            typename std::enable_if<
+                (std::is_constructible<T, U>::value &&
+                 std::is_assignable<T&, U>::value &&
+                 !std::is_same<typename std::remove_cv<
+                                   typename std::remove_reference<U>::type>::type,
+                               indirect>::value),
+                int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
       p_ = construct_from(get_allocator(), std::forward<U>(u));
-- 
2.43.0


From aa716a6d5ecfaf617494ce9be04e426c47395c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 04/13] fix: polymorphic: clone the owned object from a const
 source

---
 polymorphic.h       | 4 ++--
 polymorphic_cxx14.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/polymorphic.h b/polymorphic.h
index a32be6d..b2cefd7 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -55,7 +55,7 @@ class polymorphic {
 
     virtual constexpr ~control_block() = default;
     virtual constexpr void destroy(A& alloc) = 0;
-    virtual constexpr control_block* clone(const A& alloc) = 0;
+    virtual constexpr control_block* clone(const A& alloc) const = 0;
     virtual constexpr control_block* move(const A& alloc) = 0;
   };
 
@@ -82,7 +82,7 @@ class polymorphic {
       control_block::p_ = std::addressof(storage_.u_);
     }
 
-    constexpr control_block* clone(const A& alloc) override {
+    constexpr control_block* clone(const A& alloc) const override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 73afc47..884c022 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -110,7 +110,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
 
     virtual ~control_block() = default;
     virtual void destroy(A& alloc) = 0;
-    virtual control_block* clone(const A& alloc) = 0;
+    virtual control_block* clone(const A& alloc) const = 0;
     virtual control_block* move(const A& alloc) = 0;
   };
 
@@ -137,7 +137,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       control_block::p_ = std::addressof(storage_.u_);
     }
 
-    control_block* clone(const A& alloc) override {
+    control_block* clone(const A& alloc) const override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-- 
2.43.0


From 62f70f6ae5830902bbce15100f384236ae989155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 05/13] fix: indirect: copy assignment must copy from a const
 source

---
 indirect.h       | 2 +-
 indirect_cxx14.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/indirect.h b/indirect.h
index 7869cc4..43ea0cc 100644
--- a/indirect.h
+++ b/indirect.h
@@ -246,7 +246,7 @@ class indirect {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp =
-            construct_from(update_alloc ? other.alloc_ : alloc_, *other.p_);
+            construct_from(update_alloc ? other.alloc_ : alloc_, *other);
         reset();
         p_ = tmp;
       }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 8475268..e31b57d 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -256,7 +256,7 @@ class indirect : private detail::empty_base_optimization<A> {
         // or updating allocators until this is done.
         auto tmp = construct_from(
             update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            *other.p_);
+            *other);
         reset();
         p_ = tmp;
       }
-- 
2.43.0


From a93fe40493bcb16925c2dc38a324406bdfa26f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 06/13] fix: assignment from an object nested in the owned
 object (list = std::move(list->next))

---
 indirect.h          | 13 +++++++++----
 indirect_cxx14.h    | 13 +++++++++----
 polymorphic.h       | 13 +++++++++----
 polymorphic_cxx14.h | 13 +++++++++----
 4 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/indirect.h b/indirect.h
index 43ea0cc..de8cf95 100644
--- a/indirect.h
+++ b/indirect.h
@@ -235,6 +235,8 @@ class indirect {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // other may be part of our owned object, so don't use it after a reset.
+    A new_alloc(update_alloc ? other.alloc_ : alloc_);
 
     if (other.valueless_after_move()) {
       reset();
@@ -252,7 +254,7 @@ class indirect {
       }
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -269,13 +271,16 @@ class indirect {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // other may be part of our owned object, so don't use it after a reset.
+    A new_alloc(update_alloc ? other.alloc_ : alloc_);
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(p_, other.p_);
-        other.reset();
+        auto tmp = std::exchange(other.p_, nullptr);
+        reset();
+        p_ = tmp;
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
@@ -286,7 +291,7 @@ class indirect {
       }
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index e31b57d..fcd3e07 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -244,6 +244,8 @@ class indirect : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // other may be part of our owned object, so don't use it after a reset.
+    A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
@@ -262,7 +264,7 @@ class indirect : private detail::empty_base_optimization<A> {
       }
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -277,13 +279,16 @@ class indirect : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // other may be part of our owned object, so don't use it after a reset.
+    A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(p_, other.p_);
-        other.reset();
+        auto tmp = std::exchange(other.p_, nullptr);
+        reset();
+        p_ = tmp;
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
@@ -295,7 +300,7 @@ class indirect : private detail::empty_base_optimization<A> {
       }
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
diff --git a/polymorphic.h b/polymorphic.h
index b2cefd7..a237004 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -284,6 +284,8 @@ class polymorphic {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // other may be part of our owned object, so don't use it after a reset.
+    A new_alloc(update_alloc ? other.alloc_ : alloc_);
 
     if (other.valueless_after_move()) {
       reset();
@@ -297,7 +299,7 @@ class polymorphic {
       cb_ = tmp;
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -312,13 +314,16 @@ class polymorphic {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // other may be part of our owned object, so don't use it after a reset.
+    A new_alloc(update_alloc ? other.alloc_ : alloc_);
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        auto tmp = std::exchange(other.cb_, nullptr);
+        reset();
+        cb_ = tmp;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
@@ -331,7 +336,7 @@ class polymorphic {
     }
 
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 884c022..316baaa 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -364,6 +364,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // other may be part of our owned object, so don't use it after a reset.
+    A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
@@ -376,7 +378,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       cb_ = tmp;
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -391,13 +393,16 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // other may be part of our owned object, so don't use it after a reset.
+    A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        auto tmp = std::exchange(other.cb_, nullptr);
+        reset();
+        cb_ = tmp;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
@@ -409,7 +414,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
     }
 
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
-- 
2.43.0


From 5a7ef90f6445a8b6adb3bb31810fd77d24737894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 07/13] fix: indirect: copy assignment in place must depend on
 copy assignability

assignable_from<T&, T> asks for assignment from an rvalue returning T&; a type
whose copy assignment returns void, or whose move assignment is deleted, was
re-created in new storage instead of being assigned (DRAFT [indirect.assign] 2.3,
and indirect_cxx14.h).
---
 indirect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indirect.h b/indirect.h
index de8cf95..502b241 100644
--- a/indirect.h
+++ b/indirect.h
@@ -241,7 +241,7 @@ class indirect {
     if (other.valueless_after_move()) {
       reset();
     } else {
-      if (std::assignable_from<T&, T> && !valueless_after_move() &&
+      if (std::is_copy_assignable_v<T> && !valueless_after_move() &&
           alloc_ == other.alloc_) {
         *p_ = *other;
       } else {
-- 
2.43.0


From d43db38df614b27ba48ecf46c5b1805e31db540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 08/13] fix: polymorphic: complete the control block before
 constructing it

With clang and an allocator without construct, constructing a polymorphic
from a value did not compile: allocator_traits::construct asked whether the
still incomplete control block was constructible, which instantiated clone and
move, which ask the same question.
---
 polymorphic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polymorphic.h b/polymorphic.h
index a237004..83f9944 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -128,6 +128,9 @@ class polymorphic {
   template <class U, class... Ts>
   [[nodiscard]] constexpr control_block* create_control_block(
       Ts&&... ts) const {
+    // The control block must be complete before construct asks whether it can
+    // be constructed: clone and move ask the same question.
+    static_assert(sizeof(direct_control_block<U>) >= sizeof(U));
     using cb_allocator = typename std::allocator_traits<
         A>::template rebind_alloc<direct_control_block<U>>;
     cb_allocator cb_alloc(alloc_);
-- 
2.43.0


From 13141db8be30ac137066a0710bc8c2f17c37dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 09/13] fix: assign and swap allocators only where they
 propagate

Copy and move assignment (and swap in C++14) named the allocator's assignment
even when it could never be reached, so that indirect and polymorphic with
std::pmr::polymorphic_allocator, which is not assignable, could not be assigned
at all (and not swapped in C++14).
---
 indirect.h          |  8 ++++----
 indirect_cxx14.h    | 31 ++++++++++++++++++++++---------
 polymorphic.h       |  8 ++++----
 polymorphic_cxx14.h | 31 ++++++++++++++++++++++---------
 4 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/indirect.h b/indirect.h
index 502b241..e18bb8d 100644
--- a/indirect.h
+++ b/indirect.h
@@ -233,7 +233,7 @@ class indirect {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
     // other may be part of our owned object, so don't use it after a reset.
     A new_alloc(update_alloc ? other.alloc_ : alloc_);
@@ -253,7 +253,7 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
@@ -269,7 +269,7 @@ class indirect {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
     // other may be part of our owned object, so don't use it after a reset.
     A new_alloc(update_alloc ? other.alloc_ : alloc_);
@@ -290,7 +290,7 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index fcd3e07..1614b30 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -242,7 +242,7 @@ class indirect : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
     // other may be part of our owned object, so don't use it after a reset.
     A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
@@ -263,9 +263,8 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_allocator(alloc_base::get(), new_alloc,
+                     std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -277,7 +276,7 @@ class indirect : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
     // other may be part of our owned object, so don't use it after a reset.
     A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
@@ -299,9 +298,8 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_allocator(alloc_base::get(), new_alloc,
+                     std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -363,7 +361,10 @@ class indirect : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_allocators(
+          alloc_base::get(), other.alloc_base::get(),
+          std::integral_constant<
+              bool, allocator_traits::propagate_on_container_swap::value>{});
       std::swap(p_, other.p_);
       return;
     } else /*  */ {
@@ -552,6 +553,18 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
  private:
+  // Allocators are only assignable, and only swappable, where their traits say
+  // they propagate.
+  static void assign_allocator(A& to, const A& from, std::true_type) {
+    to = from;
+  }
+  static void assign_allocator(A&, const A&, std::false_type) {}
+
+  static void swap_allocators(A& lhs, A& rhs, std::true_type) {
+    std::swap(lhs, rhs);
+  }
+  static void swap_allocators(A&, A&, std::false_type) {}
+
   pointer p_;
 
   void reset() noexcept {
diff --git a/polymorphic.h b/polymorphic.h
index 83f9944..cc61fa4 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -285,7 +285,7 @@ class polymorphic {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
     // other may be part of our owned object, so don't use it after a reset.
     A new_alloc(update_alloc ? other.alloc_ : alloc_);
@@ -301,7 +301,7 @@ class polymorphic {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
@@ -315,7 +315,7 @@ class polymorphic {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
     // other may be part of our owned object, so don't use it after a reset.
     A new_alloc(update_alloc ? other.alloc_ : alloc_);
@@ -338,7 +338,7 @@ class polymorphic {
       }
     }
 
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 316baaa..8b27fbb 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -362,7 +362,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
     // other may be part of our owned object, so don't use it after a reset.
     A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
@@ -377,9 +377,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_allocator(alloc_base::get(), new_alloc,
+                     std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -391,7 +390,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
     // other may be part of our owned object, so don't use it after a reset.
     A new_alloc(update_alloc ? other.alloc_base::get() : alloc_base::get());
@@ -413,9 +412,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
       }
     }
 
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_allocator(alloc_base::get(), new_alloc,
+                     std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -450,7 +448,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_allocators(
+          alloc_base::get(), other.alloc_base::get(),
+          std::integral_constant<
+              bool, allocator_traits::propagate_on_container_swap::value>{});
       std::swap(cb_, other.cb_);
       return;
     } else /*  */ {
@@ -468,6 +469,18 @@ class polymorphic : private detail::empty_base_optimization<A> {
   }
 
  private:
+  // Allocators are only assignable, and only swappable, where their traits say
+  // they propagate.
+  static void assign_allocator(A& to, const A& from, std::true_type) {
+    to = from;
+  }
+  static void assign_allocator(A&, const A&, std::false_type) {}
+
+  static void swap_allocators(A& lhs, A& rhs, std::true_type) {
+    std::swap(lhs, rhs);
+  }
+  static void swap_allocators(A&, A&, std::false_type) {}
+
   void reset() noexcept {
     if (cb_ != nullptr) {
       cb_->destroy(alloc_base::get());
-- 
2.43.0


From af1f25245be9f8ebaa05cdaf944636ed7aab9bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 10/13] fix: indirect: copy assignment must accept a type that
 is not copy assignable

DRAFT [indirect.assign] re-creates the owned object where T is copy
constructible but not copy assignable; the in-place assignment was compiled all
the same, so such a type (one with a const member) could not be assigned.
---
 indirect.h       | 12 ++++++++----
 indirect_cxx14.h |  7 ++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/indirect.h b/indirect.h
index e18bb8d..ca2cbf4 100644
--- a/indirect.h
+++ b/indirect.h
@@ -241,10 +241,14 @@ class indirect {
     if (other.valueless_after_move()) {
       reset();
     } else {
-      if (std::is_copy_assignable_v<T> && !valueless_after_move() &&
-          alloc_ == other.alloc_) {
-        *p_ = *other;
-      } else {
+      bool assigned = false;
+      if constexpr (std::is_copy_assignable_v<T>) {
+        if (!valueless_after_move() && alloc_ == other.alloc_) {
+          *p_ = *other;
+          assigned = true;
+        }
+      }
+      if (!assigned) {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp =
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 1614b30..55faa2a 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -252,7 +252,7 @@ class indirect : private detail::empty_base_optimization<A> {
     } else {
       if (std::is_copy_assignable<T>::value && !valueless_after_move() &&
           alloc_base::get() == other.alloc_base::get()) {
-        *p_ = *other;
+        copy_assign_value(*p_, *other, std::is_copy_assignable<T>{});
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
@@ -567,6 +567,11 @@ class indirect : private detail::empty_base_optimization<A> {
 
   pointer p_;
 
+  static void copy_assign_value(T& to, const T& from, std::true_type) {
+    to = from;
+  }
+  static void copy_assign_value(T&, const T&, std::false_type) {}
+
   void reset() noexcept {
     if (p_ == nullptr) return;
     destroy_with(alloc_base::get(), p_);
-- 
2.43.0


From 5c434f95bb3ed7f500f6a2b3bfb60db40875bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 11/13] fix: indirect_cxx14: construct and destroy through the
 allocator's pointer type

The owned object was held as allocator_traits::pointer but constructed and
destroyed as T*, so an allocator with a pointer type of its own, which
indirect.h supports, did not compile.
---
 indirect_cxx14.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 55faa2a..67850c9 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -579,10 +579,11 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
   template <typename... Ts>
-  [[nodiscard]] static T* construct_from(A alloc, Ts&&... ts) {
-    T* mem = allocator_traits::allocate(alloc, 1);
+  [[nodiscard]] static pointer construct_from(A alloc, Ts&&... ts) {
+    pointer mem = allocator_traits::allocate(alloc, 1);
     try {
-      allocator_traits::construct(alloc, mem, std::forward<Ts>(ts)...);
+      allocator_traits::construct(alloc, std::addressof(*mem),
+                                  std::forward<Ts>(ts)...);
       return mem;
     } catch (...) {
       allocator_traits::deallocate(alloc, mem, 1);
@@ -590,8 +591,8 @@ class indirect : private detail::empty_base_optimization<A> {
     }
   }
 
-  static void destroy_with(A alloc, T* p) {
-    allocator_traits::destroy(alloc, p);
+  static void destroy_with(A alloc, pointer p) {
+    allocator_traits::destroy(alloc, std::addressof(*p));
     allocator_traits::deallocate(alloc, p, 1);
   }
 };
-- 
2.43.0


From 770a3f354ba73186ad0141f6c864722f02dadf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 12/13] fix: exploration wrappers must copy on assignment

wrapper and constrained_wrapper own their object but left assignment to the
compiler, which shared the pointer and deleted the object twice.
---
 exploration/wrapper.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/exploration/wrapper.h b/exploration/wrapper.h
index 51c4a85..98a3df5 100644
--- a/exploration/wrapper.h
+++ b/exploration/wrapper.h
@@ -12,6 +12,13 @@ class wrapper {
 
   wrapper(const wrapper& other) : t_(new T(*other.t_)) {}
 
+  wrapper& operator=(const wrapper& other) {
+    T* t = new T(*other.t_);
+    delete t_;
+    t_ = t;
+    return *this;
+  }
+
   ~wrapper() { delete t_; }
 
   template <typename U>
@@ -39,6 +46,13 @@ class constrained_wrapper {
     requires std::copy_constructible<TT>
       : t_(new T(*other.t_)) {}
 
+  constrained_wrapper& operator=(const constrained_wrapper& other) {
+    T* t = new T(*other.t_);
+    delete t_;
+    t_ = t;
+    return *this;
+  }
+
   ~constrained_wrapper() { delete t_; }
 
   template <typename U>
-- 
2.43.0


From 08bda756f6193433f3958310b7802c52a3c10426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 13/13] fix: swap allocators with their own swap and move them
 in move assignment

Allocators that propagate on swap need only be swappable, which includes a
swap found by argument dependent lookup; those that propagate on move
assignment need only be move assignable.
---
 indirect.h          |  5 +++--
 indirect_cxx14.h    | 13 ++++++++-----
 polymorphic.h       |  5 +++--
 polymorphic_cxx14.h | 13 ++++++++-----
 4 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/indirect.h b/indirect.h
index ca2cbf4..2497879 100644
--- a/indirect.h
+++ b/indirect.h
@@ -295,7 +295,7 @@ class indirect {
       }
     }
     if constexpr (update_alloc) {
-      alloc_ = new_alloc;
+      alloc_ = std::move(new_alloc);
     }
     return *this;
   }
@@ -362,7 +362,8 @@ class indirect {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(p_, other.p_);
       return;
     } else /* constexpr */ {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 67850c9..cc53568 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -298,7 +298,7 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    assign_allocator(alloc_base::get(), new_alloc,
+    assign_allocator(alloc_base::get(), std::move(new_alloc),
                      std::integral_constant<bool, update_alloc>{});
     return *this;
   }
@@ -555,13 +555,16 @@ class indirect : private detail::empty_base_optimization<A> {
  private:
   // Allocators are only assignable, and only swappable, where their traits say
   // they propagate.
-  static void assign_allocator(A& to, const A& from, std::true_type) {
-    to = from;
+  template <class AA>
+  static void assign_allocator(A& to, AA&& from, std::true_type) {
+    to = std::forward<AA>(from);
   }
-  static void assign_allocator(A&, const A&, std::false_type) {}
+  template <class AA>
+  static void assign_allocator(A&, AA&&, std::false_type) {}
 
   static void swap_allocators(A& lhs, A& rhs, std::true_type) {
-    std::swap(lhs, rhs);
+    using std::swap;
+    swap(lhs, rhs);
   }
   static void swap_allocators(A&, A&, std::false_type) {}
 
diff --git a/polymorphic.h b/polymorphic.h
index cc61fa4..4b48455 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -339,7 +339,7 @@ class polymorphic {
     }
 
     if constexpr (update_alloc) {
-      alloc_ = new_alloc;
+      alloc_ = std::move(new_alloc);
     }
     return *this;
   }
@@ -383,7 +383,8 @@ class polymorphic {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(cb_, other.cb_);
       return;
     } else /* constexpr */ {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 8b27fbb..64288e6 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -412,7 +412,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       }
     }
 
-    assign_allocator(alloc_base::get(), new_alloc,
+    assign_allocator(alloc_base::get(), std::move(new_alloc),
                      std::integral_constant<bool, update_alloc>{});
     return *this;
   }
@@ -471,13 +471,16 @@ class polymorphic : private detail::empty_base_optimization<A> {
  private:
   // Allocators are only assignable, and only swappable, where their traits say
   // they propagate.
-  static void assign_allocator(A& to, const A& from, std::true_type) {
-    to = from;
+  template <class AA>
+  static void assign_allocator(A& to, AA&& from, std::true_type) {
+    to = std::forward<AA>(from);
   }
-  static void assign_allocator(A&, const A&, std::false_type) {}
+  template <class AA>
+  static void assign_allocator(A&, AA&&, std::false_type) {}
 
   static void swap_allocators(A& lhs, A& rhs, std::true_type) {
-    std::swap(lhs, rhs);
+    using std::swap;
+    swap(lhs, rhs);
   }
   static void swap_allocators(A&, A&, std::false_type) {}
 
-- 
2.43.0

