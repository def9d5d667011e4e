From 3a107c8a46fb56266b9a2f5a10931e83f877aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 01/26] fix: circular_buffer_adapter: make const_iterator
 copyable

The declared (defaulted) move operations suppress the implicit copy
constructor, and the mutable -> const converting constructor is only a
copy constructor for the mutable iterator. So a const_iterator could not
be copied, and it++, it + n, it - n and dereferencing crbegin() did not
compile.
---
 include/embedded/detail/circular_buffer_adapter.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index 02b51b7..8b5caff 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -67,10 +67,18 @@ class cba_iterator {
 
   cba_iterator() = default;
 
-  cba_iterator(cba_iterator<T, cba_mutable_iterator_traits<T>> const& other)
+  // mutable -> const conversion; this must be a template, otherwise it would
+  // also be the copy constructor of the mutable iterator
+  template <typename Tr,
+            typename std::enable_if<
+                std::is_same<Tr, cba_mutable_iterator_traits<T>>::value &&
+                    !std::is_same<Tr, Traits>::value,
+                bool>::type = true>
+  cba_iterator(cba_iterator<T, Tr> const& other)
       : adapter_{other.adapter_}
       , it_{other.it_} {}
 
+  cba_iterator(cba_iterator const&) = default;
   cba_iterator(cba_iterator&&) = default;
   cba_iterator& operator=(cba_iterator const&) = default;
   cba_iterator& operator=(cba_iterator&&) = default;
-- 
2.43.0


From f359d6a8239fcc51d0a95b3e64496ad3976f8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 02/26] fix: function: call through the actual function type

The call operator cast `this` to function<Signature> with the default
capacity and alignment. With a larger alignment the storage is at a
different offset in that type, so the callable was invoked with a wrong
object address.
---
 include/embedded/function.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 81b06fb..94b536d 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -121,30 +121,30 @@ struct is_function : std::false_type {};
 template <typename S, size_t C, size_t A>
 struct is_function<function<S, C, A>> : std::true_type {};
 
-template <typename Signature>
+template <typename Signature, typename Function>
 struct function_traits;
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...)> {
+template <typename Return, typename... Args, typename Function>
+struct function_traits<Return(Args...), Function> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
-    auto fn = static_cast<function<Return(Args...)>*>(this);
+    auto fn = static_cast<Function*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
 };
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...) const> {
+template <typename Return, typename... Args, typename Function>
+struct function_traits<Return(Args...) const, Function> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
-    auto fn = static_cast<function<Return(Args...) const> const*>(this);
+    auto fn = static_cast<Function const*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
@@ -175,9 +175,11 @@ struct function_traits<Return(Args...) const> {
  * https://github.com/WG21-SG14/SG14/blob/master/Docs/Proposals/NonAllocatingStandardFunction.pdf
  */
 template <typename Signature, size_t Capacity, size_t Alignment>
-class function final : private detail::function_traits<Signature> {
+class function final
+    : private detail::function_traits<
+          Signature, function<Signature, Capacity, Alignment>> {
  public:
-  using traits = detail::function_traits<Signature>;
+  using traits = detail::function_traits<Signature, function>;
   using signature = typename traits::signature;
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
-- 
2.43.0


From 2baefc8eb505adcfd23c96c26cd32cf459e7092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 03/26] fix: function: discard the result for signatures
 returning void

A callable with a non-void result is accepted for function<void(...)>,
but the call thunk did not compile as it returned that result.
---
 include/embedded/function.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 94b536d..9d77974 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -80,9 +80,20 @@ class vtbl<Return(Args...)> {
 
   template <typename T>
   static Return vt_call(storage_t s, Args&&... args) {
+    return invoke<T>(std::is_void<Return>{}, s, static_cast<Args&&>(args)...);
+  }
+
+  template <typename T>
+  static Return invoke(std::false_type, storage_t s, Args&&... args) {
     return (*static_cast<T*>(s))(static_cast<Args&&>(args)...);
   }
 
+  template <typename T>
+  static Return invoke(std::true_type, storage_t s, Args&&... args) {
+    // the callable may return something that needs to be discarded
+    static_cast<void>((*static_cast<T*>(s))(static_cast<Args&&>(args)...));
+  }
+
   template <typename T>
   static void vt_proc(oper op, storage_t src, storage_t dst) noexcept {
     switch (op) {
-- 
2.43.0


From 1bdddc7d97191df05031a30d83262fbbc78d08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 04/26] fix: function: call const overload for const signatures

A function with a const signature is only callable if the target is
invocable as const, but the thunk always called the target through a
non-const reference. So for a target that overloads its call operator,
calling a const function ran the non-const overload.
---
 include/embedded/function.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 9d77974..c725734 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -96,12 +96,13 @@ class vtbl<Return(Args...)> {
 
   template <typename T>
   static void vt_proc(oper op, storage_t src, storage_t dst) noexcept {
+    using C = typename std::remove_const<T>::type;
     switch (op) {
     case oper::move:
-      ::new (dst) T{std::move(*static_cast<T*>(src))};
+      ::new (dst) C{std::move(*static_cast<C*>(src))};
       // fallthrough
     case oper::destroy:
-      static_cast<T*>(src)->~T();
+      static_cast<C*>(src)->~C();
       break;
     }
   }
@@ -137,6 +138,8 @@ struct function_traits;
 
 template <typename Return, typename... Args, typename Function>
 struct function_traits<Return(Args...), Function> {
+  template <typename T>
+  using callable = T;
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
   using signature = Return(Args...);
@@ -150,6 +153,8 @@ struct function_traits<Return(Args...), Function> {
 
 template <typename Return, typename... Args, typename Function>
 struct function_traits<Return(Args...) const, Function> {
+  template <typename T>
+  using callable = T const;
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
   using signature = Return(Args...);
@@ -195,7 +200,8 @@ class function final
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
   template <typename T>
-  using typed_vtbl = detail::typed_vtbl<signature, T>;
+  using typed_vtbl =
+      detail::typed_vtbl<signature, typename traits::template callable<T>>;
 
   friend traits;
 
-- 
2.43.0


From 546af059ddd8747ec7875c1adf85c2daa486ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 05/26] fix: function: don't access destroyed objects in move
 assignment

The move assignment operator destroyed the current target before
accessing its argument. On self assignment this read the vtable pointer
of a destroyed object (and crashed in optimized builds), and when the
argument was owned by the current target it had already been destroyed.
---
 include/embedded/function.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index c725734..1611c77 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -243,8 +243,10 @@ class function final
   }
 
   function& operator=(function&& other) noexcept {
+    // `other` may be `*this`, or may be owned by the current target
+    function tmp(std::move(other));
     this->~function();
-    ::new (this) function(std::move(other));
+    ::new (this) function(std::move(tmp));
     return *this;
   }
 
-- 
2.43.0


From a53214188bd181b62efa38387ba93bf4232cd739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 06/26] fix: move_wrapper: correct noexcept specification

The constructor was noexcept if T was nothrow default constructible,
even if moving T may throw, in which case the program was terminated.
---
 include/embedded/move_wrapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index d1cf836..b6796f1 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -30,7 +30,8 @@ namespace embedded {
 template <typename T>
 class move_wrapper {
  public:
-  explicit move_wrapper(T&& t) noexcept(std::is_nothrow_constructible<T>::value)
+  explicit move_wrapper(T&& t) noexcept(
+      std::is_nothrow_move_constructible<T>::value)
       : val_{std::forward<T>(t)} {}
 
   move_wrapper(move_wrapper const& other) noexcept(
-- 
2.43.0


From 2e927ad15d8acfc86cb6865991e131e28f658598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 07/26] fix: debug_filter_coefs: truncate long names

In the constructor `name` is the parameter, not the member, so its size
was used to limit the number of characters. With a name that doesn't fit
into the header (which includes the path of the source file when using
LIBEMB_DEBUG_FILTER_COEFS) the code didn't compile.
---
 include/embedded/signal/detail/debug_filter_coefs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/signal/detail/debug_filter_coefs.h b/include/embedded/signal/detail/debug_filter_coefs.h
index 21e9488..37066cb 100644
--- a/include/embedded/signal/detail/debug_filter_coefs.h
+++ b/include/embedded/signal/detail/debug_filter_coefs.h
@@ -66,7 +66,8 @@ struct filter_debug_header {
                                 char const (&name)[S]) noexcept
       : filter_debug_header(
             length, structure, valtype, name,
-            make_index_sequence<cmath::min(sizeof(name) - 1, S)>{}) {}
+            make_index_sequence<cmath::min(
+                sizeof(filter_debug_header::name) - 1, S)>{}) {}
 
   template <size_t S, std::size_t... Ints>
   constexpr filter_debug_header(uint16_t length_,
-- 
2.43.0


From b6c54e78262f6dfe5ee0daf6e71840bc60d1572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 08/26] fix: ostream_ops: make sos_section streamable

The operator was declared in a namespace where it isn't found, and it
used a member that no longer exists.
---
 include/embedded/ostream_ops.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index da61cfa..dfd8538 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -51,14 +51,14 @@ std::ostream& operator<<(std::ostream& os, zpk_value<Zn, Pn, F> const& zpk) {
   return os;
 }
 
+} // namespace detail
+
 template <typename T>
-std::ostream&
-operator<<(std::ostream& os, embedded::signal::sos_section<T> const& s) {
-  os << "{gain=" << s.gain_ << ", b=" << s.b() << ", a=" << s.a() << "}";
+std::ostream& operator<<(std::ostream& os, sos_section<T> const& s) {
+  os << "{b=" << s.b() << ", a=" << s.a() << "}";
   return os;
 }
 
-} // namespace detail
 } // namespace signal
 
 namespace cmath {
-- 
2.43.0


From e65cc01144952611236968805ae5f47fc443710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 09/26] fix: circular_buffer_adapter: make const_iterator
 traversable

The const_iterator stored a pointer to const, but all the adapter's
helpers operate on non-const pointers. So ++, --, += and -= on a
const_iterator as well as passing it to raw_index() did not compile.
---
 include/embedded/detail/circular_buffer_adapter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index 8b5caff..b1d7223 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -191,7 +191,7 @@ class cba_iterator {
   }
 
  private:
-  cba_iterator(circular_buffer_adapter<T> const* adapter, pointer it)
+  cba_iterator(circular_buffer_adapter<T> const* adapter, T* it)
       : adapter_{adapter}
       , it_{it} {}
 
@@ -199,10 +199,10 @@ class cba_iterator {
     return it_ ? adapter_->index(it_) : adapter_->size();
   }
 
-  pointer realiter() const { return it_ ? it_ : adapter_->last_; }
+  T* realiter() const { return it_ ? it_ : adapter_->last_; }
 
   circular_buffer_adapter<T> const* adapter_{nullptr};
-  pointer it_{nullptr};
+  T* it_{nullptr};
 };
 
 template <typename T, typename Traits>
-- 
2.43.0


From 01149ef566f1c6a355df80e9fe847f83bc621804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:21 +0000
Subject: [PATCH 10/26] fix: vector: compare elements for equality

operator== went through a three-way comparison, so it needed an ordering
(complex elements could not be compared) and took a NaN to be equal to
everything.
---
 include/embedded/constexpr_math/vector.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index 1c2da14..2e254bb 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -127,15 +127,15 @@ class prod_reducer {
 };
 
 template <typename T, std::size_t Size, std::size_t I = 0>
-struct compare {
-  constexpr int operator()(T const& a, T const& b) const noexcept {
-    return a[I] < b[I] ? -1 : a[I] > b[I] ? 1 : compare<T, Size, I + 1>()(a, b);
+struct equal {
+  constexpr bool operator()(T const& a, T const& b) const noexcept {
+    return a[I] == b[I] && equal<T, Size, I + 1>()(a, b);
   }
 };
 
 template <typename T, std::size_t Size>
-struct compare<T, Size, Size> {
-  constexpr int operator()(T const&, T const&) const noexcept { return 0; }
+struct equal<T, Size, Size> {
+  constexpr bool operator()(T const&, T const&) const noexcept { return true; }
 };
 
 template <typename T, std::size_t Size, typename Pred, std::size_t I = 0>
@@ -296,7 +296,7 @@ class vector {
   }
 
   constexpr bool operator==(vector const& other) const noexcept {
-    return detail::compare<vector, Size>()(*this, other) == 0;
+    return detail::equal<vector, Size>()(*this, other);
   }
 
   template <typename Pred>
-- 
2.43.0


From f068cc338eb8db89864b4ae9bfae4561ffb7df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 11/26] fix: is_invocable: use INVOKE semantics before C++17

Without std::is_invocable_r, is_invocable_r was false for member pointers
(and for a result of type volatile void), so the trait gave different answers
in different language modes.
---
 include/embedded/type_traits/is_invocable.h | 27 +++++++++------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/embedded/type_traits/is_invocable.h b/include/embedded/type_traits/is_invocable.h
index a980500..084ed36 100644
--- a/include/embedded/type_traits/is_invocable.h
+++ b/include/embedded/type_traits/is_invocable.h
@@ -36,26 +36,23 @@ using is_invocable_r = std::is_invocable_r<R, Fn, Args...>;
 
 namespace detail {
 
-template <class R>
-void accept(R);
+template <class>
+struct make_void {
+  using type = void;
+};
 
 template <class, class R, class Fn, class... Args>
 struct is_invocable_helper : std::false_type {};
 
-template <class Fn, class... Args>
-struct is_invocable_helper<decltype(std::declval<Fn>()(std::declval<Args>()...),
-                                    void()),
-                           void, Fn, Args...> : std::true_type {};
-
-template <class Fn, class... Args>
-struct is_invocable_helper<decltype(std::declval<Fn>()(std::declval<Args>()...),
-                                    void()),
-                           const void, Fn, Args...> : std::true_type {};
-
 template <class R, class Fn, class... Args>
-struct is_invocable_helper<decltype(accept<R>(
-                               std::declval<Fn>()(std::declval<Args>()...))),
-                           R, Fn, Args...> : std::true_type {};
+struct is_invocable_helper<typename make_void<typename std::result_of<
+                               Fn && (Args && ...)>::type>::type,
+                           R, Fn, Args...>
+    : std::integral_constant<
+          bool, std::is_void<R>::value ||
+                    std::is_convertible<
+                        typename std::result_of<Fn && (Args && ...)>::type,
+                        R>::value> {};
 
 } // namespace detail
 
-- 
2.43.0


From 3761637ebf179a5d7337b3b3c51cde166bf77ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 12/26] fix: debug_filter_coefs: make names of records unique

The record for design d1 could be called d10, like another design, and the
program did not compile.
---
 include/embedded/signal/debug_filter_coefs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/signal/debug_filter_coefs.h b/include/embedded/signal/debug_filter_coefs.h
index 078520b..abce66d 100644
--- a/include/embedded/signal/debug_filter_coefs.h
+++ b/include/embedded/signal/debug_filter_coefs.h
@@ -32,7 +32,7 @@
   extern "C" ::embedded::signal::detail::filter_design_debug<                  \
       std::decay<decltype(design)>::type> const                                \
       __attribute__((section(LIBEMB_DEBUG_FILTER_COEFS_SECTION)))              \
-      LIBEMB_UNIQUE_NAME(design) {                                             \
+      LIBEMB_UNIQUE_NAME(libemb_debug_##design##_) {                           \
     design, name                                                               \
   }
 
-- 
2.43.0


From 06e06548408af77438959d16794f5061e47c7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:34 +0000
Subject: [PATCH 13/26] fix: bessel: define the tables of poles

Before C++17, a design computed at run time did not link because the static
data members had no definition.
---
 include/embedded/signal/detail/bessel_poles.h | 404 ++++++++++++++++++
 scripts/gen-bessel-poles.py                   |  15 +
 2 files changed, 419 insertions(+)

diff --git a/include/embedded/signal/detail/bessel_poles.h b/include/embedded/signal/detail/bessel_poles.h
index b891f7c..692e3e6 100644
--- a/include/embedded/signal/detail/bessel_poles.h
+++ b/include/embedded/signal/detail/bessel_poles.h
@@ -5684,6 +5684,410 @@ struct bessel_poles<F, 100> {
   };
 };
 
+#ifndef __cpp_inline_variables
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 1>
+    bessel_poles<F, 1>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 2>
+    bessel_poles<F, 2>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 3>
+    bessel_poles<F, 3>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 4>
+    bessel_poles<F, 4>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 5>
+    bessel_poles<F, 5>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 6>
+    bessel_poles<F, 6>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 7>
+    bessel_poles<F, 7>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 8>
+    bessel_poles<F, 8>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 9>
+    bessel_poles<F, 9>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 10>
+    bessel_poles<F, 10>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 11>
+    bessel_poles<F, 11>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 12>
+    bessel_poles<F, 12>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 13>
+    bessel_poles<F, 13>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 14>
+    bessel_poles<F, 14>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 15>
+    bessel_poles<F, 15>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 16>
+    bessel_poles<F, 16>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 17>
+    bessel_poles<F, 17>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 18>
+    bessel_poles<F, 18>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 19>
+    bessel_poles<F, 19>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 20>
+    bessel_poles<F, 20>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 21>
+    bessel_poles<F, 21>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 22>
+    bessel_poles<F, 22>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 23>
+    bessel_poles<F, 23>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 24>
+    bessel_poles<F, 24>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 25>
+    bessel_poles<F, 25>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 26>
+    bessel_poles<F, 26>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 27>
+    bessel_poles<F, 27>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 28>
+    bessel_poles<F, 28>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 29>
+    bessel_poles<F, 29>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 30>
+    bessel_poles<F, 30>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 31>
+    bessel_poles<F, 31>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 32>
+    bessel_poles<F, 32>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 33>
+    bessel_poles<F, 33>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 34>
+    bessel_poles<F, 34>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 35>
+    bessel_poles<F, 35>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 36>
+    bessel_poles<F, 36>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 37>
+    bessel_poles<F, 37>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 38>
+    bessel_poles<F, 38>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 39>
+    bessel_poles<F, 39>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 40>
+    bessel_poles<F, 40>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 41>
+    bessel_poles<F, 41>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 42>
+    bessel_poles<F, 42>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 43>
+    bessel_poles<F, 43>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 44>
+    bessel_poles<F, 44>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 45>
+    bessel_poles<F, 45>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 46>
+    bessel_poles<F, 46>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 47>
+    bessel_poles<F, 47>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 48>
+    bessel_poles<F, 48>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 49>
+    bessel_poles<F, 49>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 50>
+    bessel_poles<F, 50>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 51>
+    bessel_poles<F, 51>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 52>
+    bessel_poles<F, 52>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 53>
+    bessel_poles<F, 53>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 54>
+    bessel_poles<F, 54>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 55>
+    bessel_poles<F, 55>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 56>
+    bessel_poles<F, 56>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 57>
+    bessel_poles<F, 57>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 58>
+    bessel_poles<F, 58>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 59>
+    bessel_poles<F, 59>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 60>
+    bessel_poles<F, 60>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 61>
+    bessel_poles<F, 61>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 62>
+    bessel_poles<F, 62>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 63>
+    bessel_poles<F, 63>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 64>
+    bessel_poles<F, 64>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 65>
+    bessel_poles<F, 65>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 66>
+    bessel_poles<F, 66>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 67>
+    bessel_poles<F, 67>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 68>
+    bessel_poles<F, 68>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 69>
+    bessel_poles<F, 69>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 70>
+    bessel_poles<F, 70>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 71>
+    bessel_poles<F, 71>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 72>
+    bessel_poles<F, 72>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 73>
+    bessel_poles<F, 73>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 74>
+    bessel_poles<F, 74>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 75>
+    bessel_poles<F, 75>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 76>
+    bessel_poles<F, 76>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 77>
+    bessel_poles<F, 77>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 78>
+    bessel_poles<F, 78>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 79>
+    bessel_poles<F, 79>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 80>
+    bessel_poles<F, 80>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 81>
+    bessel_poles<F, 81>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 82>
+    bessel_poles<F, 82>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 83>
+    bessel_poles<F, 83>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 84>
+    bessel_poles<F, 84>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 85>
+    bessel_poles<F, 85>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 86>
+    bessel_poles<F, 86>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 87>
+    bessel_poles<F, 87>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 88>
+    bessel_poles<F, 88>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 89>
+    bessel_poles<F, 89>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 90>
+    bessel_poles<F, 90>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 91>
+    bessel_poles<F, 91>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 92>
+    bessel_poles<F, 92>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 93>
+    bessel_poles<F, 93>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 94>
+    bessel_poles<F, 94>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 95>
+    bessel_poles<F, 95>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 96>
+    bessel_poles<F, 96>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 97>
+    bessel_poles<F, 97>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 98>
+    bessel_poles<F, 98>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 99>
+    bessel_poles<F, 99>::value;
+
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 100>
+    bessel_poles<F, 100>::value;
+
+#endif
+
 } // namespace detail
 } // namespace signal
 } // namespace embedded
diff --git a/scripts/gen-bessel-poles.py b/scripts/gen-bessel-poles.py
index bff5143..b042fb5 100644
--- a/scripts/gen-bessel-poles.py
+++ b/scripts/gen-bessel-poles.py
@@ -89,6 +89,21 @@ with open(filename, "w") as fh:
 
         fh.write("  };\n};\n")
 
+    fh.write("\n#ifndef __cpp_inline_variables\n")
+
+    for order in range(1, 101):
+        fh.write(
+            dedent(
+                f"""
+                template <typename F>
+                constexpr cmath::vector<cmath::complex<F>, {order}>
+                    bessel_poles<F, {order}>::value;
+                """
+            )
+        )
+
+    fh.write("\n#endif\n")
+
     fh.write(
         dedent(
             """
-- 
2.43.0


From 57b50ceb76509371fad9b89f6d660647953b0350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 14/26] fix: constexpr_math: select the implementation
 independent of include order

---
 include/embedded/constexpr_math/functions.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/embedded/constexpr_math/functions.h b/include/embedded/constexpr_math/functions.h
index 0164d46..578b95c 100644
--- a/include/embedded/constexpr_math/functions.h
+++ b/include/embedded/constexpr_math/functions.h
@@ -22,13 +22,16 @@
 
 #pragma once
 
+// The check below needs the macros of the standard library, no matter
+// whether any of its headers has been included before.
+#include <cmath>
+
 // TODO: this is probably a poor check
 #if !defined(LIBEMB_DISABLE_GLIBCXX_CONSTEXPR) &&                              \
     !defined(__INTEL_COMPILER) && !defined(__clang__) && defined(__GNUG__) &&  \
     defined(_GLIBCXX_CONSTEXPR)
 
 #include <algorithm>
-#include <cmath>
 
 namespace embedded {
 namespace cmath {
-- 
2.43.0


From c997b0854b5f247e447378b4218d424c8fdcc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 15/26] fix: move_wrapper: never wrap the value in an
 initializer list

---
 include/embedded/move_wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index b6796f1..222a721 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -32,14 +32,14 @@ class move_wrapper {
  public:
   explicit move_wrapper(T&& t) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::forward<T>(t)} {}
+      : val_(std::forward<T>(t)) {}
 
   move_wrapper(move_wrapper const& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(const_cast<move_wrapper&>(other).val_)} {}
+      : val_(std::move(const_cast<move_wrapper&>(other).val_)) {}
   move_wrapper(move_wrapper&& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(other.val_)} {}
+      : val_(std::move(other.val_)) {}
 
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
-- 
2.43.0


From ff42af23c1a6881b78794a540c7b95fe091e04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 16/26] fix: function: never wrap the target in an initializer
 list

---
 include/embedded/function.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 1611c77..272b682 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -99,7 +99,7 @@ class vtbl<Return(Args...)> {
     using C = typename std::remove_const<T>::type;
     switch (op) {
     case oper::move:
-      ::new (dst) C{std::move(*static_cast<C*>(src))};
+      ::new (dst) C(std::move(*static_cast<C*>(src)));
       // fallthrough
     case oper::destroy:
       static_cast<C*>(src)->~C();
@@ -232,7 +232,7 @@ class function final
     static_assert(Alignment % alignof(C) == 0,
                   "function<> alignment too small for this type");
 
-    ::new (std::addressof(storage_)) C{std::forward<T>(fun)};
+    ::new (std::addressof(storage_)) C(std::forward<T>(fun));
   }
 
   function(function&& other) noexcept
-- 
2.43.0


From c1977aca4f90a6013ba6e86ad9fbdc0e28772c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 17/26] fix: circular_buffer_adapter: don't memcpy empty runs

---
 include/embedded/circular_buffer_adapter.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index bd4f0fc..c580ed5 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -334,14 +334,19 @@ class circular_buffer_adapter {
   void copy_in(pointer dest, value_type const* src, size_type count) {
     copy_in_impl(dest, src, count,
                  [](pointer dest, value_type const* src, size_type count) {
-                   std::memcpy(dest, src, sizeof(*dest) * count);
+                   // the pointers may be null if there is nothing to copy
+                   if (count > 0) {
+                     std::memcpy(dest, src, sizeof(*dest) * count);
+                   }
                  });
   }
 
   void copy_out(value_type* dest, const_pointer src, size_type count) const {
     copy_out_impl(dest, src, count,
                   [](value_type* dest, const_pointer src, size_type count) {
-                    std::memcpy(dest, src, sizeof(*dest) * count);
+                    if (count > 0) {
+                      std::memcpy(dest, src, sizeof(*dest) * count);
+                    }
                   });
   }
 
-- 
2.43.0


From 3887e56b6b723c99cc3973e5274ad0a65adb2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 18/26] fix: initialize the state of filters for value types
 with a trivial default constructor

Value types such as fpm::fixed leave their value indeterminate when
default constructed, so the first outputs of a filter depended on
whatever was in memory.
---
 include/embedded/signal/poly.h | 5 ++++-
 include/embedded/signal/sos.h  | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/poly.h b/include/embedded/signal/poly.h
index 4793d23..7173c4f 100644
--- a/include/embedded/signal/poly.h
+++ b/include/embedded/signal/poly.h
@@ -77,7 +77,10 @@ class poly_instance {
   using value_type = F;
 
   poly_instance(poly_design<F, N> const* i) noexcept
-      : impl_{i} {}
+      : impl_{i} {
+    // default construction may leave a value indeterminate (e.g. fpm::fixed)
+    y_.fill(value_type{0});
+  }
 
   value_type operator()(value_type x) { return impl_->filter(y_, x); }
 
diff --git a/include/embedded/signal/sos.h b/include/embedded/signal/sos.h
index 5a9e349..2a1272e 100644
--- a/include/embedded/signal/sos.h
+++ b/include/embedded/signal/sos.h
@@ -43,7 +43,8 @@ enum class sos_gain {
 
 template <typename F>
 struct sos_state {
-  F y1{}, y2{};
+  // default construction may leave a value indeterminate (e.g. fpm::fixed)
+  F y1{0}, y2{0};
 };
 
 template <typename F>
-- 
2.43.0


From a27cbeff67db40ef93ce4a0e14153454e1a25c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 19/26] fix: parse-filter-coefs.py: accept names truncated
 within a UTF-8 character

The name of a debug record is cut at 255 bytes; the script raised a
UnicodeDecodeError when the cut fell into a multi-byte character.
---
 scripts/parse-filter-coefs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/parse-filter-coefs.py b/scripts/parse-filter-coefs.py
index a61fb43..02ec83a 100755
--- a/scripts/parse-filter-coefs.py
+++ b/scripts/parse-filter-coefs.py
@@ -35,7 +35,8 @@ def parse(data):
         valnum = size // valsizes[valtype]
         values = unpack(f"{valnum}{valtypes[valtype]}", data[:size])
         data = data[size:]
-        name = name.rstrip(b"\0").decode("utf-8")
+        # a long name may be truncated within a character
+        name = name.rstrip(b"\0").decode("utf-8", errors="replace")
         print(f"{name}:")
 
         if structure == 0:
-- 
2.43.0


From 212ddb0bd216474d9b4c4630e26d1e1c6c68ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 20/26] fix: circular_buffer_adapter: construct elements of
 classes with their own operator new

---
 include/embedded/circular_buffer_adapter.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index c580ed5..bab33de 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -158,14 +158,14 @@ class circular_buffer_adapter {
 
   void push_front(const value_type& value) {
     assert(!full());
-    new (prev(first_)) value_type(value);
+    ::new (prev(first_)) value_type(value);
     dec(first_);
     ++size_;
   }
 
   void push_front(value_type&& value) {
     assert(!full());
-    new (prev(first_)) value_type(std::move(value));
+    ::new (prev(first_)) value_type(std::move(value));
     dec(first_);
     ++size_;
   }
@@ -173,7 +173,7 @@ class circular_buffer_adapter {
   template <typename... Args>
   reference emplace_front(Args&&... args) {
     assert(!full());
-    auto p = new (prev(first_)) value_type(std::forward<Args>(args)...);
+    auto p = ::new (prev(first_)) value_type(std::forward<Args>(args)...);
     dec(first_);
     ++size_;
     return *p;
@@ -195,14 +195,14 @@ class circular_buffer_adapter {
 
   void push_back(const value_type& value) {
     assert(!full());
-    new (last_) value_type(value);
+    ::new (last_) value_type(value);
     inc(last_);
     ++size_;
   }
 
   void push_back(value_type&& value) {
     assert(!full());
-    new (last_) value_type(std::move(value));
+    ::new (last_) value_type(std::move(value));
     inc(last_);
     ++size_;
   }
@@ -210,7 +210,7 @@ class circular_buffer_adapter {
   template <typename... Args>
   reference emplace_back(Args&&... args) {
     assert(!full());
-    auto p = new (last_) value_type(std::forward<Args>(args)...);
+    auto p = ::new (last_) value_type(std::forward<Args>(args)...);
     inc(last_);
     ++size_;
     return *p;
-- 
2.43.0


From 988ba7a2add9f681d99739c62678f6ae1faa0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 21/26] fix: move_wrapper: operator-> of values that overload
 the address-of operator

---
 include/embedded/move_wrapper.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index 222a721..924cc47 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -44,8 +45,8 @@ class move_wrapper {
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
 
-  T const* operator->() const { return &val_; }
-  T* operator->() { return &val_; }
+  T const* operator->() const { return std::addressof(val_); }
+  T* operator->() { return std::addressof(val_); }
 
  private:
   T val_;
-- 
2.43.0


From 5858c6006c357a3f5c1036625bd3327cf7989707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 22/26] fix: function: let an exception from copying the
 callable reach the caller

The constructor was noexcept, so that the program was terminated.
---
 include/embedded/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 272b682..7853dcf 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -222,7 +222,7 @@ class function final
             typename = typename std::enable_if<
                 !detail::is_function<C>::value &&
                 traits::template is_invocable<C>::value>::type>
-  function(T&& fun) noexcept
+  function(T&& fun) noexcept(std::is_nothrow_constructible<C, T>::value)
       : vtbl_{&typed_vtbl<C>::value} {
     static_assert(
         std::is_nothrow_move_constructible<C>::value,
-- 
2.43.0


From d08652175f90b0e3759d35ad01d44321e9bbd0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 23/26] fix: filter: pair real poles with real poles when
 building sections

---
 include/embedded/signal/detail/filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/detail/filter.h b/include/embedded/signal/detail/filter.h
index f28690b..9413eee 100644
--- a/include/embedded/signal/detail/filter.h
+++ b/include/embedded/signal/detail/filter.h
@@ -235,8 +235,8 @@ struct unit_circle_distance_real_less {
   template <typename F>
   constexpr bool operator()(cmath::complex<F> const& a,
                             cmath::complex<F> const& b) const noexcept {
-    return a.is_real() < b.is_real() ||
-           (a.is_real() == a.is_real() && unit_distance(a) < unit_distance(b));
+    return a.is_real() > b.is_real() ||
+           (a.is_real() == b.is_real() && unit_distance(a) < unit_distance(b));
   }
 };
 
-- 
2.43.0


From 11ef6e8ea437e6e219f9dadd4f70d2f91fc635c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 24/26] fix: circular_buffer_adapter: accept memory without any
 slots at a null address

---
 include/embedded/circular_buffer_adapter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index bab33de..726ed68 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -393,13 +393,13 @@ class circular_buffer_adapter {
   }
 
   pointer add(pointer p, difference_type n) const {
-    assert(p != nullptr);
+    assert(p != nullptr || n == 0);
     assert(n >= 0);
     return p + (n < std::distance(p, end_) ? n : wrap_around(n));
   }
 
   pointer sub(pointer p, difference_type n) const {
-    assert(p != nullptr);
+    assert(p != nullptr || n == 0);
     assert(n >= 0);
     return p - (n <= std::distance(begin_, p) ? n : wrap_around(n));
   }
-- 
2.43.0


From 73d5c1d9e706dbbd9be35243d609b9bb74029d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 25/26] fix: function: accept pointers to members only if they
 can be called with the signature

---
 include/embedded/function.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 7853dcf..3d564dd 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -256,7 +256,8 @@ class function final
   }
 
   template <typename M, typename C,
-            typename = decltype(std::mem_fn(static_cast<M C::*>(nullptr)))>
+            typename = decltype(function(
+                std::mem_fn(static_cast<M C::*>(nullptr))))>
   function(M C::*pm) noexcept
       : function() {
     if (pm) {
-- 
2.43.0


From 5d737b7ca79e7a6c7a87367722e328c0fe68217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:09 +0000
Subject: [PATCH 26/26] fix: circular_buffer_adapter: allow the difference
 between a mutable and a const iterator

---
 include/embedded/detail/circular_buffer_adapter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index b1d7223..c93a942 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -186,7 +186,8 @@ class cba_iterator {
     return cba_iterator(*this) -= n;
   }
 
-  difference_type operator-(cba_iterator const& other) const {
+  template <typename Tr>
+  difference_type operator-(const cba_iterator<T, Tr>& other) const {
     return index() - other.index();
   }
 
-- 
2.43.0

