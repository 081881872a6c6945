From 2c31125583913b5e4d02f0d193d60f98cf5fd9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 01/20] fix: do not count non-virtual parameters in
 multi-method dispatch

A non-virtual parameter placed between virtual parameters made
resolve_multi_next skip a virtual argument.
---
 include/boost/openmethod/core.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 7c2d383..a42f079 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2547,13 +2547,17 @@ method<Id, ReturnType(Parameters...), Registry>::resolve_multi_next(
         std::size_t slot = this->slots_strides[VirtualArg];
         std::size_t stride = this->slots_strides[Arity + VirtualArg - 1];
         dispatch = dispatch + vtbl[slot].i * stride;
-    }
 
-    if constexpr (VirtualArg + 1 == Arity) {
-        return *dispatch;
+        if constexpr (VirtualArg + 1 == Arity) {
+            return *dispatch;
+        } else {
+            return resolve_multi_next<
+                VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+                dispatch, more_args...);
+        }
     } else {
         return resolve_multi_next<
-            VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+            VirtualArg, mp_rest<MethodArgList>, MoreArgTypes...>(
             dispatch, more_args...);
     }
 }
-- 
2.43.0


From 521edd349447fc348dbfefd3274b7187e95d8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 02/20] fix: null dereference when n2216 eliminates a candidate

The inner loop went on comparing with a candidate that had just been removed.
---
 include/boost/openmethod/initialize.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index b9d5672..e9c0d86 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1463,6 +1463,7 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
                         if (candidates[i]->covariant_return_type->is_base_of(
                                 candidates[j]->covariant_return_type)) {
                             candidates[i] = nullptr;
+                            break; // this one is dead
                         } else if (candidates[j]
                                        ->covariant_return_type->is_base_of(
                                            candidates[i]
-- 
2.43.0


From fefa6453a7e02ab935a7146783f67df3b837330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 03/20] fix: collect indirect bases regardless of registration
 order

When a class was registered before, and separately from, the bases of its
bases, some of its transitive bases were missed, and unrelated methods could
be assigned the same slot.
---
 include/boost/openmethod/initialize.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index e9c0d86..96811dd 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -592,12 +592,25 @@ void registry<Policies...>::compiler<Options...>::augment_classes() {
             if (rtc != rtb) {
                 // At compile time we collected the class as its own
                 // improper base, as per std::is_base_of. Eliminate that.
-                ++class_mark;
-                collect_transitive_bases(rtc, rtb);
+                rtc->transitive_bases.push_back(rtb);
             }
         }
     }
 
+    // Bases may have been registered after, and separately from, the classes
+    // derived from them. Now that they are all known, collect the indirect
+    // bases.
+
+    for (auto& rtc : classes) {
+        decltype(rtc.transitive_bases) bases;
+        bases.swap(rtc.transitive_bases);
+        ++class_mark;
+
+        for (auto rtb : bases) {
+            collect_transitive_bases(&rtc, rtb);
+        }
+    }
+
     // At this point bases may contain duplicates, and also indirect
     // bases. Clean that up.
 
-- 
2.43.0


From 09c85339d6bd4d3bc2cbe42cdfc74aa3b8395575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 04/20] fix: allow assigning a null smart pointer lvalue to a
 virtual_ptr

---
 include/boost/openmethod/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index a42f079..6d63cb3 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1520,7 +1520,7 @@ class virtual_ptr<
     virtual_ptr& operator=(const Other& other) {
         obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
-            detail::acquire_vptr<Registry>(*other));
+            other ? detail::acquire_vptr<Registry>(*other) : detail::null_vptr);
         return *this;
     }
 
-- 
2.43.0


From b2d4a1c6189ba1eef0e4faf5b75af4a8f6361c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 05/20] fix: dangling pointer to v-table pointer with
 inplace_vptr and indirect_vptr

boost_openmethod_vptr returned the v-table pointer by value, and virtual_ptr kept
the address of the temporary. Return a reference instead, and reject the
combination at compile time if a user-provided function returns a value.
---
 include/boost/openmethod/core.hpp         | 13 +++++++++++--
 include/boost/openmethod/inplace_vptr.hpp | 10 +++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 6d63cb3..fba7d9a 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -521,8 +521,8 @@ constexpr bool is_virtual_ptr = detail::is_virtual_ptr_aux<T>::value;
 
 template<class Class, class Registry>
 constexpr bool has_vptr_fn = std::is_same_v<
-    decltype(boost_openmethod_vptr(
-        std::declval<const Class&>(), std::declval<Registry*>())),
+    std::decay_t<decltype(boost_openmethod_vptr(
+        std::declval<const Class&>(), std::declval<Registry*>()))>,
     vptr_type>;
 
 template<class Registry, class ArgType>
@@ -545,6 +545,15 @@ inline auto box_vptr(const vptr_type& vp) {
     }
 }
 
+template<bool Indirect>
+inline auto box_vptr(vptr_type&& vp) -> vptr_type {
+    static_assert(
+        !Indirect,
+        "boost_openmethod_vptr must return a reference if the registry "
+        "contains the indirect_vptr policy");
+    return vp;
+}
+
 inline auto unbox_vptr(vptr_type vp) {
     return vp;
 }
diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 0ddf534..56e8d06 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -134,8 +134,9 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
     std::conditional_t<Registry::has_indirect_vptr, const vptr_type*, vptr_type>
         boost_openmethod_vptr = nullptr;
 
-    friend auto
-    boost_openmethod_vptr(const Class& obj, Registry*) noexcept -> vptr_type {
+    friend auto boost_openmethod_vptr(const Class& obj, Registry*) noexcept
+        -> std::conditional_t<
+            Registry::has_indirect_vptr, const vptr_type&, vptr_type> {
         if constexpr (Registry::has_indirect_vptr) {
             return *obj.boost_openmethod_vptr;
         } else {
@@ -247,7 +248,10 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
     boost_openmethod_bases(Class*) -> mp11::mp_list<Base1, Base2, MoreBases...>;
     friend auto boost_openmethod_vptr(
         const Class& obj,
-        detail::inplace_vptr_registry<Base1>* registry) -> vptr_type {
+        detail::inplace_vptr_registry<Base1>* registry)
+        -> std::conditional_t<
+            detail::inplace_vptr_registry<Base1>::has_indirect_vptr,
+            const vptr_type&, vptr_type> {
         return boost_openmethod_vptr(static_cast<const Base1&>(obj), registry);
     }
 
-- 
2.43.0


From 6cbeb8ef387c1bb6f84192b90a0b68da9e6027d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 06/20] fix: fast_perfect_hash ignored trace(false)

One trace message was written even though tracing was turned off.
---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index e91f8f8..a272933 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -170,8 +170,8 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     const auto N = std::distance(ctx.classes_begin(), ctx.classes_end());
 
-    if constexpr (mp11::mp_contains<mp11::mp_list<Options...>, trace>::value) {
-        Registry::output::os << "Finding hash factor for " << N << " types\n";
+    if constexpr (InitializeContext::template has_option<trace>) {
+        ctx.tr << "Finding hash factor for " << N << " types\n";
     }
 
     std::default_random_engine rnd(13081963);
-- 
2.43.0


From 13e2006e8af3eec8dca7a82efdbe2fcceb441c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 07/20] fix: initialize ignored options passed as lvalues

For a lvalue, the option type was deduced as a reference, which did not match
any known option.
---
 include/boost/openmethod/initialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 96811dd..9b5b3a1 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1635,7 +1635,7 @@ inline auto initialize(Options&&... options) {
         std::abort();
     }
 
-    typename Registry::template compiler<Options...> comp(
+    typename Registry::template compiler<std::decay_t<Options>...> comp(
         std::forward<Options>(options)...);
     comp.initialize();
 
-- 
2.43.0


From c83f6aa4bd26a1ef8f4cf1c8e931f549199fa4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 08/20] fix: registry::with duplicated a policy that was
 already present

---
 include/boost/openmethod/preamble.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/preamble.hpp b/include/boost/openmethod/preamble.hpp
index 39b82c6..3005d5a 100644
--- a/include/boost/openmethod/preamble.hpp
+++ b/include/boost/openmethod/preamble.hpp
@@ -837,8 +837,12 @@ struct with_aux<Policies, Policy, MorePolicies...> {
             mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>,
         Policy>;
     using replace_or_add = std::conditional_t<
-        std::is_same_v<replace, Policies>, mp11::mp_push_back<Policies, Policy>,
-        replace>;
+        mp11::mp_any_of_q<
+            Policies,
+            mp11::mp_bind_front_q<
+                mp11::mp_quote_trait<std::is_base_of>,
+                typename Policy::category>>::value,
+        replace, mp11::mp_push_back<Policies, Policy>>;
     using type = typename with_aux<replace_or_add, MorePolicies...>::type;
 };
 
-- 
2.43.0


From cca5986b81e339b90fa3cae7052bd3548073c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 09/20] fix: base and derived were swapped in missing_base
 error

---
 include/boost/openmethod/initialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 9b5b3a1..56bb841 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -855,8 +855,8 @@ void registry<Policies...>::compiler<Options...>::augment_methods() {
 
                 if (!vp->is_base_of(overrider.vp[param_index])) {
                     missing_base error;
-                    error.base = overrider.vp[param_index]->type_ids[0];
-                    error.derived = vp->type_ids[0];
+                    error.base = vp->type_ids[0];
+                    error.derived = overrider.vp[param_index]->type_ids[0];
 
                     if constexpr (has_error_handler) {
                         error_handler::error(error);
-- 
2.43.0


From aa19621cd3d8854330e5a1d6225efcdf93032e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 10/20] fix: unneeded dynamic casts of smart pointers

The test for the need of a dynamic cast was applied to the smart pointer, not
to the pointer to the object, and it was always true. As a consequence smart
pointers to non-polymorphic classes could not be cast.
---
 include/boost/openmethod/interop/std_shared_ptr.hpp | 4 +++-
 include/boost/openmethod/interop/std_unique_ptr.hpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/interop/std_shared_ptr.hpp b/include/boost/openmethod/interop/std_shared_ptr.hpp
index d0ac4f9..8c7e7d7 100644
--- a/include/boost/openmethod/interop/std_shared_ptr.hpp
+++ b/include/boost/openmethod/interop/std_shared_ptr.hpp
@@ -174,7 +174,9 @@ struct virtual_traits<const std::shared_ptr<Class>&, Registry> {
         } else {
             using namespace boost::openmethod::detail;
 
-            if constexpr (requires_dynamic_cast<Class*, Other>) {
+            if constexpr (requires_dynamic_cast<
+                              Class*, typename std::remove_reference_t<
+                                          Other>::element_type*>) {
                 return std::dynamic_pointer_cast<
                     typename shared_ptr_cast_traits<Other>::virtual_type>(obj);
             } else {
diff --git a/include/boost/openmethod/interop/std_unique_ptr.hpp b/include/boost/openmethod/interop/std_unique_ptr.hpp
index bcda19f..bc0be82 100644
--- a/include/boost/openmethod/interop/std_unique_ptr.hpp
+++ b/include/boost/openmethod/interop/std_unique_ptr.hpp
@@ -40,7 +40,8 @@ struct virtual_traits<std::unique_ptr<Class>, Registry> {
     //! @return A `std::unique_ptr<Derived::element_type>`.
     template<typename Derived>
     static auto cast(std::unique_ptr<Class>&& ptr) {
-        if constexpr (detail::requires_dynamic_cast<Class&, Derived&>) {
+        if constexpr (detail::requires_dynamic_cast<
+                          Class&, typename Derived::element_type&>) {
             auto p = &Registry::rtti::template dynamic_cast_ref<
                 typename Derived::element_type&>(*ptr);
             // coverity[alloc_fn]
-- 
2.43.0


From f34b8673b2a6dc441e3738b2774acf82ec3e9b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 11/20] fix: bad_call counted and described the non-virtual
 arguments

arity and types are about the virtual arguments only. Also, calling a method
with more than max_types parameters did not compile.
---
 include/boost/openmethod/core.hpp | 39 +++++++++++++++++++------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index fba7d9a..d545d7f 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1976,35 +1976,44 @@ using overrider_virtual_types = boost::mp11::mp_remove<
         MethodParameters, OverriderParameters>,
     void>;
 
-template<class Method, class Rtti, std::size_t Index>
+template<class Method, class Rtti, std::size_t Index, class Parameters>
 struct init_bad_call {
     template<typename Arg, typename... Args>
     static auto fn(bad_call& error, const Arg& arg, const Args&... args) {
+        using namespace boost::mp11;
+
         if constexpr (Index == 0u) {
             error.method = Rtti::template static_type<Method>();
-            error.arity = sizeof...(args) + 1;
+            error.arity = mp_count_if<Parameters, is_virtual>::value;
         }
 
-        type_id arg_type_id;
+        if constexpr (is_virtual<mp_first<Parameters>>::value) {
+            type_id arg_type_id;
 
-        if constexpr (is_virtual_ptr<Arg>) {
-            arg_type_id = Rtti::dynamic_type(*arg);
-        } else {
-            arg_type_id = Rtti::dynamic_type(arg);
-        }
+            if constexpr (is_virtual_ptr<Arg>) {
+                arg_type_id = Rtti::dynamic_type(*arg);
+            } else {
+                arg_type_id = Rtti::dynamic_type(arg);
+            }
 
-        error.types[Index] = arg_type_id;
+            error.types[Index] = arg_type_id;
 
-        init_bad_call<Method, Rtti, Index + 1>::fn(error, args...);
+            init_bad_call<Method, Rtti, Index + 1, mp_rest<Parameters>>::fn(
+                error, args...);
+        } else {
+            init_bad_call<Method, Rtti, Index, mp_rest<Parameters>>::fn(
+                error, args...);
+        }
     }
 
     static auto fn(bad_call&) {
     }
 };
 
-template<class Method, class Rtti>
-struct init_bad_call<Method, Rtti, bad_call::max_types> {
-    static auto fn(bad_call&) {
+template<class Method, class Rtti, class Parameters>
+struct init_bad_call<Method, Rtti, bad_call::max_types, Parameters> {
+    template<typename... Args>
+    static auto fn(bad_call&, const Args&...) {
     }
 };
 
@@ -2599,7 +2608,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_not_implemented(
 
     if constexpr (Registry::has_error_handler) {
         no_overrider error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, 0u, DeclaredParameters>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
@@ -2617,7 +2626,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_ambiguous(
 
     if constexpr (Registry::has_error_handler) {
         ambiguous_call error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, 0u, DeclaredParameters>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
-- 
2.43.0


From 62aeb915c19ae0f275d522482608d006db997c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 12/20] fix: vptr_vector did not detect all unregistered
 classes

Without a type_hash policy, the runtime check did not catch type ids that fall
between the type ids of registered classes, or that were registered during a
previous initialization.
---
 include/boost/openmethod/initialize.hpp         |  5 ++++-
 .../boost/openmethod/policies/vptr_vector.hpp   | 17 ++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 56bb841..1541ac4 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1318,7 +1318,10 @@ void registry<Policies...>::compiler<Options...>::write_global_data() {
         classes.begin(), classes.end(), dispatch_data_size,
         [](auto sum, const auto& cls) { return sum + cls.vtbl.size(); });
 
-    std::vector<detail::word> new_dispatch_data(dispatch_data_size);
+    // Make room for at least one word, so that the v-table pointers are not null
+    // even if the registry does not contain any method.
+    std::vector<detail::word> new_dispatch_data(
+        (std::max)(dispatch_data_size, std::size_t(1)));
     auto gv_first = new_dispatch_data.data();
     [[maybe_unused]] auto gv_last = gv_first + dispatch_data_size;
     auto gv_iter = gv_first;
diff --git a/include/boost/openmethod/policies/vptr_vector.hpp b/include/boost/openmethod/policies/vptr_vector.hpp
index 1b1a276..f3df196 100644
--- a/include/boost/openmethod/policies/vptr_vector.hpp
+++ b/include/boost/openmethod/policies/vptr_vector.hpp
@@ -86,9 +86,10 @@ struct vptr_vector : vptr {
             }
 
             if constexpr (Registry::has_indirect_vptr) {
-                detail::vptr_vector_indirect_vptrs<Registry>.resize(size);
+                detail::vptr_vector_indirect_vptrs<Registry>.assign(
+                    size, nullptr);
             } else {
-                detail::vptr_vector_vptrs<Registry>.resize(size);
+                detail::vptr_vector_vptrs<Registry>.assign(size, nullptr);
             }
 
             for (auto iter = ctx.classes_begin(); iter != ctx.classes_end();
@@ -141,16 +142,18 @@ struct vptr_vector : vptr {
                 index = std::size_t(dynamic_type);
 
                 if constexpr (Registry::has_runtime_checks) {
-                    std::size_t max_index = 0;
+                    bool missing;
 
                     if constexpr (Registry::has_indirect_vptr) {
-                        max_index =
-                            detail::vptr_vector_indirect_vptrs<Registry>.size();
+                        const auto& vptrs =
+                            detail::vptr_vector_indirect_vptrs<Registry>;
+                        missing = index >= vptrs.size() || !vptrs[index];
                     } else {
-                        max_index = detail::vptr_vector_vptrs<Registry>.size();
+                        const auto& vptrs = detail::vptr_vector_vptrs<Registry>;
+                        missing = index >= vptrs.size() || !vptrs[index];
                     }
 
-                    if (index >= max_index) {
+                    if (missing) {
                         if constexpr (Registry::has_error_handler) {
                             missing_class error;
                             error.type = dynamic_type;
-- 
2.43.0


From d9d9b1ef5ec79277a1cbf5b7efb26e81b599cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 13/20] fix: registry left initialized after a failed
 initialization

If the vptr policy throws, the v-table pointers have been set to tables that are
about to be freed, but the runtime checks did not report it.
---
 include/boost/openmethod/initialize.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 1541ac4..328b1e8 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1326,6 +1326,10 @@ void registry<Policies...>::compiler<Options...>::write_global_data() {
     [[maybe_unused]] auto gv_last = gv_first + dispatch_data_size;
     auto gv_iter = gv_first;
 
+    // From now on, and until the new tables are installed, the registry is not
+    // in a usable state.
+    registry::initialized = false;
+
     ++tr << "Initializing multi-method dispatch tables at " << gv_iter << "\n";
 
     for (auto& m : methods) {
-- 
2.43.0


From 8c4c08aa42c85b75176e03fe64d97d0d65b38cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 14/20] fix: dominance elimination depended on the order of
 overriders

A candidate eliminated by another one stopped eliminating the candidates that
it dominates, although dominance is not transitive. Depending on the order of
registration, a call was reported as ambiguous or not.
---
 include/boost/openmethod/initialize.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 328b1e8..57c25a5 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1443,15 +1443,18 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
     pick = 0;
     remaining = 0;
 
-    for (size_t i = 0; i < candidates.size(); ++i) {
-        if (candidates[i]) {
-            for (size_t j = i + 1; j < candidates.size(); ++j) {
-                if (candidates[j]) {
-                    if (is_more_specific(candidates[i], candidates[j])) {
+    // Dominance is not transitive. Dominated candidates still eliminate the
+    // candidates that they dominate.
+    const auto all = candidates;
+
+    for (size_t i = 0; i < all.size(); ++i) {
+        if (all[i]) {
+            for (size_t j = i + 1; j < all.size(); ++j) {
+                if (all[j]) {
+                    if (is_more_specific(all[i], all[j])) {
                         candidates[j] = nullptr;
-                    } else if (is_more_specific(candidates[j], candidates[i])) {
+                    } else if (is_more_specific(all[j], all[i])) {
                         candidates[i] = nullptr;
-                        break; // this one is dead
                     }
                 }
             }
-- 
2.43.0


From 89578ce90ede47b52ce056dab583adda97a82121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 15/20] fix: non-virtual rvalue reference parameters did not
 compile

parameter_traits::cast returned its parameter as a lvalue.
---
 include/boost/openmethod/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index d545d7f..6f99580 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2029,7 +2029,7 @@ struct parameter_traits {
 
     template<typename>
     static auto cast(T value) -> T {
-        return value;
+        return std::forward<T>(value);
     }
 };
 
-- 
2.43.0


From 1e27ecf5fce19ea24497c9b0ed179681f252d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 16/20] fix: overriders with same const virtual_ptr reference
 parameter did not compile

The specializations of validate_overrider_parameter were ambiguous.
---
 include/boost/openmethod/core.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 6f99580..b14f94e 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2702,6 +2702,11 @@ struct validate_overrider_parameter<
         "of corresponding overrider parameter");
 };
 
+template<class T, class R>
+struct validate_overrider_parameter<
+    const virtual_ptr<T, R>&, const virtual_ptr<T, R>&, void> : std::true_type {
+};
+
 template<class T1, class R, class T2, class R2>
 struct validate_overrider_parameter<
     const virtual_ptr<T1, R>&, const virtual_ptr<T2, R2>&, void>
-- 
2.43.0


From f1857fb8bea43a9120263c693a2d296321288da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:24 +0000
Subject: [PATCH 17/20] fix: methods accepted const references to virtual_ptrs
 from other registries

---
 include/boost/openmethod/core.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index b14f94e..347198b 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2078,6 +2078,18 @@ struct validate_method_parameter<
     static_assert(
         false_t<Class, Registry, MethodRegistry>, "registry mismatch");
 };
+
+template<class Class, class Registry>
+struct validate_method_parameter<
+    const virtual_ptr<Class, Registry>&, Registry, void> : std::true_type {};
+
+template<class Class, class Registry, class MethodRegistry>
+struct validate_method_parameter<
+    const virtual_ptr<Class, Registry>&, MethodRegistry, void>
+    : std::false_type {
+    static_assert(
+        false_t<Class, Registry, MethodRegistry>, "registry mismatch");
+};
 } // namespace detail
 
 //! Implement a method
-- 
2.43.0


From 46edf446074655b9a817b72ffb8a8d8e5a8fbcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:24 +0000
Subject: [PATCH 18/20] fix: final_virtual_ptr rejected valid objects when a
 class has several type ids

The check compared raw type ids; type identity is decided with type_index.
---
 include/boost/openmethod/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 347198b..53ef6d0 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -610,7 +610,8 @@ inline auto final_virtual_ptr(Arg&& obj) {
         auto static_type = Registry::rtti::template static_type<Class>();
         auto dynamic_type = Registry::rtti::dynamic_type(Traits::peek(obj));
 
-        if (dynamic_type != static_type) {
+        if (Registry::rtti::type_index(dynamic_type) !=
+            Registry::rtti::type_index(static_type)) {
             if constexpr (is_not_void<typename Registry::error_handler>) {
                 final_error error;
                 error.static_type = static_type;
-- 
2.43.0


From 348d983a6776e8897e2b8604bad00c5e35e24bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:03 +0000
Subject: [PATCH 19/20] fix: copying an object with an embedded vptr copied the
 source's vptr

Slicing or assigning gave the destination the v-table of the dynamic class of
the source. Set the vptr from the class being constructed, and leave it alone
on assignment.
---
 include/boost/openmethod/inplace_vptr.hpp | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 56e8d06..8d27729 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -151,6 +151,15 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_base(const inplace_vptr_base&) noexcept : inplace_vptr_base() {
+    }
+
+    //! Keep the vptr.
+    inplace_vptr_base& operator=(const inplace_vptr_base&) noexcept {
+        return *this;
+    }
+
     //! Set the vptr to `nullptr`.
     ~inplace_vptr_base() noexcept {
         boost_openmethod_vptr = nullptr;
@@ -225,6 +234,14 @@ class inplace_vptr_derived<Class, Base> {
         boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    inplace_vptr_derived&
+    operator=(const inplace_vptr_derived&) noexcept = default;
+
     //! Set the vptr in base class.
     ~inplace_vptr_derived() noexcept {
         detail::boost_openmethod_update_vptr<Base>(
@@ -264,6 +281,14 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    inplace_vptr_derived&
+    operator=(const inplace_vptr_derived&) noexcept = default;
+
     //! Set the vptr in each base class.
     //!
     //! For each base, set its vptr to the base's v-table.
-- 
2.43.0


From 99a6aa5a1d2613adf3bba0153c5214645349f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:17 +0000
Subject: [PATCH 20/20] fix: 'next' is selected among the overriders that apply
 whenever the overrider does

---
 include/boost/openmethod/initialize.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 57c25a5..6cad12e 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1228,20 +1228,17 @@ void registry<Policies...>::compiler<Options...>::build_dispatch_table(
                 // -------------------------------------------------------------
                 // next
 
-                // First remove the dominant overriders from the overriders.
-                // Note that the dominants appear in the overriders in the same
-                // relative order.
-                auto candidate = overriders.begin();
+                // Keep only the overriders that are less specific than, or equal
+                // to, the picked one in each parameter. The others may not be
+                // applicable when 'next' is called with other arguments.
                 remaining = 0;
 
-                for (auto dominant : dominants) {
-                    if (*candidate == dominant) {
-                        *candidate = nullptr;
-                    } else {
+                for (auto& candidate : overriders) {
+                    if (is_base(candidate, overrider)) {
                         ++remaining;
+                    } else {
+                        candidate = nullptr;
                     }
-
-                    ++candidate;
                 }
 
                 if (remaining == 0) {
-- 
2.43.0

