From d3e975c037ebad0e1df5bf244cf9cdae64784c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 01/48] fix: channels: pass the wake-up on when constructing or
 moving an element throws

A notified emplace()/pop() whose element construction/move throws leaves capacity
(or the element) behind but has consumed the notification, so another blocked
producer/consumer would sleep although it could proceed.
---
 include/dice/template-library/channel.hpp          | 6 ++++++
 include/dice/template-library/exchange_channel.hpp | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index d5b685e..2b45c84 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -1,6 +1,8 @@
 #ifndef DICE_TEMPLATELIBRARY_CHANNEL_HPP
 #define DICE_TEMPLATELIBRARY_CHANNEL_HPP
 
+#include <dice/template-library/defer.hpp>
+
 #include <atomic>
 #include <cassert>
 #include <condition_variable>
@@ -97,6 +99,8 @@ namespace dice::template_library {
                     return false;
                 }
 
+                // the wait may have consumed the notification for capacity that will still be there if the construction throws
+                DICE_DEFER_TO_FAIL { queue_not_full_.notify_one(); };
                 queue_.emplace_back(std::forward<Args>(args)...);
             }
 
@@ -185,6 +189,8 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
+            // the wait may have consumed the notification for an element that will still be there if the move throws
+            DICE_DEFER_TO_FAIL { queue_not_empty_.notify_one(); };
             auto ret = std::move(queue_.front());
             queue_.pop_front();
 
diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index a6d75ed..332144e 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -1,6 +1,8 @@
 #ifndef DICE_TEMPLATELIBRARY_EXCHANGECHANNEL_HPP
 #define DICE_TEMPLATELIBRARY_EXCHANGECHANNEL_HPP
 
+#include <dice/template-library/defer.hpp>
+
 #include <atomic>
 #include <cassert>
 #include <condition_variable>
@@ -132,6 +134,8 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
+            // the wait may have consumed the notification for a value that will still be there if the move throws
+            DICE_DEFER_TO_FAIL { has_value_.notify_one(); };
             return *std::exchange(value_, std::nullopt);
         }
 
-- 
2.43.0


From 06b45ad0ade3847959f55f9f0fe676db309712f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 02/48] fix: mutex, shared_mutex: return guards of the
 configured mutex type

lock()/try_lock() of mutex<T, Mutex> returned mutex_guard<T, std::mutex>, so they
did not compile with any mutex type other than the default.
---
 include/dice/template-library/mutex.hpp        |  8 ++++----
 include/dice/template-library/shared_mutex.hpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 39746f0..6b3cc7b 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -108,8 +108,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] mutex_guard<value_type> lock() {
-            return mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] mutex_guard<value_type, mutex_type> lock() {
+            return mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -119,13 +119,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return mutex_guard<value_type>{std::move(lock), value_};
+            return mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
     };
 
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 52b43cd..414dab0 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -110,8 +110,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type> lock() {
-            return shared_mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type, mutex_type> lock() {
+            return shared_mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -121,13 +121,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type>{std::move(lock), value_};
+            return shared_mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
 
         /**
@@ -137,8 +137,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type const> lock_shared() const {
-            return shared_mutex_guard<value_type const>{std::shared_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type const, mutex_type> lock_shared() const {
+            return shared_mutex_guard<value_type const, mutex_type>{std::shared_lock<mutex_type>{mutex_}, value_};
         }
 
         /**
@@ -148,13 +148,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type const>> try_lock_shared() const {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type const, mutex_type>> try_lock_shared() const {
             std::shared_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type const>{std::move(lock), value_};
+            return shared_mutex_guard<value_type const, mutex_type>{std::move(lock), value_};
         }
     };
 
-- 
2.43.0


From 48430e9cb8583a25ebf2abfea8b59f455c2a1084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 03/48] fix: variant2: allow swapping a variant with itself

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 9f672f8..796db75 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -716,6 +716,10 @@ namespace dice::template_library {
         }
 
         friend constexpr void swap(variant2 &lhs, variant2 &rhs) noexcept(std::is_nothrow_move_assignable_v<variant2>) {
+            if (&lhs == &rhs) [[unlikely]] {
+                return;
+            }
+
             variant2 tmp = std::move(lhs);
             lhs = std::move(rhs);
             rhs = std::move(tmp);
-- 
2.43.0


From 1cae22e6aa8acd85696e7da22bb410a965d4246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 04/48] fix: variant2: hash of a valueless variant

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 796db75..017db14 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -41,6 +41,10 @@ namespace std {
     template<typename T, typename U>
     struct hash<::dice::template_library::variant2<T, U>> {
         [[nodiscard]] size_t operator()(::dice::template_library::variant2<T, U> const &var) const noexcept {
+            if (var.valueless_by_exception()) [[unlikely]] {
+                return hash<size_t>{}(variant_npos);
+            }
+
             return visit([]<typename X>(X const &x) noexcept {
                 // this is as far as I can tell what std::variant does
                 if constexpr (std::is_same_v<X, T>) {
-- 
2.43.0


From 58a2ae9a9c4ee69f8260d30ae3057cdf2ebda8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:55 +0000
Subject: [PATCH 05/48] fix: variant2: noexcept of the converting move
 constructors

---
 include/dice/template-library/variant2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 017db14..d34edb3 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -265,7 +265,7 @@ namespace dice::template_library {
             new (&a_) T{value};
         }
 
-        constexpr variant2(T &&value) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
             new (&a_) T{std::move(value)};
         }
@@ -275,7 +275,7 @@ namespace dice::template_library {
             new (&b_) U{value};
         }
 
-        constexpr variant2(U &&value) noexcept(std::is_nothrow_copy_constructible_v<U>)
+        constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
             new (&b_) U{std::move(value)};
         }
-- 
2.43.0


From 00d7feb87f2dc38172a976d5fa36476ab08750b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:05 +0000
Subject: [PATCH 06/48] fix: variant2: only use trivial assignment if
 construction and destruction are trivial too

---
 include/dice/template-library/variant2.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index d34edb3..1963e5c 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -97,6 +97,18 @@ namespace dice::template_library {
             using type = ::dice::template_library::variant2<T, U>;
         };
 
+        // assigning a variant may also destroy the old and construct the new alternative,
+        // therefore the assignment can only be trivial if these are trivial too
+        template<typename T>
+        inline constexpr bool trivially_copy_assignable = std::is_trivially_copy_assignable_v<T>
+                                                          && std::is_trivially_copy_constructible_v<T>
+                                                          && std::is_trivially_destructible_v<T>;
+
+        template<typename T>
+        inline constexpr bool trivially_move_assignable = std::is_trivially_move_assignable_v<T>
+                                                          && std::is_trivially_move_constructible_v<T>
+                                                          && std::is_trivially_destructible_v<T>;
+
         template<typename Self, typename F>
         constexpr decltype(auto) visit_impl(Self &&self, F &&visitor) {
             using discriminant_type = typename std::remove_cvref_t<Self>::discriminant_type;
@@ -331,14 +343,14 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 const &other) noexcept
-            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>)
+            requires (detail_variant2::trivially_copy_assignable<T> && detail_variant2::trivially_copy_assignable<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 const &other) noexcept(std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                                   && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<U>
                                                   && std::is_nothrow_destructible_v<U> && std::is_nothrow_copy_constructible_v<U>)
-            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>)
+            requires (!detail_variant2::trivially_copy_assignable<T> || !detail_variant2::trivially_copy_assignable<U>)
         {
             if (this == &other) [[unlikely]] {
                 return *this;
@@ -422,14 +434,14 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 &&other) noexcept
-            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>)
+            requires (detail_variant2::trivially_move_assignable<T> && detail_variant2::trivially_move_assignable<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 &&other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                              && std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<U>
                                              && std::is_nothrow_destructible_v<U> && std::is_nothrow_move_constructible_v<U>)
-            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>)
+            requires (!detail_variant2::trivially_move_assignable<T> || !detail_variant2::trivially_move_assignable<U>)
         {
             assert(this != &other);
 
-- 
2.43.0


From e9b8999f8a6c4320ed3f145588dced28ac917a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:18 +0000
Subject: [PATCH 07/48] fix: variant2: initialize alternatives like
 std::variant

---
 include/dice/template-library/variant2.hpp | 78 ++++++++++++----------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 1963e5c..2f8c2cb 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -109,6 +109,16 @@ namespace dice::template_library {
                                                           && std::is_trivially_move_constructible_v<T>
                                                           && std::is_trivially_destructible_v<T>;
 
+        // same initialization as std::variant (e.g. std::vector<int>(3, 7)), falls back to braces for types that need them
+        template<typename X, typename ...Args>
+        constexpr void construct(X *ptr, Args &&...args) noexcept(std::is_nothrow_constructible_v<X, Args...>) {
+            if constexpr (std::is_constructible_v<X, Args...>) {
+                new (ptr) X(std::forward<Args>(args)...);
+            } else {
+                new (ptr) X{std::forward<Args>(args)...};
+            }
+        }
+
         template<typename Self, typename F>
         constexpr decltype(auto) visit_impl(Self &&self, F &&visitor) {
             using discriminant_type = typename std::remove_cvref_t<Self>::discriminant_type;
@@ -227,11 +237,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{other.a_};
+                    new (&a_) T(other.a_);
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{other.b_};
+                    new (&b_) U(other.b_);
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -254,11 +264,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{std::move(other.a_)};
+                    new (&a_) T(std::move(other.a_));
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{std::move(other.b_)};
+                    new (&b_) U(std::move(other.b_));
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -274,46 +284,46 @@ namespace dice::template_library {
 
         constexpr variant2(T const &value) noexcept(std::is_nothrow_copy_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{value};
+            new (&a_) T(value);
         }
 
         constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::move(value)};
+            new (&a_) T(std::move(value));
         }
 
         constexpr variant2(U const &value) noexcept(std::is_nothrow_copy_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{value};
+            new (&b_) U(value);
         }
 
         constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::move(value)};
+            new (&b_) U(std::move(value));
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_type_t<T>, Args &&...args) noexcept(std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::forward<Args>(args)...};
+            detail_variant2::construct(&a_, std::forward<Args>(args)...);
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_type_t<U>, Args &&...args) noexcept(std::is_nothrow_constructible_v<U, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::forward<Args>(args)...};
+            detail_variant2::construct(&b_, std::forward<Args>(args)...);
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_index_t<0>, Args &&...args) noexcept(std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::forward<Args>(args)...};
+            detail_variant2::construct(&a_, std::forward<Args>(args)...);
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_index_t<1>, Args &&...args) noexcept(std::is_nothrow_constructible_v<U, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::forward<Args>(args)...};
+            detail_variant2::construct(&b_, std::forward<Args>(args)...);
         }
 
         constexpr ~variant2() noexcept requires (std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
@@ -365,7 +375,7 @@ namespace dice::template_library {
                         }
                         case discriminant_type::Second: {
                             a_.~T();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U{other.b_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U(other.b_); });
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -383,7 +393,7 @@ namespace dice::template_library {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
                             b_.~U();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T{other.a_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T(other.a_); });
                             break;
                         }
                         case discriminant_type::Second: {
@@ -404,11 +414,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{other.a_};
+                            new (&a_) T(other.a_);
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{other.b_};
+                            new (&b_) U(other.b_);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -455,7 +465,7 @@ namespace dice::template_library {
                         case discriminant_type::Second: {
                             a_.~T();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                                new (&b_) U{std::move(other.b_)};
+                                new (&b_) U(std::move(other.b_));
                             });
                             break;
                         }
@@ -475,7 +485,7 @@ namespace dice::template_library {
                         case discriminant_type::First: {
                             b_.~U();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                                new (&a_) T{std::move(other.a_)};
+                                new (&a_) T(std::move(other.a_));
                             });
                             break;
                         }
@@ -497,11 +507,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{std::move(other.a_)};
+                            new (&a_) T(std::move(other.a_));
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{std::move(other.b_)};
+                            new (&b_) U(std::move(other.b_));
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -538,13 +548,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, {
-                        new (&a_) T{value};
+                        new (&a_) T(value);
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{value};
+                    new (&a_) T(value);
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -569,13 +579,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                        new (&a_) T{std::move(value)};
+                        new (&a_) T(std::move(value));
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{std::move(value)};
+                    new (&a_) T(std::move(value));
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -595,7 +605,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, {
-                        new (&b_) U{value};
+                        new (&b_) U(value);
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -605,7 +615,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{value};
+                    new (&b_) U(value);
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -624,7 +634,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                        new (&b_) U{std::move(value)};
+                        new (&b_) U(std::move(value));
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -634,7 +644,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{std::move(value)};
+                    new (&b_) U(std::move(value));
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -669,17 +679,17 @@ namespace dice::template_library {
                     switch (discriminant_) {
                         case discriminant_type::First: {
                             a_.~T();
-                            new (&a_) T{std::forward<Args>(args)...};
+                            detail_variant2::construct(&a_, std::forward<Args>(args)...);
                             break;
                         }
                         case discriminant_type::Second: {
                             b_.~U();
-                            new (&a_) T{std::forward<Args>(args)...};
+                            detail_variant2::construct(&a_, std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::First;
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
-                            new (&a_) T{std::forward<Args>(args)...};
+                            detail_variant2::construct(&a_, std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::First;
                             break;
                         }
@@ -694,17 +704,17 @@ namespace dice::template_library {
                     switch (discriminant_) {
                         case discriminant_type::First: {
                             a_.~T();
-                            new (&b_) U{std::forward<Args>(args)...};
+                            detail_variant2::construct(&b_, std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::Second;
                             break;
                         }
                         case discriminant_type::Second: {
                             b_.~U();
-                            new (&b_) U{std::forward<Args>(args)...};
+                            detail_variant2::construct(&b_, std::forward<Args>(args)...);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
-                            new (&b_) U{std::forward<Args>(args)...};
+                            detail_variant2::construct(&b_, std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::Second;
                             break;
                         }
-- 
2.43.0


From 0a46d98858d4b7e4bf77841259bd22328a6f8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:32 +0000
Subject: [PATCH 08/48] fix: variant2: let exceptions of comparisons and hashes
 of the alternatives pass

---
 include/dice/template-library/variant2.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 2f8c2cb..7fa5bbd 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -40,12 +40,13 @@ namespace std {
 
     template<typename T, typename U>
     struct hash<::dice::template_library::variant2<T, U>> {
-        [[nodiscard]] size_t operator()(::dice::template_library::variant2<T, U> const &var) const noexcept {
+        [[nodiscard]] size_t operator()(::dice::template_library::variant2<T, U> const &var) const
+            noexcept(noexcept(hash<T>{}(std::declval<T const &>())) && noexcept(hash<U>{}(std::declval<U const &>()))) {
             if (var.valueless_by_exception()) [[unlikely]] {
                 return hash<size_t>{}(variant_npos);
             }
 
-            return visit([]<typename X>(X const &x) noexcept {
+            return visit([]<typename X>(X const &x) {
                 // this is as far as I can tell what std::variant does
                 if constexpr (std::is_same_v<X, T>) {
                     return hash<size_t>{}(0) + hash<T>{}(x);
@@ -751,7 +752,9 @@ namespace dice::template_library {
             rhs = std::move(tmp);
         }
 
-        constexpr bool operator==(variant2 const &other) const noexcept requires (std::equality_comparable<T> && std::equality_comparable<U>) {
+        constexpr bool operator==(variant2 const &other) const noexcept(noexcept(std::declval<T const &>() == std::declval<T const &>())
+                                                                        && noexcept(std::declval<U const &>() == std::declval<U const &>()))
+            requires (std::equality_comparable<T> && std::equality_comparable<U>) {
             if (discriminant_ != other.discriminant_) {
                 return false;
             }
@@ -773,7 +776,9 @@ namespace dice::template_library {
             }
         }
 
-        constexpr auto operator<=>(variant2 const &other) const noexcept requires (std::three_way_comparable<T> && std::three_way_comparable<U>) {
+        constexpr auto operator<=>(variant2 const &other) const noexcept(noexcept(std::declval<T const &>() <=> std::declval<T const &>())
+                                                                         && noexcept(std::declval<U const &>() <=> std::declval<U const &>()))
+            requires (std::three_way_comparable<T> && std::three_way_comparable<U>) {
             using ret_type = std::common_comparison_category_t<std::compare_three_way_result_t<T>, std::compare_three_way_result_t<U>>;
 
             if (discriminant_ != other.discriminant_) {
-- 
2.43.0


From 974c612600d9033128d5e81729744fbd2dc73ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:03 +0000
Subject: [PATCH 09/48] fix: inplace_polymorphic: forget the old value also
 when all types are trivially destructible

---
 include/dice/template-library/inplace_polymorphic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index d354c6c..3303d46 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -77,7 +77,7 @@ namespace dice::template_library {
 
 		void drop() noexcept {
 			if constexpr ((std::is_trivially_destructible_v<Ts> && ...)) {
-				// noop
+				valueless_ = true;
 			} else {
 				if (!valueless_) {
 					(**this).~Base();
-- 
2.43.0


From e6908b3b3e81a730aa3ff26628d07ccedec0686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 10/48] fix: static_string: copy all bytes of wide characters

---
 include/dice/template-library/static_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c05fa48..c1d0c11 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -49,7 +49,7 @@ namespace dice::template_library {
 
             if (size_ != 0) {
                 data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_);
+                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(value_type));
             } else {
                 data_ = nullptr;
             }
@@ -69,7 +69,7 @@ namespace dice::template_library {
             }
 
             data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-            std::memcpy(std::to_address(data_), sv.data(), size_);
+            std::memcpy(std::to_address(data_), sv.data(), size_ * sizeof(value_type));
         }
 
         basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), other.alloc_} {
-- 
2.43.0


From d8a53eba386141b74441f5073863a17434da05a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:29 +0000
Subject: [PATCH 11/48] fix: static_string: assignment allocates before it
 releases the old contents

---
 .../dice/template-library/static_string.hpp   | 27 +++++++------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c1d0c11..64c72d0 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -40,21 +40,6 @@ namespace dice::template_library {
             swap(a.size_, b.size_);
         }
 
-        void copy_assign_from_other(basic_static_string const &other) {
-            if (size_ != 0) {
-                std::allocator_traits<allocator_type>::deallocate(alloc_, data_, size_);
-            }
-
-            size_ = other.size_;
-
-            if (size_ != 0) {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(value_type));
-            } else {
-                data_ = nullptr;
-            }
-        }
-
     public:
         constexpr basic_static_string(allocator_type const &alloc = allocator_type{}) noexcept
             : data_{nullptr}, size_{0}, alloc_{alloc} {
@@ -80,11 +65,16 @@ namespace dice::template_library {
                 return *this;
             }
 
+            // the copy is made before the old contents are released, so that *this does not change if the allocation throws;
+            // the old contents are released using the allocator they were allocated with
             if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
-                alloc_ = other.alloc_;
+                basic_static_string tmp{static_cast<view_type>(other), other.alloc_};
+                swap(*this, tmp);
+            } else {
+                basic_static_string tmp{static_cast<view_type>(other), alloc_};
+                swap_data(*this, tmp);
             }
 
-            copy_assign_from_other(other);
             return *this;
         }
 
@@ -110,7 +100,8 @@ namespace dice::template_library {
                 }
 
                 // alloc_ != other.alloc_ and not allowed to propagate, need to copy
-                copy_assign_from_other(other);
+                basic_static_string tmp{static_cast<view_type>(other), alloc_};
+                swap_data(*this, tmp);
                 return *this;
             }
         }
-- 
2.43.0


From 37811e1a5be3caaab7e7d4fc2241ba302c66e816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 12/48] fix: static_string: copy construction uses
 select_on_container_copy_construction

---
 include/dice/template-library/static_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index 64c72d0..0f871e0 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -57,7 +57,7 @@ namespace dice::template_library {
             std::memcpy(std::to_address(data_), sv.data(), size_ * sizeof(value_type));
         }
 
-        basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), other.alloc_} {
+        basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), std::allocator_traits<allocator_type>::select_on_container_copy_construction(other.alloc_)} {
         }
 
         basic_static_string &operator=(basic_static_string const &other) {
-- 
2.43.0


From 565fbd871b2945140afa1bc489d6c0e920c47955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:33 +0000
Subject: [PATCH 13/48] fix: flex_array: iterator-sentinel construction with
 sentinels of another type

---
 include/dice/template-library/flex_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index e7ebfcd..c7053f8 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -5,6 +5,7 @@
 #include <array>
 #include <cassert>
 #include <concepts>
+#include <iterator>
 #include <span>
 #include <stdexcept>
 #include <vector>
@@ -319,7 +320,7 @@ namespace dice::template_library {
 		template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
 		constexpr flex_array(Iter first, Sent last) {
 			if constexpr (has_max_extent && std::random_access_iterator<Iter>) {
-				auto const range_size = std::distance(first, last);
+				auto const range_size = std::ranges::distance(first, last);
 				if (static_cast<size_t>(range_size) > max_size()) [[unlikely]] {
 					throw std::length_error{"flex_array::flex_array: maximum size exceeded"};
 				}
-- 
2.43.0


From 486d8a80ca9a71397ea2ddc9b733a87276f40534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:04 +0000
Subject: [PATCH 14/48] fix: flex_array: do not declare operations noexcept
 that may throw

---
 include/dice/template-library/flex_array.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index c7053f8..9db6d36 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -278,11 +278,11 @@ namespace dice::template_library {
 		inner_type inner_;
 
 	public:
-		constexpr flex_array() noexcept = default;
-		constexpr flex_array(flex_array const &) noexcept = default;
-		constexpr flex_array(flex_array &&) noexcept = default;
-		constexpr flex_array &operator=(flex_array const &) noexcept = default;
-		constexpr flex_array &operator=(flex_array &&) noexcept = default;
+		constexpr flex_array() = default;
+		constexpr flex_array(flex_array const &) = default;
+		constexpr flex_array(flex_array &&) = default;
+		constexpr flex_array &operator=(flex_array const &) = default;
+		constexpr flex_array &operator=(flex_array &&) = default;
 		constexpr ~flex_array() noexcept = default;
 
 		/**
@@ -365,7 +365,7 @@ namespace dice::template_library {
 		 * Converts from a flex_array of static extent to a flex_array of dynamic extent
 		 */
 		template<size_t other_extent>
-		constexpr flex_array(flex_array<value_type, other_extent> const &other) noexcept requires (has_dynamic_extent && other_extent != dynamic_extent) {
+		constexpr flex_array(flex_array<value_type, other_extent> const &other) requires (has_dynamic_extent && other_extent != dynamic_extent) {
 			static_assert(other_extent <= max_extent, "extent of other is too large for this flex_array");
 
 			inner_.set_size(other.size());
@@ -415,7 +415,7 @@ namespace dice::template_library {
 
 		constexpr auto operator<=>(flex_array const &other) const noexcept = default;
 
-		friend constexpr void swap(flex_array &lhs, flex_array &rhs) noexcept {
+		friend constexpr void swap(flex_array &lhs, flex_array &rhs) noexcept(std::is_nothrow_swappable_v<inner_type>) {
 			std::swap(lhs.inner_, rhs.inner_);
 		}
 	};
-- 
2.43.0


From 627a84127a8c5303471a712dd85e5e195783aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:03 +0000
Subject: [PATCH 15/48] fix: limit_allocator: allow converting rebound unsync
 allocators

---
 include/dice/template-library/limit_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index e836280..011aaaf 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -115,7 +115,7 @@ namespace dice::template_library {
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-		constexpr limit_allocator(limit_allocator<U, Allocator> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator>::upstream_allocator_type const &>)
+		constexpr limit_allocator(limit_allocator<U, Allocator, syncness> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator, syncness>::upstream_allocator_type const &>)
 			: control_block_{other.control_block_},
 			  inner_{other.inner_} {
 		}
-- 
2.43.0


From a19b3aa0706f84adf90465f94ed95af43507e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 16/48] fix: limit_allocator: moving from an allocator keeps it
 usable

---
 .../dice/template-library/limit_allocator.hpp   | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 011aaaf..0cdb17e 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -108,10 +108,21 @@ namespace dice::template_library {
               inner_{} {
         }
 
-		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
 		constexpr limit_allocator &operator=(limit_allocator const &other) noexcept(std::is_nothrow_copy_assignable_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) = default;
+
+		// moving from an allocator must not change its value (a moved-from container can still use it), therefore the control block is shared
+		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>)
+			: control_block_{other.control_block_},
+			  inner_{std::move(other.inner_)} {
+		}
+
+		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) {
+			control_block_ = other.control_block_;
+			inner_ = std::move(other.inner_);
+			return *this;
+		}
+
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-- 
2.43.0


From def39a2d2702719075effbe65471b1efc8dbe92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 17/48] fix: pool_allocator: moved-from allocator keeps its
 pool

---
 include/dice/template-library/pool_allocator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 65afc3f..f590570 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -161,9 +161,9 @@ namespace dice::template_library {
 		}
 
 		pool_allocator(pool_allocator const &other) noexcept = default;
-		pool_allocator(pool_allocator &&other) noexcept = default;
 		pool_allocator &operator=(pool_allocator const &other) noexcept = default;
-		pool_allocator &operator=(pool_allocator &&other) noexcept = default;
+		// note: deliberately no move operations, moving from an allocator must not change its value
+		// (i.e. a moved-from allocator/container must still be able to use the pool), therefore moves are copies
 		~pool_allocator() noexcept = default;
 
 		template<typename U>
-- 
2.43.0


From ea44f2f2a275a69ba0cc6f6fe7532811de85f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 18/48] fix: pool_allocator: reject element counts whose size
 does not fit size_t

---
 include/dice/template-library/pool_allocator.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index f590570..cf6f2d1 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -6,8 +6,10 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>
-#include <type_traits>
+#include <limits>
 #include <memory>
+#include <new>
+#include <type_traits>
 
 namespace dice::template_library {
 
@@ -176,6 +178,10 @@ namespace dice::template_library {
 		}
 
 		pointer allocate(size_t n) {
+			if (n > std::numeric_limits<size_t>::max() / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
+
 			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
 		}
 
-- 
2.43.0


From 34918483e949aff796986b1cbbb9382c17531049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:20 +0000
Subject: [PATCH 19/48] fix: pool_allocator: blocks are aligned for the
 requested type

---
 .../dice/template-library/pool_allocator.hpp  | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index cf6f2d1..8a0953e 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -44,9 +44,18 @@ namespace dice::template_library {
 
 		std::array<pool_type, sizeof...(bucket_sizes)> pools_;
 
+		/**
+		 * Elements of a bucket are placed directly after each other (at multiples of the bucket size, but at least alignof(void *) aligned),
+		 * therefore a bucket is only suitable if its size preserves the requested alignment.
+		 */
+		static constexpr bool fits(size_t bucket_size, size_t n_bytes, size_t alignment) noexcept {
+			return n_bytes <= bucket_size
+				   && (alignment <= alignof(void *) || (alignment <= __STDCPP_DEFAULT_NEW_ALIGNMENT__ && bucket_size % alignment == 0));
+		}
+
 		template<size_t ix, size_t bucket_size, size_t ...rest>
-		void *allocate_impl(size_t n_bytes) {
-			if (n_bytes <= bucket_size) {
+		void *allocate_impl(size_t n_bytes, size_t alignment) {
+			if (fits(bucket_size, n_bytes, alignment)) {
 				// fits into bucket
 
 				void *ptr = pools_[ix].malloc();
@@ -58,7 +67,9 @@ namespace dice::template_library {
 			}
 
 			if constexpr (sizeof...(rest) > 0) {
-				return allocate_impl<ix + 1, rest...>(n_bytes);
+				return allocate_impl<ix + 1, rest...>(n_bytes, alignment);
+			} else if (alignment > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+				return ::operator new[](n_bytes, std::align_val_t{alignment});
 			} else {
 				// does not fit into any bucket, fall back to new[]
 				return new char[n_bytes];
@@ -66,15 +77,17 @@ namespace dice::template_library {
 		}
 
 		template<size_t ix, size_t bucket_size, size_t ...rest>
-		void deallocate_impl(void *data, size_t n_bytes) {
-			if (n_bytes <= bucket_size) {
+		void deallocate_impl(void *data, size_t n_bytes, size_t alignment) {
+			if (fits(bucket_size, n_bytes, alignment)) {
 				// fits into bucket
 				pools_[ix].free(data);
 				return;
 			}
 
 			if constexpr (sizeof...(rest) > 0) {
-				deallocate_impl<ix + 1, rest...>(data, n_bytes);
+				deallocate_impl<ix + 1, rest...>(data, n_bytes, alignment);
+			} else if (alignment > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+				::operator delete[](data, std::align_val_t{alignment});
 			} else {
 				// does not fit into any bucket, must have been allocated via new[]
 				delete[] static_cast<char *>(data);
@@ -99,11 +112,12 @@ namespace dice::template_library {
 		 * in the smallest bucket it fits in, otherwise the allocation will be directly fulfilled via a call to `new`.
 		 *
 		 * @param n_bytes number of bytes to allocate
+		 * @param alignment required alignment of the region; buckets that cannot provide it are skipped
 		 * @return (non-null) pointer to allocated region
 		 * @throws std::bad_alloc on allocation failure
 		 */
-		void *allocate(size_t n_bytes) {
-			return allocate_impl<0, bucket_sizes...>(n_bytes);
+		void *allocate(size_t n_bytes, size_t alignment = 1) {
+			return allocate_impl<0, bucket_sizes...>(n_bytes, alignment);
 		}
 
 		/**
@@ -111,9 +125,10 @@ namespace dice::template_library {
 		 *
 		 * @param data pointer to the previously allocated region. Note: data must have been allocated by `*this`
 		 * @param n_bytes size in bytes of the previously allocated region. Note: `n_bytes` must be the same value as was provided for the call to `allocate` that allocated `data`.
+		 * @param alignment must be the same value as was provided for the call to `allocate` that allocated `data`.
 		 */
-		void deallocate(void *data, size_t n_bytes) {
-			return deallocate_impl<0, bucket_sizes...>(data, n_bytes);
+		void deallocate(void *data, size_t n_bytes, size_t alignment = 1) {
+			return deallocate_impl<0, bucket_sizes...>(data, n_bytes, alignment);
 		}
 	};
 
@@ -182,11 +197,11 @@ namespace dice::template_library {
 				throw std::bad_array_new_length{};
 			}
 
-			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
+			return static_cast<pointer>(pool_->allocate(sizeof(T) * n, alignof(T)));
 		}
 
 		void deallocate(pointer ptr, size_t n) {
-			pool_->deallocate(ptr, sizeof(T) * n);
+			pool_->deallocate(ptr, sizeof(T) * n, alignof(T));
 		}
 
 		pool_allocator select_on_container_copy_construction() const {
-- 
2.43.0


From 3d32f5105860b3d566bf1cbf893dca3da0301425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:37 +0000
Subject: [PATCH 20/48] fix: range(): elements from the back are the elements
 of the sequence

---
 include/dice/template-library/ranges.hpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 1c94625..2d22880 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -420,19 +420,7 @@ namespace dice::template_library {
             [[nodiscard]] constexpr std::optional<T> next_back() noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (step_ > S{}) {
-					if (current_ >= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				} else {
-					if (current_ <= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				}
+				return nth_back(0);
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth_back(size_t off) noexcept
@@ -444,8 +432,9 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				stop_ -= static_cast<T>(off) * step_;
-				return next_back();
+				// the last element is not necessarily exactly one step before stop_
+				stop_ = current_ + static_cast<T>(rem - 1 - off) * step_;
+				return stop_;
 			}
 		};
 	}// namespace ranges_algo_detail
-- 
2.43.0


From 1f9ad1a3df1ead39ed39983973773c5c7f3cab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:38 +0000
Subject: [PATCH 21/48] fix: range(): no overflow near the limits of the types

---
 include/dice/template-library/ranges.hpp | 43 ++++++++++++++----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 2d22880..e66dd94 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -353,6 +353,17 @@ namespace dice::template_library {
 			T stop_;
 			S step_;
 
+			/**
+			 * @return current_ + n * step_ (which must be representable), without overflow on the way there
+			 */
+			[[nodiscard]] constexpr T advanced(size_t n) const noexcept {
+				return static_cast<T>(static_cast<size_t>(current_) + n * static_cast<size_t>(step_));
+			}
+
+			[[nodiscard]] static constexpr size_t n_steps(size_t distance, size_t step) noexcept {
+				return distance / step + static_cast<size_t>(distance % step != 0);
+			}
+
 		public:
             range_iterator() noexcept
                     requires (std::is_default_constructible_v<T> && std::is_constructible_v<S, int>)
@@ -379,28 +390,24 @@ namespace dice::template_library {
 					}
 				}
 
-				return std::exchange(current_, current_ + step_);
+				if constexpr (std::integral<T> && std::integral<S>) {
+					// at the last element current_ + step_ is possibly not representable
+					auto const distance = static_cast<size_t>(stop_) - static_cast<size_t>(current_);
+					bool const is_last = step_ > S{} ? distance <= static_cast<size_t>(step_) : -distance <= -static_cast<size_t>(step_);
+					return std::exchange(current_, is_last ? stop_ : advanced(1));
+				} else {
+					return std::exchange(current_, current_ + step_);
+				}
 			}
 
             [[nodiscard]] constexpr size_t remaining() const noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (current_ <= stop_) {
-					// forward
-					if (step_ < S{}) {
-						// wrong direction
-						return 0;
-					}
-
-					return static_cast<size_t>((stop_ - current_ + step_ - 1) / step_);
+				// unsigned arithmetic, because neither the distance nor the negated step are necessarily representable in T and S
+				if (step_ > S{}) {
+					return current_ < stop_ ? n_steps(static_cast<size_t>(stop_) - static_cast<size_t>(current_), static_cast<size_t>(step_)) : 0;
 				} else {
-					// backward
-					if (step_ > S{}) {
-						// wrong direction
-						return 0;
-					}
-
-					return static_cast<size_t>((current_ - stop_ + -step_ - 1) / -step_);
+					return current_ > stop_ ? n_steps(static_cast<size_t>(current_) - static_cast<size_t>(stop_), -static_cast<size_t>(step_)) : 0;
 				}
 			}
 
@@ -413,7 +420,7 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				current_ += static_cast<T>(off) * step_;
+				current_ = advanced(off);
 				return next();
 			}
 
@@ -433,7 +440,7 @@ namespace dice::template_library {
 				}
 
 				// the last element is not necessarily exactly one step before stop_
-				stop_ = current_ + static_cast<T>(rem - 1 - off) * step_;
+				stop_ = advanced(rem - 1 - off);
 				return stop_;
 			}
 		};
-- 
2.43.0


From d646b8f89468562cd91064c168157d4825a0e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:20 +0000
Subject: [PATCH 22/48] fix: next_to_iter: direct-initialization from a
 non-const iterator is a copy

---
 include/dice/template-library/next_to_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 38ed862..338d98e 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -131,7 +131,8 @@ namespace dice::template_library {
 		public:
             template<typename... Args>
             explicit constexpr next_to_iter_impl(Args &&...args)
-                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>)
+                    requires ((sizeof...(Args) != 1 || !(std::is_same_v<std::remove_cvref_t<Args>, next_to_iter_impl> || ...)) // i.e. not a copy/move
+                              && std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>)
                 : Iter{std::forward<Args>(args)...},
                   cur_{next()} {
             }
-- 
2.43.0


From 12842b39045dbdabf4cc6d644c7b8023effa5d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:55 +0000
Subject: [PATCH 23/48] fix: next_to_view: crbegin() is available whenever
 rbegin() is

---
 include/dice/template-library/next_to_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 338d98e..b38a84c 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -472,7 +472,7 @@ namespace dice::template_library {
 			return next_back_to_reverse_iter<Iter>{iter_};
 		}
 
-		[[nodiscard]] constexpr auto crbegin() const requires (nth_back_iterator<Iter>) {
+		[[nodiscard]] constexpr auto crbegin() const requires (next_back_iterator<Iter>) {
 			return rbegin();
 		}
 
-- 
2.43.0


From a72568e1a0f582b7268700b52cdcbfe948738697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 24/48] fix: next_to_iter: peeking the end does not consume it

---
 include/dice/template-library/next_to_range.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index b38a84c..ff57691 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -80,7 +80,7 @@ namespace dice::template_library {
 			static constexpr bool efficient_skip = dir == direction::forward ? nth_iterator<Iter> : nth_back_iterator<Iter>;
 
 			mutable std::optional<value_type> cur_;
-			std::optional<value_type> peeked_;
+			std::optional<std::optional<value_type>> peeked_; // outer: has the next element been peeked, inner: is there a next element
 
 			[[nodiscard]] constexpr std::optional<value_type> next() {
 				if constexpr (dir == direction::forward) {
@@ -101,7 +101,7 @@ namespace dice::template_library {
 			constexpr void advance() {
 				if (peeked_.has_value()) [[unlikely]] {
 					// fast path, we have already peaked the value
-					cur_ = std::exchange(peeked_, std::nullopt);
+					cur_ = *std::exchange(peeked_, std::nullopt);
 				} else {
 					cur_ = next();
 				}
@@ -117,8 +117,8 @@ namespace dice::template_library {
 
 				if (peeked_.has_value()) [[unlikely]] {
 					// we have already peeked the value
-					if (off == 0) {
-						cur_ = std::exchange(peeked_, std::nullopt);
+					if (off == 0 || !peeked_->has_value()) {
+						cur_ = *std::exchange(peeked_, std::nullopt);
 					} else {
 						peeked_.reset(); // discard peeked value
 						cur_ = nth(off - 1);
@@ -181,10 +181,10 @@ namespace dice::template_library {
 			 */
 			[[nodiscard]] constexpr std::optional<value_type> const &peek() {
 				if (!peeked_.has_value()) {
-					peeked_ = next();
+					peeked_.emplace(next());
 				}
 
-				return peeked_;
+				return *peeked_;
 			}
 
 			friend constexpr bool operator==(next_to_iter_impl const &self, sentinel) noexcept {
-- 
2.43.0


From 06ed5dbd0b5d74cf9b0c348cd21520ae5c01e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:41 +0000
Subject: [PATCH 25/48] fix: is_sorted_unique: do not read from an
 advanced-past single-pass iterator

---
 include/dice/template-library/ranges.hpp | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index e66dd94..5e4f290 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -539,15 +539,27 @@ namespace dice::template_library {
                 return true;
             }
 
-            auto it = first;
-            while (++it != last) {
-                // We require that 'prev' is strictly less than 'curr'.
-                // cmp(a, b) ~ a < b
-                // <-> !cmp(a, b) ~ a >= b
-                if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
-                    return false;
+            // We require that 'prev' is strictly less than 'curr'.
+            // cmp(a, b) ~ a < b
+            // <-> !cmp(a, b) ~ a >= b
+            if constexpr (std::forward_iterator<I>) {
+                auto it = first;
+                while (++it != last) {
+                    if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
+                        return false;
+                    }
+                    first = it;
+                }
+            } else {
+                // single-pass: the previous element is not accessible anymore once the iterator was advanced
+                std::iter_value_t<I> prev = *first;
+                while (++first != last) {
+                    std::iter_value_t<I> curr = *first;
+                    if (!std::invoke(cmp, std::invoke(proj, prev), std::invoke(proj, curr))) {
+                        return false;
+                    }
+                    prev = std::move(curr);
                 }
-                first = it;
             }
             return true;
         }
-- 
2.43.0


From 3e61a9402d4c79750ecfc7264873a5c4869836d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 26/48] fix: pointer_tag_pair converts pointers to derived
 classes to the pointee type instead of storing their address

---
 include/dice/template-library/pointer_tag_pair.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/pointer_tag_pair.hpp b/include/dice/template-library/pointer_tag_pair.hpp
index 5bc1ab5..3b92b42 100644
--- a/include/dice/template-library/pointer_tag_pair.hpp
+++ b/include/dice/template-library/pointer_tag_pair.hpp
@@ -67,18 +67,18 @@ namespace dice::template_library {
         template<detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>>())
         pointer_tag_pair(P const pointer, Tag const tag) noexcept
-            : pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)} {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            : pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)} {
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
         }
 
         template<unsigned PromisedAlignment, detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>, PromisedAlignment>())
         [[nodiscard]] static pointer_tag_pair from_overaligned(P const pointer, Tag const tag) noexcept {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
 
-            return pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)};
+            return pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)};
         }
 
         [[nodiscard]] static pointer_tag_pair from_tagged(tagged_pointer_type const pointer) noexcept {
-- 
2.43.0


From 30a0e46f89b296e3db9fc4c3a0b2ef00ebda208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:11 +0000
Subject: [PATCH 27/48] fix: switch_cases passes constants of the type of the
 bounds also for types smaller than int

---
 include/dice/template-library/switch_cases.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/switch_cases.hpp b/include/dice/template-library/switch_cases.hpp
index dbea69e..1cb3a5d 100644
--- a/include/dice/template-library/switch_cases.hpp
+++ b/include/dice/template-library/switch_cases.hpp
@@ -14,7 +14,7 @@ namespace dice::template_library {
 		constexpr decltype(auto) execute_case(decltype(i) value, F &&cases_function) {
 			if constexpr (i < ((max == min) ? max : max - 1)) {
 				if (value != i) {
-					return execute_case<i + 1, max, min>(value, std::forward<F>(cases_function));
+					return execute_case<static_cast<decltype(i)>(i + 1), max, min>(value, std::forward<F>(cases_function));
 				}
 			}
 
-- 
2.43.0


From 8fb6c210154624e432a2e7966e4196bf8ca8d7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:48 +0000
Subject: [PATCH 28/48] fix: switch_cases without a default does not
 instantiate the cases function for the excluded upper bound

---
 include/dice/template-library/switch_cases.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/switch_cases.hpp b/include/dice/template-library/switch_cases.hpp
index 1cb3a5d..d230574 100644
--- a/include/dice/template-library/switch_cases.hpp
+++ b/include/dice/template-library/switch_cases.hpp
@@ -84,7 +84,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(first) condition, F &&cases_function) {
-		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, first>);
+		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(first, last)>);
 	}
 
 	/**
@@ -121,7 +121,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(last) condition, F &&cases_function) {
-		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, last>);
+		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(decltype(last){}, last)>);
 	}
 
 	/**
-- 
2.43.0


From ed8e8e8b9a666845522321c68a228ee29c518000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:37 +0000
Subject: [PATCH 29/48] fix: for_range and make_integer_sequence support ranges
 longer than the maximum of a small type and keep the type of the bounds

---
 include/dice/template-library/for.hpp           | 17 +++++++++++------
 .../dice/template-library/integral_sequence.hpp | 13 +++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 4abfdd8..8c1ac75 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -1,6 +1,8 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FOR_HPP
 #define DICE_TEMPLATE_LIBRARY_FOR_HPP
 
+#include <concepts>
+#include <cstddef>
 #include <functional>
 #include <type_traits>
 #include <utility>
@@ -39,18 +41,21 @@ namespace dice::template_library {
 	  */
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr void for_range(F &&f) {
+		// the distance is not necessarily representable in the type of the bounds, and arithmetic on small types promotes to int
+		using T = decltype(first);
+
 		if constexpr (first < last) {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first + xs)...>(std::forward<F>(f));
+			auto const impl = [&f]<size_t... xs>(std::index_sequence<xs...>) {
+				for_values<static_cast<T>(first + static_cast<T>(xs))...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), last - first>{});
+			impl(std::make_index_sequence<static_cast<size_t>(last) - static_cast<size_t>(first)>{});
 		} else {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first - xs)...>(std::forward<F>(f));
+			auto const impl = [&f]<size_t... xs>(std::index_sequence<xs...>) {
+				for_values<static_cast<T>(first - static_cast<T>(xs))...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), first - last>{});
+			impl(std::make_index_sequence<static_cast<size_t>(first) - static_cast<size_t>(last)>{});
 		}
 	}
 }// namespace dice::template_library
diff --git a/include/dice/template-library/integral_sequence.hpp b/include/dice/template-library/integral_sequence.hpp
index 6b8fda7..2e904ac 100644
--- a/include/dice/template-library/integral_sequence.hpp
+++ b/include/dice/template-library/integral_sequence.hpp
@@ -28,16 +28,17 @@ namespace dice::template_library {
 			return std::integer_sequence<Int>{};
 		} else if constexpr (first < last) {
 			// Ascending [first, last)
-			auto const impl = []<Int... xs>(std::integer_sequence<Int, xs...>) {
-				return std::integer_sequence<Int, (first + xs)...>{};
+			// note: the distance is not necessarily representable as Int
+			auto const impl = []<size_t... xs>(std::index_sequence<xs...>) {
+				return std::integer_sequence<Int, static_cast<Int>(first + static_cast<Int>(xs))...>{};
 			};
-			return impl(std::make_integer_sequence<Int, last - first>{});
+			return impl(std::make_index_sequence<static_cast<size_t>(last) - static_cast<size_t>(first)>{});
 		} else {
 			// Descending (last, first]
-			auto const impl = []<Int... xs>(std::integer_sequence<Int, xs...>) {
-				return std::integer_sequence<Int, (first - xs)...>{};
+			auto const impl = []<size_t... xs>(std::index_sequence<xs...>) {
+				return std::integer_sequence<Int, static_cast<Int>(first - static_cast<Int>(xs))...>{};
 			};
-			return impl(std::make_integer_sequence<Int, first - last>{});
+			return impl(std::make_index_sequence<static_cast<size_t>(first) - static_cast<size_t>(last)>{});
 		}
 	}());
 
-- 
2.43.0


From 28b31b7339cedad084ed8b6bb4b0f61a5cb0157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 30/48] fix: for_values derives its noexcept from the call it
 makes

---
 include/dice/template-library/for.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 8c1ac75..6309c98 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -26,7 +26,7 @@ namespace dice::template_library {
 	 * @param f The lambda
 	 */
 	template<auto ...xs, typename F>
-	constexpr void for_values(F &&f) noexcept((std::is_nothrow_invocable_v<F, std::integral_constant<decltype(xs), xs>> && ...)) {
+	constexpr void for_values(F &&f) noexcept((std::is_nothrow_invocable_v<F &, std::integral_constant<decltype(xs), xs>> && ...)) {
 		(std::invoke(f, std::integral_constant<decltype(xs), xs>{}), ...);
 	}
 
-- 
2.43.0


From 53b1d32a8177ae28361bdf2b3ae1177b65fb9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:29 +0000
Subject: [PATCH 31/48] fix: standard_layout_tuple with one element can be
 copied from non-const lvalues

---
 include/dice/template-library/standard_layout_tuple.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index e0a965e..2376074 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -74,7 +74,9 @@ namespace dice::template_library {
 		constexpr standard_layout_tuple() = default;
 
 		template<typename ...Args>
-		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts))
+		explicit constexpr standard_layout_tuple(Args &&...args)
+			requires (sizeof...(Args) == 1 + sizeof...(Ts)
+					  && (sizeof...(Args) != 1 || !(std::is_base_of_v<standard_layout_tuple, std::remove_cvref_t<Args>> || ...))) // i.e. not a copy/move
 			: standard_layout_tuple{individual_construct, std::forward<Args>(args)...}
 		{
 		}
-- 
2.43.0


From 0cb62c104bdf1f97c879064558a4d831c7b996c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:04 +0000
Subject: [PATCH 32/48] fix: tuple_fold and tuple_type_fold return the
 accumulator by value

---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 2c01327..5284a8e 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From 0fa859111297077ce1f445ec6e5f2271f97ce6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:15 +0000
Subject: [PATCH 33/48] fix: integral_template_variant: copy construction lets
 exceptions of the alternatives pass

---
 include/dice/template-library/integral_template_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index fdbe8ee..ae7fe98 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -62,7 +62,7 @@ namespace dice::template_library {
 
 	public:
 		constexpr integral_template_variant() noexcept(std::is_nothrow_default_constructible_v<underlying_type>) = default;
-		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_copy_constructible_v<underlying_type>) = default;
+		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_nothrow_copy_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant(integral_template_variant &&other) noexcept(std::is_nothrow_move_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant const &other) noexcept(std::is_nothrow_copy_assignable_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant &&other) noexcept(std::is_nothrow_move_assignable_v<underlying_type>) = default;
-- 
2.43.0


From 4523f3a0999b5c5dbf3374fd13e34c8a501e039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:56 +0000
Subject: [PATCH 34/48] fix: integral_template_variant: alternatives without
 operator== are usable with gcc

---
 include/dice/template-library/integral_template_variant.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index ae7fe98..6a40ff8 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -129,7 +129,9 @@ namespace dice::template_library {
 		}
 
 		constexpr auto operator<=>(integral_template_variant const &other) const noexcept = default;
-		constexpr bool operator==(integral_template_variant const &other) const noexcept = default;
+		constexpr bool operator==(integral_template_variant const &other) const noexcept {
+			return repr_ == other.repr_;
+		}
 	};
 
 }// namespace dice::template_library
-- 
2.43.0


From bf932b2e7c5dbd3d651c18e6585bd9d9b4bbb232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:19 +0000
Subject: [PATCH 35/48] fix: fmt_join: accept ranges of characters as separator

---
 include/dice/template-library/fmt_join.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 6d79999..7a27407 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -1,6 +1,7 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 #define DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 
+#include <algorithm>
 #include <format>
 #include <iterator>
 #include <ranges>
@@ -68,7 +69,7 @@ namespace std {
 			while (it != end) {
 				// format separator
 				if constexpr (std::ranges::range<Sep const &>) {
-					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()));
+					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()).out);
 				} else {
 					// otherwise single character
 					*format_ctx.out()++ = join_obj.separator;
-- 
2.43.0


From 4642bf16ed6881aee3c35d7b5f0a88a530caceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:36 +0000
Subject: [PATCH 36/48] fix: fmt_join: accept ranges that can only be iterated
 while non-const

---
 include/dice/template-library/fmt_join.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 7a27407..3b2c13a 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -2,9 +2,12 @@
 #define DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 
 #include <algorithm>
+#include <concepts>
 #include <format>
 #include <iterator>
 #include <ranges>
+#include <type_traits>
+#include <utility>
 #include <vector>
 
 namespace dice::template_library {
@@ -53,7 +56,11 @@ namespace std {
 			return element_formatter_.parse(parse_ctx);
 		}
 
-		auto format(dice::template_library::fmt_join_algo_detail::joiner<R, Sep> const &join_obj, auto &format_ctx) const {
+		// join_obj is const whenever its range can be iterated while const (not the case e.g. for filter or istream views)
+		template<typename Joiner>
+			requires (std::same_as<std::remove_const_t<Joiner>, dice::template_library::fmt_join_algo_detail::joiner<R, Sep>>
+					  && std::ranges::input_range<decltype((std::declval<Joiner &>().range))>)
+		auto format(Joiner &join_obj, auto &format_ctx) const {
 			auto it = std::ranges::begin(join_obj.range);
 			auto const end = std::ranges::end(join_obj.range);
 
-- 
2.43.0


From b68755680422c10ceecd07240b3778bce8689ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:39 +0000
Subject: [PATCH 37/48] fix: format_to_ostream: wide streams use the wide
 formatter

---
 include/dice/template-library/format_to_ostream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index 01e6e98..c9ea5bf 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -47,7 +47,8 @@ namespace dice::template_library {
  */
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
-    std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    static constexpr Char format[] = {Char{'{'}, Char{'}'}, Char{}};
+    std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, format, value);
     return stream;
 }
 
-- 
2.43.0


From 62d85f3e695a0be1a72f4eb34d8d218eba76114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:10 +0000
Subject: [PATCH 38/48] fix: format_to_ostream: respect and report the state of
 the stream

---
 include/dice/template-library/format_to_ostream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index c9ea5bf..dad4ada 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -48,7 +48,10 @@ namespace dice::template_library {
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
     static constexpr Char format[] = {Char{'{'}, Char{'}'}, Char{}};
-    std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, format, value);
+    typename std::basic_ostream<Char, CharTraits>::sentry const ready{stream};
+    if (ready && std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, format, value).failed()) {
+        stream.setstate(std::ios_base::badbit);
+    }
     return stream;
 }
 
-- 
2.43.0


From 4a874c87f26669deff0ef2b2d2dc33448341d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:42 +0000
Subject: [PATCH 39/48] fix: fmt_join: helpers with a string literal as
 separator satisfy std::formattable

---
 include/dice/template-library/fmt_join.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 3b2c13a..61d3617 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -6,6 +6,7 @@
 #include <format>
 #include <iterator>
 #include <ranges>
+#include <string_view>
 #include <type_traits>
 #include <utility>
 #include <vector>
@@ -77,6 +78,9 @@ namespace std {
 				// format separator
 				if constexpr (std::ranges::range<Sep const &>) {
 					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()).out);
+				} else if constexpr (std::convertible_to<Sep const &, std::basic_string_view<CharT>>) {
+					std::basic_string_view<CharT> const separator = join_obj.separator;
+					format_ctx.advance_to(std::ranges::copy(separator, format_ctx.out()).out);
 				} else {
 					// otherwise single character
 					*format_ctx.out()++ = join_obj.separator;
-- 
2.43.0


From b8bb458d6423d20961448c3b2723351ea28f7c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:55 +0000
Subject: [PATCH 40/48] fix: DICE_MOVE_IF_VALUE compiles for const rvalue
 references

---
 include/dice/template-library/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index f8ed65a..71a3d34 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -211,7 +211,7 @@ namespace dice::template_library {
     [&]<bool _dice_detail_no_move = std::is_lvalue_reference_v<decltype(expr)> || std::is_const_v<std::remove_reference_t<decltype(expr)>>>() \
             -> std::conditional_t<_dice_detail_no_move, decltype(expr), std::add_rvalue_reference_t<std::remove_cvref_t<decltype(expr)>>> {   \
         if constexpr (_dice_detail_no_move) {                                                                                                 \
-            return expr;                                                                                                                      \
+            return static_cast<decltype(expr)>(expr);                                                                                         \
         } else {                                                                                                                              \
             return std::move(expr);                                                                                                           \
         }                                                                                                                                     \
-- 
2.43.0


From 42e7545b942033c10b573d4d8ca9893ecfe1796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:31 +0000
Subject: [PATCH 41/48] fix: is_strict_invocable_r judges the call with the
 given value categories

---
 include/dice/template-library/type_traits.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index 71a3d34..ac5ae6e 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -1,9 +1,11 @@
 #ifndef DICE_TEMPLATELIBRARY_ZST_HPP
 #define DICE_TEMPLATELIBRARY_ZST_HPP
 
+#include <concepts>
 #include <cstdint>
 #include <functional>
 #include <type_traits>
+#include <utility>
 
 namespace dice::template_library {
 	namespace detail_zst {
@@ -154,8 +156,8 @@ namespace dice::template_library {
 
 	template<typename R, typename F, typename ...Args>
 	struct is_strict_invocable_r {
-	    static constexpr bool value = requires (F func, Args ...args) {
-	    	{ std::invoke(func, args...) } -> std::same_as<R>;
+	    static constexpr bool value = requires {
+	    	{ std::invoke(std::declval<F>(), std::declval<Args>()...) } -> std::same_as<R>;
 	    };
 	};
 
-- 
2.43.0


From 987ca78d527c2ae442126b689f583a9eb5a458b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:35 +0000
Subject: [PATCH 42/48] fix: let swap of mutex guards compile when it is found
 by ADL alone

---
 include/dice/template-library/mutex.hpp        | 2 +-
 include/dice/template-library/shared_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 6b3cc7b..22c7498 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -54,7 +54,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(mutex_guard const &lhs, mutex_guard const &rhs) noexcept {
+        friend void swap(mutex_guard &lhs, mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 414dab0..1be577f 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -56,7 +56,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(shared_mutex_guard const &lhs, shared_mutex_guard const &rhs) noexcept {
+        friend void swap(shared_mutex_guard &lhs, shared_mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
-- 
2.43.0


From d2ec7d107d3742b6bd23f9aa87feb0973bc7a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:52 +0000
Subject: [PATCH 43/48] fix: is_zst holds for over-aligned empty types

---
 include/dice/template-library/type_traits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index ac5ae6e..4290411 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -15,7 +15,8 @@ namespace dice::template_library {
 			[[no_unique_address]] T value;
 
 			static constexpr bool check() noexcept {
-				return sizeof(zst_checker) == sizeof(uint64_t);
+				// the size is rounded up to the alignment, which an (empty) over-aligned type raises
+				return sizeof(zst_checker) == (alignof(zst_checker) > sizeof(uint64_t) ? alignof(zst_checker) : sizeof(uint64_t));
 			}
 		};
 	} // namespace detail_zst
-- 
2.43.0


From 6305230761c410c9c9d3d8bcf253ccd830a44ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:30 +0000
Subject: [PATCH 44/48] fix: lazy_switch does not instantiate the providers of
 cases that are not selected

---
 include/dice/template-library/lazy_conditional.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/lazy_conditional.hpp b/include/dice/template-library/lazy_conditional.hpp
index 6da706a..d5b5130 100644
--- a/include/dice/template-library/lazy_conditional.hpp
+++ b/include/dice/template-library/lazy_conditional.hpp
@@ -7,7 +7,7 @@
 namespace dice::template_library {
 
 	/**
-	 * Concept for type providers that have a ::type member (checks without instantiating).
+	 * Concept for type providers that have a ::type member (instantiates the provider).
 	 */
 	template<typename T>
 	concept type_provider = requires {
@@ -139,7 +139,9 @@ namespace dice::template_library {
 	};
 
 	// Recursive case: check first case, recurse if false
-	template<typename DefaultProvider, bool Cond, type_provider Provider, lazy_case... Rest>
+	// (the provider of a case that is not selected must not be instantiated, so it must not be checked either)
+	template<typename DefaultProvider, bool Cond, typename Provider, lazy_case... Rest>
+		requires (!Cond || type_provider<Provider>)
 	struct lazy_switch_default<DefaultProvider, case_<Cond, Provider>, Rest...> {
 		using type = lazy_conditional_t<
 				Cond,
@@ -164,7 +166,9 @@ namespace dice::template_library {
 	struct lazy_switch;
 
 	// Recursive case: check first case, recurse if false
-	template<bool Cond, type_provider Provider, lazy_case... Rest>
+	// (the provider of a case that is not selected must not be instantiated, so it must not be checked either)
+	template<bool Cond, typename Provider, lazy_case... Rest>
+		requires (!Cond || type_provider<Provider>)
 	struct lazy_switch<case_<Cond, Provider>, Rest...> {
 		using type = lazy_conditional_t<
 				Cond,
-- 
2.43.0


From 577d7ae51de0ee9c0620f7963aefddce2ff148cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:15 +0000
Subject: [PATCH 45/48] fix: type_list predicates may return anything that
 converts to bool

---
 include/dice/template-library/type_list.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/dice/template-library/type_list.hpp b/include/dice/template-library/type_list.hpp
index cf843cc..22feab8 100644
--- a/include/dice/template-library/type_list.hpp
+++ b/include/dice/template-library/type_list.hpp
@@ -278,13 +278,13 @@ namespace dice::template_library::type_list {
     };
 
     template<typename T, typename ...Ts, auto pred>
-    requires (std::invoke(pred, std::type_identity<T>{}))
+    requires (static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
     struct filter<type_list<T, Ts...>, pred> {
         using type = concat_t<type_list<T>, typename filter<type_list<Ts...>, pred>::type>;
     };
 
     template<typename T, typename ...Ts, auto pred>
-    requires (!std::invoke(pred, std::type_identity<T>{}))
+    requires (!static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
     struct filter<type_list<T, Ts...>, pred> {
         using type = typename filter<type_list<Ts...>, pred>::type;
     };
@@ -351,12 +351,12 @@ namespace dice::template_library::type_list {
     };
 
     template<typename T, typename ...Ts, auto pred>
-    requires (!std::invoke(pred, std::type_identity<T>{}))
+    requires (!static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
     struct find_if<type_list<T, Ts...>, pred> : find_if<type_list<Ts...>, pred> {
     };
 
     template<typename T, typename ...Ts, auto pred>
-    requires (std::invoke(pred, std::type_identity<T>{}))
+    requires (static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
     struct find_if<type_list<T, Ts...>, pred> {
         using type = T;
     };
@@ -374,12 +374,12 @@ namespace dice::template_library::type_list {
         };
 
         template<typename T, typename ...Ts, auto pred, size_t ix>
-        requires (!std::invoke(pred, std::type_identity<T>{}))
+        requires (!static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
         struct position<type_list<T, Ts...>, pred, ix> : position<type_list<Ts...>, pred, ix + 1> {
         };
 
         template<typename T, typename ...Ts, auto pred, size_t ix>
-        requires (std::invoke(pred, std::type_identity<T>{}))
+        requires (static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
         struct position<type_list<T, Ts...>, pred, ix> : std::integral_constant<size_t, ix> {
         };
     } // namespace detail_position
@@ -446,7 +446,7 @@ namespace dice::template_library::type_list {
     struct all_of;
 
     template<typename ...Ts, auto pred>
-    struct all_of<type_list<Ts...>, pred> : std::bool_constant<(std::invoke(pred, std::type_identity<Ts>{}) && ...)> {
+    struct all_of<type_list<Ts...>, pred> : std::bool_constant<(static_cast<bool>(std::invoke(pred, std::type_identity<Ts>{})) && ...)> {
     };
 
     template<typename TL, auto pred>
@@ -463,7 +463,7 @@ namespace dice::template_library::type_list {
     struct any_of;
 
     template<typename ...Ts, auto pred>
-    struct any_of<type_list<Ts...>, pred> : std::bool_constant<(std::invoke(pred, std::type_identity<Ts>{}) || ...)> {
+    struct any_of<type_list<Ts...>, pred> : std::bool_constant<(static_cast<bool>(std::invoke(pred, std::type_identity<Ts>{})) || ...)> {
     };
 
     template<typename TL, auto pred>
@@ -480,7 +480,7 @@ namespace dice::template_library::type_list {
     struct none_of;
 
     template<typename ...Ts, auto pred>
-    struct none_of<type_list<Ts...>, pred> : std::bool_constant<(!std::invoke(pred, std::type_identity<Ts>{}) && ...)> {
+    struct none_of<type_list<Ts...>, pred> : std::bool_constant<(!static_cast<bool>(std::invoke(pred, std::type_identity<Ts>{})) && ...)> {
     };
 
     template<typename TL, auto pred>
-- 
2.43.0


From 1f1a89060817d29705ace0d446ceabd27e99c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:01 +0000
Subject: [PATCH 46/48] fix: type_list::unique no longer instantiates
 exponentially many lists

---
 include/dice/template-library/type_list.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/type_list.hpp b/include/dice/template-library/type_list.hpp
index 22feab8..523fd8d 100644
--- a/include/dice/template-library/type_list.hpp
+++ b/include/dice/template-library/type_list.hpp
@@ -692,10 +692,10 @@ namespace dice::template_library::type_list {
 		// Recursive step
 		template<typename ...Seen, typename T, typename ...Remaining>
 		struct unique_impl<type_list<Seen...>, T, Remaining...> {
-			using type = std::conditional_t<
-					contains_v<type_list<Seen...>, T>,
-					typename unique_impl<type_list<Seen...>, Remaining...>::type,
-					typename unique_impl<type_list<Seen..., T>, Remaining...>::type>;
+			// select the list first: recursing in both branches would instantiate exponentially many lists
+			using type = typename unique_impl<
+					std::conditional_t<contains_v<type_list<Seen...>, T>, type_list<Seen...>, type_list<Seen..., T>>,
+					Remaining...>::type;
 		};
 	}// namespace detail_unique
 
-- 
2.43.0


From a8720aa94cc94c479da7186b0a0b672117dbb1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:27 +0000
Subject: [PATCH 47/48] fix: variant2: do not read the source of an assignment
 after the assignment destroyed it

---
 include/dice/template-library/variant2.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 7fa5bbd..3601a81 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -367,6 +367,9 @@ namespace dice::template_library {
                 return *this;
             }
 
+            // other possibly lives inside the current alternative and does not outlive its assignment
+            auto const other_discriminant = other.discriminant_;
+
             switch (discriminant_) {
                 case discriminant_type::First: {
                     switch (other.discriminant_) {
@@ -439,7 +442,7 @@ namespace dice::template_library {
                 }
             }
 
-            discriminant_ = other.discriminant_;
+            discriminant_ = other_discriminant;
 
             return *this;
         }
@@ -456,6 +459,9 @@ namespace dice::template_library {
         {
             assert(this != &other);
 
+            // other possibly lives inside the current alternative and does not outlive its assignment
+            auto const other_discriminant = other.discriminant_;
+
             switch (discriminant_) {
                 case discriminant_type::First: {
                     switch (other.discriminant_) {
@@ -532,7 +538,7 @@ namespace dice::template_library {
                 }
             }
 
-            discriminant_ = other.discriminant_;
+            discriminant_ = other_discriminant;
 
             return *this;
         }
-- 
2.43.0


From 187467eaddbcf8add7f54a080a35a07ddf890886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:22 +0000
Subject: [PATCH 48/48] fix: variant2: copy before destroying the old
 alternative when copying may throw

---
 include/dice/template-library/variant2.hpp | 53 +++++++++++++++++-----
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 3601a81..38679dc 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -110,6 +110,11 @@ namespace dice::template_library {
                                                           && std::is_trivially_move_constructible_v<T>
                                                           && std::is_trivially_destructible_v<T>;
 
+        // copying before destroying the old alternative keeps the variant intact if the copy throws, and
+        // allows copying from an object that lives inside the old alternative (same as std::variant)
+        template<typename X>
+        inline constexpr bool copy_before_destroy = !std::is_nothrow_copy_constructible_v<X> && std::is_nothrow_move_constructible_v<X>;
+
         // same initialization as std::variant (e.g. std::vector<int>(3, 7)), falls back to braces for types that need them
         template<typename X, typename ...Args>
         constexpr void construct(X *ptr, Args &&...args) noexcept(std::is_nothrow_constructible_v<X, Args...>) {
@@ -378,8 +383,14 @@ namespace dice::template_library {
                             break;
                         }
                         case discriminant_type::Second: {
-                            a_.~T();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U(other.b_); });
+                            if constexpr (detail_variant2::copy_before_destroy<U>) {
+                                U tmp(other.b_);
+                                a_.~T();
+                                new (&b_) U(std::move(tmp));
+                            } else {
+                                a_.~T();
+                                DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U(other.b_); });
+                            }
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -396,8 +407,14 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            b_.~U();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T(other.a_); });
+                            if constexpr (detail_variant2::copy_before_destroy<T>) {
+                                T tmp(other.a_);
+                                b_.~U();
+                                new (&a_) T(std::move(tmp));
+                            } else {
+                                b_.~U();
+                                DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T(other.a_); });
+                            }
                             break;
                         }
                         case discriminant_type::Second: {
@@ -553,10 +570,16 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::Second: {
-                    b_.~U();
-                    DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, {
-                        new (&a_) T(value);
-                    });
+                    if constexpr (detail_variant2::copy_before_destroy<T>) {
+                        T tmp(value);
+                        b_.~U();
+                        new (&a_) T(std::move(tmp));
+                    } else {
+                        b_.~U();
+                        DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, {
+                            new (&a_) T(value);
+                        });
+                    }
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -610,10 +633,16 @@ namespace dice::template_library {
                                                                 && std::is_nothrow_copy_constructible_v<U>) {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    a_.~T();
-                    DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, {
-                        new (&b_) U(value);
-                    });
+                    if constexpr (detail_variant2::copy_before_destroy<U>) {
+                        U tmp(value);
+                        a_.~T();
+                        new (&b_) U(std::move(tmp));
+                    } else {
+                        a_.~T();
+                        DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, {
+                            new (&b_) U(value);
+                        });
+                    }
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
-- 
2.43.0

