From f53725883404495f2dd4fef1012129003d17ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 01/55] fix: variant2 value-moving constructors are noexcept
 only if the move constructor is

---
 include/dice/template-library/variant2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 9f672f8..d71b628 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -261,7 +261,7 @@ namespace dice::template_library {
             new (&a_) T{value};
         }
 
-        constexpr variant2(T &&value) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
             new (&a_) T{std::move(value)};
         }
@@ -271,7 +271,7 @@ namespace dice::template_library {
             new (&b_) U{value};
         }
 
-        constexpr variant2(U &&value) noexcept(std::is_nothrow_copy_constructible_v<U>)
+        constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
             new (&b_) U{std::move(value)};
         }
-- 
2.43.0


From f7a0a07a831148db250913e34c0b766a125c7205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 02/55] fix: swapping a variant2 with itself must not trip the
 self-move assertion

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index d71b628..1cd36f0 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -716,6 +716,10 @@ namespace dice::template_library {
         }
 
         friend constexpr void swap(variant2 &lhs, variant2 &rhs) noexcept(std::is_nothrow_move_assignable_v<variant2>) {
+            if (&lhs == &rhs) [[unlikely]] {
+                return;
+            }
+
             variant2 tmp = std::move(lhs);
             lhs = std::move(rhs);
             rhs = std::move(tmp);
-- 
2.43.0


From ba66e35777366dce06ee105a711910521ec25888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 03/55] fix: variant2 assignment may only be bitwise if
 construction and destruction are trivial too

---
 include/dice/template-library/variant2.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 1cd36f0..a94b5ea 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -327,14 +327,18 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 const &other) noexcept
-            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>)
+            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>
+                      && std::is_trivially_copy_constructible_v<T> && std::is_trivially_copy_constructible_v<U>
+                      && std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 const &other) noexcept(std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                                   && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<U>
                                                   && std::is_nothrow_destructible_v<U> && std::is_nothrow_copy_constructible_v<U>)
-            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>)
+            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>
+                      || !std::is_trivially_copy_constructible_v<T> || !std::is_trivially_copy_constructible_v<U>
+                      || !std::is_trivially_destructible_v<T> || !std::is_trivially_destructible_v<U>)
         {
             if (this == &other) [[unlikely]] {
                 return *this;
@@ -418,14 +422,18 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 &&other) noexcept
-            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>)
+            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>
+                      && std::is_trivially_move_constructible_v<T> && std::is_trivially_move_constructible_v<U>
+                      && std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 &&other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                              && std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<U>
                                              && std::is_nothrow_destructible_v<U> && std::is_nothrow_move_constructible_v<U>)
-            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>)
+            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>
+                      || !std::is_trivially_move_constructible_v<T> || !std::is_trivially_move_constructible_v<U>
+                      || !std::is_trivially_destructible_v<T> || !std::is_trivially_destructible_v<U>)
         {
             assert(this != &other);
 
-- 
2.43.0


From 1a814619b78157b8421b816f50601affce74b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 04/55] fix: hashing a variant2 must not terminate if it is
 valueless or an alternative's hash throws

---
 include/dice/template-library/variant2.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index a94b5ea..556f2af 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -40,8 +40,13 @@ namespace std {
 
     template<typename T, typename U>
     struct hash<::dice::template_library::variant2<T, U>> {
-        [[nodiscard]] size_t operator()(::dice::template_library::variant2<T, U> const &var) const noexcept {
-            return visit([]<typename X>(X const &x) noexcept {
+        [[nodiscard]] size_t operator()(::dice::template_library::variant2<T, U> const &var) const noexcept(noexcept(hash<T>{}(std::declval<T const &>()))
+                                                                                                             && noexcept(hash<U>{}(std::declval<U const &>()))) {
+            if (var.valueless_by_exception()) [[unlikely]] {
+                return hash<size_t>{}(std::variant_npos);
+            }
+
+            return visit([]<typename X>(X const &x) noexcept(noexcept(hash<X>{}(x))) {
                 // this is as far as I can tell what std::variant does
                 if constexpr (std::is_same_v<X, T>) {
                     return hash<size_t>{}(0) + hash<T>{}(x);
-- 
2.43.0


From dfa543b6a57c55bf6765df7357c406f550cf07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 05/55] fix: comparing variant2 is noexcept only if comparing
 the alternatives is

---
 include/dice/template-library/variant2.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 556f2af..9c43f3e 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -738,7 +738,8 @@ namespace dice::template_library {
             rhs = std::move(tmp);
         }
 
-        constexpr bool operator==(variant2 const &other) const noexcept requires (std::equality_comparable<T> && std::equality_comparable<U>) {
+        constexpr bool operator==(variant2 const &other) const noexcept(noexcept(std::declval<T const &>() == std::declval<T const &>())
+                                                                        && noexcept(std::declval<U const &>() == std::declval<U const &>())) requires (std::equality_comparable<T> && std::equality_comparable<U>) {
             if (discriminant_ != other.discriminant_) {
                 return false;
             }
@@ -760,7 +761,8 @@ namespace dice::template_library {
             }
         }
 
-        constexpr auto operator<=>(variant2 const &other) const noexcept requires (std::three_way_comparable<T> && std::three_way_comparable<U>) {
+        constexpr auto operator<=>(variant2 const &other) const noexcept(noexcept(std::declval<T const &>() <=> std::declval<T const &>())
+                                                                         && noexcept(std::declval<U const &>() <=> std::declval<U const &>())) requires (std::three_way_comparable<T> && std::three_way_comparable<U>) {
             using ret_type = std::common_comparison_category_t<std::compare_three_way_result_t<T>, std::compare_three_way_result_t<U>>;
 
             if (discriminant_ != other.discriminant_) {
-- 
2.43.0


From 0ecc17dcd114141f36f028c5072966682975cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 06/55] fix: channel iteration is noexcept only if moving the
 element is

---
 include/dice/template-library/channel.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index d5b685e..76ce181 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -225,12 +225,13 @@ namespace dice::template_library {
             channel_type *chan_;
             mutable std::optional<value_type> buf_; ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            void advance() noexcept {
+            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
                 buf_ = chan_->pop();
             }
 
         public:
-            explicit iterator(channel_type *chan) noexcept : chan_{chan} {
+            explicit iterator(channel_type *chan) noexcept(std::is_nothrow_move_constructible_v<value_type>)
+                : chan_{chan} {
                 advance();
             }
 
@@ -277,12 +278,12 @@ namespace dice::template_library {
                 return &*buf_;
             }
 
-            iterator &operator++() noexcept {
+            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
                 advance();
                 return *this;
             }
 
-            void operator++(int) noexcept {
+            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
                 advance();
             }
 
@@ -297,7 +298,7 @@ namespace dice::template_library {
          * @return an iterator over all present and future elements of this channel
          * @note iterator == end() is true once the channel is closed
          */
-        [[nodiscard]] iterator begin() noexcept {
+        [[nodiscard]] iterator begin() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
             return iterator{this};
         }
 
-- 
2.43.0


From 71f45378e76f3aab9b7c961eea483606fd8c12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 07/55] fix: mutex and shared_mutex must return guards for
 their own mutex type

---
 include/dice/template-library/mutex.hpp        |  8 ++++----
 include/dice/template-library/shared_mutex.hpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 39746f0..6b3cc7b 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -108,8 +108,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] mutex_guard<value_type> lock() {
-            return mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] mutex_guard<value_type, mutex_type> lock() {
+            return mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -119,13 +119,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return mutex_guard<value_type>{std::move(lock), value_};
+            return mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
     };
 
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 52b43cd..414dab0 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -110,8 +110,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type> lock() {
-            return shared_mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type, mutex_type> lock() {
+            return shared_mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -121,13 +121,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type>{std::move(lock), value_};
+            return shared_mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
 
         /**
@@ -137,8 +137,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type const> lock_shared() const {
-            return shared_mutex_guard<value_type const>{std::shared_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type const, mutex_type> lock_shared() const {
+            return shared_mutex_guard<value_type const, mutex_type>{std::shared_lock<mutex_type>{mutex_}, value_};
         }
 
         /**
@@ -148,13 +148,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type const>> try_lock_shared() const {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type const, mutex_type>> try_lock_shared() const {
             std::shared_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type const>{std::move(lock), value_};
+            return shared_mutex_guard<value_type const, mutex_type>{std::move(lock), value_};
         }
     };
 
-- 
2.43.0


From d547e739f0398d8e87f8947521aee538dfe0da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 08/55] fix: swapping two mutex guards must compile

---
 include/dice/template-library/mutex.hpp        | 2 +-
 include/dice/template-library/shared_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 6b3cc7b..22c7498 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -54,7 +54,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(mutex_guard const &lhs, mutex_guard const &rhs) noexcept {
+        friend void swap(mutex_guard &lhs, mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 414dab0..1be577f 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -56,7 +56,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(shared_mutex_guard const &lhs, shared_mutex_guard const &rhs) noexcept {
+        friend void swap(shared_mutex_guard &lhs, shared_mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
-- 
2.43.0


From 9478de8130d70bb29647a62bc53b601a662345bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 09/55] fix: inplace_polymorphic of trivially destructible
 types must become valueless when its value is dropped

---
 include/dice/template-library/inplace_polymorphic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index d354c6c..3303d46 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -77,7 +77,7 @@ namespace dice::template_library {
 
 		void drop() noexcept {
 			if constexpr ((std::is_trivially_destructible_v<Ts> && ...)) {
-				// noop
+				valueless_ = true;
 			} else {
 				if (!valueless_) {
 					(**this).~Base();
-- 
2.43.0


From e37e9397cd5bc7b7aecb480a238d1bef06fc5dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 10/55] fix: static_string must copy all bytes of characters
 wider than one byte

---
 include/dice/template-library/static_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c05fa48..c1d0c11 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -49,7 +49,7 @@ namespace dice::template_library {
 
             if (size_ != 0) {
                 data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_);
+                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(value_type));
             } else {
                 data_ = nullptr;
             }
@@ -69,7 +69,7 @@ namespace dice::template_library {
             }
 
             data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-            std::memcpy(std::to_address(data_), sv.data(), size_);
+            std::memcpy(std::to_address(data_), sv.data(), size_ * sizeof(value_type));
         }
 
         basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), other.alloc_} {
-- 
2.43.0


From 84f1ed7f719e56050825106c264b0f45ccd2060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 11/55] fix: static_string assignment must survive a failing
 allocation and release its buffer with the allocator that allocated it

---
 .../dice/template-library/static_string.hpp   | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c1d0c11..8d3b4af 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -40,19 +40,10 @@ namespace dice::template_library {
             swap(a.size_, b.size_);
         }
 
+        // replaces the content by a copy allocated with alloc_; *this is unchanged if the allocation fails
         void copy_assign_from_other(basic_static_string const &other) {
-            if (size_ != 0) {
-                std::allocator_traits<allocator_type>::deallocate(alloc_, data_, size_);
-            }
-
-            size_ = other.size_;
-
-            if (size_ != 0) {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(value_type));
-            } else {
-                data_ = nullptr;
-            }
+            basic_static_string copy{static_cast<view_type>(other), alloc_};
+            swap_data(*this, copy);
         }
 
     public:
@@ -81,10 +72,13 @@ namespace dice::template_library {
             }
 
             if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
-                alloc_ = other.alloc_;
+                // the old buffer has to be released by the old allocator
+                basic_static_string copy{static_cast<view_type>(other), other.alloc_};
+                swap(*this, copy);
+            } else {
+                copy_assign_from_other(other);
             }
 
-            copy_assign_from_other(other);
             return *this;
         }
 
-- 
2.43.0


From 56f18643f6de24202a9c42bd4e0bbed824c6f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 12/55] fix: copying a static_string must ask the allocator
 which allocator the copy uses

---
 include/dice/template-library/static_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index 8d3b4af..f9fb730 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -63,7 +63,8 @@ namespace dice::template_library {
             std::memcpy(std::to_address(data_), sv.data(), size_ * sizeof(value_type));
         }
 
-        basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), other.alloc_} {
+        basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other),
+                                                                                         std::allocator_traits<allocator_type>::select_on_container_copy_construction(other.alloc_)} {
         }
 
         basic_static_string &operator=(basic_static_string const &other) {
-- 
2.43.0


From dc37ac0c3fa4db238612e3393471af7e523a8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 13/55] fix: limit_allocator: rebinding conversion keeps the
 syncness policy

---
 include/dice/template-library/limit_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index e836280..011aaaf 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -115,7 +115,7 @@ namespace dice::template_library {
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-		constexpr limit_allocator(limit_allocator<U, Allocator> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator>::upstream_allocator_type const &>)
+		constexpr limit_allocator(limit_allocator<U, Allocator, syncness> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator, syncness>::upstream_allocator_type const &>)
 			: control_block_{other.control_block_},
 			  inner_{other.inner_} {
 		}
-- 
2.43.0


From 348808bd1311f8f4328a0018170eb25a01f7f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 14/55] fix: limit_allocator:
 select_on_container_copy_construction works for upstream allocators without
 default constructor

---
 include/dice/template-library/limit_allocator.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 011aaaf..ce511de 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -96,7 +96,6 @@ namespace dice::template_library {
 		[[no_unique_address]] upstream_allocator_type inner_;
 
 		constexpr limit_allocator(std::shared_ptr<control_block_type> const &control_block, upstream_allocator_type const &alloc)
-                requires (std::is_default_constructible_v<upstream_allocator_type>)
             : control_block_{control_block},
               inner_{alloc} {
         }
-- 
2.43.0


From 6a91963a0741a9c2a4e6a59ecaf6d07926a7d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 15/55] fix: limit_allocator: moving from an allocator leaves
 its value unchanged

---
 .../dice/template-library/limit_allocator.hpp  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index ce511de..b8e8aca 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -107,10 +107,22 @@ namespace dice::template_library {
               inner_{} {
         }
 
-		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+
+		// moving an allocator must not change its value: containers keep using the allocator they were moved from
+		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>)
+			: control_block_{other.control_block_},
+			  inner_{std::move(other.inner_)} {
+		}
+
 		constexpr limit_allocator &operator=(limit_allocator const &other) noexcept(std::is_nothrow_copy_assignable_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) = default;
+
+		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) {
+			control_block_ = other.control_block_;
+			inner_ = std::move(other.inner_);
+			return *this;
+		}
+
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-- 
2.43.0


From 2765fed66d1c9e3f55e75daae52ae6a0dad9d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 16/55] fix: limit_allocator: allocate rejects sizes whose byte
 count overflows instead of charging the wrapped count

---
 include/dice/template-library/limit_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index b8e8aca..457a80d 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -3,6 +3,7 @@
 
 #include <atomic>
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <new>
 #include <type_traits>
@@ -148,6 +149,10 @@ namespace dice::template_library {
 		}
 
 		constexpr pointer allocate(size_t n) {
+			if (n > std::numeric_limits<size_t>::max() / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
+
 			control_block_->allocate(n * sizeof(T));
 
 			try {
-- 
2.43.0


From 676c38e959ce646bf93d1e623e85748a75edbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:01 +0000
Subject: [PATCH 17/55] fix: pool_allocator: moving from an allocator leaves
 its value unchanged

---
 include/dice/template-library/pool_allocator.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 65afc3f..52b317b 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -161,9 +161,15 @@ namespace dice::template_library {
 		}
 
 		pool_allocator(pool_allocator const &other) noexcept = default;
-		pool_allocator(pool_allocator &&other) noexcept = default;
+		// moving an allocator must not change its value: containers keep using the allocator they were moved from
+		pool_allocator(pool_allocator &&other) noexcept
+			: pool_{other.pool_} {
+		}
 		pool_allocator &operator=(pool_allocator const &other) noexcept = default;
-		pool_allocator &operator=(pool_allocator &&other) noexcept = default;
+		pool_allocator &operator=(pool_allocator &&other) noexcept {
+			pool_ = other.pool_;
+			return *this;
+		}
 		~pool_allocator() noexcept = default;
 
 		template<typename U>
-- 
2.43.0


From 327e17ac882cdb3464570c220337dcf1c6c362e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 18/55] fix: pool_allocator: allocate rejects sizes whose byte
 count overflows instead of returning a too small block

---
 include/dice/template-library/pool_allocator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 52b317b..dd77300 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -6,8 +6,10 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>
-#include <type_traits>
+#include <limits>
 #include <memory>
+#include <new>
+#include <type_traits>
 
 namespace dice::template_library {
 
@@ -182,6 +184,9 @@ namespace dice::template_library {
 		}
 
 		pointer allocate(size_t n) {
+			if (n > std::numeric_limits<size_t>::max() / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
 			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
 		}
 
-- 
2.43.0


From a772fd0947ad7e0c6f11c75381c305f36faf90b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:32 +0000
Subject: [PATCH 19/55] fix: flex_array special members and swap are noexcept
 only if those of the elements are

---
 include/dice/template-library/flex_array.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index e7ebfcd..38f9f2e 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -277,11 +277,11 @@ namespace dice::template_library {
 		inner_type inner_;
 
 	public:
-		constexpr flex_array() noexcept = default;
-		constexpr flex_array(flex_array const &) noexcept = default;
-		constexpr flex_array(flex_array &&) noexcept = default;
-		constexpr flex_array &operator=(flex_array const &) noexcept = default;
-		constexpr flex_array &operator=(flex_array &&) noexcept = default;
+		constexpr flex_array() = default;
+		constexpr flex_array(flex_array const &) = default;
+		constexpr flex_array(flex_array &&) = default;
+		constexpr flex_array &operator=(flex_array const &) = default;
+		constexpr flex_array &operator=(flex_array &&) = default;
 		constexpr ~flex_array() noexcept = default;
 
 		/**
@@ -364,7 +364,7 @@ namespace dice::template_library {
 		 * Converts from a flex_array of static extent to a flex_array of dynamic extent
 		 */
 		template<size_t other_extent>
-		constexpr flex_array(flex_array<value_type, other_extent> const &other) noexcept requires (has_dynamic_extent && other_extent != dynamic_extent) {
+		constexpr flex_array(flex_array<value_type, other_extent> const &other) noexcept(has_max_extent && std::is_nothrow_default_constructible_v<inner_type> && std::is_nothrow_copy_assignable_v<value_type>) requires (has_dynamic_extent && other_extent != dynamic_extent) {
 			static_assert(other_extent <= max_extent, "extent of other is too large for this flex_array");
 
 			inner_.set_size(other.size());
@@ -414,7 +414,7 @@ namespace dice::template_library {
 
 		constexpr auto operator<=>(flex_array const &other) const noexcept = default;
 
-		friend constexpr void swap(flex_array &lhs, flex_array &rhs) noexcept {
+		friend constexpr void swap(flex_array &lhs, flex_array &rhs) noexcept(std::is_nothrow_swappable_v<inner_type>) {
 			std::swap(lhs.inner_, rhs.inner_);
 		}
 	};
-- 
2.43.0


From f94f114322c5dbc533d53c340c4ca9ac48b13eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:32 +0000
Subject: [PATCH 20/55] fix: integral_template_variant copy constructor is
 noexcept only if copying the alternatives is

---
 include/dice/template-library/integral_template_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index fdbe8ee..ae7fe98 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -62,7 +62,7 @@ namespace dice::template_library {
 
 	public:
 		constexpr integral_template_variant() noexcept(std::is_nothrow_default_constructible_v<underlying_type>) = default;
-		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_copy_constructible_v<underlying_type>) = default;
+		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_nothrow_copy_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant(integral_template_variant &&other) noexcept(std::is_nothrow_move_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant const &other) noexcept(std::is_nothrow_copy_assignable_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant &&other) noexcept(std::is_nothrow_move_assignable_v<underlying_type>) = default;
-- 
2.43.0


From d58c5cdd5d962f77b4cd807429856835b82e3443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:32 +0000
Subject: [PATCH 21/55] fix: swapped noexcept conditions of the copy and move
 constructor of offset_ptr_stl_allocator

---
 include/dice/template-library/polymorphic_allocator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/polymorphic_allocator.hpp b/include/dice/template-library/polymorphic_allocator.hpp
index 9046ac3..5ea1299 100644
--- a/include/dice/template-library/polymorphic_allocator.hpp
+++ b/include/dice/template-library/polymorphic_allocator.hpp
@@ -353,8 +353,8 @@ namespace dice::template_library {
 
 	public:
 		constexpr offset_ptr_stl_allocator() noexcept(std::is_nothrow_default_constructible_v<upstream_allocator_type>) = default;
-		constexpr offset_ptr_stl_allocator(offset_ptr_stl_allocator const &other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>) = default;
-		constexpr offset_ptr_stl_allocator(offset_ptr_stl_allocator &&other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+		constexpr offset_ptr_stl_allocator(offset_ptr_stl_allocator const &other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+		constexpr offset_ptr_stl_allocator(offset_ptr_stl_allocator &&other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>) = default;
 		constexpr offset_ptr_stl_allocator &operator=(offset_ptr_stl_allocator const &other) noexcept(std::is_nothrow_copy_assignable_v<upstream_allocator_type>) = default;
 		constexpr offset_ptr_stl_allocator &operator=(offset_ptr_stl_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) = default;
 		constexpr ~offset_ptr_stl_allocator() noexcept(std::is_nothrow_destructible_v<upstream_allocator_type>) = default;
-- 
2.43.0


From 41d1ecbb785cb067a55105c44cfce4cee9cfb0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:32 +0000
Subject: [PATCH 22/55] fix: tuple_fold and tuple_type_fold let exceptions of
 the folding function through

---
 include/dice/template-library/tuple_algorithm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 2c01327..7201598 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -30,13 +30,13 @@ namespace dice::template_library {
 		}
 
 		template<typename Tuple, typename Acc, typename FoldF, size_t... Ixs>
-		constexpr Acc tuple_type_fold_impl(std::index_sequence<Ixs...>, Acc init, FoldF f) noexcept {
+		constexpr Acc tuple_type_fold_impl(std::index_sequence<Ixs...>, Acc init, FoldF f) {
 			((init = f.template operator()<std::tuple_element_t<Ixs, Tuple>>(std::move(init))), ...);
 			return init;
 		}
 
 		template<typename Tuple, typename Acc, typename FoldF, size_t... Ixs>
-		constexpr Acc tuple_fold_impl(std::index_sequence<Ixs...>, Tuple const &tuple, Acc init, FoldF f) noexcept {
+		constexpr Acc tuple_fold_impl(std::index_sequence<Ixs...>, Tuple const &tuple, Acc init, FoldF f) {
 			((init = f(std::move(init), get_impl<Ixs>(tuple))), ...);
 			return init;
 		}
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
+	constexpr Acc tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
+	constexpr Acc tuple_type_fold(Acc &&init, FoldF &&f) {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From 0df8cad2a7f0cf5009300f849d81400fcae1b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:32 +0000
Subject: [PATCH 23/55] fix: channel iterators are noexcept only if every
 element operation they use is

---
 include/dice/template-library/channel.hpp          | 10 +++++-----
 include/dice/template-library/exchange_channel.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index 76ce181..fb772bd 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -225,7 +225,7 @@ namespace dice::template_library {
             channel_type *chan_;
             mutable std::optional<value_type> buf_; ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 buf_ = chan_->pop();
             }
 
@@ -240,7 +240,7 @@ namespace dice::template_library {
                   buf_{other.buf_} {
             }
 
-            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type>) {
+            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_constructible_v<value_type> && std::is_nothrow_copy_assignable_v<value_type>) {
                 if (this == &other) {
                     return *this;
                 }
@@ -255,7 +255,7 @@ namespace dice::template_library {
                   buf_{std::move(other.buf_)} {
             }
 
-            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<value_type>) {
+            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<std::optional<value_type>>) {
                 assert(this != &other);
                 std::swap(chan_, other.chan_);
                 std::swap(buf_, other.buf_);
@@ -278,12 +278,12 @@ namespace dice::template_library {
                 return &*buf_;
             }
 
-            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
                 return *this;
             }
 
-            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
             }
 
diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index a6d75ed..de73d6e 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -162,7 +162,7 @@ namespace dice::template_library {
             exchange_channel *chan_;
             mutable std::optional<value_type> buf_;  ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 buf_ = chan_->pop();
             }
 
@@ -177,7 +177,7 @@ namespace dice::template_library {
                   buf_{other.buf_} {
             }
 
-            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type>) {
+            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_constructible_v<value_type> && std::is_nothrow_copy_assignable_v<value_type>) {
                 if (this == &other) {
                     return *this;
                 }
@@ -192,7 +192,7 @@ namespace dice::template_library {
                   buf_{std::move(other.buf_)} {
             }
 
-            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<value_type>) {
+            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<std::optional<value_type>>) {
                 assert(this != &other);
                 std::swap(chan_, other.chan_);
                 std::swap(buf_, other.buf_);
@@ -217,12 +217,12 @@ namespace dice::template_library {
                 return &*buf_;
             }
 
-            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
                 return *this;
             }
 
-            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
             }
 
-- 
2.43.0


From ea7bc1a85f5382a88c7ce1fae8f03493da711e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:35 +0000
Subject: [PATCH 24/55] fix: type_list predicates may return anything
 convertible to bool, as documented

---
 include/dice/template-library/type_list.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/type_list.hpp b/include/dice/template-library/type_list.hpp
index cf843cc..d00eaad 100644
--- a/include/dice/template-library/type_list.hpp
+++ b/include/dice/template-library/type_list.hpp
@@ -278,13 +278,13 @@ namespace dice::template_library::type_list {
     };
 
     template<typename T, typename ...Ts, auto pred>
-    requires (std::invoke(pred, std::type_identity<T>{}))
+    requires (static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
     struct filter<type_list<T, Ts...>, pred> {
         using type = concat_t<type_list<T>, typename filter<type_list<Ts...>, pred>::type>;
     };
 
     template<typename T, typename ...Ts, auto pred>
-    requires (!std::invoke(pred, std::type_identity<T>{}))
+    requires (!static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
     struct filter<type_list<T, Ts...>, pred> {
         using type = typename filter<type_list<Ts...>, pred>::type;
     };
@@ -351,12 +351,12 @@ namespace dice::template_library::type_list {
     };
 
     template<typename T, typename ...Ts, auto pred>
-    requires (!std::invoke(pred, std::type_identity<T>{}))
+    requires (!static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
     struct find_if<type_list<T, Ts...>, pred> : find_if<type_list<Ts...>, pred> {
     };
 
     template<typename T, typename ...Ts, auto pred>
-    requires (std::invoke(pred, std::type_identity<T>{}))
+    requires (static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
     struct find_if<type_list<T, Ts...>, pred> {
         using type = T;
     };
@@ -374,12 +374,12 @@ namespace dice::template_library::type_list {
         };
 
         template<typename T, typename ...Ts, auto pred, size_t ix>
-        requires (!std::invoke(pred, std::type_identity<T>{}))
+        requires (!static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
         struct position<type_list<T, Ts...>, pred, ix> : position<type_list<Ts...>, pred, ix + 1> {
         };
 
         template<typename T, typename ...Ts, auto pred, size_t ix>
-        requires (std::invoke(pred, std::type_identity<T>{}))
+        requires (static_cast<bool>(std::invoke(pred, std::type_identity<T>{})))
         struct position<type_list<T, Ts...>, pred, ix> : std::integral_constant<size_t, ix> {
         };
     } // namespace detail_position
-- 
2.43.0


From edc2161f0c7029e78b4197b07d4cac7eafcccc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 25/55] fix: integer sequences may be longer than the largest
 value of their type

---
 include/dice/template-library/integral_sequence.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/integral_sequence.hpp b/include/dice/template-library/integral_sequence.hpp
index 6b8fda7..2b56b05 100644
--- a/include/dice/template-library/integral_sequence.hpp
+++ b/include/dice/template-library/integral_sequence.hpp
@@ -28,16 +28,16 @@ namespace dice::template_library {
 			return std::integer_sequence<Int>{};
 		} else if constexpr (first < last) {
 			// Ascending [first, last)
-			auto const impl = []<Int... xs>(std::integer_sequence<Int, xs...>) {
-				return std::integer_sequence<Int, (first + xs)...>{};
+			auto const impl = []<size_t... xs>(std::index_sequence<xs...>) {
+				return std::integer_sequence<Int, static_cast<Int>(first + static_cast<Int>(xs))...>{};
 			};
-			return impl(std::make_integer_sequence<Int, last - first>{});
+			return impl(std::make_index_sequence<static_cast<size_t>(last) - static_cast<size_t>(first)>{});
 		} else {
 			// Descending (last, first]
-			auto const impl = []<Int... xs>(std::integer_sequence<Int, xs...>) {
-				return std::integer_sequence<Int, (first - xs)...>{};
+			auto const impl = []<size_t... xs>(std::index_sequence<xs...>) {
+				return std::integer_sequence<Int, static_cast<Int>(first - static_cast<Int>(xs))...>{};
 			};
-			return impl(std::make_integer_sequence<Int, first - last>{});
+			return impl(std::make_index_sequence<static_cast<size_t>(first) - static_cast<size_t>(last)>{});
 		}
 	}());
 
-- 
2.43.0


From 6dd3753b9624248e1909291312c38470fd944784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 26/55] fix: for_range keeps the type of its bounds and
 supports ranges longer than its largest value

---
 include/dice/template-library/for.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 4abfdd8..89afd27 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -1,6 +1,8 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FOR_HPP
 #define DICE_TEMPLATE_LIBRARY_FOR_HPP
 
+#include <concepts>
+#include <cstddef>
 #include <functional>
 #include <type_traits>
 #include <utility>
@@ -40,17 +42,17 @@ namespace dice::template_library {
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr void for_range(F &&f) {
 		if constexpr (first < last) {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first + xs)...>(std::forward<F>(f));
+			auto const impl = [&f]<size_t... xs>(std::index_sequence<xs...>) {
+				for_values<static_cast<decltype(first)>(first + static_cast<decltype(first)>(xs))...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), last - first>{});
+			impl(std::make_index_sequence<static_cast<size_t>(last) - static_cast<size_t>(first)>{});
 		} else {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first - xs)...>(std::forward<F>(f));
+			auto const impl = [&f]<size_t... xs>(std::index_sequence<xs...>) {
+				for_values<static_cast<decltype(first)>(first - static_cast<decltype(first)>(xs))...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), first - last>{});
+			impl(std::make_index_sequence<static_cast<size_t>(first) - static_cast<size_t>(last)>{});
 		}
 	}
 }// namespace dice::template_library
-- 
2.43.0


From d0014fd498add69e00e641210e877ec6ec4a60ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 27/55] fix: switch_cases instantiates its function only for
 values of the interval, with their own type

---
 include/dice/template-library/switch_cases.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/switch_cases.hpp b/include/dice/template-library/switch_cases.hpp
index dbea69e..d230574 100644
--- a/include/dice/template-library/switch_cases.hpp
+++ b/include/dice/template-library/switch_cases.hpp
@@ -14,7 +14,7 @@ namespace dice::template_library {
 		constexpr decltype(auto) execute_case(decltype(i) value, F &&cases_function) {
 			if constexpr (i < ((max == min) ? max : max - 1)) {
 				if (value != i) {
-					return execute_case<i + 1, max, min>(value, std::forward<F>(cases_function));
+					return execute_case<static_cast<decltype(i)>(i + 1), max, min>(value, std::forward<F>(cases_function));
 				}
 			}
 
@@ -84,7 +84,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(first) condition, F &&cases_function) {
-		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, first>);
+		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(first, last)>);
 	}
 
 	/**
@@ -121,7 +121,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(last) condition, F &&cases_function) {
-		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, last>);
+		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(decltype(last){}, last)>);
 	}
 
 	/**
-- 
2.43.0


From d841581c244dc708ce848b5267d212d4959bc984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 28/55] fix: lazy_switch must not instantiate the providers of
 cases that are not selected

---
 include/dice/template-library/lazy_conditional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/lazy_conditional.hpp b/include/dice/template-library/lazy_conditional.hpp
index 6da706a..ff693ab 100644
--- a/include/dice/template-library/lazy_conditional.hpp
+++ b/include/dice/template-library/lazy_conditional.hpp
@@ -139,7 +139,7 @@ namespace dice::template_library {
 	};
 
 	// Recursive case: check first case, recurse if false
-	template<typename DefaultProvider, bool Cond, type_provider Provider, lazy_case... Rest>
+	template<typename DefaultProvider, bool Cond, typename Provider, lazy_case... Rest>
 	struct lazy_switch_default<DefaultProvider, case_<Cond, Provider>, Rest...> {
 		using type = lazy_conditional_t<
 				Cond,
@@ -164,7 +164,7 @@ namespace dice::template_library {
 	struct lazy_switch;
 
 	// Recursive case: check first case, recurse if false
-	template<bool Cond, type_provider Provider, lazy_case... Rest>
+	template<bool Cond, typename Provider, lazy_case... Rest>
 	struct lazy_switch<case_<Cond, Provider>, Rest...> {
 		using type = lazy_conditional_t<
 				Cond,
-- 
2.43.0


From d87657a189e4a2ab3cb6b3b86978ac1e269382aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 29/55] fix: is_strict_invocable_r invokes with the value
 categories of its arguments

---
 include/dice/template-library/type_traits.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index f8ed65a..c7a849d 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -1,9 +1,11 @@
 #ifndef DICE_TEMPLATELIBRARY_ZST_HPP
 #define DICE_TEMPLATELIBRARY_ZST_HPP
 
+#include <concepts>
 #include <cstdint>
 #include <functional>
 #include <type_traits>
+#include <utility>
 
 namespace dice::template_library {
 	namespace detail_zst {
@@ -154,8 +156,8 @@ namespace dice::template_library {
 
 	template<typename R, typename F, typename ...Args>
 	struct is_strict_invocable_r {
-	    static constexpr bool value = requires (F func, Args ...args) {
-	    	{ std::invoke(func, args...) } -> std::same_as<R>;
+	    static constexpr bool value = requires {
+	    	{ std::invoke(std::declval<F>(), std::declval<Args>()...) } -> std::same_as<R>;
 	    };
 	};
 
-- 
2.43.0


From 24a596e11beab6587c80c8310459d81fd665d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 30/55] fix: DICE_MOVE_IF_VALUE of a const rvalue reference
 must compile

---
 include/dice/template-library/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index c7a849d..ac5ae6e 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -213,7 +213,7 @@ namespace dice::template_library {
     [&]<bool _dice_detail_no_move = std::is_lvalue_reference_v<decltype(expr)> || std::is_const_v<std::remove_reference_t<decltype(expr)>>>() \
             -> std::conditional_t<_dice_detail_no_move, decltype(expr), std::add_rvalue_reference_t<std::remove_cvref_t<decltype(expr)>>> {   \
         if constexpr (_dice_detail_no_move) {                                                                                                 \
-            return expr;                                                                                                                      \
+            return static_cast<decltype(expr)>(expr);                                                                                         \
         } else {                                                                                                                              \
             return std::move(expr);                                                                                                           \
         }                                                                                                                                     \
-- 
2.43.0


From b82a5aa7af4d3636b326ca8d038f53111c0e5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:17 +0000
Subject: [PATCH 31/55] fix: a standard_layout_tuple with one element must be
 copyable from a non-const lvalue

---
 include/dice/template-library/standard_layout_tuple.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index e0a965e..1762abf 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -74,7 +74,8 @@ namespace dice::template_library {
 		constexpr standard_layout_tuple() = default;
 
 		template<typename ...Args>
-		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts))
+		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts)
+																		   && !(sizeof...(Args) == 1 && (std::is_base_of_v<standard_layout_tuple, std::remove_cvref_t<Args>> && ...)))
 			: standard_layout_tuple{individual_construct, std::forward<Args>(args)...}
 		{
 		}
-- 
2.43.0


From 20382e795d388ce15ce9f9a308eb47e5cda54369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:17 +0000
Subject: [PATCH 32/55] fix: standard_layout_tuple: subtuple must not give
 access to padding instead of elements

---
 .../standard_layout_tuple.hpp                 | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index 1762abf..299f5de 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -67,9 +67,26 @@ namespace dice::template_library {
 	template<typename T, typename ...Ts>
 	struct standard_layout_tuple<T, Ts...> {
 	private:
+		template<typename ...Us>
+		friend struct standard_layout_tuple;
+
 		T first;
 		[[no_unique_address]] standard_layout_tuple<Ts...> rest;
 
+		/**
+		 * Check if the elements of Prefix are located at the same offsets as the first elements of this tuple.
+		 * The position of rest depends on the alignment of all elements that follow, so this is not the case for every prefix.
+		 */
+		template<typename Prefix>
+		static consteval bool layout_starts_with() {
+			if constexpr (Prefix::size() <= 1) {
+				return true;
+			} else {
+				return __builtin_offsetof(standard_layout_tuple, rest) == __builtin_offsetof(Prefix, rest)
+					   && decltype(rest)::template layout_starts_with<decltype(Prefix::rest)>();
+			}
+		}
+
 	public:
 		constexpr standard_layout_tuple() = default;
 
@@ -134,7 +151,10 @@ namespace dice::template_library {
 				using subtypes = type_list::take_t<types, count>;
 				using new_tuple = type_list::apply_t<subtypes, standard_layout_tuple>;
 
-				// SAFETY: ensured by being a standard layout type
+				static_assert(layout_starts_with<new_tuple>(),
+							  "The elements of the subtuple are not located at the same offsets as in the tuple");
+
+				// SAFETY: ensured by being a standard layout type with the same offsets
 				return reinterpret_cast<copy_cvref_t<decltype(std::forward<Self>(self)), new_tuple>>(self);
 			} else {
 				return dice::template_library::forward_like<Self>(self.rest).template subtuple<offset - 1, count>();
-- 
2.43.0


From bdd153badf565aa7ef808d86f18a2d7b2d22db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:17 +0000
Subject: [PATCH 33/55] fix: tuple algorithms must be usable in constant
 expressions

---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 7201598..ae43215 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -20,12 +20,12 @@ namespace dice::template_library {
 		};
 
 		template<size_t ix, typename Tuple> requires (adl_get<Tuple, ix> && !member_get<Tuple, ix>)
-		[[nodiscard]] decltype(auto) get_impl(Tuple &&tuple) noexcept {
+		[[nodiscard]] constexpr decltype(auto) get_impl(Tuple &&tuple) noexcept {
 			return get<ix>(std::forward<Tuple>(tuple));
 		}
 
 		template<size_t ix, typename Tuple> requires (member_get<Tuple, ix>)
-		[[nodiscard]] decltype(auto) get_impl(Tuple &&tuple) noexcept {
+		[[nodiscard]] constexpr decltype(auto) get_impl(Tuple &&tuple) noexcept {
 			return std::forward<Tuple>(tuple).template get<ix>();
 		}
 
-- 
2.43.0


From ed386aeed4fc34b84675a1a911b7714fc2c08572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:17 +0000
Subject: [PATCH 34/55] fix: folding a tuple must return the accumulator by
 value, not a dangling reference

---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index ae43215..2240412 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) {
+	constexpr std::remove_cvref_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_type_fold(Acc &&init, FoldF &&f) {
+	constexpr std::remove_cvref_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From 0efe92950d11699387790f202660d05d971d754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:27 +0000
Subject: [PATCH 35/55] fix: pointer_tag_pair must convert to a pointer to the
 base before taking its bits

---
 include/dice/template-library/pointer_tag_pair.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/pointer_tag_pair.hpp b/include/dice/template-library/pointer_tag_pair.hpp
index 5bc1ab5..3b92b42 100644
--- a/include/dice/template-library/pointer_tag_pair.hpp
+++ b/include/dice/template-library/pointer_tag_pair.hpp
@@ -67,18 +67,18 @@ namespace dice::template_library {
         template<detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>>())
         pointer_tag_pair(P const pointer, Tag const tag) noexcept
-            : pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)} {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            : pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)} {
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
         }
 
         template<unsigned PromisedAlignment, detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>, PromisedAlignment>())
         [[nodiscard]] static pointer_tag_pair from_overaligned(P const pointer, Tag const tag) noexcept {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
 
-            return pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)};
+            return pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)};
         }
 
         [[nodiscard]] static pointer_tag_pair from_tagged(tagged_pointer_type const pointer) noexcept {
-- 
2.43.0


From ed2ead3e2bde8e4a1044ae1275f361814c145362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:03 +0000
Subject: [PATCH 36/55] fix: is_sorted_unique must not dereference an earlier
 position of a single pass range

---
 include/dice/template-library/ranges.hpp | 27 +++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 1c94625..0267e98 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -543,15 +543,26 @@ namespace dice::template_library {
                 return true;
             }
 
-            auto it = first;
-            while (++it != last) {
-                // We require that 'prev' is strictly less than 'curr'.
-                // cmp(a, b) ~ a < b
-                // <-> !cmp(a, b) ~ a >= b
-                if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
-                    return false;
+            // We require that 'prev' is strictly less than 'curr'.
+            // cmp(a, b) ~ a < b
+            // <-> !cmp(a, b) ~ a >= b
+            if constexpr (std::forward_iterator<I>) {
+                auto it = first;
+                while (++it != last) {
+                    if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
+                        return false;
+                    }
+                    first = it;
+                }
+            } else {
+                // single pass: the previous element is gone once the iterator is incremented
+                std::iter_value_t<I> prev = *first;
+                while (++first != last) {
+                    if (!std::invoke(cmp, std::invoke(proj, prev), std::invoke(proj, *first))) {
+                        return false;
+                    }
+                    prev = *first;
                 }
-                first = it;
             }
             return true;
         }
-- 
2.43.0


From dcf1c33728ba751e07d188d9a1892aa3d22cc17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:03 +0000
Subject: [PATCH 37/55] fix: all_equal must work in constant expressions, with
 move-only iterators and with proxy references

---
 include/dice/template-library/ranges.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 0267e98..e1c67b7 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -174,16 +174,16 @@ namespace dice::template_library {
 	namespace ranges_algo_detail {
         template<std::input_iterator I, std::sentinel_for<I> S, typename Pred = std::ranges::equal_to>
         requires (std::copyable<std::iter_value_t<I>>)
-        bool all_equal_impl(I first, S last, Pred pred) {
+        constexpr bool all_equal_impl(I first, S last, Pred pred) {
             if (first == last) {
                 return true;
             }
 
-            auto const first_element = *first;
+            std::iter_value_t<I> const first_element = *first;
             ++first;
 
             // Check if all subsequent elements in the range match the first one.
-            return std::ranges::subrange(first, last)
+            return std::ranges::subrange(std::move(first), std::move(last))
                    | dice::template_library::all_of([&](auto const &current_element) {
                          return std::invoke(pred, current_element, first_element);
                      });
-- 
2.43.0


From 15763f3e944e85b3bd9d016038be31cf4569c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:46 +0000
Subject: [PATCH 38/55] fix: the is_sorted_unique pipeline must work in
 constant expressions

---
 include/dice/template-library/ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index e1c67b7..84cf740 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -574,7 +574,7 @@ namespace dice::template_library {
         	[[no_unique_address]] Proj proj_;
 
         public:
-        	is_sorted_unique_pipeline(Cmp cmp, Proj proj)
+        	constexpr is_sorted_unique_pipeline(Cmp cmp, Proj proj)
 			: cmp_{std::move(cmp)}, proj_{std::move(proj)} {
         	}
 
-- 
2.43.0


From c028cc2e3960e71dae86bd46ae50dfeace8591fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:33 +0000
Subject: [PATCH 39/55] fix: range() must not step beyond stop by overflow, and
 its last element is not always one step before stop

---
 include/dice/template-library/ranges.hpp | 81 ++++++++++++------------
 1 file changed, 39 insertions(+), 42 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 84cf740..9963e32 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -353,6 +353,31 @@ namespace dice::template_library {
 			T stop_;
 			S step_;
 
+			[[nodiscard]] constexpr bool exhausted() const noexcept {
+				if (step_ > S{}) {
+					return current_ >= stop_;
+				}
+				return current_ <= stop_;
+			}
+
+			// the following calculate in size_t because it does not overflow (it wraps around)
+
+			// distance from current_ to stop_, if not exhausted
+			[[nodiscard]] constexpr size_t distance() const noexcept {
+				auto const dist = static_cast<size_t>(stop_) - static_cast<size_t>(current_);
+				return step_ > S{} ? dist : -dist;
+			}
+
+			// absolute value of step_
+			[[nodiscard]] constexpr size_t stride() const noexcept {
+				return step_ > S{} ? static_cast<size_t>(step_) : -static_cast<size_t>(step_);
+			}
+
+			// off-th element, if there is one
+			[[nodiscard]] constexpr T at(size_t off) const noexcept {
+				return static_cast<T>(static_cast<size_t>(current_) + off * static_cast<size_t>(step_));
+			}
+
 		public:
             range_iterator() noexcept
                     requires (std::is_default_constructible_v<T> && std::is_constructible_v<S, int>)
@@ -369,39 +394,22 @@ namespace dice::template_library {
 			}
 
 			[[nodiscard]] constexpr std::optional<T> next() noexcept {
-				if (step_ > S{}) {
-					if (current_ >= stop_) {
-						return std::nullopt;
-					}
-				} else {
-					if (current_ <= stop_) {
-						return std::nullopt;
-					}
+				if (exhausted()) {
+					return std::nullopt;
 				}
 
-				return std::exchange(current_, current_ + step_);
+				if constexpr (std::integral<T> && std::integral<S>) {
+					// the last step must not overflow beyond stop_
+					return std::exchange(current_, distance() <= stride() ? stop_ : at(1));
+				} else {
+					return std::exchange(current_, current_ + step_);
+				}
 			}
 
             [[nodiscard]] constexpr size_t remaining() const noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (current_ <= stop_) {
-					// forward
-					if (step_ < S{}) {
-						// wrong direction
-						return 0;
-					}
-
-					return static_cast<size_t>((stop_ - current_ + step_ - 1) / step_);
-				} else {
-					// backward
-					if (step_ > S{}) {
-						// wrong direction
-						return 0;
-					}
-
-					return static_cast<size_t>((current_ - stop_ + -step_ - 1) / -step_);
-				}
+				return exhausted() ? 0 : (distance() - 1) / stride() + 1;
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth(size_t off) noexcept
@@ -413,26 +421,14 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				current_ += static_cast<T>(off) * step_;
+				current_ = at(off);
 				return next();
 			}
 
             [[nodiscard]] constexpr std::optional<T> next_back() noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (step_ > S{}) {
-					if (current_ >= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				} else {
-					if (current_ <= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				}
+				return nth_back(0);
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth_back(size_t off) noexcept
@@ -444,8 +440,9 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				stop_ -= static_cast<T>(off) * step_;
-				return next_back();
+				// the last element is not necessarily one step before stop_
+				stop_ = at(rem - 1 - off);
+				return stop_;
 			}
 		};
 	}// namespace ranges_algo_detail
-- 
2.43.0


From 84d676126a3abf4ae19d60dc4498053ec37a3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:08 +0000
Subject: [PATCH 40/55] fix: copying a non-const next_to_iter must not skip an
 element

---
 include/dice/template-library/next_to_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 38ed862..58f9088 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -131,7 +131,8 @@ namespace dice::template_library {
 		public:
             template<typename... Args>
             explicit constexpr next_to_iter_impl(Args &&...args)
-                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>)
+                    requires (!(sizeof...(Args) == 1 && (std::derived_from<std::remove_cvref_t<Args>, next_to_iter_impl> && ...)) // that is a copy
+                              && std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>)
                 : Iter{std::forward<Args>(args)...},
                   cur_{next()} {
             }
-- 
2.43.0


From 949843988aa1e224ce46d563ebdc3a0ea7aa3307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:08 +0000
Subject: [PATCH 41/55] fix: next_to_view::crbegin needs the same iterators as
 rbegin

---
 include/dice/template-library/next_to_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 58f9088..a400027 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -472,7 +472,7 @@ namespace dice::template_library {
 			return next_back_to_reverse_iter<Iter>{iter_};
 		}
 
-		[[nodiscard]] constexpr auto crbegin() const requires (nth_back_iterator<Iter>) {
+		[[nodiscard]] constexpr auto crbegin() const requires (next_back_iterator<Iter>) {
 			return rbegin();
 		}
 
-- 
2.43.0


From e3d3b050beb61d88764375de6766f0b219fdf65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:24 +0000
Subject: [PATCH 42/55] fix: an exception while flushing in the sandbox child
 must not return to the caller

---
 include/dice/template-library/sandbox.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/sandbox.hpp b/include/dice/template-library/sandbox.hpp
index 4cd4866..b8be423 100644
--- a/include/dice/template-library/sandbox.hpp
+++ b/include/dice/template-library/sandbox.hpp
@@ -104,12 +104,16 @@ namespace dice::template_library {
                 // remove signal handles that may have been installed (e.g. by doctest)
                 clear_all_signal_handlers();
 
-                // invoke user provided function
+                // noexcept: flushing can throw as well, that must not return to the caller of the sandbox in the child process either
+                int const exit_code = [&func]() noexcept {
+                    // invoke user provided function
+                    int const ret = invoke_like_main(std::move(func));
 
-                int const exit_code = invoke_like_main(std::move(func));
+                    // flush again, to avoid loosing output if the function does not abort
+                    flush_all_streams();
 
-                // flush again, to avoid loosing output if the function does not abort
-                flush_all_streams();
+                    return ret;
+                }();
 
                 // ensure no destructors can run even if func does not abort
                 _exit(exit_code);
-- 
2.43.0


From be4c598b506a71854ccab9c73c2b87b4658035cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:07 +0000
Subject: [PATCH 43/55] fix: fmt_join separators may be std::string or
 std::string_view

---
 include/dice/template-library/fmt_join.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 6d79999..d00322e 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -1,7 +1,9 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 #define DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 
+#include <algorithm>
 #include <format>
+#include <initializer_list>
 #include <iterator>
 #include <ranges>
 #include <vector>
@@ -68,7 +70,7 @@ namespace std {
 			while (it != end) {
 				// format separator
 				if constexpr (std::ranges::range<Sep const &>) {
-					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()));
+					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()).out);
 				} else {
 					// otherwise single character
 					*format_ctx.out()++ = join_obj.separator;
-- 
2.43.0


From 7a6947d72ba655b450d13b9cf8967c60b07970d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:53 +0000
Subject: [PATCH 44/55] fix: fmt_join must be able to format ranges that cannot
 be iterated while const

---
 include/dice/template-library/fmt_join.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index d00322e..463477b 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -6,6 +6,7 @@
 #include <initializer_list>
 #include <iterator>
 #include <ranges>
+#include <type_traits>
 #include <vector>
 
 namespace dice::template_library {
@@ -46,6 +47,8 @@ namespace std {
 	template<typename R, typename Sep, typename CharT>
 	struct formatter<dice::template_library::fmt_join_algo_detail::joiner<R, Sep>, CharT> {
 	private:
+		using joiner_t = dice::template_library::fmt_join_algo_detail::joiner<R, Sep>;
+
 		formatter<std::ranges::range_value_t<R>, CharT> element_formatter_;
 
 	public:
@@ -54,7 +57,8 @@ namespace std {
 			return element_formatter_.parse(parse_ctx);
 		}
 
-		auto format(dice::template_library::fmt_join_algo_detail::joiner<R, Sep> const &join_obj, auto &format_ctx) const {
+		// not all views can be iterated if they are const (e.g. std::views::filter)
+		auto format(std::conditional_t<std::ranges::input_range<R const>, joiner_t const, joiner_t> &join_obj, auto &format_ctx) const {
 			auto it = std::ranges::begin(join_obj.range);
 			auto const end = std::ranges::end(join_obj.range);
 
-- 
2.43.0


From 6b8860b2513413f89077fa410c1cde78a5d70198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:13 +0000
Subject: [PATCH 45/55] fix: operator<< of format_to_ostream must use the
 formatter of the stream's character type

---
 include/dice/template-library/format_to_ostream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index 01e6e98..c4771b6 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -47,7 +47,8 @@ namespace dice::template_library {
  */
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
-    std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    static constexpr Char format_str[]{Char{'{'}, Char{'}'}, Char{}}; // must match the formatter, i.e. not necessarily be a narrow string
+    std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, format_str, value);
     return stream;
 }
 
-- 
2.43.0


From 5e10cd438abb20681ab534c41871418efc891523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:32 +0000
Subject: [PATCH 46/55] fix: operator<< of format_to_ostream must not accept
 types that are not formattable while const

---
 include/dice/template-library/format_to_ostream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index c4771b6..5c861da 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -45,7 +45,7 @@ namespace dice::template_library {
  * @param value value to stream via std::formatter implementation
  * @return stream
  */
-template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
+template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T const, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
     static constexpr Char format_str[]{Char{'{'}, Char{'}'}, Char{}}; // must match the formatter, i.e. not necessarily be a narrow string
     std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, format_str, value);
-- 
2.43.0


From b3e063240bc01ef66571e346317441c891b09c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:51 +0000
Subject: [PATCH 47/55] fix: bind_front: the exception specification is that of
 calling the constant target

---
 include/dice/template-library/functional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/functional.hpp b/include/dice/template-library/functional.hpp
index 1d99339..5e3a143 100644
--- a/include/dice/template-library/functional.hpp
+++ b/include/dice/template-library/functional.hpp
@@ -33,7 +33,7 @@ namespace dice::template_library {
 	 */
 	template<auto func, typename... BindArgs>
 	[[nodiscard]] constexpr auto bind_front(BindArgs &&...bind_args) {
-		using func_t = decltype(func);
+		using func_t = decltype((func)); // func is called as a constant if it is an object
 
 		return [...bound_args(std::forward<BindArgs>(bind_args))]<typename Self, typename ...RestArgs>([[maybe_unused]] this Self &&self, RestArgs &&...rest_args)
 				noexcept(std::is_nothrow_invocable_v<func_t, detail_bind_front::type_forward_like_t<Self, std::decay_t<BindArgs>>..., decltype(std::forward<RestArgs>(rest_args))...>) -> decltype(auto) {
-- 
2.43.0


From 4fe02d3efc4ac00dc7887a0fcdfa4235326d43c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:56 +0000
Subject: [PATCH 48/55] fix: variant2 must copy and move alternatives that
 prefer initializer lists, not wrap them

---
 include/dice/template-library/variant2.hpp | 48 +++++++++++-----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 9c43f3e..a0e8841 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -216,11 +216,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{other.a_};
+                    new (&a_) T(other.a_);
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{other.b_};
+                    new (&b_) U(other.b_);
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -243,11 +243,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{std::move(other.a_)};
+                    new (&a_) T(std::move(other.a_));
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{std::move(other.b_)};
+                    new (&b_) U(std::move(other.b_));
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -263,22 +263,22 @@ namespace dice::template_library {
 
         constexpr variant2(T const &value) noexcept(std::is_nothrow_copy_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{value};
+            new (&a_) T(value);
         }
 
         constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::move(value)};
+            new (&a_) T(std::move(value));
         }
 
         constexpr variant2(U const &value) noexcept(std::is_nothrow_copy_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{value};
+            new (&b_) U(value);
         }
 
         constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::move(value)};
+            new (&b_) U(std::move(value));
         }
 
         template<typename ...Args>
@@ -358,7 +358,7 @@ namespace dice::template_library {
                         }
                         case discriminant_type::Second: {
                             a_.~T();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U{other.b_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U(other.b_); });
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -376,7 +376,7 @@ namespace dice::template_library {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
                             b_.~U();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T{other.a_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T(other.a_); });
                             break;
                         }
                         case discriminant_type::Second: {
@@ -397,11 +397,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{other.a_};
+                            new (&a_) T(other.a_);
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{other.b_};
+                            new (&b_) U(other.b_);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -452,7 +452,7 @@ namespace dice::template_library {
                         case discriminant_type::Second: {
                             a_.~T();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                                new (&b_) U{std::move(other.b_)};
+                                new (&b_) U(std::move(other.b_));
                             });
                             break;
                         }
@@ -472,7 +472,7 @@ namespace dice::template_library {
                         case discriminant_type::First: {
                             b_.~U();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                                new (&a_) T{std::move(other.a_)};
+                                new (&a_) T(std::move(other.a_));
                             });
                             break;
                         }
@@ -494,11 +494,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{std::move(other.a_)};
+                            new (&a_) T(std::move(other.a_));
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{std::move(other.b_)};
+                            new (&b_) U(std::move(other.b_));
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -535,13 +535,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, {
-                        new (&a_) T{value};
+                        new (&a_) T(value);
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{value};
+                    new (&a_) T(value);
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -566,13 +566,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                        new (&a_) T{std::move(value)};
+                        new (&a_) T(std::move(value));
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{std::move(value)};
+                    new (&a_) T(std::move(value));
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -592,7 +592,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, {
-                        new (&b_) U{value};
+                        new (&b_) U(value);
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -602,7 +602,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{value};
+                    new (&b_) U(value);
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -621,7 +621,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                        new (&b_) U{std::move(value)};
+                        new (&b_) U(std::move(value));
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -631,7 +631,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{std::move(value)};
+                    new (&b_) U(std::move(value));
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
-- 
2.43.0


From f775eba9051560d566e90d96056b82f3628f8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:56 +0000
Subject: [PATCH 49/55] fix: mutex and shared_mutex must copy a given value
 that prefers initializer lists, not wrap it

---
 include/dice/template-library/mutex.hpp        | 4 ++--
 include/dice/template-library/shared_mutex.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 22c7498..18aeb24 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -89,11 +89,11 @@ namespace dice::template_library {
         mutex &operator=(mutex &&other) = delete;
 
         explicit constexpr mutex(value_type const &value) noexcept(std::is_nothrow_copy_constructible_v<value_type>)
-            : value_{value} {
+            : value_(value) {
         }
 
         explicit constexpr mutex(value_type &&value) noexcept(std::is_nothrow_move_constructible_v<value_type>)
-            : value_{std::move(value)} {
+            : value_(std::move(value)) {
         }
 
         template<typename ...Args>
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 1be577f..e2fee3b 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -91,11 +91,11 @@ namespace dice::template_library {
         shared_mutex &operator=(shared_mutex &&other) = delete;
 
         explicit constexpr shared_mutex(value_type const &value) noexcept(std::is_nothrow_copy_constructible_v<value_type>)
-            : value_{value} {
+            : value_(value) {
         }
 
         explicit constexpr shared_mutex(value_type &&value) noexcept(std::is_nothrow_move_constructible_v<value_type>)
-            : value_{std::move(value)} {
+            : value_(std::move(value)) {
         }
 
         template<typename ...Args>
-- 
2.43.0


From 66fba2222af9915242f370878e0156625b294147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:56 +0000
Subject: [PATCH 50/55] fix: standard_layout_tuple must copy given elements
 that prefer initializer lists, not wrap them

---
 include/dice/template-library/standard_layout_tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index 299f5de..82972f6 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -99,7 +99,7 @@ namespace dice::template_library {
 
 		template<typename Arg, typename ...Args>
 		explicit constexpr standard_layout_tuple(individual_construct_t, Arg &&first, Args &&...rest) requires (sizeof...(Ts) == sizeof...(Args))
-			: first{std::forward<Arg>(first)},
+			: first(std::forward<Arg>(first)),
 			  rest{std::forward<Args>(rest)...}
 		{
 		}
-- 
2.43.0


From 58f5d1c4d825edd532cb9fa742b164055ca961e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:56 +0000
Subject: [PATCH 51/55] fix: remove_element must copy a given value that
 prefers initializer lists, not wrap it

---
 include/dice/template-library/ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 9963e32..09b6c48 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -137,7 +137,7 @@ namespace dice::template_library {
 		public:
 			template<typename V, typename P>
 			constexpr remove_element_pipeline(V &&value, P &&pred)
-				: value_{std::forward<V>(value)}, pred_{std::forward<P>(pred)} {
+				: value_(std::forward<V>(value)), pred_{std::forward<P>(pred)} {
 			}
 
 			template<std::ranges::viewable_range R>
-- 
2.43.0


From 02b76e99d09267533afb03b9462891ec1e4c802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:39 +0000
Subject: [PATCH 52/55] fix: variant2 must work with types that have their own
 operator& or operator new

---
 include/dice/template-library/variant2.hpp | 76 +++++++++++-----------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index a0e8841..f46ec8c 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -7,6 +7,8 @@
 #include <exception>
 #include <format>
 #include <functional>
+#include <memory>
+#include <new>
 #include <type_traits>
 #include <utility>
 #include <variant>
@@ -152,13 +154,13 @@ namespace dice::template_library {
                     return nullptr;
                 }
 
-                return &std::forward<Self>(self).a_;
+                return std::addressof(self.a_);
             } else { // ix == 1
                 if (self.discriminant_ != discriminant_type::Second) [[unlikely]] {
                     return nullptr;
                 }
 
-                return &std::forward<Self>(self).b_;
+                return std::addressof(self.b_);
             }
         }
 
@@ -203,7 +205,7 @@ namespace dice::template_library {
     public:
         constexpr variant2() noexcept(std::is_nothrow_default_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{};
+            ::new (static_cast<void *>(std::addressof(a_))) T{};
         }
 
         constexpr variant2(variant2 const &other) noexcept
@@ -216,11 +218,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T(other.a_);
+                    ::new (static_cast<void *>(std::addressof(a_))) T(other.a_);
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U(other.b_);
+                    ::new (static_cast<void *>(std::addressof(b_))) U(other.b_);
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -243,11 +245,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T(std::move(other.a_));
+                    ::new (static_cast<void *>(std::addressof(a_))) T(std::move(other.a_));
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U(std::move(other.b_));
+                    ::new (static_cast<void *>(std::addressof(b_))) U(std::move(other.b_));
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -263,46 +265,46 @@ namespace dice::template_library {
 
         constexpr variant2(T const &value) noexcept(std::is_nothrow_copy_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T(value);
+            ::new (static_cast<void *>(std::addressof(a_))) T(value);
         }
 
         constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T(std::move(value));
+            ::new (static_cast<void *>(std::addressof(a_))) T(std::move(value));
         }
 
         constexpr variant2(U const &value) noexcept(std::is_nothrow_copy_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U(value);
+            ::new (static_cast<void *>(std::addressof(b_))) U(value);
         }
 
         constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U(std::move(value));
+            ::new (static_cast<void *>(std::addressof(b_))) U(std::move(value));
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_type_t<T>, Args &&...args) noexcept(std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::forward<Args>(args)...};
+            ::new (static_cast<void *>(std::addressof(a_))) T{std::forward<Args>(args)...};
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_type_t<U>, Args &&...args) noexcept(std::is_nothrow_constructible_v<U, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::forward<Args>(args)...};
+            ::new (static_cast<void *>(std::addressof(b_))) U{std::forward<Args>(args)...};
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_index_t<0>, Args &&...args) noexcept(std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::forward<Args>(args)...};
+            ::new (static_cast<void *>(std::addressof(a_))) T{std::forward<Args>(args)...};
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_index_t<1>, Args &&...args) noexcept(std::is_nothrow_constructible_v<U, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::forward<Args>(args)...};
+            ::new (static_cast<void *>(std::addressof(b_))) U{std::forward<Args>(args)...};
         }
 
         constexpr ~variant2() noexcept requires (std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
@@ -358,7 +360,7 @@ namespace dice::template_library {
                         }
                         case discriminant_type::Second: {
                             a_.~T();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U(other.b_); });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { ::new (static_cast<void *>(std::addressof(b_))) U(other.b_); });
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -376,7 +378,7 @@ namespace dice::template_library {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
                             b_.~U();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T(other.a_); });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { ::new (static_cast<void *>(std::addressof(a_))) T(other.a_); });
                             break;
                         }
                         case discriminant_type::Second: {
@@ -397,11 +399,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T(other.a_);
+                            ::new (static_cast<void *>(std::addressof(a_))) T(other.a_);
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U(other.b_);
+                            ::new (static_cast<void *>(std::addressof(b_))) U(other.b_);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -452,7 +454,7 @@ namespace dice::template_library {
                         case discriminant_type::Second: {
                             a_.~T();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                                new (&b_) U(std::move(other.b_));
+                                ::new (static_cast<void *>(std::addressof(b_))) U(std::move(other.b_));
                             });
                             break;
                         }
@@ -472,7 +474,7 @@ namespace dice::template_library {
                         case discriminant_type::First: {
                             b_.~U();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                                new (&a_) T(std::move(other.a_));
+                                ::new (static_cast<void *>(std::addressof(a_))) T(std::move(other.a_));
                             });
                             break;
                         }
@@ -494,11 +496,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T(std::move(other.a_));
+                            ::new (static_cast<void *>(std::addressof(a_))) T(std::move(other.a_));
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U(std::move(other.b_));
+                            ::new (static_cast<void *>(std::addressof(b_))) U(std::move(other.b_));
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -535,13 +537,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, {
-                        new (&a_) T(value);
+                        ::new (static_cast<void *>(std::addressof(a_))) T(value);
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T(value);
+                    ::new (static_cast<void *>(std::addressof(a_))) T(value);
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -566,13 +568,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                        new (&a_) T(std::move(value));
+                        ::new (static_cast<void *>(std::addressof(a_))) T(std::move(value));
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T(std::move(value));
+                    ::new (static_cast<void *>(std::addressof(a_))) T(std::move(value));
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -592,7 +594,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, {
-                        new (&b_) U(value);
+                        ::new (static_cast<void *>(std::addressof(b_))) U(value);
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -602,7 +604,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U(value);
+                    ::new (static_cast<void *>(std::addressof(b_))) U(value);
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -621,7 +623,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                        new (&b_) U(std::move(value));
+                        ::new (static_cast<void *>(std::addressof(b_))) U(std::move(value));
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -631,7 +633,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U(std::move(value));
+                    ::new (static_cast<void *>(std::addressof(b_))) U(std::move(value));
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -666,17 +668,17 @@ namespace dice::template_library {
                     switch (discriminant_) {
                         case discriminant_type::First: {
                             a_.~T();
-                            new (&a_) T{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(a_))) T{std::forward<Args>(args)...};
                             break;
                         }
                         case discriminant_type::Second: {
                             b_.~U();
-                            new (&a_) T{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(a_))) T{std::forward<Args>(args)...};
                             discriminant_ = discriminant_type::First;
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
-                            new (&a_) T{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(a_))) T{std::forward<Args>(args)...};
                             discriminant_ = discriminant_type::First;
                             break;
                         }
@@ -691,17 +693,17 @@ namespace dice::template_library {
                     switch (discriminant_) {
                         case discriminant_type::First: {
                             a_.~T();
-                            new (&b_) U{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(b_))) U{std::forward<Args>(args)...};
                             discriminant_ = discriminant_type::Second;
                             break;
                         }
                         case discriminant_type::Second: {
                             b_.~U();
-                            new (&b_) U{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(b_))) U{std::forward<Args>(args)...};
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
-                            new (&b_) U{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(b_))) U{std::forward<Args>(args)...};
                             discriminant_ = discriminant_type::Second;
                             break;
                         }
-- 
2.43.0


From df1bb785f7fe78363855e3f23ad2a5806bdf922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:39 +0000
Subject: [PATCH 53/55] fix: mutex guards must work with types that have their
 own operator&

---
 include/dice/template-library/mutex.hpp        | 3 ++-
 include/dice/template-library/shared_mutex.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 18aeb24..cca0f4e 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -1,6 +1,7 @@
 #ifndef DICE_TEMPLATELIBRARY_MUTEX_HPP
 #define DICE_TEMPLATELIBRARY_MUTEX_HPP
 
+#include <memory>
 #include <mutex>
 #include <optional>
 #include <type_traits>
@@ -34,7 +35,7 @@ namespace dice::template_library {
         std::unique_lock<mutex_type> lock_;
 
         mutex_guard(std::unique_lock<mutex_type> &&lock, T &value) noexcept
-            : value_ptr_{&value},
+            : value_ptr_{std::addressof(value)},
               lock_{std::move(lock)} {
         }
 
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index e2fee3b..6fb60d8 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -1,6 +1,7 @@
 #ifndef DICE_TEMPLATELIBRARY_SHAREDMUTEX_HPP
 #define DICE_TEMPLATELIBRARY_SHAREDMUTEX_HPP
 
+#include <memory>
 #include <mutex>
 #include <shared_mutex>
 #include <optional>
@@ -36,7 +37,7 @@ namespace dice::template_library {
         lock_type lock_;
 
         shared_mutex_guard(lock_type &&lock, T &value) noexcept
-            : value_ptr_{&value},
+            : value_ptr_{std::addressof(value)},
               lock_{std::move(lock)} {
         }
 
-- 
2.43.0


From a6145264f335742ec6f1c353618826f3a8c9427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:39 +0000
Subject: [PATCH 54/55] fix: inplace_polymorphic must work with types that have
 their own operator new

---
 include/dice/template-library/inplace_polymorphic.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index 3303d46..df02af4 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -125,7 +125,7 @@ namespace dice::template_library {
 		 */
 		inplace_polymorphic() noexcept(std::is_nothrow_default_constructible_v<first_derived_type>) requires (std::is_default_constructible_v<first_derived_type>) {
 			DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY(std::is_nothrow_default_constructible_v<first_derived_type>, {
-				new (&storage_) first_derived_type{};
+				::new (static_cast<void *>(&storage_)) first_derived_type{};
 			});
 		}
 
@@ -140,7 +140,7 @@ namespace dice::template_library {
 			static_assert((std::is_same_v<T, Ts> || ...), "Given type is not in list of possible types");
 
 			DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY((std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>), {
-				new (&storage_) T{std::forward<Args>(args)...};
+				::new (static_cast<void *>(&storage_)) T{std::forward<Args>(args)...};
 			});
 		}
 
@@ -226,7 +226,7 @@ namespace dice::template_library {
 			drop();
 
 			DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY((std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>), {
-				new (&storage_) T{std::forward<Args>(args)...};
+				::new (static_cast<void *>(&storage_)) T{std::forward<Args>(args)...};
 			});
 		}
 
-- 
2.43.0


From 8b50cb0a3ab17440d986b052034e1b33a83c974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:39 +0000
Subject: [PATCH 55/55] fix: channel iterators must work with types that have
 their own operator&

---
 include/dice/template-library/channel.hpp          | 5 +++--
 include/dice/template-library/exchange_channel.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index fb772bd..fcea110 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -6,6 +6,7 @@
 #include <condition_variable>
 #include <cstddef>
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <optional>
 
@@ -271,11 +272,11 @@ namespace dice::template_library {
             }
 
             pointer operator->() noexcept {
-                return &*buf_;
+                return std::addressof(*buf_);
             }
 
             pointer operator->() const noexcept {
-                return &*buf_;
+                return std::addressof(*buf_);
             }
 
             iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index de73d6e..e30517c 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -6,6 +6,7 @@
 #include <condition_variable>
 #include <cstddef>
 #include <iterator>
+#include <memory>
 #include <mutex>
 #include <optional>
 #include <type_traits>
@@ -210,11 +211,11 @@ namespace dice::template_library {
 
             /// intentionally returns a pointer instead of a const_pointer to be able to extract it
             pointer operator->() noexcept {
-                return &*buf_;
+                return std::addressof(*buf_);
             }
 
             pointer operator->() const noexcept {
-                return &*buf_;
+                return std::addressof(*buf_);
             }
 
             iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
-- 
2.43.0

