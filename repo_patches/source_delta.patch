From 381b792f2c16bce740829262bc7070bd258ed7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 01/25] fix: reading a bit through bitset::reference no longer
 recurses endlessly

---
 inc/ptl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 62c9a0e..aa20657 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -95,7 +95,7 @@ namespace ptl {
 			}
 
 			constexpr
-			operator bool() const noexcept { return self[index]; }
+			operator bool() const noexcept { return static_cast<const bitset &>(self)[index]; }
 			constexpr
 			auto operator~() const noexcept -> bool { return !static_cast<bool>(*this); }
 
-- 
2.43.0


From 34d58716b0c8d6c4207b33cc8bfce9e7cc455766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 02/25] fix: swapping equally positioned bits of distinct
 bitsets swaps them

---
 inc/ptl/bitset.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index aa20657..d942e69 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -107,7 +107,6 @@ namespace ptl {
 
 			constexpr
 			void swap(reference & other) noexcept {
-				if(index == other.index) return;
 				const auto lhs{static_cast<bool>(*this)};
 				const auto rhs{static_cast<bool>(other)};
 				if(lhs == rhs) return;
-- 
2.43.0


From 503a3269a5b54983bdc081c4a2d6fda221cd1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 03/25] fix: extracting a bitset from a short input at end of
 stream does not fail

---
 inc/ptl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index d942e69..8e633ac 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -339,7 +339,8 @@ namespace ptl {
 			if(const std::istream::sentry s{is}; s) {
 				auto extracted{false};
 				for(size_type i{0}; i < Size; ++i) {
-					if(const auto c{is.get()}; c == '0' || c == '1') {
+					if(const auto c{is.peek()}; c == '0' || c == '1') {
+						is.get();
 						if(!extracted) {
 							extracted = true;
 							self.reset();
@@ -347,7 +348,6 @@ namespace ptl {
 						self <<= 1;
 						if(c == '1') self.set(0);
 					} else {
-						is.unget();
 						if(!extracted) is.setstate(std::ios::failbit);
 						break;
 					}
-- 
2.43.0


From d7c289af5687426f0d62a9079cc6ace153235cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 04/25] fix: bitset shifts terminate in bounded time for every
 count

---
 inc/ptl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 8e633ac..2d788f2 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -234,6 +234,7 @@ namespace ptl {
 		constexpr
 		auto operator<<=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				if(count > Size) count = Size; //everything is shifted out
 				for(size_type i{0}; i < count; ++i) {
 					for(size_type j{sizeof(values) - 1}; j > 0; --j) {
 						values[j] = static_cast<unsigned char>(values[j] << 1);
@@ -255,6 +256,7 @@ namespace ptl {
 		constexpr
 		auto operator>>=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				if(count > Size) count = Size; //everything is shifted out
 				for(size_type i{0}; i < count; ++i) {
 					values[0] = static_cast<unsigned char>(values[0] >> 1);
 					for(size_type j{1}; j < sizeof(values); ++j) {
-- 
2.43.0


From e76c9cf6a29295fd7ed3cda0d5f333534039a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 05/25] fix: vector::erase of an empty range no longer
 self-moves the following elements

---
 inc/ptl/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 022cba1..1262919 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -339,6 +339,7 @@ namespace ptl {
 
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
+			if(first == last) return first; //nothing to erase, don't self-move elements
 			const auto count{static_cast<size_type>(std::distance(first, last))};
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
-- 
2.43.0


From 7ae843f178a5133b944d148a50dc589f3945ada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 06/25] fix: vector assign/insert of oversized counts throw
 instead of overflowing

---
 inc/ptl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 1262919..0e8f727 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -188,6 +188,7 @@ namespace ptl {
 
 		template<typename Func>
 		void assign_impl(std::size_t required_size, Func func) {
+			if(required_size > max_size()) throw std::length_error{"ptl::vector::assign - exceeding max_size"};
 			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(data(), data() + size(), data() + size() + required_size);
@@ -203,6 +204,7 @@ namespace ptl {
 
 		template<typename Func>
 		auto insert_impl(contiguous_iterator<true> pos, std::size_t required_size, Func func) {
+			if(required_size > max_size() - size()) throw std::length_error{"ptl::vector::insert - exceeding max_size"};
 			const auto offset{pos.ptr - data()};
 			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
 				func(data() + size());
-- 
2.43.0


From b25d61a604c0022eea97e48ef400efa12c14aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 07/25] fix: string operations with oversized counts throw
 instead of overflowing

---
 inc/ptl/string.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 317ff17..1bf36ba 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -53,6 +53,7 @@ namespace ptl {
 			storage_t() noexcept { clear_to_sso(); }
 
 			storage_t(std::size_t required) {
+				if(required > max_size()) throw std::length_error{"ptl::string - exceeding max_size"};
 				if(required > sso_size) {
 					dealloc = +[](char * ptr) noexcept { delete[] ptr; }; 
 					heap.siz = 0;
@@ -247,6 +248,7 @@ namespace ptl {
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
+			if(additional_size > max_size() - old) throw std::length_error{"ptl::string::append - exceeding max_size"};
 			resize(old + additional_size);
 			fill(old);
 		}
@@ -260,6 +262,7 @@ namespace ptl {
 		template<typename Func>
 		auto insert_no_aliasing(contiguous_iterator<true> pos, std::size_t additional_size, Func fill) {
 			const auto old{size()};
+			if(additional_size > max_size() - old) throw std::length_error{"ptl::string::insert - exceeding max_size"};
 			const auto offset{pos.ptr - data()};
 			resize(old + additional_size);
 			std::copy_backward(data() + offset, data() + old, data() + size());
@@ -272,6 +275,7 @@ namespace ptl {
 			const auto offset{first.ptr - data()};
 			if(const auto count{static_cast<std::size_t>(last - first)}; count < required_size) { //not enough space in target location
 				const auto old{size()};
+				if(required_size - count > max_size() - old) throw std::length_error{"ptl::string::replace - exceeding max_size"};
 				resize(size() + (required_size - count));
 				std::copy_backward(data() + offset + count, data() + old, data() + size());
 				fill(offset);
-- 
2.43.0


From d68915e68faa4cd3874e2e584c481363324759ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 08/25] fix: string keeps its terminator if an iterator throws
 during in-place modification

---
 inc/ptl/string.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 1bf36ba..e28fbd6 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -245,6 +245,16 @@ namespace ptl {
 			return tmp;
 		}
 
+		template<typename ForwardIterator>
+		void copy_behind_end(ForwardIterator first, ForwardIterator last) { //TODO: [C++??] precondition(size() + distance(first, last) <= capacity());
+			try {
+				std::copy(first, last, data() + size());
+			} catch(...) {
+				storage.set_size(size()); //restore \0
+				throw;
+			}
+		}
+
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
@@ -431,7 +441,7 @@ namespace ptl {
 		void append(ForwardIterator first, ForwardIterator last) {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
 				storage_t tmp{size() + distance};
@@ -450,7 +460,7 @@ namespace ptl {
 		template<typename ForwardIterator, std::enable_if_t<std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<ForwardIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
 		void assign(ForwardIterator first, ForwardIterator last) {
 			if(const auto distance{static_cast<std::size_t>(std::distance(first, last))}; distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(data(), data() + size(), data() + size() + distance);
 				storage.set_size(distance);
 			} else {
@@ -478,7 +488,7 @@ namespace ptl {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			const auto offset{pos.ptr - data()};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(const_cast<char *>(pos.ptr), data() + size(), data() + size() + distance);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
@@ -506,7 +516,7 @@ namespace ptl {
 		auto replace(const_iterator first, const_iterator last, ForwardIterator first2, ForwardIterator last2) -> string & { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto distance{static_cast<std::size_t>(std::distance(first2, last2))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first2, last2, data() + size());
+				copy_behind_end(first2, last2);
 				const auto offset_first{first.ptr - data()};
 				const auto offset_mid{size() - (last - first)};
 				storage.set_size(size() + distance);
-- 
2.43.0


From 6476fb550ab3aef1a33eafe142e9f743dbfa3cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 09/25] fix: _s literals keep embedded NULs and report
 allocation failures

---
 inc/ptl/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index e28fbd6..96a191a 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -634,7 +634,7 @@ namespace ptl {
 
 	namespace literals {
 		inline
-		auto operator""_s(const char * ptr, std::size_t) noexcept -> string { return string{ptr}; }
+		auto operator""_s(const char * ptr, std::size_t size) -> string { return string{std::string_view{ptr, size}}; }
 	}
 }
 
-- 
2.43.0


From 018705b2100d2e4a0a136890a37171e689065fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 10/25] fix: _sr literals keep embedded NULs

---
 inc/ptl/string_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/string_ref.hpp b/inc/ptl/string_ref.hpp
index 1fad606..ab92bb5 100644
--- a/inc/ptl/string_ref.hpp
+++ b/inc/ptl/string_ref.hpp
@@ -225,7 +225,7 @@ namespace ptl {
 	namespace literals {
 		inline
 		constexpr
-		auto operator""_sr(const char * ptr, std::size_t) noexcept -> string_ref { return ptr; }
+		auto operator""_sr(const char * ptr, std::size_t size) noexcept -> string_ref { return {ptr, size}; }
 	}
 }
 
-- 
2.43.0


From f6f78193c6a20a097cfb089c4af69062a953f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 11/25] fix: vector::shrink_to_fit keeps its storage if memory
 is exhausted

---
 inc/ptl/vector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 0e8f727..12e5fc2 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -321,10 +321,12 @@ namespace ptl {
 		void shrink_to_fit() noexcept {
 			if(size() * 2 >= capacity()) return; //TODO: better criteria for "excess memory usage"
 
-			storage_t tmp{size()};
-			std::uninitialized_move_n(data(), size(), tmp.data());
-			tmp.set_size(size());
-			storage = std::move(tmp);
+			try {
+				storage_t tmp{size()};
+				std::uninitialized_move_n(data(), size(), tmp.data());
+				tmp.set_size(size());
+				storage = std::move(tmp);
+			} catch(const std::bad_alloc &) {} //non-binding request, keep using the current storage
 		}
 
 		void clear() noexcept {
-- 
2.43.0


From df0b0c33a01f286c9e34b6aac7e0ef5cf2ae0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 12/25] fix: vector::resize within the capacity does not
 reallocate

---
 inc/ptl/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 12e5fc2..b0193ec 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -225,7 +225,10 @@ namespace ptl {
 		void resize_impl(std::size_t new_size, Func func) {
 			if(new_size == size()) return;
 			if(new_size < size()) erase(begin() + new_size, end());
-			else {
+			else if(new_size <= capacity()) { //no need for allocation
+				func(data() + size(), new_size - size());
+				storage.set_size(new_size);
+			} else {
 				storage_t tmp{new_size};
 				func(tmp.data() + size(), new_size - size());
 				std::uninitialized_move_n(data(), size(), tmp.data());
-- 
2.43.0


From 479ba76061ec1437c3727c02b5b6a922437aca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 13/25] fix: vector allocates suitably aligned storage for
 over-aligned types

---
 inc/ptl/vector.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index b0193ec..8b72e4e 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -5,7 +5,9 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
+#include <cstddef>
 #include <memory>
 #include <iterator>
 #include <algorithm>
@@ -44,9 +46,14 @@ namespace ptl {
 				if(capacity == 0) return;
 				if(capacity > max_size()) throw std::length_error{"ptl::vector - allocation attempting to exceed max_size"};
 				capacity = std::max(min_capacity, capacity);
-				dealloc = +[](Type * ptr) noexcept { std::free(ptr); };
-				ptr = static_cast<Type *>(std::calloc(capacity, sizeof(Type)));
-				if(!ptr) throw std::bad_alloc{};
+				if constexpr(alignof(Type) > alignof(std::max_align_t)) { //not supported by std::calloc
+					dealloc = +[](Type * ptr) noexcept { ::operator delete(ptr, std::align_val_t{alignof(Type)}); };
+					ptr = static_cast<Type *>(::operator new(capacity * sizeof(Type), std::align_val_t{alignof(Type)}));
+				} else {
+					dealloc = +[](Type * ptr) noexcept { std::free(ptr); };
+					ptr = static_cast<Type *>(std::calloc(capacity, sizeof(Type)));
+					if(!ptr) throw std::bad_alloc{};
+				}
 				cap = capacity;
 				siz = 0;
 			}
-- 
2.43.0


From 57c20a393e73ec6cbe53e8a039752712d67d20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 14/25] fix: variant copy-assignment does not read the source
 after destroying the old value

---
 inc/ptl/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 4ca70a5..98c33ed 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -225,7 +225,7 @@ namespace ptl {
 				variant tmp{other};
 				internal_variant::destroy(indices_t{}, type, storage);
 				internal_variant::assign<true>(indices_t{}, tmp.type, storage, tmp.storage);
-				type = other.type;
+				type = tmp.type;
 			}
 			return *this;
 		}
-- 
2.43.0


From 4d35b09417045a1822cf3541958cb880a7c650bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 15/25] fix: variant::emplace tests the initialization it
 performs for being noexcept

---
 inc/ptl/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 98c33ed..5654115 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -251,7 +251,7 @@ namespace ptl {
 		auto emplace(Args &&... args) -> decltype(auto) { return emplace<typename decltype(internal_variant::determine_type<Index, Head, Tail...>())::type>(std::forward<Args>(args)...); }
 		template<typename T, typename... Args, typename = std::enable_if_t<can_store<T>>> //TODO: [C++20] replace with concepts/requires-clause
 		auto emplace(Args &&... args) -> T & {
-			if constexpr(std::is_nothrow_constructible_v<T, Args...>) {
+			if constexpr(noexcept(T{std::declval<Args>()...})) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
 				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
-- 
2.43.0


From 40c1c62c5b0ad8042ebdc5720142a29bf6f48f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 16/25] fix: function_ref with a const signature calls its
 target as const

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index bad1646..50ba663 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -112,7 +112,7 @@ namespace ptl {
 
 		template<typename F, typename T = std::remove_reference_t<F>, typename = std::enable_if_t<!std::is_same_v<function_ref, internal_function_ref::remove_cvref_t<F>> && !std::is_member_pointer_v<T> && traits::template is_invocable_using<typename traits::template const_<T> &>>>//TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		function_ref(F && func) noexcept : storage{std::addressof(func)}, dispatch{traits::template functor<T>} {}
+		function_ref(F && func) noexcept : storage{static_cast<typename traits::template const_<T> *>(std::addressof(func))}, dispatch{traits::template functor<typename traits::template const_<T>>} {}
 
 		constexpr
 		function_ref(const function_ref &) noexcept =default;
-- 
2.43.0


From 44116669739fe976900ff4de736502b65cff939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 17/25] fix: array_ref does not bind to ranges of derived types

---
 inc/ptl/array_ref.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/array_ref.hpp b/inc/ptl/array_ref.hpp
index 9069c86..9dc7bb0 100644
--- a/inc/ptl/array_ref.hpp
+++ b/inc/ptl/array_ref.hpp
@@ -46,7 +46,8 @@ namespace ptl {
 				else {
 					static_assert(std::is_pointer_v<Pointer>);
 					using Rebind = decltype(rebind(Pointer{}));
-					return std::is_same_v<Rebind, valid>;
+					if constexpr(std::is_same_v<Rebind, valid>) return std::is_convertible_v<std::remove_pointer_t<Pointer>(*)[], Type(*)[]>; //elements must have the same stride
+					else return false;
 				}
 			}
 		public:
-- 
2.43.0


From 58d7d3ef34b1ba61edbce2a6331b40d657084b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 18/25] fix: headers include everything they use

---
 inc/ptl/function_ref.hpp | 2 ++
 inc/ptl/tuple.hpp        | 2 ++
 inc/ptl/variant.hpp      | 3 +++
 inc/ptl/variant_ref.hpp  | 2 ++
 inc/ptl/vector.hpp       | 2 ++
 5 files changed, 11 insertions(+)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index 50ba663..e8b26cf 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -5,7 +5,9 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <memory>
 #include <utility>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index a2e4081..c8f456d 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -5,6 +5,8 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <utility>
+#include <cstddef>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 5654115..c619638 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -5,9 +5,12 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
+#include <memory>
 #include <utility>
 #include <variant>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/variant_ref.hpp b/inc/ptl/variant_ref.hpp
index dec8cae..c822129 100644
--- a/inc/ptl/variant_ref.hpp
+++ b/inc/ptl/variant_ref.hpp
@@ -6,8 +6,10 @@
 
 #pragma once
 #include <limits>
+#include <memory>
 #include <utility>
 #include <variant>
+#include <exception>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 8b72e4e..5a5c326 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -9,6 +9,8 @@
 #include <limits>
 #include <cstddef>
 #include <memory>
+#include <cstdlib>
+#include <utility>
 #include <iterator>
 #include <algorithm>
 #include <stdexcept>
-- 
2.43.0


From e015c2eefe67491090369b665882d09ce0a633e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:05 +0000
Subject: [PATCH 19/25] fix: variant::emplace does not require other
 alternatives to accept its arguments

---
 inc/ptl/variant.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index c619638..b8c3276 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -123,14 +123,6 @@ namespace ptl {
 			return visit<Move>(indices, type, storage, combined_visitor{std::forward<Visitors>(visitors)...});
 		}
 
-		template<std::size_t... Indices, typename Storage, typename... Args>
-		constexpr
-		void emplace(std::index_sequence<Indices...>, std::size_t type, Storage & storage, Args &&... args) {  //TODO: [C++??] precondition(union in storage is uninitialized);
-			using Dispatch = void(*)(Storage &, Args &&...);
-			constexpr Dispatch dispatch[]{+[](Storage & storage, Args &&... args) { storage.template set<Indices>(std::forward<Args>(args)...); }...};
-			dispatch[type](storage, std::forward<Args>(args)...);
-		}
-
 		template<bool Move, typename Storage, std::size_t... Indices>
 		constexpr
 		void assign(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, std::conditional_t<Move, Storage, const Storage> & rhs) noexcept(Move) { //TODO: [C++??] precondition(lhs is uninitialized);
@@ -257,7 +249,7 @@ namespace ptl {
 			if constexpr(noexcept(T{std::declval<Args>()...})) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
-				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
+				storage.template set<index>(std::forward<Args>(args)...);
 				type = index;
 			} else {
 				variant tmp{std::in_place_type<T>, std::forward<Args>(args)...};
-- 
2.43.0


From ea47667ee67d0169b30b1d9b01346b250cd8b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 20/25] fix: function_ref returns references as references

invoke_r deduced its return type by value: a signature returning T& did not compile for a callable returning T&, and one returning const T& returned a reference to a temporary.
---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index e8b26cf..0f29018 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -46,7 +46,7 @@ namespace ptl {
 
 		template<typename R, typename F, typename... Args, typename = std::enable_if_t<std::is_invocable_r_v<R, F, Args...>>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) { //TODO: [C++23] replace with std::invoke_r
+		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) -> R { //TODO: [C++23] replace with std::invoke_r
 			if constexpr(std::is_void_v<R>) std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 			else return std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 		}
-- 
2.43.0


From f9577d858fb4aebd583637cc97e9a2878992e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:29 +0000
Subject: [PATCH 21/25] fix: iterators and const_iterators of vector and string
 can be compared

The private implicit conversion from const_iterator to iterator made every comparison and difference of mixed iterators ambiguous.
---
 inc/ptl/string.hpp | 4 ++--
 inc/ptl/vector.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 96a191a..91b3640 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -230,7 +230,7 @@ namespace ptl {
 			contiguous_iterator(pointer ptr) noexcept : ptr{ptr} {}
 
 			constexpr
-			operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<char *>(ptr)}; }
+			explicit operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<char *>(ptr)}; }
 
 			pointer ptr{nullptr};
 		};
@@ -475,7 +475,7 @@ namespace ptl {
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			std::copy(const_cast<char *>(last.ptr), data() + size(), const_cast<char *>(first.ptr));
 			storage.set_size(size() - (last - first));
-			return first;
+			return static_cast<iterator>(first);
 		}
 
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 5a5c326..1d7d176 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -190,7 +190,7 @@ namespace ptl {
 			contiguous_iterator(pointer ptr) noexcept : ptr{ptr} {}
 
 			constexpr
-			operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<Type *>(ptr)}; }
+			explicit operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<Type *>(ptr)}; }
 
 			pointer ptr{nullptr};
 		};
@@ -355,12 +355,12 @@ namespace ptl {
 
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
-			if(first == last) return first; //nothing to erase, don't self-move elements
+			if(first == last) return static_cast<iterator>(first); //nothing to erase, don't self-move elements
 			const auto count{static_cast<size_type>(std::distance(first, last))};
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-			return first;
+			return static_cast<iterator>(first);
 		}
 
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
-- 
2.43.0


From 3892e343a00ffceab35c58f7bff781afcc59bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:19 +0000
Subject: [PATCH 22/25] fix: optional copies and moves values that could be
 taken for initializer lists of themselves

---
 inc/ptl/optional.hpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/inc/ptl/optional.hpp b/inc/ptl/optional.hpp
index c64c57a..52e3529 100644
--- a/inc/ptl/optional.hpp
+++ b/inc/ptl/optional.hpp
@@ -27,6 +27,11 @@ namespace ptl {
 			Type val;
 		};
 		unsigned char initialized{false};
+
+		template<typename... Args>
+		static
+		constexpr
+		auto is_value() noexcept -> bool { return sizeof...(Args) == 1 && (std::is_same_v<std::decay_t<Args>, Type> && ...); } //a value of the same type must not be taken for an initializer list
 	public:
 		constexpr
 		optional() noexcept {}
@@ -34,19 +39,22 @@ namespace ptl {
 		optional(std::nullopt_t) noexcept {}
 
 		constexpr
-		optional(const optional & other) : initialized{other.initialized} { if(other) new(std::addressof(val)) Type{other.val}; } //TODO: [C++20] use std::construct_at
+		optional(const optional & other) : initialized{other.initialized} { if(other) new(std::addressof(val)) Type(other.val); } //TODO: [C++20] use std::construct_at
 		constexpr
-		optional(optional && other) noexcept : initialized{other.initialized} { if(other) new(std::addressof(val)) Type{std::move(other.val)}; } //TODO: [C++20] use std::construct_at
+		optional(optional && other) noexcept : initialized{other.initialized} { if(other) new(std::addressof(val)) Type(std::move(other.val)); } //TODO: [C++20] use std::construct_at
 
 		constexpr
-		optional(const Type & value) : initialized{true} { new(std::addressof(val)) Type{value}; } //TODO: [C++20] use std::construct_at
+		optional(const Type & value) : initialized{true} { new(std::addressof(val)) Type(value); } //TODO: [C++20] use std::construct_at
 		constexpr
-		optional(Type && value) noexcept : initialized{true} { new(std::addressof(val)) Type{std::move(value)}; } //TODO: [C++20] use std::construct_at
+		optional(Type && value) noexcept : initialized{true} { new(std::addressof(val)) Type(std::move(value)); } //TODO: [C++20] use std::construct_at
 
 		template<typename... Args>
 		constexpr
 		explicit
-		optional(std::in_place_t, Args &&... args) : initialized{true} { new(std::addressof(val)) Type{std::forward<Args>(args)...}; } //TODO: [C++20] use std::construct_at
+		optional(std::in_place_t, Args &&... args) : initialized{true} { //TODO: [C++20] use std::construct_at
+			if constexpr(is_value<Args...>()) new(std::addressof(val)) Type(std::forward<Args>(args)...);
+			else new(std::addressof(val)) Type{std::forward<Args>(args)...};
+		}
 
 		constexpr
 		auto operator=(std::nullopt_t) noexcept -> optional & {
@@ -75,7 +83,7 @@ namespace ptl {
 		auto operator=(const Type & value) -> optional & {
 			if(initialized) **this = value;
 			else {
-				new(std::addressof(val)) Type{value}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(value); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return *this;
@@ -84,7 +92,7 @@ namespace ptl {
 		auto operator=(Type && value) noexcept -> optional & {
 			if(initialized) **this = std::move(value);
 			else {
-				new(std::addressof(val)) Type{std::move(value)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(std::move(value)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return *this;
@@ -157,7 +165,8 @@ namespace ptl {
 		template<typename... Args>
 		constexpr
 		auto emplace(Args &&... args) -> Type & {
-			if(initialized) val = Type{std::forward<Args>(args)...};
+			if constexpr(is_value<Args...>()) *this = Type(std::forward<Args>(args)...);
+			else if(initialized) val = Type{std::forward<Args>(args)...};
 			else {
 				new(std::addressof(val)) Type{std::forward<Args>(args)...}; //TODO: [C++20] use std::construct_at
 				initialized = true;
@@ -170,12 +179,12 @@ namespace ptl {
 			if(this == &other) return; //TODO: [C++20] use [[unlikely]]
 			if(!*this && !other) return;
 			else if(*this && !other) {
-				new(std::addressof(other.val)) Type{std::move(val)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(other.val)) Type(std::move(val)); //TODO: [C++20] use std::construct_at
 				other.initialized = true;
 				std::destroy_at(std::addressof(val));
 				initialized = false;
 			} else if(!*this && other) {
-				new(std::addressof(val)) Type{std::move(other.val)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(std::move(other.val)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 				std::destroy_at(std::addressof(other.val));
 				other.initialized = false;
-- 
2.43.0


From af520d84d85f2a3213b48074d9f1a1be0252fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:19 +0000
Subject: [PATCH 23/25] fix: variant copies and moves values that could be
 taken for initializer lists of themselves

---
 inc/ptl/variant.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index b8c3276..1e425c5 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -48,6 +48,7 @@ namespace ptl {
 			constexpr
 			void set(Args &&... args) { //TODO: [C++??] precondition(val is uninitialized);
 				if constexpr(I != 0) next.template set<I - 1>(std::forward<Args>(args)...);
+				else if constexpr(sizeof...(Args) == 1 && (std::is_same_v<std::decay_t<Args>, Head> && ...)) new(std::addressof(val)) Head(std::forward<Args>(args)...); //a value of the same type must not be taken for an initializer list
 				else new(std::addressof(val)) Head{std::forward<Args>(args)...}; //TODO: [C++20] use std::construct_at here
 			}
 
-- 
2.43.0


From 469fb762ae785e5d9b98e581c442152f5257200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:19 +0000
Subject: [PATCH 24/25] fix: vector inserts values that could be taken for
 initializer lists of themselves

---
 inc/ptl/vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 1d7d176..9aaaa10 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -375,7 +375,12 @@ namespace ptl {
 		auto insert(const_iterator pos, Type && value) -> iterator { return emplace(pos, std::move(value)); }
 		auto insert(const_iterator pos, size_type count, const Type & value) -> iterator { return insert_impl(pos, count, [&](auto pos) { std::uninitialized_fill_n(pos, count, value); }); }
 		template<typename... Args>
-		auto emplace(const_iterator pos, Args &&... args) -> iterator { return insert_impl(pos, 1, [&](auto pos) { new(pos) Type{std::forward<Args>(args)...}; }); } //TODO: [C++20] use construct_at
+		auto emplace(const_iterator pos, Args &&... args) -> iterator { //TODO: [C++20] use construct_at
+			return insert_impl(pos, 1, [&](auto pos) {
+				if constexpr(sizeof...(Args) == 1 && (std::is_same_v<std::decay_t<Args>, Type> && ...)) new(pos) Type(std::forward<Args>(args)...); //a value of the same type must not be taken for an initializer list
+				else new(pos) Type{std::forward<Args>(args)...};
+			});
+		}
 
 		auto begin() const noexcept -> const_iterator { return data(); }
 		auto begin()       noexcept ->       iterator { return data(); }
-- 
2.43.0


From 8f8cc373b46b4fee68d289b53c98cc0a097253b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:19 +0000
Subject: [PATCH 25/25] fix: tuple stores values that could be taken for
 initializer lists of themselves

---
 inc/ptl/tuple.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index c8f456d..0fad60f 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -25,6 +25,13 @@ namespace ptl {
 			std::is_nothrow_swappable_v<std::remove_cv_t<Type>>
 		};
 
+		template<typename Type, typename Arg>
+		constexpr
+		auto make(Arg && arg) -> Type {
+			if constexpr(std::is_same_v<std::decay_t<Arg>, std::remove_cv_t<Type>>) return Type(std::forward<Arg>(arg)); //a value of the same type must not be taken for an initializer list
+			else return Type{std::forward<Arg>(arg)};
+		}
+
 		template<typename...>
 		struct storage_t;
 
@@ -46,7 +53,7 @@ namespace ptl {
 		template<typename Head, typename... Tail>
 		struct storage_t<Head, Tail...> : storage_t<Tail...> {
 			template<typename Arg, typename... Args>
-			storage_t(Arg && arg, Args &&... args) : storage_t<Tail...>{std::forward<Args>(args)...}, value{std::forward<Arg>(arg)} {}
+			storage_t(Arg && arg, Args &&... args) : storage_t<Tail...>{std::forward<Args>(args)...}, value(make<Head>(std::forward<Arg>(arg))) {}
 
 			template<std::size_t Index>
 			constexpr
-- 
2.43.0

