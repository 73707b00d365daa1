From 5a56d88c1741ece3a1c40c11da1aead16986d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 01/40] fix: RecursiveCallback: notify ids removed at the front
 by deferred cleanup

---
 nytl/recursiveCallback.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 3bee463..eb99565 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -165,6 +165,7 @@ protected:
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
+			it->id.removed();
 			subs_.pop_front();
 			it = subs_.begin();
 		}
-- 
2.43.0


From 5b54093251afab864e84f18ac23145442ad23a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 02/40] fix: RecursiveCallback::disconnect: notify the removed
 id, not its successor

---
 nytl/recursiveCallback.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index eb99565..0bb8208 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -355,7 +355,7 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 		if(next->id.get() == id.get()) {
 			if(remove) {
 				// set this before id.removed might change stuff
-				if(++next == subs_.end()) {
+				if(std::next(next) == subs_.end()) {
 					last_ = it;
 				}
 				next->id.removed();
-- 
2.43.0


From cf44f6f4554c2b8b6d962a3b5e2a5af5883b5b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 03/40] fix: RecursiveCallback::clear: don't revive already
 removed functions for pending calls

---
 nytl/recursiveCallback.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 0bb8208..59ad8e3 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -307,7 +307,9 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 	for(auto& sub : subs_) {
 		if(remove) {
 			sub.id.removed();
-		} else {
+		} else if(sub.id.get() > 0) {
+			// ids that were already removed during an active iteration
+			// must keep the (earlier) callID of their removal
 			sub.id.set(-callID_);
 		}
 	}
-- 
2.43.0


From de4404cd9594cc6b79971b095b3ed88cd512475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:42 +0000
Subject: [PATCH 04/40] fix: RecursiveCallback::disconnect: return false for
 already removed tracked ids

---
 nytl/recursiveCallback.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 59ad8e3..13c94ec 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -326,7 +326,8 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 template<typename Ret, typename... Args, typename ID>
 bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 {
-	if(subs_.empty())  {
+	// the id might already have been (formally) removed
+	if(subs_.empty() || id.get() <= 0)  {
 		return false;
 	}
 
-- 
2.43.0


From f41865dbd92b0c3f9d2b2fb38d27e7e3e06c139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 05/40] fix: RecursiveCallback::call: stop at the last function
 even if it was removed

---
 nytl/recursiveCallback.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 13c94ec..5eaf6e1 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -273,11 +273,12 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				it->func(std::forward<Args>(a)...);
-				// we will not call functions that were registered after
-				// this call started (this is why we store last above)
-				if(it == last) {
-					break;
-				}
+			}
+
+			// we will not call functions that were registered after
+			// this call started (this is why we store last above)
+			if(it == last) {
+				break;
 			}
 		}
 
@@ -288,9 +289,10 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				ret.push_back(it->func(std::forward<Args>(a)...));
-				if(it == last) {
-					break;
-				}
+			}
+
+			if(it == last) {
+				break;
 			}
 		}
 
-- 
2.43.0


From ee51bac055ec095c37469d0faca6ea9ca95a343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:15 +0000
Subject: [PATCH 06/40] fix: Callback, RecursiveCallback: pass every function
 an unmodified by-value argument

---
 nytl/callback.hpp          | 13 ++++++++++---
 nytl/recursiveCallback.hpp | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index c94847e..27bd3f1 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -17,7 +17,7 @@
 #include <utility> // std::move
 #include <cstdint> // std::uint64_t
 #include <cstddef> // std::size_t
-#include <type_traits> // std::is_same
+#include <type_traits> // std::is_same, std::conditional_t
 #include <vector> // std::vector
 #include <limits> // std::numeric_limits
 #include <iostream> // std::cerr
@@ -129,6 +129,13 @@ public:
 	}
 
 protected:
+	// Arguments passed by value are copied for every called function (so no function
+	// gets a value that was moved out by a previous one), others are forwarded.
+	template<typename T>
+	using PassArg = std::conditional_t<
+		!std::is_reference<T>::value && std::is_copy_constructible<T>::value,
+		const T&, T&&>;
+
 	std::vector<Subscription> subs_ {}; // all subscriptions, ordered by id
 	std::int64_t subID_ {}; // the highest subscription id given
 };
@@ -175,13 +182,13 @@ auto Callback<Ret(Args...), ID>::call(Args... a)
 	// only by some other callback function
 	if constexpr(std::is_same<Ret, void>::value) {
 		for(auto& func : subs_)
-			func.func(std::forward<Args>(a)...);
+			func.func(static_cast<PassArg<Args>>(a)...);
 	} else {
 		std::vector<Ret> ret;
 		ret.reserve(subs_.size());
 
 		for(auto& func : subs_) {
-			ret.push_back(func.func(std::forward<Args>(a)...));
+			ret.push_back(func.func(static_cast<PassArg<Args>>(a)...));
 		}
 
 		return ret;
diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 5eaf6e1..4b7c6b0 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -18,7 +18,7 @@
 #include <utility> // std::move
 #include <cstdint> // std::uint64_t
 #include <cstddef> // std::size_t
-#include <type_traits> // std::is_same
+#include <type_traits> // std::is_same, std::conditional_t
 #include <vector> // std::vector
 #include <limits> // std::numeric_limits
 #include <iostream> // std::cerr
@@ -118,6 +118,13 @@ public:
 	}
 
 protected:
+	// Arguments passed by value are copied for every called function (so no function
+	// gets a value that was moved out by a previous one), others are forwarded.
+	template<typename T>
+	using PassArg = std::conditional_t<
+		!std::is_reference<T>::value && std::is_copy_constructible<T>::value,
+		const T&, T&&>;
+
 	// Represents one callback subscription entry.
 	// Invalid (formally removed) when id is not valid.
 	// Note that these means that alternative ID classes can
@@ -272,7 +279,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// the stored callID, it was removed during or after this
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				it->func(std::forward<Args>(a)...);
+				it->func(static_cast<PassArg<Args>>(a)...);
 			}
 
 			// we will not call functions that were registered after
@@ -288,7 +295,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				ret.push_back(it->func(std::forward<Args>(a)...));
+				ret.push_back(it->func(static_cast<PassArg<Args>>(a)...));
 			}
 
 			if(it == last) {
-- 
2.43.0


From 5ef1e1110be23e35f719d41452ecb164612af33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 07/40] fix: ConnectionT::disconnect: don't access the
 connectable when not connected

---
 nytl/connection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 3e29fdf..0e0be24 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -46,7 +46,7 @@ public:
 	/// Disconnects the represented connection.
 	void disconnect()
 	{
-		if(connectable_)
+		if(connected())
 			connectable_->disconnect(id_);
 		connectable_ = {};
 		id_ = {};
-- 
2.43.0


From bcd2554a629fc8cda74e6ccfb518711d0b8743a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:30 +0000
Subject: [PATCH 08/40] fix: UniqueConnectionT::release: return the released
 connection (did not compile)

---
 nytl/connection.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 0e0be24..6268938 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -147,9 +147,11 @@ public:
 	/// Releases ownership of the associated connection and returns a non-owned
 	/// connection object.
 	/// After the call this object will be empty.
-	ID release()
+	ConnectionT<C, ID> release()
 	{
-		ConnectionT<C, ID> ret{connectable_, id_};
+		ConnectionT<C, ID> ret;
+		if(connectable_)
+			ret = {*connectable_, id_};
 		id_ = {};
 		connectable_ = {};
 		return ret;
-- 
2.43.0


From fd54296c1c1ec14a2b5a334b9d02debd17a47370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 09/40] fix: RecursiveCallback::add: don't keep an empty
 function when wrapping it throws

---
 nytl/recursiveCallback.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 4b7c6b0..b705cf2 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -244,6 +244,9 @@ add(std::function<Ret(Connection, Args...)> func)
 	}
 
 	auto& sub = emplace();
+
+	// don't leave an empty function registered if creating the wrapper throws
+	auto guard = ExceptionGuard([&]{ disconnect(sub.id); });
 	Connection conn {*this, sub.id};
 	sub.func = [conn, f = std::move(func)](Args... args) {
 		return f(conn, std::forward<Args>(args)...);
-- 
2.43.0


From 19e814cfd8d7b0523b72d0bef909d3b1aa03a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 10/40] fix: Cloneable: befriend the cloneMove function that
 exists (did not compile)

---
 nytl/clone.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 8d635f1..38924ed 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -116,7 +116,7 @@ protected:
 	void* doCloneMove() override { return new T(std::move(static_cast<T&>(*this))); }
 	void* doClone() const override { return new T(static_cast<const T&>(*this)); }
 	template<typename O> friend std::unique_ptr<O> clone(const O&);
-	template<typename O> friend std::unique_ptr<O> cloneMove(const O&);
+	template<typename O> friend std::unique_ptr<O> cloneMove(O&);
 };
 
 // - derive class implementation -
-- 
2.43.0


From b6ef558455ad959d6d543192c27218a6bdcebdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 11/40] fix: clone, cloneMove: return a valid pointer for bases
 that don't start their object

---
 nytl/clone.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 38924ed..16c9fc4 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -10,6 +10,18 @@
 #include <memory> // std::unique_ptr
 
 namespace nytl {
+namespace detail {
+
+/// doClone/doCloneMove return a pointer to the complete cloned object (of type Derived).
+/// Returns the pointer to its T subobject, which has the same offset as in obj.
+template<typename T>
+T* clonedSubobject(const T& obj, void* cloned) {
+	auto base = static_cast<const char*>(dynamic_cast<const void*>(&obj));
+	auto offset = reinterpret_cast<const char*>(&obj) - base;
+	return reinterpret_cast<T*>(static_cast<char*>(cloned) + offset);
+}
+
+} // namespace detail
 
 /// \brief Can be used to clone a Cloneable object.
 /// Will perform a copy of the actual type the interface reference references.
@@ -18,7 +30,7 @@ namespace nytl {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> clone(const T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doClone()));
+	return std::unique_ptr<T>(detail::clonedSubobject(obj, obj.doClone()));
 }
 
 /// \brief Can be used to cloneMove a CloneMovable object.
@@ -29,7 +41,7 @@ std::unique_ptr<T> clone(const T& obj) {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> cloneMove(T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doCloneMove()));
+	return std::unique_ptr<T>(detail::clonedSubobject(obj, obj.doCloneMove()));
 }
 
 /// \brief Can be derived from to implement the cloneMove member function for 'Derived'.
-- 
2.43.0


From 08ae3950d8b5afb9f5bf83d73a944c2578e94efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 12/40] fix: mapUnsigned, unmapUnsigned: support the whole
 range of int

---
 nytl/math.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 0ff46c2..41a464e 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -57,15 +57,16 @@ constexpr unsigned long factorial(unsigned int n) {
 /// Maps the given signed number onto a unique unsigned one.
 /// Maps 0 to 0, 1 to 2, 2 to 4, -1 to 1, -2 to 3 and so on.
 constexpr unsigned int mapUnsigned(int x) {
-	return (x < 0) ? -x * 2 - 1 : x * 2;
+	auto ux = static_cast<unsigned int>(x); // unsigned arithmetic cannot overflow
+	return (x < 0) ? (0u - ux) * 2 - 1 : ux * 2;
 }
 
 /// Reverses the mapUnsigned function.
 /// Returns the signed number that would be mapped onto the given unique
 /// unsigned number.
 constexpr int unmapUnsigned(unsigned int x) {
-	auto ix = static_cast<int>(x);
-	return (ix % 2) ? -(ix + 1) / 2 : ix / 2;
+	auto half = static_cast<int>(x / 2);
+	return (x % 2) ? -half - 1 : half;
 }
 
 /// Combines the two given unsigned numbers into a single unique one
-- 
2.43.0


From e563ed503d92d4740402bb9ae7da89131cb00f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 13/40] fix: pair: don't overflow for results representable as
 unsigned int

---
 nytl/math.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 41a464e..ad86a5c 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -10,6 +10,7 @@
 #define NYTL_INCLUDE_SCALAR
 
 #include <algorithm> // std::clamp
+#include <cstdint> // std::uint64_t
 
 namespace nytl {
 namespace constants {
@@ -73,7 +74,9 @@ constexpr int unmapUnsigned(unsigned int x) {
 /// using the cantorsche pairing function. Combine it with calls
 /// to mapUnsigned to enable it for signed x,y inputs.
 constexpr unsigned int pair(unsigned int x, unsigned int y) {
-	return (x + y) * (x + y + 1) / 2 + y;
+	// the product may be too large for unsigned int even if the result isn't
+	std::uint64_t sum = std::uint64_t(x) + y;
+	return static_cast<unsigned int>(sum * (sum + 1) / 2 + y);
 }
 
 /// Returns clamp(value, min, max), i.e. value or min/max if value exceeds those bounds.
-- 
2.43.0


From 8b12fa4156b8e1b4b61dd941d5e887ba1f9894f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 14/40] fix: Vec, Mat: support operands of *= that are (part
 of) the modified object

---
 nytl/mat.hpp | 8 +++++---
 nytl/vec.hpp | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 3b525b8..b4a9b75 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -95,12 +95,13 @@ constexpr auto operator*(const Mat<R, C, T1>& a, const Vec<C, T2>& b) {
 // mat *= mat (quadratic)
 template<typename T1, typename T2, size_t D>
 constexpr auto& operator*=(Mat<D, D, T1>& a, const Mat<D, D, T2>& b) {
-	auto tmp = a; // needed since we write to a
+	auto tmp1 = a; // needed since we write to a
+	auto tmp2 = b; // needed since b might be a
 	a = {};
 	for(auto r = 0u; r < D; ++r) // ret: rows
 		for(auto c = 0u; c < D; ++c) // ret: cols
 			for(auto i = 0u; i < D; ++i) // row + col dot
-				a[r][c] += tmp[r][i] * b[i][c];
+				a[r][c] += tmp1[r][i] * tmp2[i][c];
 	return a;
 }
 
@@ -117,9 +118,10 @@ constexpr auto operator*(const F& f, const Mat<R, C, T>& a) {
 // mat *= fac
 template<typename F, typename T, size_t R, size_t C>
 constexpr auto& operator*=(Mat<R, C, T>& a, const F& f) {
+	const F fac = f; // needed since f might be a value of a
 	for(auto r = 0u; r < R; ++r)
 		for(auto c = 0u; c < C; ++c)
-			a[r][c] *= f;
+			a[r][c] *= fac;
 	return a;
 }
 
diff --git a/nytl/vec.hpp b/nytl/vec.hpp
index 154b558..127226b 100644
--- a/nytl/vec.hpp
+++ b/nytl/vec.hpp
@@ -66,8 +66,9 @@ constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
 
 template<size_t D, typename T, typename F>
 constexpr Vec<D, T>& operator*=(Vec<D, T>& vec, const F& fac) {
+	const F f = fac; // needed since fac might be a component of vec
 	for(auto i = 0u; i < D; ++i)
-		vec[i] *= fac;
+		vec[i] *= f;
 	return vec;
 }
 
-- 
2.43.0


From 3e4b00270080ef111686f47d24af7b65ec5054e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 15/40] fix: Mat::at, Vec::at: make usable for const matrices
 and 2 or 3 columns (did not compile)

---
 nytl/mat.hpp  | 2 +-
 nytl/vec2.hpp | 4 ++++
 nytl/vec3.hpp | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index b4a9b75..1400d22 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -52,7 +52,7 @@ public:
 
 	/// Utility function that throws std::out_of_range if the matrix does not have
 	/// the given row.
-	constexpr void checkRow(size_t r) {
+	static constexpr void checkRow(size_t r) {
 		if(r >= rows())
 			throw std::out_of_range("nytl::Mat::at");
 	}
diff --git a/nytl/vec2.hpp b/nytl/vec2.hpp
index 8d978b7..cff8b2e 100644
--- a/nytl/vec2.hpp
+++ b/nytl/vec2.hpp
@@ -66,6 +66,10 @@ public:
 		}
 	}
 
+	// Like operator[], throws std::out_of_range for an invalid index.
+	constexpr T& at(size_t i) { return (*this)[i]; }
+	constexpr const T& at(size_t i) const { return (*this)[i]; }
+
 	// implemented in vec.hpp for all specializations
 	template<size_t OD, typename OT>
 	constexpr explicit operator Vec<OD, OT>() const {
diff --git a/nytl/vec3.hpp b/nytl/vec3.hpp
index 0eee7ea..4426c99 100644
--- a/nytl/vec3.hpp
+++ b/nytl/vec3.hpp
@@ -65,6 +65,10 @@ public:
 		}
 	}
 
+	// Like operator[], throws std::out_of_range for an invalid index.
+	constexpr T& at(size_t i) { return (*this)[i]; }
+	constexpr const T& at(size_t i) const { return (*this)[i]; }
+
 	// implemented in vec.hpp for all specializations
 	template<size_t OD, typename OT>
 	constexpr explicit operator Vec<OD, OT>() const {
-- 
2.43.0


From 9ff2f56ba517bdd525076fc9fa22b511ce8fd7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 16/40] fix: reducedRowEcholon: don't access matrix values out
 of range for zero rows

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 5a0b76c..7b7dcd8 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -280,7 +280,7 @@ constexpr void reducedRowEcholon(nytl::Mat<R, C, T>& mat) {
 		}
 
 		// if the pivot is zero continue to the next (above) row
-		if(!mat[r][c]) {
+		if(c == C) {
 			continue;
 		}
 
-- 
2.43.0


From 2f6760b93d5fcd80d322195986d745094ea2541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:08 +0000
Subject: [PATCH 17/40] fix: LUDecomposition: use a signed type for the sign of
 the permutation

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 7b7dcd8..84619f5 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -30,7 +30,7 @@ struct LUDecomposition {
 	nytl::Mat<D, D, T> lower;
 	nytl::Mat<D, D, T> upper;
 	nytl::Mat<D, D, bool> perm; // permutation
-	unsigned int sign = 1;
+	int sign = 1;
 };
 
 /// \brief Prints the given matrix with numerical values to the given ostream.
-- 
2.43.0


From ea6d058a95f7b1b6592167a7fb352193f40fb0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 18/40] fix: determinant: round (instead of truncate) the
 result for integer matrices

---
 nytl/matOps.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 84619f5..3b42cd9 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -17,7 +17,8 @@
 #include <stdexcept> // std::invalid_argument
 #include <tuple> // std::tuple
 #include <iosfwd> // std::ostream
-#include <cmath> // std::fma
+#include <cmath> // std::fma, std::round
+#include <type_traits> // std::is_integral
 
 namespace nytl {
 
@@ -420,7 +421,12 @@ template<size_t D, typename T>
 constexpr auto determinant(const Mat<D, D, T>& mat) {
 	auto [l, u, p, s] = luDecomp(mat);
 	unused(l, p);
-	return s * static_cast<T>(multiplyDiagonal(u));
+	if constexpr(std::is_integral<T>::value) {
+		// the decomposition has rounding errors but the determinant is integral
+		return static_cast<T>(s * std::round(multiplyDiagonal(u)));
+	} else {
+		return static_cast<T>(s * multiplyDiagonal(u));
+	}
 }
 
 /// \brief Returns the determinant for the lu decomposition of a matrix.
-- 
2.43.0


From 8fae999e70e016eed33323904129e67210480f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 19/40] fix: luEvaluate: permute the vector with P instead of
 its transpose

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 3b42cd9..baa601d 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -411,7 +411,7 @@ constexpr auto luEvaluate(const Mat<D, D, T1>& l,
 /// The sign of the decomposition will not be used.
 template<size_t D, typename T1, typename T2>
 constexpr auto luEvaluate(const LUDecomposition<D, T1>& lu, const Vec<D, T2>& b) {
-	return luEvaluate(lu.lower, lu.upper, transpose(lu.perm) * b);
+	return luEvaluate(lu.lower, lu.upper, lu.perm * b);
 }
 
 /// \brief Returns the determinant of the given square matrix.
-- 
2.43.0


From 0b8844669c34249c5241724eaac98073f80af12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 20/40] fix: luDecomp: use the largest pivot so that PA = LU
 holds despite rounding errors

---
 nytl/matOps.hpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index baa601d..a415b8c 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -326,27 +326,30 @@ constexpr LUDecomposition<D, double> luDecomp(const nytl::Mat<D, D, T>& mat) {
 
 	for(auto n = 0u; n < D; ++n) {
 
-		// since we divide by upper[n][n] later on we should try to make it non-zero by
+		// since we divide by upper[n][n] later on we should try to make it as large as possible
+		// (a value that is only non-zero due to rounding errors would give a useless result) by
 		// swapping the current row with another row. If we do so, we have to pretend we
 		// swapped the matrix in the beginning and therefore also change the lower matrix and
 		// remember the swap in the permutation matrix
-		if(ret.upper[n][n] == 0.0) {
-			for(auto r = n + 1; r < D; ++r) {
-				if(ret.upper[r][n] != 0.0) {
-					swapRow(ret.perm, r, n);
-					swapRow(ret.upper, r, n);
-					swapRow(ret.lower, r, n);
-					ret.sign *= -1;
-					break;
-				}
+		auto maxRow = n;
+		for(auto r = n + 1; r < D; ++r) {
+			if(std::abs(ret.upper[r][n]) > std::abs(ret.upper[maxRow][n])) {
+				maxRow = r;
 			}
+		}
 
-			// If all coefficients in the column are zero (e.g. a zero matrix), its ok since
-			// we don't have any more coefficients to eliminate.
-			if(ret.upper[n][n] == 0.0) {
-				ret.lower[n][n] = 1.0;
-				continue;
-			}
+		if(maxRow != n) {
+			swapRow(ret.perm, maxRow, n);
+			swapRow(ret.upper, maxRow, n);
+			swapRow(ret.lower, maxRow, n);
+			ret.sign *= -1;
+		}
+
+		// If all coefficients in the column are zero (e.g. a zero matrix), its ok since
+		// we don't have any more coefficients to eliminate.
+		if(ret.upper[n][n] == 0.0) {
+			ret.lower[n][n] = 1.0;
+			continue;
 		}
 
 		ret.lower[n][n] = 1.0;
-- 
2.43.0


From 65037fa1895dd22c7f0104684a4f2cb621fc42d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 21/40] fix: luDecomp: return an exactly upper triangular
 matrix

---
 nytl/matOps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index a415b8c..70ae5a1 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -359,6 +359,7 @@ constexpr LUDecomposition<D, double> luDecomp(const nytl::Mat<D, D, T>& mat) {
 		for(auto i = n + 1; i < D; ++i) {
 			auto fac = ret.upper[i][n] / ret.upper[n][n];
 			ret.upper[i] = ret.upper[i] - fac * ret.upper[n];
+			ret.upper[i][n] = 0.0; // exactly, despite rounding errors
 			ret.lower[i][n] = fac;
 		}
 	}
-- 
2.43.0


From 7bb43d1a94532840cfe6c1b03173fc84d20c9143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 22/40] fix: intersects, intersectsReal: recognize rects that
 contain no corner of each other

---
 nytl/rectOps.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 19c445f..926c039 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -103,8 +103,13 @@ constexpr bool containsReal(const Rect<D, T1>& rect, const Vec<D, T2>& point) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return contains(a, b.position) || contains(a, b.position + b.size) ||
-		contains(b, a.position) || contains(b, a.position + a.size);
+	// they intersect if they do so in every dimension
+	for(auto i = 0u; i < D; ++i) {
+		if(a.position[i] > b.position[i] + b.size[i]) return false;
+		if(b.position[i] > a.position[i] + a.size[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns whether the the two given Rects intersect.
@@ -113,8 +118,13 @@ constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersectsReal(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return containsReal(a, b.position) || containsReal(a, b.position + b.size) ||
-		containsReal(b, a.position) || containsReal(b, a.position + a.size);
+	// they intersect if they do so in every dimension
+	for(auto i = 0u; i < D; ++i) {
+		if(a.position[i] >= b.position[i] + b.size[i]) return false;
+		if(b.position[i] >= a.position[i] + a.size[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns the intersection between the given Rects.
-- 
2.43.0


From 7588b79cd6f563374831fa67f7b34dee3ad57a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 23/40] fix: difference: return exactly the parts of the first
 rect outside of the second

---
 nytl/rectOps.hpp | 48 +++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 926c039..3227e55 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -156,41 +156,39 @@ constexpr Rect<D, T> intersection(const Rect<D, T>& a, const Rect<D, T>& b) {
 /// \module rectOps
 template<std::size_t D, class T>
 std::vector<Rect<D, T>> difference(const Rect<D, T>& a, const Rect<D, T>& b) {
-	static constexpr auto inRange = [](T start, T size, T value) {
-		return (start < value && value < start + size);
-	};
-
 	std::vector<Rect<D, T>> ret;
+	if(!intersectsReal(a, b)) {
+		ret.push_back(a);
+		return ret;
+	}
+
 	ret.reserve(2 * D);
 
+	// the part of a that was not added yet. Everything that does not
+	// intersect b is cut off in each dimension
+	auto rest = a;
 	for(std::size_t i(0); i < D; ++i) {
+		auto end = rest.position[i] + rest.size[i];
+		auto bend = b.position[i] + b.size[i];
 
 		// rect before intersection
-		if(inRange(a.position[i], a.size[i], b.position[i])) {
-			auto pos = a.position;
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = b.position[o];
-
-			auto size = (a.position + a.size) - pos;
-			size[i] = b.position[i] - pos[i];
-
-			ret.push_back({pos, size});
+		if(rest.position[i] < b.position[i]) {
+			auto before = rest;
+			before.size[i] = b.position[i] - rest.position[i];
+			ret.push_back(before);
+			rest.position[i] = b.position[i];
 		}
 
 		// rect after intersection
-		// if(inRange(b.position[i] + b.size[i], a.position[i], a.size[i])) {
-		if(inRange(a.position[i], a.size[i], b.position[i] + b.size[i])) {
-			auto pos = a.position;
-			pos[i] = b.position[i] + b.size[i];
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = std::max(b.position[o], a.position[o]);
-
-			auto size = (a.position + a.size) - pos;
-			for(std::size_t o(0); o < i; ++o)
-				size[o] = (b.position[o] + b.size[o]) - pos[o];
-
-			ret.push_back({pos, size});
+		if(bend < end) {
+			auto after = rest;
+			after.position[i] = bend;
+			after.size[i] = end - bend;
+			ret.push_back(after);
+			end = bend;
 		}
+
+		rest.size[i] = end - rest.position[i];
 	}
 
 	return ret;
-- 
2.43.0


From bc3a9fadcca0f36ce766c18029274d4311f5f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 24/40] fix: Simplex: make the conversion operator compile

---
 nytl/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/simplex.hpp b/nytl/simplex.hpp
index 17a3016..aef7e44 100644
--- a/nytl/simplex.hpp
+++ b/nytl/simplex.hpp
@@ -76,7 +76,7 @@ public:
 	constexpr explicit operator Simplex<OD, OP, A>() const noexcept {
 		Simplex<OD, OP, A> ret {};
 		for(auto i = 0u; i < points_.size(); ++i) {
-			ret[i] = static_cast<Vec<OD, OP>>(points_[i]);
+			ret.points_[i] = static_cast<Vec<OD, OP>>(points_[i]);
 		}
 		return ret;
 	}
-- 
2.43.0


From 29e8f9e5aef7ba271e5ea5e8c7e59a47379f9680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 25/40] fix: dot(Quaternion, Quaternion): compute the dot
 product

---
 nytl/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index 721e25e..d0eef2e 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -271,7 +271,7 @@ template<typename T>
 }
 
 [[nodiscard]] inline double dot(const Quaternion& a, const Quaternion& b) {
-	return a.x * b.x + a.y * b.y + a.z * b.y * a.w * b.y;
+	return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w;
 }
 
 // https://en.wikipedia.org/wiki/Slerp
-- 
2.43.0


From af59eedfe88b228645c31d1ed51021531526e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 26/40] fix: slerp: negate the second quaternion to take the
 shorter path

---
 nytl/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index d0eef2e..c939e2a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -285,10 +285,10 @@ template<typename T>
     // the negation is applied to all four components. Fix by
     // reversing one quaternion.
     if (d < 0.0f) {
-        v1.x = v1.x;
-        v1.y = v1.y;
-        v1.z = v1.z;
-        v1.w = v1.w;
+        v1.x = -v1.x;
+        v1.y = -v1.y;
+        v1.z = -v1.z;
+        v1.w = -v1.w;
         d = -d;
     }
 
-- 
2.43.0


From ceda241860a7cfc205db2471a42ee88624184f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 27/40] fix: eulerAngles: return the classic euler angles in
 the order of the sequence

---
 nytl/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index c939e2a..bab2f9a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -345,9 +345,9 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 	auto classicEuler = [](double a, double b, double c, double d, double e,
 			double indet) {
 		auto res = std::array<double, 3> {
-			std::atan2(d, e),
-			std::acos(c),
 			std::atan2(a, b),
+			std::acos(c),
+			std::atan2(d, e),
 		};
 
 		if(std::abs(res[1]) < 0.001) {
-- 
2.43.0


From d4f083e0fa63525b0b8d55ec58711558b835414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 28/40] fix: eulerAngles: handle orientations with parallel
 first and third axis

---
 nytl/quaternion.hpp | 83 ++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 34 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index bab2f9a..af3e625 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm> // std::clamp
 #include <cmath> // std::sin
 #include <cassert>
 
@@ -340,32 +341,28 @@ enum class RotationSequence {
 // the given quaternion.
 [[nodiscard]] inline std::array<double, 3>
 eulerAngles(const Quaternion& q, RotationSequence seq) {
-	// TODO: 'indet' handling somewhat hacky atm. We need that value
-	// in case the middle rotation is zero (indeterminite case)
-	auto classicEuler = [](double a, double b, double c, double d, double e,
-			double indet) {
-		auto res = std::array<double, 3> {
-			std::atan2(a, b),
-			std::acos(c),
-			std::atan2(d, e),
-		};
-
-		if(std::abs(res[1]) < 0.001) {
-			// need different handling in this case.
-			// (basically middle angle is zero, getting undefined
-			// results atm).
-			return std::array<double, 3>{std::asin(indet), 0.0, 0.0};
+	// When the first and the third axis are parallel (gimbal lock), only their combined
+	// rotation is determined and we can choose the third angle to be zero. The first one
+	// then follows from 'is' and 'ic', its sine and cosine in that case.
+	constexpr auto lockThreshold = 1e-6;
+	auto classicEuler = [=](double a, double b, double c, double d, double e,
+			double is, double ic) {
+		auto middle = std::acos(std::clamp(c, -1.0, 1.0));
+		if(std::hypot(a, b) < lockThreshold) {
+			return std::array<double, 3>{std::atan2(is, ic), middle, 0.0};
 		}
 
-		return res;
+		return std::array<double, 3>{std::atan2(a, b), middle, std::atan2(d, e)};
 	};
 
-	auto taitBryan = [](double a, double b, double c, double d, double e) {
-		return std::array<double, 3> {
-			std::atan2(a, b),
-			std::asin(c),
-			std::atan2(d, e),
-		};
+	auto taitBryan = [=](double a, double b, double c, double d, double e,
+			double is, double ic) {
+		auto middle = std::asin(std::clamp(c, -1.0, 1.0));
+		if(std::hypot(a, b) < lockThreshold) {
+			return std::array<double, 3>{std::atan2(is, ic), middle, 0.0};
+		}
+
+		return std::array<double, 3>{std::atan2(a, b), middle, std::atan2(d, e)};
 	};
 
 	switch(seq){
@@ -376,7 +373,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y - q.w * q.z),
 			2 * (q.x * q.z + q.w * q.y),
-			2 * (q.w * q.x + q.y * q.z));
+			2 * (q.w * q.x + q.y * q.z),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 	case RotationSequence::xzx:
 		return classicEuler(
 			2 * (q.x * q.z - q.w * q.y),
@@ -384,7 +382,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 			-2 * (q.x * q.y - q.w * q.z),
-			2 * (q.w * q.x + q.y * q.z));
+			2 * (q.w * q.x - q.y * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::yxy:
 		return classicEuler(
 			2 * (q.x * q.y - q.w * q.z),
@@ -392,7 +391,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			2 * (q.w * q.y + q.x * q.z));
+			2 * (q.w * q.y - q.x * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::yzy:
 		return classicEuler(
 			2 * (q.y * q.z + q.w * q.x),
@@ -400,7 +400,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			2 * (q.w * q.y + q.x * q.z));
+			2 * (q.w * q.y + q.x * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::zxz:
 		return classicEuler(
 			2 * (q.x * q.z + q.w * q.y),
@@ -408,7 +409,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			2 * (q.x * q.y + q.w * q.z));
+			2 * (q.w * q.z + q.x * q.y),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::zyz:
 		return classicEuler(
 			2 * (q.y * q.z - q.w * q.x),
@@ -416,7 +418,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			2 * (q.x * q.y + q.w * q.z));
+			2 * (q.w * q.z - q.x * q.y),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 
 	case RotationSequence::xyz:
 		return taitBryan(
@@ -424,42 +427,54 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 		   -2 * (q.x * q.y - q.w * q.z),
-			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
+			2 * (q.w * q.x + q.y * q.z),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 	case RotationSequence::xzy:
 		return taitBryan(
 			2 * (q.y * q.z + q.w * q.x),
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			-2 *(q.x * q.y - q.w * q.z),
 			2 *(q.x * q.z + q.w * q.y),
-			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
+			2 * (q.w * q.x - q.y * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::yxz:
 		return taitBryan(
 			2 * (q.x * q.z + q.w * q.y),
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			-2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
+			2 * (q.w * q.y - q.x * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::yzx:
 		return taitBryan(
 			-2 * (q.x * q.z - q.w * q.y),
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
+			2 * (q.w * q.y + q.x * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::zxy:
 		return taitBryan(
 			-2 * (q.x * q.y - q.w * q.z),
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
+			2 * (q.w * q.z + q.x * q.y),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::zyx:
 	  	return taitBryan(
 			2 * (q.x * q.y + q.w * q.z),
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			-2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
+			2 * (q.w * q.z - q.x * q.y),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 
 	default:
 		assert(false && "Invalid rotation sequence");
-- 
2.43.0


From 207b382348322232fdf09206780efbf9a8fd6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:23 +0000
Subject: [PATCH 29/40] fix: transform: make all functions work for double
 precision (did not compile)

---
 nytl/transform.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index 30a6054..ae01fbf 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -76,10 +76,10 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 		}};
 	}
 
-	const float a = P(1.0) / (P(1.0) + dir.z);
-	const float b = -dir.x * dir.y * a;
-	auto b1 = Vec3f{P(1.0) - dir.x * dir.x * a, b, -dir.x};
-	auto b2 = Vec3f{b, P(1.0) - dir.y * dir.y * a, -dir.y};
+	const P a = P(1.0) / (P(1.0) + dir.z);
+	const P b = -dir.x * dir.y * a;
+	auto b1 = Vec3<P>{P(1.0) - dir.x * dir.x * a, b, -dir.x};
+	auto b2 = Vec3<P>{b, P(1.0) - dir.y * dir.y * a, -dir.y};
 	return {b1, b2};
 }
 
@@ -87,7 +87,7 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][i] *= s[i];
 	}
@@ -99,7 +99,7 @@ SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> translateMat(const Vec<R, P>& t) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][D - 1] = t[i];
 	}
@@ -268,7 +268,7 @@ SquareMat<D, P> flippedZ(SquareMat<D, P> mat) {
 // (still mapping near to 0, far to 1).
 template<typename P> [[nodiscard]]
 SquareMat<4, P> ortho(P left, P right, P bot, P top, P near, P far) {
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 	ret[0][0] = P(2) / (right - left);
 	ret[1][1] = P(2) / (top - bot);
 	ret[2][2] = P(1) / (far - near);
@@ -314,7 +314,7 @@ Mat4<P> frustum(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -337,7 +337,7 @@ Mat4<P> frustumRev(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -362,7 +362,7 @@ Mat4<P> frustumRevInf(P left, P right, P bot, P top, P near) {
 	assert((near != 0) && "near must not be zero");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -457,9 +457,9 @@ template<size_t D = 4, typename P> [[nodiscard]]
 SquareMat<D, P> lookAt(const Quaternion& rot, Vec3<P> pos) {
 	// transpose is same as inverse for rotation matrices
 	auto ret = transpose(toMat<4, P>(rot));
-	ret[0][3] = -dot(pos, Vec3f(ret[0]));
-	ret[1][3] = -dot(pos, Vec3f(ret[1]));
-	ret[2][3] = -dot(pos, Vec3f(ret[2]));
+	ret[0][3] = -dot(pos, Vec3<P>(ret[0]));
+	ret[1][3] = -dot(pos, Vec3<P>(ret[1]));
+	ret[2][3] = -dot(pos, Vec3<P>(ret[2]));
 	return ret;
 
 	// reference implementation, same result but slower
-- 
2.43.0


From a917964386bc503e767ff3eda13574ad99ac1d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 30/40] fix: orientMat: map 'from' to 'to' for 2D vectors that
 are not unit vectors

---
 nytl/transform.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index ae01fbf..ac8dee4 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -127,8 +127,9 @@ SquareMat<D, P> rotateMat(P rot) {
 // When 'from' or 'to' are not unit vectors, will also accord for the scale.
 template<size_t D = 4, typename P = float> [[nodiscard]]
 SquareMat<D, P> orientMat(Vec2<P> from, Vec2<P> to) {
-	const auto c = dot(from, to);
-	const auto s = cross(from, to);
+	const auto l = dot(from, from);
+	const auto c = dot(from, to) / l;
+	const auto s = cross(from, to) / l;
 	return expandIdentity<D, P>(Mat2<P>{
 		c, -s,
 		s, c,
-- 
2.43.0


From 644ffd8ddd62beed3488fe5c9d316c150ad59712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 31/40] fix: BasicStringParam: make default-constructed objects
 null-terminated

---
 nytl/stringParam.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nytl/stringParam.hpp b/nytl/stringParam.hpp
index 9622830..2db3e52 100644
--- a/nytl/stringParam.hpp
+++ b/nytl/stringParam.hpp
@@ -22,11 +22,15 @@ public:
 	using string = std::basic_string<Char>;
 
 public:
-	constexpr BasicStringParam() = default;
+	constexpr BasicStringParam() : string_view(empty_, 0) {}
 	constexpr BasicStringParam(const Char* cstr) : string_view(cstr) {}
 	BasicStringParam(const string& str) : string_view(str.c_str()) {}
 
 	const Char* c_str() const { return this->data(); }
+
+protected:
+	// A default-constructed object must be null-terminated as well
+	static constexpr Char empty_[1] {};
 };
 
 using StringParam = BasicStringParam<char>;
-- 
2.43.0


From 07e2c31ea7407062c20273054fe90aea6fdae590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:06 +0000
Subject: [PATCH 32/40] fix: isCallable, FunctionTraits: support noexcept
 functions

---
 nytl/functionTraits.hpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/nytl/functionTraits.hpp b/nytl/functionTraits.hpp
index a2dc625..019b967 100644
--- a/nytl/functionTraits.hpp
+++ b/nytl/functionTraits.hpp
@@ -56,6 +56,23 @@ struct FunctionTraits<Ret(C::*)(Args...) const> : public FunctionTraits<Ret(Args
 	using Class = const C;
 };
 
+// noexcept functions. Since C++17, noexcept is part of the function type
+template<typename Ret, typename... Args>
+struct FunctionTraits<Ret(Args...) noexcept> : public FunctionTraits<Ret(Args...)> {};
+
+template<typename Ret, typename... Args>
+struct FunctionTraits<Ret(Args...) const noexcept> : public FunctionTraits<Ret(Args...) const> {};
+
+template<typename Ret, typename... Args>
+struct FunctionTraits<Ret(*)(Args...) noexcept> : public FunctionTraits<Ret(*)(Args...)> {};
+
+template<typename C, typename Ret, typename... Args>
+struct FunctionTraits<Ret(C::*)(Args...) noexcept> : public FunctionTraits<Ret(C::*)(Args...)> {};
+
+template<typename C, typename Ret, typename... Args>
+struct FunctionTraits<Ret(C::*)(Args...) const noexcept> :
+	public FunctionTraits<Ret(C::*)(Args...) const> {};
+
 // functor, class
 template<typename F>
 struct FunctionTraits : public FunctionTraits<decltype(&F::operator())> {};
@@ -103,6 +120,22 @@ struct IsCallableImpl<R(&)(Args...)> : public std::true_type {};
 template<typename R, typename... Args>
 struct IsCallableImpl<R(Args...)> : public std::true_type {};
 
+// the same for noexcept functions
+template<typename R, typename S, typename... Args>
+struct IsCallableImpl<R(S::*)(Args...) noexcept> : public std::true_type {};
+
+template<typename R, typename S, typename... Args>
+struct IsCallableImpl<R(S::*)(Args...) const noexcept> : public std::true_type {};
+
+template<typename R, typename... Args>
+struct IsCallableImpl<R(*)(Args...) noexcept> : public std::true_type {};
+
+template<typename R, typename... Args>
+struct IsCallableImpl<R(&)(Args...) noexcept> : public std::true_type {};
+
+template<typename R, typename... Args>
+struct IsCallableImpl<R(Args...) noexcept> : public std::true_type {};
+
 // FunctionTraitsBase
 template<bool ConstSig, typename Ret, typename... Args>
 struct FunctionTraitsBase {
-- 
2.43.0


From 4451913fc3b4221e461e9617fba1ee3f329c0f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 33/40] fix: ProhibitByteConversion was ignored for const
 objects (so by every write)

---
 nytl/bytes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/bytes.hpp b/nytl/bytes.hpp
index 6a0fc2a..c160709 100644
--- a/nytl/bytes.hpp
+++ b/nytl/bytes.hpp
@@ -62,7 +62,7 @@ template<typename T> struct ProhibitByteConversion<span<T>> :
 template<typename T> constexpr auto BytesConvertible =
 	std::is_trivially_copyable_v<T> &&
 	std::is_standard_layout_v<T> &&
-	!ProhibitByteConversion<T>::value;
+	!ProhibitByteConversion<std::remove_cv_t<T>>::value;
 
 // Convert objects to their ReadBuf/WriteBuf representation.
 template<typename T>
-- 
2.43.0


From 82f945f83542159dd528a725fb55e15fb2b3300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 34/40] fix: span constructed from a std::array of derived
 objects read with the wrong stride

The constructor from std::array accepted arrays of any type whose pointers
convert; elements after the first were not the ones of the array. It now has
the constraint all other constructors have.
---
 nytl/span.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nytl/span.hpp b/nytl/span.hpp
index 18b204a..7938278 100644
--- a/nytl/span.hpp
+++ b/nytl/span.hpp
@@ -141,7 +141,9 @@ public:
     constexpr span(element_type (&arr)[N]) noexcept
         : storage_(KnownNotNull{&arr[0]}, details::extent_type<N>()) {}
 
-    template <std::size_t N, class ArrayElementType = std::remove_const_t<element_type>>
+    template <std::size_t N, class ArrayElementType = std::remove_const_t<element_type>,
+        class = std::enable_if_t<
+            details::is_allowed_element_type_conversion<ArrayElementType, element_type>::value>>
     constexpr span(std::array<ArrayElementType, N>& arr) noexcept
         : storage_(&arr[0], details::extent_type<N>()) {}
 
-- 
2.43.0


From eee56251c628ee0ddda79352b3cca463b97ee3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 35/40] fix: span of an empty std::array accessed its first
 element

Constructing a span from std::array<T, 0> called operator[] on it, which is
undefined and traps with libstdc++. Use data() instead.
---
 nytl/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/span.hpp b/nytl/span.hpp
index 7938278..8072d5e 100644
--- a/nytl/span.hpp
+++ b/nytl/span.hpp
@@ -145,11 +145,11 @@ public:
         class = std::enable_if_t<
             details::is_allowed_element_type_conversion<ArrayElementType, element_type>::value>>
     constexpr span(std::array<ArrayElementType, N>& arr) noexcept
-        : storage_(&arr[0], details::extent_type<N>()) {}
+        : storage_(arr.data(), details::extent_type<N>()) {}
 
     template <std::size_t N>
     constexpr span(const std::array<std::remove_const_t<element_type>, N>& arr) noexcept
-        : storage_(&arr[0], details::extent_type<N>()) {}
+        : storage_(arr.data(), details::extent_type<N>()) {}
 
 	// Allows direct initialization as in `f({1, 2, 3})`
 	// Otherwise `f({{1, 2, 3}})` is needed (at least with clang?)
-- 
2.43.0


From c7ee2c170a8b4d2acdcbdf532bce959300cca84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 36/40] fix: base() returned vectors that are not orthogonal
 for directions close to -z

The vectors deviated by up to 0.01 (0.004 with double) from orthonormality
around the singularity of Frisvad's formula; use the robust variant of it.
---
 nytl/transform.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index ac8dee4..fce7090 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -68,18 +68,13 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 	// normalize(b2);
 	// return {cross(b2, dir), b2};
 
-	// [efficient implementation, frisvad]
-	if(dir.z < P(-0.99999f)) { // singularity
-		return {{
-			{P(0.0), P(-1.0), P(0.0)},
-			{P(-1.0), P(0.0), P(0.0)}
-		}};
-	}
-
-	const P a = P(1.0) / (P(1.0) + dir.z);
-	const P b = -dir.x * dir.y * a;
-	auto b1 = Vec3<P>{P(1.0) - dir.x * dir.x * a, b, -dir.x};
-	auto b2 = Vec3<P>{b, P(1.0) - dir.y * dir.y * a, -dir.y};
+	// [frisvad, made numerically robust for dir.z close to -1]
+	// see jcgt.org/published/0006/01/01 (duff et al.)
+	const P s = std::copysign(P(1.0), dir.z);
+	const P a = P(-1.0) / (s + dir.z);
+	const P b = dir.x * dir.y * a;
+	auto b1 = Vec3<P>{P(1.0) + s * dir.x * dir.x * a, s * b, -s * dir.x};
+	auto b2 = Vec3<P>{b, s + dir.y * dir.y * a, -dir.y};
 	return {b1, b2};
 }
 
-- 
2.43.0


From 7e9fcbe3dcc20d7818dcd1a9a1734b9d8eb20f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 37/40] fix: ProhibitByteConversion did not cover spans of
 static extent

bytes() of such spans of elements that cannot be converted fell back to
the representation of the span object itself, i.e. wrote the pointer.
---
 nytl/bytes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/bytes.hpp b/nytl/bytes.hpp
index c160709..733b38c 100644
--- a/nytl/bytes.hpp
+++ b/nytl/bytes.hpp
@@ -56,7 +56,7 @@ template<typename T> struct ProhibitByteConversion :
 	public std::false_type {};
 template<typename T> struct ProhibitByteConversion<std::initializer_list<T>> :
 	public std::true_type {};
-template<typename T> struct ProhibitByteConversion<span<T>> :
+template<typename T, std::size_t S> struct ProhibitByteConversion<span<T, S>> :
 	public std::true_type {};
 
 template<typename T> constexpr auto BytesConvertible =
-- 
2.43.0


From 4e74218c570bdd10ecbc81f9b249b2f09e1b6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 38/40] fix: connection.hpp and utf.hpp did not include
 <cstdint> for the types they use

---
 nytl/connection.hpp | 1 +
 nytl/utf.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 6268938..a73a1eb 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -9,6 +9,7 @@
 #ifndef NYTL_INCLUDE_CONNECTION
 #define NYTL_INCLUDE_CONNECTION
 
+#include <cstdint> // std::int64_t
 #include <iostream> // std::cerr
 #include <exception> // std::exception
 #include <memory> // std::shared_ptr
diff --git a/nytl/utf.hpp b/nytl/utf.hpp
index 6a2994f..ab224dc 100644
--- a/nytl/utf.hpp
+++ b/nytl/utf.hpp
@@ -9,6 +9,7 @@
 #ifndef NYTL_INCLUDE_UTF
 #define NYTL_INCLUDE_UTF
 
+#include <cstdint> // std::uint8_t
 #include <string> // std::string
 #include <string_view> // std::string_view
 #include <array> // std::array
-- 
2.43.0


From 625e13de1dc63f88816b0051685e53239dcb86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 39/40] fix: normals of vectors with small integer components
 did not compile

-x is an int for them, which may not be narrowed in a braced initializer (an error with clang).
---
 nytl/vecOps.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/vecOps.hpp b/nytl/vecOps.hpp
index ca6a93f..cb832e8 100644
--- a/nytl/vecOps.hpp
+++ b/nytl/vecOps.hpp
@@ -162,13 +162,13 @@ namespace rho {
 /// Returns the left normal of a 2 dimensional vector.
 template<typename T>
 [[deprecated]] Vec2<T> lnormal(Vec2<T> vec) {
-	return {-vec[1], vec[0]};
+	return {static_cast<T>(-vec[1]), vec[0]};
 }
 
 /// Returns the right normal of a 2 dimensional vector.
 template<typename T>
 [[deprecated]] Vec2<T> rnormal(Vec2<T> vec) {
-	return {vec[1], -vec[0]};
+	return {vec[1], static_cast<T>(-vec[0])};
 }
 
 } // namespace rho
@@ -179,13 +179,13 @@ namespace lho {
 /// Returns the left normal of a 2 dimensional vector.
 template<typename T>
 [[deprecated]] Vec2<T> lnormal(Vec2<T> vec) {
-	return {vec[1], -vec[0]};
+	return {vec[1], static_cast<T>(-vec[0])};
 }
 
 /// Returns the right normal of a 2 dimensional vector.
 template<typename T>
 [[deprecated]] Vec2<T> rnormal(Vec2<T> vec) {
-	return {-vec[1], vec[0]};
+	return {static_cast<T>(-vec[1]), vec[0]};
 }
 
 } // namespace rho
-- 
2.43.0


From 2f974d85c97415d307d572e98c03d5f4f9f8d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 40/40] fix: approximations of long doubles were compared with
 the precision of double depending on the side

---
 nytl/approx.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/approx.hpp b/nytl/approx.hpp
index 7768ee0..44d0ee6 100644
--- a/nytl/approx.hpp
+++ b/nytl/approx.hpp
@@ -47,13 +47,13 @@ public:
 		return std::abs(lhs - rhs.value) < rhs.epsilon * (1 + max);
 	}
 
-	friend bool operator==(const Approx& lhs, double rhs) {
+	friend bool operator==(const Approx& lhs, T rhs) {
 		return operator==(rhs, lhs);
 	}
-	friend bool operator!=(double lhs, const Approx& rhs) {
+	friend bool operator!=(T lhs, const Approx& rhs) {
 		return !operator==(lhs, rhs);
 	}
-	friend bool operator!=(const Approx& lhs, double rhs) {
+	friend bool operator!=(const Approx& lhs, T rhs) {
 		return !operator==(lhs, rhs);
 	}
 
-- 
2.43.0

