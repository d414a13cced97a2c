From 21f8e017dff5fa03e99f4acca31e211b17e1d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 01/20] fix: size output buffers after the return types instead
 of the parameters

The output buffer of a buffered dispatcher was as large as the largest parameter
list, hence overrun by any function returning more bytes than that.
---
 include/upd/buffered_dispatcher.hpp          |  6 ++++--
 include/upd/detail/type_traits/signature.hpp | 11 +++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 081f0b0..5d239b3 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -20,6 +20,7 @@
 #include "detail/type_traits/typelist.hpp"
 
 // IWYU pragma: no_forward_declare upd::detail::map_parameters_size
+// IWYU pragma: no_forward_declare upd::detail::map_return_type_size
 
 namespace upd {
 namespace detail {
@@ -33,7 +34,7 @@ using needed_input_buffer_size =
 
 //! \brief How many bytes that would be needed to represent any action response of `Keyring`
 template<typename Keyring>
-using needed_output_buffer_size = detail::max<detail::map_parameters_size<typename Keyring::signatures_t::type>>;
+using needed_output_buffer_size = detail::max<detail::map_return_type_size<typename Keyring::signatures_t::type>>;
 
 } // namespace detail
 
@@ -377,7 +378,8 @@ public:
   double_buffered_dispatcher() = default;
 
 private:
-  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size];
+  // An array cannot be empty, even though there might not be any response to hold
+  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size > 0 ? output_buffer_size : 1];
 };
 
 #if __cplusplus >= 201703L
diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 661b5f0..eebe840 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -127,6 +127,17 @@ struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
+//! \name
+//! \brief Map `return_type_size` over a typelist of invocable type
+//! @{
+
+template<typename>
+struct map_return_type_size;
+template<typename... Fs>
+struct map_return_type_size<tlist_t<Fs...>> : tlist_t<return_type_size<Fs>...> {};
+
+//! @}
+
 UPD_DETAIL_MAKE_DETECTOR(
     has_signature_impl,
     UPD_PACK(typename F, typename R, typename... Args),
-- 
2.43.0


From f77b48bcc56dffe2fc001ae58b6e581ab042ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 02/20] fix: count serialized bytes rather than in-memory bytes
 of user-defined types

The length of a request, the sizes of a static action and the sizes of the buffers were
computed with sizeof, which differs from the size on the wire as soon as a
type with a user-defined extension has padding or members which are not sent.
---
 include/upd/detail/type_traits/signature.hpp | 13 +++++++++----
 include/upd/tuple.hpp                        |  4 +---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index eebe840..5c11d5d 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -6,6 +6,7 @@
 #include <type_traits>
 
 #include "detector.hpp"
+#include "remove_cv_ref.hpp"
 #include "typelist.hpp"
 
 #include "../../upd.hpp"
@@ -97,14 +98,17 @@ UPD_DETAIL_MAKE_DETECTOR(
 template<typename F>
 struct is_invocable : decltype(is_invocable_impl<F>(0)) {};
 
+template<typename>
+struct serialization_size; // IWYU pragma: keep
+
 //! \name
-//! \brief Sums the sizes of the parameters of `F`
+//! \brief Sums the sizes of the serialized parameters of `F`
 //! @{
 
 template<typename F>
 struct parameters_size : parameters_size<signature_t<F>> {};
 template<typename R, typename... Args>
-struct parameters_size<R(Args...)> : sum<detail::tlist_t<std::integral_constant<std::size_t, sizeof(Args)>...>> {};
+struct parameters_size<R(Args...)> : sum<detail::tlist_t<serialization_size<remove_cv_ref_t<Args>>...>> {};
 
 //! @}
 
@@ -119,11 +123,12 @@ struct map_parameters_size<tlist_t<Fs...>> : tlist_t<parameters_size<Fs>...> {};
 
 //! @}
 
-//! \brief Gets the size of the return type of `F`
+//! \brief Gets the size of the serialized return value of `F`
 template<typename F>
 struct return_type_size : return_type_size<detail::signature_t<F>> {};
 template<typename R, typename... Args>
-struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof(R)> {};
+struct return_type_size<R(Args...)>
+    : std::integral_constant<std::size_t, serialization_size<remove_cv_ref_t<R>>::value> {};
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
diff --git a/include/upd/tuple.hpp b/include/upd/tuple.hpp
index 18ed54f..1824bb3 100644
--- a/include/upd/tuple.hpp
+++ b/include/upd/tuple.hpp
@@ -62,9 +62,7 @@ constexpr std::size_t serialization_size_impl(int) {
 
 //! \brief Return the size in bytes occupied by the serialization of instances of the provided type (if serializable)
 template<typename T>
-struct serialization_size {
-  constexpr static auto value = serialization_size_impl<T>(0);
-};
+struct serialization_size : std::integral_constant<std::size_t, serialization_size_impl<T>(0)> {};
 
 //! \brief Make a tuple view according to a typelist
 template<endianess Endianess, signed_mode Signed_Mode, typename It, typename... Ts>
-- 
2.43.0


From 5de9fae0f27e7d7bbf8063de0411a0993e829bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 03/20] fix: serialize arrays of user-defined types and views
 over non-pointer iterators by serialized size

Elements were laid out every sizeof(element) bytes and copied through a buffer of
sizeof(T) bytes, so user-defined types were read and written past their
bytes, and arrays of them did not even compile.
---
 include/upd/detail/serialization.hpp | 19 ++++++++++++-------
 include/upd/tuple.hpp                |  4 ++++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index 37130b0..59b0801 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -11,6 +11,7 @@
 #include "endianess.hpp"
 #include "signed_representation.hpp"
 #include "type_traits/detector.hpp"
+#include "type_traits/remove_cv_ref.hpp"
 #include "type_traits/require.hpp"
 #include "type_traits/signature.hpp"
 
@@ -66,6 +67,8 @@ T read_as(const byte_t *sequence) {
 
   return detail::from_signed_mode<T, Signed_Mode>(tmp);
 }
+template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T> = 0>
+T read_as(const byte_t *sequence);
 template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_array<T> = 0>
 detail::array_t<T> read_as(const byte_t *sequence) {
   detail::array_t<T> retval;
@@ -74,11 +77,11 @@ detail::array_t<T> read_as(const byte_t *sequence) {
   constexpr auto size = retval.size();
 
   for (std::size_t i = 0; i < size; i++)
-    retval[i] = read_as<element_t, Endianess, Signed_Mode>(sequence + i * sizeof(element_t));
+    retval[i] = read_as<element_t, Endianess, Signed_Mode>(sequence + i * serialization_size<element_t>::value);
 
   return retval;
 }
-template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T> = 0>
+template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T>>
 T read_as(const byte_t *sequence) {
   auto view = detail::make_view_for<Endianess, Signed_Mode>(
       sequence, detail::examine_invocable<decltype(upd_extension<T>::unserialize)>{});
@@ -86,7 +89,7 @@ T read_as(const byte_t *sequence) {
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, typename It, detail::require_not_pointer<It> = 0>
 decltype(read_as<T, Endianess, Signed_Mode>(std::declval<byte_t *>())) read_as(It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
   for (byte_t &byte : buf)
     byte = *it++;
   return read_as<T, Endianess, Signed_Mode>(buf);
@@ -134,14 +137,16 @@ void write_as(const T &x, byte_t *sequence) {
 
   detail::to_endianess<Endianess>(sequence, tmp, sizeof(x));
 }
+template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T> = 0>
+void write_as(const T &x, byte_t *sequence);
 template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_array<T> = 0>
 void write_as(const T &array, byte_t *sequence) {
-  using element_t = decltype(array[0]);
+  using element_t = remove_cv_ref_t<decltype(array[0])>;
   constexpr auto array_size = sizeof(array) / sizeof(array[0]);
   for (std::size_t i = 0; i < array_size; i++)
-    write_as<Endianess, Signed_Mode>(array[i], sequence + i * sizeof(element_t));
+    write_as<Endianess, Signed_Mode>(array[i], sequence + i * serialization_size<element_t>::value);
 }
-template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T> = 0>
+template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T>>
 void write_as(const T &x, byte_t *sequence) {
   auto view = detail::make_view_for<Endianess, Signed_Mode>(
       sequence, detail::examine_invocable<decltype(upd_extension<T>::unserialize)>{});
@@ -149,7 +154,7 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, typename It, detail::require_not_pointer<It> = 0>
 void write_as(const T &value, It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
 
   write_as<Endianess, Signed_Mode>(value, buf);
   for (const byte_t &byte : buf)
diff --git a/include/upd/tuple.hpp b/include/upd/tuple.hpp
index 1824bb3..508d301 100644
--- a/include/upd/tuple.hpp
+++ b/include/upd/tuple.hpp
@@ -63,6 +63,10 @@ constexpr std::size_t serialization_size_impl(int) {
 //! \brief Return the size in bytes occupied by the serialization of instances of the provided type (if serializable)
 template<typename T>
 struct serialization_size : std::integral_constant<std::size_t, serialization_size_impl<T>(0)> {};
+template<typename T, std::size_t N>
+struct serialization_size<T[N]> : std::integral_constant<std::size_t, serialization_size<T>::value * N> {};
+template<typename T, std::size_t N>
+struct serialization_size<std::array<T, N>> : serialization_size<T[N]> {};
 
 //! \brief Make a tuple view according to a typelist
 template<endianess Endianess, signed_mode Signed_Mode, typename It, typename... Ts>
-- 
2.43.0


From 9b74bf6ec7001e71f9081933fa6c6d94bf47b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 04/20] fix: avoid overflows when converting the lowest two's
 complement value

Negating the lowest value of int and wider types is undefined behavior.
---
 include/upd/detail/signed_representation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/signed_representation.hpp b/include/upd/detail/signed_representation.hpp
index d34ad05..9f431ad 100644
--- a/include/upd/detail/signed_representation.hpp
+++ b/include/upd/detail/signed_representation.hpp
@@ -24,7 +24,7 @@ T from_signed_mode_impl(unsigned long long value) {
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 T from_signed_mode_impl(unsigned long long value) {
   constexpr auto sign_mask = 0b10000000ull << 8 * (sizeof(T) - 1);
-  return value & sign_mask ? T(-T(~value + 1)) : T(value);
+  return value & sign_mask ? T(-T(~value) - 1) : T(value);
 }
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 T from_signed_mode_impl(unsigned long long value) {
@@ -56,7 +56,7 @@ unsigned long long to_signed_mode_impl(T value) {
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(~(-value - 1));
+  return static_cast<unsigned long long>(value);
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-- 
2.43.0


From 8dc3deffb805da0f5ac44ab0e818d418eae9d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 05/20] fix: never copy received bytes into a bool

With the endianess of the platform provided, any byte other than 0 and 1 received as a
bool resulted in an invalid object, hence undefined behavior.
---
 include/upd/detail/endianess.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/endianess.hpp b/include/upd/detail/endianess.hpp
index 14561ef..1e8aa28 100644
--- a/include/upd/detail/endianess.hpp
+++ b/include/upd/detail/endianess.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <cstring>
+#include <type_traits>
 
 #include "../format.hpp"
 #include "../type.hpp"
@@ -37,14 +38,19 @@ T from_endianess_impl(const byte_t *raw_data, std::size_t n) {
 }
 
 //! \brief Interpret a sequence of byte as an integer according to the provided endianess
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess == Endianess)>
+//! \note A byte sequence may not be a valid object representation of `bool`, so it must never be copied into one.
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess == Endianess && !std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   auto retval = T(0);
   memcpy(&retval, raw_data, n);
 
   return retval;
 }
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess != Endianess)>
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess != Endianess || std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   return from_endianess_impl<T, Endianess>(raw_data, n);
 }
-- 
2.43.0


From 0f163e9b35070b9bf5341554e40e65277ab2e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 06/20] fix: store a copy of the callbacks given to an action
 as lvalues

A reference was stored instead, which dangles as soon as the callback is
destroyed before the action.
---
 include/upd/action.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 611a33b..692158a 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 
 #include "format.hpp"
 #include "tuple.hpp"
@@ -78,7 +79,11 @@ struct action_model_impl {
 
   explicit action_model_impl(F &&ftor) : ftor{UPD_FWD(ftor)} {}
 
-  F ftor;
+  // The model must own a copy of the functor, unless it is a function
+  using storage_t = typename std::
+      conditional<std::is_function<typename std::remove_reference<F>::type>::value, F, typename std::decay<F>::type>::type;
+
+  storage_t ftor;
 };
 
 //! \brief Abstract class used for setting up type erasure in the `action` class
@@ -110,7 +115,7 @@ public:
     action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;
   }
 
-  void operator()(src_t &&src, dest_t &&dest) final { return detail::call<tuple_t>(src, dest, UPD_FWD(m_impl.ftor)); }
+  void operator()(src_t &&src, dest_t &&dest) final { return detail::call<tuple_t>(src, dest, static_cast<F &&>(m_impl.ftor)); }
 
 private:
   impl_t m_impl;
-- 
2.43.0


From 219297b6d038045c4e648cdb003c7080f7f31d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 07/20] fix: expect a new packet after a callback has thrown

The dispatcher was left in the state it had on the last byte of the packet, so the
next byte made its byte count wrap around and the following ones were
written past the end of the input buffer.
---
 include/upd/buffered_dispatcher.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 5d239b3..b5fb3a7 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -264,12 +264,14 @@ private:
 
     auto *ibuf_ptr = derived().ibuf_begin();
     auto index = get_index([&]() { return *ibuf_ptr++; });
-    m_dispatcher[index]([&]() { return *ibuf_ptr++; },
-                        [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
 
+    // The state must be consistent if the callback throws
     m_is_index_loaded = false;
     m_load_count = sizeof(index_t);
     m_ibuf_next = 0;
+
+    m_dispatcher[index]([&]() { return *ibuf_ptr++; },
+                        [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
   }
 
   //! \copydoc dispatcher::get_index
-- 
2.43.0


From 041263fa716542d02054cb7e0346ce15175b3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 08/20] fix: let classes derived from buffered_dispatcher have
 other bases

reinterpret_cast does not adjust the pointer when buffered_dispatcher is not the
first base class or when the derived class is polymorphic.
---
 include/upd/buffered_dispatcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index b5fb3a7..d89b673 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -70,8 +70,8 @@ class buffered_dispatcher : public detail::immediate_reader<buffered_dispatcher<
                             public detail::immediate_process<buffered_dispatcher<D, Dispatcher>, packet_status> {
   using this_t = buffered_dispatcher<D, Dispatcher>;
 
-  D &derived() { return reinterpret_cast<D &>(*this); }
-  const D &derived() const { return reinterpret_cast<const D &>(*this); }
+  D &derived() { return static_cast<D &>(*this); }
+  const D &derived() const { return static_cast<const D &>(*this); }
 
 public:
   //! \copydoc dispatcher::index_t
-- 
2.43.0


From 6f0e5a3b5f9dddc78412040ca6baece487851db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 09/20] fix: accept lvalues when assigning a tuple-like object
 to another

Only temporaries were accepted, because the type deduced from an lvalue is a
reference, which is no tuple-like type.
---
 include/upd/tuple.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/upd/tuple.hpp b/include/upd/tuple.hpp
index 508d301..188dac9 100644
--- a/include/upd/tuple.hpp
+++ b/include/upd/tuple.hpp
@@ -118,8 +118,8 @@ public:
   //! \brief Copy each element of a tuple-like object into the content
   //! \param t Tuple-like object to copy from
   template<typename Tuple, UPD_REQUIREMENT(is_tuple, Tuple)>
-  D &operator=(Tuple &&t) {
-    lay_tuple(make_index_sequence<sizeof...(Ts)>{}, UPD_FWD(t));
+  D &operator=(const Tuple &t) {
+    lay_tuple(make_index_sequence<sizeof...(Ts)>{}, t);
     return derived();
   }
 
@@ -175,7 +175,7 @@ protected:
 
   //! \brief Lay the element of a tuple-like object into the content
   template<std::size_t... Is, typename T>
-  void lay_tuple(detail::index_sequence<Is...> is, T &&t) {
+  void lay_tuple(detail::index_sequence<Is...> is, const T &t) {
     lay(is, t.template get<Is>()...);
   }
 
-- 
2.43.0


From 9b5dab025c4ea5722e8e2e0cc842b3cba0379b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 10/20] fix: let dispatchers carry out functors held by
 keyrings

A callback with static storage duration is designated by a pointer in
template arguments. Dereference that pointer before deducing signatures
and before invoking it, so that invocable objects work as well as free
functions.
---
 include/upd/action.hpp                    | 24 ++++++++++++++++-------
 include/upd/detail/function_reference.hpp | 22 +++++++++++++++++++++
 include/upd/dispatcher.hpp                |  7 ++++---
 include/upd/key.hpp                       |  5 +++--
 include/upd/keyring.hpp                   |  3 ++-
 5 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 692158a..9b61541 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -124,23 +124,32 @@ private:
 //! \brief Wrap a callback with static storage duration or a free function into another free function
 //!
 //! This overload accepts any callback returning `void`.
-template<endianess Endianess, signed_mode Signed_Mode, typename F, F Ftor, UPD_REQUIREMENT(is_void, return_t<F>)>
+template<endianess Endianess,
+         signed_mode Signed_Mode,
+         typename F,
+         F Ftor,
+         UPD_REQUIREMENT(is_void, return_t<static_ftor_t<F>>)>
 void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
-  input_tuple<Endianess, Signed_Mode, F> parameters_tuple;
+  input_tuple<Endianess, Signed_Mode, static_ftor_t<F>> parameters_tuple;
   for (auto &byte : parameters_tuple)
     byte = src();
-  parameters_tuple.invoke(Ftor);
+  parameters_tuple.invoke(static_ftor<F, Ftor>());
 }
 
 //! \copybrief static_storage_duration_callback_wrapper
 //!
 //! This overload accepts any callback not returning `void`.
-template<endianess Endianess, signed_mode Signed_Mode, typename F, F Ftor, UPD_REQUIREMENT(not_void, return_t<F>)>
+template<endianess Endianess,
+         signed_mode Signed_Mode,
+         typename F,
+         F Ftor,
+         UPD_REQUIREMENT(not_void, return_t<static_ftor_t<F>>)>
 void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
-  input_tuple<Endianess, Signed_Mode, F> parameters_tuple;
+  input_tuple<Endianess, Signed_Mode, static_ftor_t<F>> parameters_tuple;
   for (auto &byte : parameters_tuple)
     byte = src();
-  auto return_tuple = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
+  auto return_tuple = make_tuple(
+      endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(static_ftor<F, Ftor>()));
   for (auto byte : return_tuple)
     dest(byte);
 }
@@ -219,7 +228,8 @@ public:
   template<typename F, F Ftor, endianess Endianess, signed_mode Signed_Mode>
   explicit no_storage_action(unevaluated<F, Ftor>, endianess_h<Endianess>, signed_mode_h<Signed_Mode>)
       : m_wrapper{detail::static_storage_duration_callback_wrapper<Endianess, Signed_Mode, F, Ftor>},
-        m_input_size{detail::parameters_size<F>::value}, m_output_size{detail::return_type_size<F>::value} {}
+        m_input_size{detail::parameters_size<detail::static_ftor_t<F>>::value},
+        m_output_size{detail::return_type_size<detail::static_ftor_t<F>>::value} {}
 
   //! \copydoc action::operator()()
   template<typename Src, typename Dest, UPD_REQUIREMENT(input_invocable, Src), UPD_REQUIREMENT(output_invocable, Dest)>
diff --git a/include/upd/detail/function_reference.hpp b/include/upd/detail/function_reference.hpp
index 08d52fa..d8a9a86 100644
--- a/include/upd/detail/function_reference.hpp
+++ b/include/upd/detail/function_reference.hpp
@@ -2,6 +2,9 @@
 
 #pragma once
 
+#include <type_traits>
+
+#include "type_traits/require.hpp"
 #include "type_traits/signature.hpp"
 
 namespace upd {
@@ -67,5 +70,24 @@ function_reference<F> make_function_reference(F &ftor) {
   return function_reference<F>(ftor);
 }
 
+//! \name
+//! \brief Get the invocable object designated by a template parameter, which is either a pointer or a reference
+//! @{
+
+template<typename F, F Ftor, UPD_REQUIRE(std::is_pointer<F>::value)>
+typename std::remove_pointer<F>::type &static_ftor() {
+  return *Ftor;
+}
+template<typename F, F Ftor, UPD_REQUIRE(!std::is_pointer<F>::value)>
+F static_ftor() {
+  return Ftor;
+}
+
+//! @}
+
+//! \brief Type of the invocable object designated by a template parameter of type `F`
+template<typename F>
+using static_ftor_t = typename std::remove_pointer<F>::type;
+
 } // namespace detail
 } // namespace upd
diff --git a/include/upd/dispatcher.hpp b/include/upd/dispatcher.hpp
index ea6d223..a106a9b 100644
--- a/include/upd/dispatcher.hpp
+++ b/include/upd/dispatcher.hpp
@@ -5,6 +5,7 @@
 #include <type_traits>
 
 #include "action.hpp"
+#include "detail/function_reference.hpp"
 #include "detail/io/immediate_process.hpp"
 #include "detail/static_error.hpp"
 #include "detail/type_traits/is_keyring.hpp"
@@ -44,7 +45,7 @@ template<action_features Action_Features,
          signed_mode Signed_Mode,
          UPD_REQUIRE(Action_Features == action_features::ANY)>
 action make_action() {
-  return action{Ftor, endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}};
+  return action{static_ftor<F, Ftor>(), endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}};
 }
 
 //! @}
@@ -154,7 +155,7 @@ public:
   template<index_t Index, typename F, F Ftor>
   void replace(unevaluated<F, Ftor>) {
     static_assert(Index < size, UPD_ERROR_OUT_OF_BOUND(Index));
-    static_assert(std::is_same<detail::at<signatures_t, Index>, detail::signature_t<F>>::value,
+    static_assert(std::is_same<detail::at<signatures_t, Index>, detail::signature_t<detail::static_ftor_t<F>>>::value,
                   UPD_ERROR_SIGNATURE_MISMATCH(Ftor));
 
     m_actions.content[Index] = detail::make_action<Action_Features, F, Ftor, endianess, signed_mode>();
@@ -170,7 +171,7 @@ public:
     static_assert(std::is_same<detail::at<signatures_t, Index>, detail::signature_t<decltype(Ftor)>>::value,
                   UPD_ERROR_SIGNATURE_MISMATCH(Ftor));
 
-    replace<Index>(unevaluated<decltype(Ftor) &, Ftor>{});
+    replace<Index>(unevaluated<typename std::remove_reference<decltype(Ftor)>::type *, &Ftor>{});
   }
 #endif // __cplusplus >= 201703L
 
diff --git a/include/upd/key.hpp b/include/upd/key.hpp
index f2819d3..cbe2ac0 100644
--- a/include/upd/key.hpp
+++ b/include/upd/key.hpp
@@ -5,6 +5,7 @@
 #include <type_traits>
 
 #include "action.hpp"
+#include "detail/function_reference.hpp"
 #include "detail/io/immediate_reader.hpp"
 #include "detail/serialized_message.hpp"
 #include "detail/static_error.hpp"
@@ -143,7 +144,7 @@ public:
   //! \copybrief with_hook
   //! \tparam Ftor Callback which will carry out the action
   //! \return an action holding the provided hook
-  template<typename F, F Ftor, UPD_REQUIREMENT(invocable, F)>
+  template<typename F, F Ftor, UPD_REQUIREMENT(invocable, detail::static_ftor_t<F>)>
   no_storage_action with_hook(unevaluated<F, Ftor>) const {
     return no_storage_action{unevaluated<F, Ftor>{}, endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}};
   }
@@ -154,7 +155,7 @@ public:
   //! \return an action holding the provided hook
   template<auto &Ftor, UPD_REQUIREMENT(invocable, decltype(Ftor))>
   auto with_hook() const {
-    return with_hook(unevaluated<decltype(Ftor), Ftor>{});
+    return with_hook(unevaluated<typename std::remove_reference<decltype(Ftor)>::type *, &Ftor>{});
   }
 #endif // __cplusplus >= 201703L
 
diff --git a/include/upd/keyring.hpp b/include/upd/keyring.hpp
index c378d53..47e396a 100644
--- a/include/upd/keyring.hpp
+++ b/include/upd/keyring.hpp
@@ -7,6 +7,7 @@
 #include "upd/detail/type_traits/remove_cv_ref.hpp"
 #include <type_traits>
 
+#include "detail/function_reference.hpp"
 #include "detail/type_traits/signature.hpp"
 #include "detail/type_traits/smallest.hpp"
 #include "detail/type_traits/typelist.hpp"
@@ -46,7 +47,7 @@ public:
   using flist_t = upd::flist_t<unevaluated<Fs, Functions>...>;
 
   //! \brief Typelist containing the signatures of the callbacks
-  using signatures_t = typelist_t<detail::signature_t<Fs>...>;
+  using signatures_t = typelist_t<detail::signature_t<detail::static_ftor_t<Fs>>...>;
 
   //! \brief Type of the index prepended to the payload when sending a packet to the callee
   using index_t = detail::smallest_unsigned_t<sizeof...(Fs)>;
-- 
2.43.0


From 6709b961f5db2436883b5f0767663afef7c01726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 11/20] fix: raise an error when decoding a too short payload
 from Python

Reading past the end of the payload dereferenced a null handle.
---
 include/upd/python.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index 1c5beb9..52dd2db 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -85,7 +85,9 @@ void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Ind
            [](key_t k, pybind11::object &pybytes) {
              auto it = pybytes.begin();
              return k.read_from([&]() {
-               ++it;
+               if (++it == pybytes.end())
+                 throw pybind11::value_error{"The payload is too short"};
+
                return it->cast<byte_t>();
              });
            })
-- 
2.43.0


From e93077c426af2a02661da97de4b195dc8fc785b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 12/20] fix: raise NotImplementedError from Client.new_request

NotImplemented is not callable.
---
 py/unpadded/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/unpadded/client.py b/py/unpadded/client.py
index fdc6a9f..b4e7990 100644
--- a/py/unpadded/client.py
+++ b/py/unpadded/client.py
@@ -1,6 +1,6 @@
 class Client:
     def new_request(self, payload):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     async def call(self, key, *args):
         response = await self.new_request(key.encode(*args))
-- 
2.43.0


From d35ab55da449a9442657e2ea4f050b411304b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 13/20] fix: let several keyrings expose keys of the same type
 to Python

Key types only depend on an index and a signature, so importing two
modules whose keyrings have a similar layout failed.
---
 include/upd/python.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index 52dd2db..5d94f11 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -68,12 +68,19 @@ const char *demangled_fname(const T &x) {
   return static_name.c_str();
 }
 
+//! \brief Key exposed to Python
+//!
+//! Key types only depend on the index and the signature of their callback, so they may be shared by several keyrings. On
+//! the other hand, a Python class may only be bound once to a given type.
+template<typename Keyring, typename Key>
+struct pykey : Key {};
+
 //! \brief Expose a \ref<key> key template instance to Python
 template<typename Keyring, typename Index_T, Index_T I, typename R, typename... Args, endianess E, signed_mode S>
-void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Index_T, I, R(Args...), E, S> k) {
-  using key_t = decltype(k);
+void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Index_T, I, R(Args...), E, S>) {
+  using key_t = pykey<Keyring, key<Index_T, I, R(Args...), E, S>>;
 
-  pybind11::class_<key_t>{pymodule, name}
+  pybind11::class_<key_t>{pymodule, name, pybind11::module_local{}}
       .def("encode",
            [](key_t k, const Args &...args) {
              byte_t buf[key_t::payload_length];
@@ -104,7 +111,7 @@ void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Ind
                       signed_mode_h<S>{}};
       });
 
-  pymodule.attr(name + 2) = k;
+  pymodule.attr(name + 2) = key_t{};
 }
 
 //! \brief Expose the \ref<key> key template instances of a \ref<keyring> keyring template instance to Python
-- 
2.43.0


From 112ad34a00e07b114f628917a1638af2d7a74228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 14/20] fix: expose functions declared inside scopes to Python

---
 include/upd/python.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index 5d94f11..e6c89e6 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -46,8 +46,9 @@ std::string demangle(const T &x) {
   free(cstr_name);
 
   // Grab [CALLBACK REFERENCE] in `upd::unevaluated<[CALLBACK TYPE], [CALLBACK REFERENCE]>` and remove the potential
-  // return type, parameters types and the `&` symbol
-  std::regex callback_name_re{"upd::unevaluated<.*,\\s\\&\\(?(\\w+)(\\(.*\\))?\\)?>$"};
+  // return type, parameters types, enclosing scopes and the `&` symbol
+  std::regex callback_name_re{
+      "upd::unevaluated<.*,\\s\\&\\(?(?:(?:\\w+|\\(anonymous namespace\\))::)*(\\w+)(\\(.*\\))?\\)?>$"};
   std::smatch match;
   if (std::regex_match(name, match, callback_name_re) && match.size() == 3) {
     return match[1];
-- 
2.43.0


From 9ccce41c8679cccaa58f22ca46febdfcfccd2d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 15/20] fix: let actions wrap functions returning types of
 namespace std

---
 include/upd/action.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 9b61541..3c2c64f 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -36,7 +36,7 @@ template<endianess Endianess, signed_mode Signed_Mode, typename T, UPD_REQUIREME
 void insert(dest_t &dest, const T &value) {
   using namespace upd;
 
-  auto output = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
+  auto output = upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
   for (byte_t byte : output)
     dest(byte);
 }
@@ -148,7 +148,7 @@ void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
   input_tuple<Endianess, Signed_Mode, static_ftor_t<F>> parameters_tuple;
   for (auto &byte : parameters_tuple)
     byte = src();
-  auto return_tuple = make_tuple(
+  auto return_tuple = upd::make_tuple(
       endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(static_ftor<F, Ftor>()));
   for (auto byte : return_tuple)
     dest(byte);
-- 
2.43.0


From 9a339e2a1da2e6f29d5aa21e482a0e180c5b8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 16/20] fix: raise ImportError when an imported source fails to
 build

---
 py/unpadded/hook.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/unpadded/hook.py b/py/unpadded/hook.py
index c08aad6..91800ad 100644
--- a/py/unpadded/hook.py
+++ b/py/unpadded/hook.py
@@ -36,6 +36,9 @@ class Hook:
             return module_data["module"]
         except ImportError:
             _logger.debug(traceback.format_exc())
+        except SystemExit as e:
+            # `setuptools` exits when the compilation fails
+            raise ImportError(f"Failed to build `{fullname}`: {e}", name=fullname) from e
         finally:
             self._running = False
 
-- 
2.43.0


From 03ba17445cb08b88459987c1d7e1acd404f1d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:20 +0000
Subject: [PATCH 17/20] fix: accept keys of functors when replying

---
 include/upd/detail/type_traits/is_key.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/upd/detail/type_traits/is_key.hpp b/include/upd/detail/type_traits/is_key.hpp
index 03fe501..cc685e0 100644
--- a/include/upd/detail/type_traits/is_key.hpp
+++ b/include/upd/detail/type_traits/is_key.hpp
@@ -16,10 +16,13 @@ namespace detail {
 //! \brief Check if `T` is a valid key
 //! @{
 
-template<typename T>
-struct is_key : std::false_type {};
 template<typename Index_T, Index_T I, typename R, typename... Args, endianess Endianess, signed_mode Signed_Mode>
-struct is_key<key<Index_T, I, R(Args...), Endianess, Signed_Mode>> : std::true_type {};
+std::true_type is_key_impl(const key<Index_T, I, R(Args...), Endianess, Signed_Mode> *);
+std::false_type is_key_impl(...);
+
+// Keys of functors derive from the keys of their signature
+template<typename T>
+struct is_key : decltype(is_key_impl(static_cast<T *>(nullptr))) {};
 
 //! @^}
 
-- 
2.43.0


From 9368473b385ed686013bb8884d35f3c731d31a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:26 +0000
Subject: [PATCH 18/20] fix: reject floating-point types, which were serialized
 as integers

---
 include/upd/detail/type_traits/require.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/upd/detail/type_traits/require.hpp b/include/upd/detail/type_traits/require.hpp
index c1dcdd0..00afd35 100644
--- a/include/upd/detail/type_traits/require.hpp
+++ b/include/upd/detail/type_traits/require.hpp
@@ -100,7 +100,7 @@ using require_unsigned_integer = require<std::is_unsigned<T>::value, U>;
 
 //! \brief Require the provided type to be a signed integer type
 template<typename T, typename U = int>
-using require_signed_integer = require<std::is_signed<T>::value, U>;
+using require_signed_integer = require<std::is_integral<T>::value && std::is_signed<T>::value, U>;
 
 //! \brief Require the provided type to be an bounded array type
 template<typename T, typename U = int>
-- 
2.43.0


From 830c6657ba46cbaf148482d30d3aa016805fc858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 19/20] fix: extension modules exposing dispatchers over
 functions of the same names could not be imported together

The type of a dispatcher only depends on the names and the types of its functions: another module of the same process
may have registered it already.
---
 include/upd/python.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index e6c89e6..d31d0cb 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -172,7 +172,8 @@ void declare_dispatcher(pybind11::module &pymodule, const char *name, Keyring ke
   using namespace pybind11::literals;
   using dispatcher_t = decltype(double_buffered_dispatcher{Keyring{}, policy::any_callback});
 
-  pybind11::class_<dispatcher_t>{pymodule, name}
+  // Another extension module may expose a dispatcher of the same type, as it may hold functions of the same names
+  pybind11::class_<dispatcher_t>{pymodule, name, pybind11::module_local{}}
       .def(pybind11::init<>())
       .def("read_from", [](dispatcher_t &self, const std::function<byte_t()> &src) { return self.read_from(src); })
       .def("write_to", [](dispatcher_t &self, const std::function<void(byte_t)> &dest) { self.write_to(dest); })
-- 
2.43.0


From ba41378b3ebee9d530755955d4027c76e8fb2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:59 +0000
Subject: [PATCH 20/20] fix: accept noexcept functions and functors in C++17

---
 include/upd/detail/type_traits/signature.hpp | 29 ++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 5c11d5d..2759751 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -70,6 +70,35 @@ template<typename R, typename C, typename... Args>
 struct examine_invocable_impl<R (C::*)(Args...) volatile &&> : signature<R(Args...)> {};
 template<typename R, typename C, typename... Args>
 struct examine_invocable_impl<R (C::*)(Args...) const volatile &&> : signature<R(Args...)> {};
+#if __cplusplus >= 201703L
+// The exception specification is a part of the type of a function
+template<typename R, typename... Args>
+struct examine_invocable_impl<R (*)(Args...) noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) volatile noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const volatile noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) & noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const & noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) volatile & noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const volatile & noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) && noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const && noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) volatile && noexcept> : signature<R(Args...)> {};
+template<typename R, typename C, typename... Args>
+struct examine_invocable_impl<R (C::*)(Args...) const volatile && noexcept> : signature<R(Args...)> {};
+#endif // __cplusplus >= 201703L
 template<>
 struct examine_invocable_impl<no_signature> : no_signature {};
 
-- 
2.43.0

