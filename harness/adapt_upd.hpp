// Shared by the adapters over the library
#pragma once
#include <upd/format.hpp>
#include <upd/type.hpp>

#include "adapt_common.hpp"

inline Fmt fmt_of(upd::endianess e, upd::signed_mode s) {
  Fmt f;
  f.big = e == upd::endianess::BIG;
  f.mode = s == upd::signed_mode::SIGNED_MAGNITUDE  ? 0
           : s == upd::signed_mode::ONES_COMPLEMENT ? 1
           : s == upd::signed_mode::TWOS_COMPLEMENT ? 2
                                                    : 3;
  return f;
}

// The object is allocated by the harness and constructed by the library
template<class X, class... A>
X *build(A &&...a) {
  void *m = ::operator new(sizeof(X));
  Lib l;
  return ::new (m) X(std::forward<A>(a)...);
}
