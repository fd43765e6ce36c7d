// stand-in for the progress display (sets the thread name): no effect on the computed fields
#pragma once
namespace libmpdataxx { namespace solvers { namespace detail {
  template <class T> inline void monitor(const T &) {}
} } }
