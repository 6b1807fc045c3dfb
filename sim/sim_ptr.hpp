// Self-relative fancy pointer.  Two uses: (1) data structures built from it must
// survive being moved as one block to another address; (2) every read of a link
// is a scheduling point of the simulator, so interleavings are explored at the
// granularity of single pointer loads.
#pragma once
#include "sim.hpp"
#include <type_traits>
#include <iterator>
#include <boost/intrusive/pointer_traits.hpp>

namespace sim {
inline void ptr_load() {
  ++g.derefs;
  if (g.in_fibers) fiber_yield(20);
}
template <class T> class sim_ptr {
  typedef intptr_t I;
  I off_;                                   // 1 == null
  static I enc(const void *self, const void *p) { return p ? (I)p - (I)self : 1; }
  void *dec() const { return off_ == 1 ? nullptr : (void *)((I)this + off_); }
  template <class U> friend class sim_ptr;
public:
  typedef T element_type;
  typedef T value_type;
  typedef std::ptrdiff_t difference_type;
  typedef sim_ptr pointer;
  typedef typename std::conditional<std::is_void<T>::value, char, typename std::remove_const<T>::type>::type nv_;
  typedef typename std::add_lvalue_reference<typename std::conditional<std::is_void<T>::value, char, T>::type>::type reference;
  typedef std::random_access_iterator_tag iterator_category;
  template <class U> struct rebind { typedef sim_ptr<U> other; };

  sim_ptr() : off_(1) {}
  sim_ptr(std::nullptr_t) : off_(1) {}
  explicit sim_ptr(T *p) : off_(enc(this, p)) {}
  sim_ptr(const sim_ptr &o) : off_(enc(this, o.raw())) {}
  template <class U, class = typename std::enable_if<std::is_convertible<U *, T *>::value>::type>
  sim_ptr(const sim_ptr<U> &o) : off_(enc(this, (T *)o.raw())) {}
  sim_ptr &operator=(const sim_ptr &o) { shadow_check(this); off_ = enc(this, o.raw()); return *this; }
  sim_ptr &operator=(T *p) { shadow_check(this); off_ = enc(this, p); return *this; }
  sim_ptr &operator=(std::nullptr_t) { shadow_check(this); off_ = 1; return *this; }
  T *raw() const { ptr_load(); shadow_check(this); return (T *)dec(); }
  T *get() const { return raw(); }
  T *operator->() const { T *p = raw(); shadow_check(p); return p; }
  template <class U = T> typename std::add_lvalue_reference<U>::type operator*() const { return *raw(); }
  template <class U = T> typename std::add_lvalue_reference<U>::type operator[](std::ptrdiff_t i) const { return raw()[i]; }
  explicit operator bool() const { shadow_check(this); return off_ != 1; }
  bool operator!() const { shadow_check(this); return off_ == 1; }
  sim_ptr &operator+=(std::ptrdiff_t n) { *this = sim_ptr(raw() + n); return *this; }
  sim_ptr &operator-=(std::ptrdiff_t n) { *this = sim_ptr(raw() - n); return *this; }
  sim_ptr &operator++() { return *this += 1; }
  sim_ptr &operator--() { return *this -= 1; }
  sim_ptr operator++(int) { sim_ptr t(*this); ++*this; return t; }
  sim_ptr operator--(int) { sim_ptr t(*this); --*this; return t; }
  sim_ptr operator+(std::ptrdiff_t n) const { return sim_ptr(raw() + n); }
  sim_ptr operator-(std::ptrdiff_t n) const { return sim_ptr(raw() - n); }
  std::ptrdiff_t operator-(const sim_ptr &o) const { return raw() - o.raw(); }
  template <class U = T> static sim_ptr pointer_to(typename std::add_lvalue_reference<U>::type r) { return sim_ptr(std::addressof(r)); }
  template <class U> static sim_ptr static_cast_from(const sim_ptr<U> &o) { return sim_ptr(static_cast<T *>(o.raw())); }
  template <class U> static sim_ptr const_cast_from(const sim_ptr<U> &o) { return sim_ptr(const_cast<T *>(o.raw())); }
  template <class U> static sim_ptr dynamic_cast_from(const sim_ptr<U> &o) { return sim_ptr(dynamic_cast<T *>(o.raw())); }
  template <class U> static sim_ptr reinterpret_cast_from(const sim_ptr<U> &o) { return sim_ptr(reinterpret_cast<T *>(o.raw())); }
  friend bool operator==(const sim_ptr &a, const sim_ptr &b) { return a.raw() == b.raw(); }
  friend bool operator!=(const sim_ptr &a, const sim_ptr &b) { return a.raw() != b.raw(); }
  friend bool operator<(const sim_ptr &a, const sim_ptr &b) { return a.raw() < b.raw(); }
  friend bool operator>(const sim_ptr &a, const sim_ptr &b) { return a.raw() > b.raw(); }
  friend bool operator<=(const sim_ptr &a, const sim_ptr &b) { return a.raw() <= b.raw(); }
  friend bool operator>=(const sim_ptr &a, const sim_ptr &b) { return a.raw() >= b.raw(); }
  friend bool operator==(const sim_ptr &a, std::nullptr_t) { return !a; }
  friend bool operator!=(const sim_ptr &a, std::nullptr_t) { return !!a; }
};
template <class T> inline T *to_raw(T *p) { return p; }
template <class T> inline T *to_raw(const sim_ptr<T> &p) { return p.raw(); }
} // namespace sim
