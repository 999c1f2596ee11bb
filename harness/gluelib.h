#pragma once
#include "imsg.h"
#include <cstring>
#include <new>
#include <type_traits>
#include <utility>
#include <Fields.h>
#include <FieldStringBytes.h>
#include <RepeatedFieldFixedSize.h>
#include <MessageInterface.h>

namespace gl {

template<class T, class = void> struct bits;
template<class T> struct bits<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static T to(uint64_t u) { return static_cast<T>(u); }
  static uint64_t from(T v) { return sizeof(T) == 8 ? static_cast<uint64_t>(v) : static_cast<uint64_t>(static_cast<uint32_t>(v)); } };
template<> struct bits<bool, void> { static bool to(uint64_t u) { return u != 0; } static uint64_t from(bool v) { unsigned char c; memcpy(&c, &v, 1); return c; } };
template<> struct bits<float, void> { static float to(uint64_t u) { uint32_t x = (uint32_t)u; float f; memcpy(&f, &x, 4); return f; } static uint64_t from(const float& v) { uint32_t x; memcpy(&x, &v, 4); return x; } };
template<> struct bits<double, void> { static double to(uint64_t u) { double f; memcpy(&f, &u, 8); return f; } static uint64_t from(const double& v) { uint64_t x; memcpy(&x, &v, 8); return x; } };
template<class T> struct bits<T, typename std::enable_if<std::is_enum<T>::value>::type> {
  static T to(uint64_t u) { return static_cast<T>(static_cast<uint32_t>(u)); } static uint64_t from(T v) { return static_cast<uint32_t>(v); } };

template<class T> uint64_t from(const T& v) { return bits<typename std::decay<T>::type>::from(v); }

[[noreturn]] void unsupported(const char* what);

// Call into the library.
#define EPC(expr) ([&]() -> decltype(auto) { EpScope ep_scope_; return expr; }())

template<class S> struct is_char_string : std::false_type {};
template<uint32_t N> struct is_char_string<EP::FieldString<N>> : std::true_type {};

template<class S, bool STR> struct StrExtra { static void set(S&, const char*) { unsupported("cstr"); } static void assign(S&, const char*) { unsupported("cstr"); } };
template<class S> struct StrExtra<S, true> { static void set(S& s, const char* c) { EpScope e; s.set(c); } static void assign(S& s, const char* c) { EpScope e; s = c; } };

template<class S> std::string str_content(const S& s) {
  return std::string(reinterpret_cast<const char*>(EPC(s.get_const())), EPC(s.get_length()));
}
template<class S> EP::Error str_set(S& s, const std::string& v) {
  typedef typename std::decay<decltype(s.get_const(0))>::type CH;
  static const CH dummy = 0;
  // Use an exact heap copy so that over-reads are detected.
  std::vector<CH> tmp(v.begin(), v.end());
  EpScope e;
  return s.set(v.empty() ? &dummy : tmp.data(), static_cast<uint32_t>(v.size()));
}

template<class S> struct StrView : IStr {
  S* s; explicit StrView(S& x) : s(&x) {}
  const S& c() const { return *s; }
  uint32_t len() const override { return EPC(c().get_length()); }
  uint32_t maxlen() const override { return EPC(c().get_max_length()); }
  std::string content() const override { return str_content(c()); }
  EP::Error set(const std::string& v) override { return str_set(*s, v); }
  void set_cstr(const char* v) override { StrExtra<S, is_char_string<S>::value>::set(*s, v); }
  void assign_cstr(const char* v) override { StrExtra<S, is_char_string<S>::value>::assign(*s, v); }
  bool is_string() const override { return is_char_string<S>::value; }
  void put(uint32_t i, char ch) override { EpScope e; (*s)[i] = ch; }
  char at(uint32_t i) const override { return static_cast<char>(EPC(c()[i])); }
  void clear() override { EpScope e; s->clear(); }
};
template<class S> IStrP strview(const S& s) { return IStrP(new StrView<S>(const_cast<S&>(s))); }

// Element access by kind.
struct KScalar {}; struct KStr {}; struct KMsg {};
template<class T> struct NoGlue {};

template<class E, class K, template<class> class G> struct ElemOps;
template<class E, template<class> class G> struct ElemOps<E, KScalar, G> {
  typedef typename E::TYPE V;
  static uint64_t scalar(const E& e) { return bits<V>::from(EPC(e.get())); }
  static std::string str(const E&) { unsupported("str"); }
  static IMsgP msg(const E&) { unsupported("msg"); }
  static IMsgP mut(E&) { unsupported("msg"); }
  static void put(E& e, const Elem& v) { EpScope s; e = bits<V>::to(v.u); }
};
template<class E, template<class> class G> struct ElemOps<E, KStr, G> {
  static uint64_t scalar(const E&) { unsupported("scalar"); }
  static std::string str(const E& e) { return str_content(e); }
  static IMsgP msg(const E&) { unsupported("msg"); }
  static IMsgP mut(E&) { unsupported("msg"); }
  static void put(E& e, const Elem& v) { str_set(e, v.s); }
};
template<class E, template<class> class G> struct ElemOps<E, KMsg, G> {
  static uint64_t scalar(const E&) { unsupported("scalar"); }
  static std::string str(const E&) { unsupported("str"); }
  static IMsgP msg(const E& e) { return IMsgP(new G<E>(const_cast<E*>(&e))); }
  static IMsgP mut(E& e) { return IMsgP(new G<E>(&e)); }
  static void put(E& e, const Elem& v) { G<E> g(&e); v.fill(g); }
};

template<class R> struct rep_elem;
template<class E, uint32_t N> struct rep_elem<EP::RepeatedFieldFixedSize<E, N>> { typedef E type; };

template<class R, class K, template<class> class G> struct RepView : IRep {
  typedef typename rep_elem<R>::type E; typedef ElemOps<E, K, G> O;
  R* r; explicit RepView(R& x) : r(&x) {}
  const R& c() const { return *r; }
  uint32_t len() const override { return EPC(c().get_length()); }
  uint32_t maxlen() const override { return EPC(c().get_max_length()); }
  uint64_t scalar(uint32_t i) const override { return O::scalar(EPC(c()[i])); }
  std::string str(uint32_t i) const override { return O::str(EPC(c()[i])); }
  IMsgP msg(uint32_t i) const override { return O::msg(EPC(c()[i])); }
  EP::Error add(const Elem& v) override { std::unique_ptr<E> e(new E()); O::put(*e, v); EpScope s; return r->add(*e); }
  void set(uint32_t i, const Elem& v) override { std::unique_ptr<E> e(new E()); O::put(*e, v); EpScope s; r->set(i, *e); }
  void put(uint32_t i, const Elem& v) override { O::put(EPC((*r)[i]), v); }
  EP::Error set_data(const std::vector<Elem>& v) override {
    std::unique_ptr<E[]> a(new E[v.size() + 1]()); for(size_t i = 0; i < v.size(); ++i) O::put(a[i], v[i]);
    EpScope s; return r->set_data(a.get(), static_cast<uint32_t>(v.size())); }
  IMsgP mut_msg(uint32_t i) override { return O::mut(EPC(r->get(i))); }
  void clear() override { EpScope s; r->clear(); }
};
template<class K, template<class> class G, class R> IRepP repview(const R& r) { return IRepP(new RepView<R, K, G>(const_cast<R&>(r))); }
template<class K, template<class> class G, class R> typename rep_elem<R>::type* mkelem(const R&, const Elem& v) {
  typedef typename rep_elem<R>::type E; E* e = new E(); ElemOps<E, K, G>::put(*e, v); return e; }
template<class K, template<class> class G, class E> void put_elem(E& e, const Elem& v) { ElemOps<E, K, G>::put(e, v); }
template<class K, template<class> class G, class E> uint64_t e_scalar(const E& e) { return ElemOps<E, K, G>::scalar(e); }
template<class K, template<class> class G, class E> std::string e_str(const E& e) { return ElemOps<E, K, G>::str(e); }
template<class K, template<class> class G, class E> IMsgP e_msg(const E& e) { return ElemOps<E, K, G>::msg(e); }

// Common part of the message glue.
template<class M> struct Base : IMsg {
  M* m; explicit Base(M* x) : m(x) {}
  const M& c() const { return *m; }
  EP::Error serialize(EP::WriteBufferInterface& b) const override { EpScope s; return c().serialize(b); }
  EP::Error serialize_with_id(uint32_t id, EP::WriteBufferInterface& b, bool o) const override { EpScope s; return c().serialize_with_id(id, b, o); }
  EP::Error deserialize(EP::ReadBufferInterface& b) override { EpScope s; return m->deserialize(b); }
  EP::Error deserialize_check_type(EP::ReadBufferInterface& b, int wt) override { EpScope s; return m->deserialize_check_type(b, static_cast<EP::WireFormatter::WireType>(wt)); }
  uint32_t serialized_size() const override { EpScope s; return c().serialized_size(); }
  void clear() override { EpScope s; m->clear(); }
  const char* number_to_name(uint32_t n) const override { EpScope s; return M::field_number_to_name(static_cast<typename M::FieldNumber>(n)); }
#ifdef MSG_TO_STRING
  EP::string_view to_string(EP::string_view& v) const override { EpScope s; return c().to_string(v); }
#else
  EP::string_view to_string(EP::string_view& v) const override { return v; }
#endif
};

template<class M, template<class> class G> struct Ops {
  static IMsg* wrap(void* p) { return new G<M>(static_cast<M*>(p)); }
  static void construct(void* p) { EpScope s; new(p) M; }
  static void copy(void* p, const void* o) { EpScope s; new(p) M(*static_cast<const M*>(o)); }
  static void move(void* p, void* o) { EpScope s; new(p) M(std::move(*static_cast<M*>(o))); }
  static void assign(void* p, const void* o) { EpScope s; *static_cast<M*>(p) = *static_cast<const M*>(o); }
  static void move_assign(void* p, void* o) { EpScope s; *static_cast<M*>(p) = std::move(*static_cast<M*>(o)); }
  static void destroy(void* p) { EpScope s; static_cast<M*>(p)->~M(); }
  static TypeOps ops(const char* name, const char* inst, const char* caps) {
    TypeOps t; t.name = name; t.inst = inst; t.caps = caps; t.size = sizeof(M); t.align = alignof(M);
    t.wrap = wrap; t.construct = construct; t.copy = copy; t.move = move; t.assign = assign; t.move_assign = move_assign; t.destroy = destroy; t.extra = "";
    return t; }
};

} // namespace gl
