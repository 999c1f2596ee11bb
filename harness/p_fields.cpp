// C12: repeated, string and bytes fields against a plain bounded list.
#include "prop.h"
#include <RepeatedFieldFixedSize.h>
#include <FieldStringBytes.h>
#include <MessageInterface.h>
#include <ReadBufferInterface.h>
#include <WriteBufferInterface.h>
#include <cstring>
#include <deque>
#include <memory>
namespace EP = EmbeddedProto;
namespace {

// Plain buffers of the harness' own.
struct RB : EP::ReadBufferInterface {
  std::string d; uint32_t p = 0;
  explicit RB(const std::string& x) : d(x) {}
  uint32_t get_size() const override { return (uint32_t)d.size() - p; }
  uint32_t get_max_size() const override { return (uint32_t)d.size(); }
  bool peek(uint8_t& b) const override { if(p >= d.size()) return false; b = (uint8_t)d[p]; return true; }
  bool advance() override { if(p >= d.size()) return false; ++p; return true; }
  bool advance(const uint32_t n) override { if(n > d.size() - p) { p = (uint32_t)d.size(); return false; } p += n; return true; }
  bool pop(uint8_t& b) override { if(p >= d.size()) return false; b = (uint8_t)d[p++]; return true; }
};
struct WB : EP::WriteBufferInterface {
  std::string d;
  void clear() override { d.clear(); }
  uint32_t get_size() const override { return (uint32_t)d.size(); }
  uint32_t get_max_size() const override { return 1u << 20; }
  uint32_t get_available_size() const override { return (1u << 20) - (uint32_t)d.size(); }
  bool push(const uint8_t b) override { d.push_back((char)b); return true; }
  bool push(const uint8_t* b, const uint32_t n) override { d.append((const char*)b, n); return true; }
};
std::string varint(uint64_t v) { std::string r; do { uint8_t b = v & 0x7f; v >>= 7; r += (char)(b | (v ? 0x80 : 0)); } while(v); return r; }

enum class Col : uint32_t { A = 0, B = 1, C = 77 };

// A small hand written message, as the generator would make it.
struct Pt : EP::MessageInterface {
  EP::int32 x = 0; EP::FieldString<3> s;
  Pt() = default; Pt(const Pt& o) : EP::MessageInterface(), x(o.x), s(o.s) {} Pt& operator=(const Pt& o) { x = o.x; s = o.s; return *this; }
  EP::Error serialize(EP::WriteBufferInterface& b) const override { EP::Error e = x.serialize_with_id(1, b, false); if(e == EP::Error::NO_ERRORS) e = s.serialize_with_id(2, b, false); return e; }
  EP::Error deserialize(EP::ReadBufferInterface&) override { return EP::Error::NO_ERRORS; }
  void clear() override { x.clear(); s.clear(); }
};

// Elements: how to make one, what it looks like, what default and size are.
template<class T> struct Tr {                              // scalars
  typedef typename T::TYPE V;
  static T make(Src& s) { uint64_t u = s.below(4) ? s.draw(3) + 1 : s.interesting(64); V v; conv(u, v); T t; t = v; return t; }
  static void conv(uint64_t u, bool& v) { v = u & 1; }
  static void conv(uint64_t u, float& v) { v = (float)(int16_t)u / 4; }
  static void conv(uint64_t u, double& v) { v = (double)(int32_t)u / 4; }
  static void conv(uint64_t u, Col& v) { v = (Col)(uint32_t)u; }
  template<class I> static void conv(uint64_t u, I& v) { v = (I)u; }
  static std::string key(const T& t) { V v = t.get(); std::string r; if(v == (V)0) return "0"; return std::string((const char*)&v, sizeof v); }
  static std::string dflt() { return "0"; }
};
template<uint32_t N> struct Tr<EP::FieldString<N>> {
  typedef EP::FieldString<N> T;
  static T make(Src& s) { T t; std::string x; uint32_t n = s.range(0, N); for(uint32_t i = 0; i < n; ++i) x += (char)('a' + s.below(6)); t.set(x.data(), n); return t; }
  static std::string key(const T& t) { return std::string(t.get_const(), t.get_length()); }
  static std::string dflt() { return ""; }
};
template<uint32_t N> struct Tr<EP::FieldBytes<N>> {
  typedef EP::FieldBytes<N> T;
  static T make(Src& s) { T t; std::string x; uint32_t n = s.range(0, N); for(uint32_t i = 0; i < n; ++i) x += (char)s.draw(255); t.set((const uint8_t*)x.data(), n); return t; }
  static std::string key(const T& t) { return std::string((const char*)t.get_const(), t.get_length()); }
  static std::string dflt() { return ""; }
};
template<> struct Tr<Pt> {
  static Pt make(Src& s) { Pt t; t.x = (int32_t)s.interesting(32); t.s = Tr<EP::FieldString<3>>::make(s); return t; }
  static std::string key(const Pt& t) { return std::to_string(t.x.get()) + "/" + Tr<EP::FieldString<3>>::key(t.s); }
  static std::string dflt() { return "0/"; }
};
typedef std::vector<std::string> List;
std::string show(const List& l) { std::string r = "["; for(auto& x : l) r += hex(x, 12) + " "; return r + "]"; }

uint32_t len_of(Src& s, uint32_t n) {   // 0..n, for large n around the limits of smaller integers
  if(n > 200 && s.below(3)) { static const uint32_t at[] = {127, 255, 256, 16383, 32767, 65535, 65536}; const uint32_t k = s.below(8); return std::min(n, (k < 7 ? at[k] : n) + s.below(3) - (s.coin() ? 1 : 0)); }
  return s.range(0, n);
}
uint32_t index_of(Src& s, uint32_t n, uint32_t cap = 0) {   // around the interesting indices
  if(cap > 200 && s.below(6) == 5) return len_of(s, cap);
  switch(s.below(8)) { case 0: return n; case 1: return n + 1; case 2: return n ? n - 1 : 0; case 3: return 0xFFFFFFFFu - s.below(3); case 4: return 0x7FFFFFFFu + s.below(3); default: return s.below(n + 1); }
}

template<class T, uint32_t N> void check(const EP::RepeatedFieldFixedSize<T, N>& f, const List& m, const char* op) {
  const EP::RepeatedField<T>& b = f;
  REQUIRE(b.get_length() == m.size(), op << ": length " << b.get_length() << " instead of " << m.size() << " content should be " << show(m));
  REQUIRE(b.get_max_length() == N, op << ": maximum length " << b.get_max_length() << " instead of " << N);
  REQUIRE(b.get_size() == sizeof(T) * m.size() && b.get_max_size() == sizeof(T) * N, op << ": size in bytes " << b.get_size() << " of " << b.get_max_size());
  for(uint32_t i = 0; i < m.size(); ++i) {
    REQUIRE(Tr<T>::key(b.get_const(i)) == m[i], op << ": element " << i << " is " << hex(Tr<T>::key(b.get_const(i))) << " content should be " << show(m));
    REQUIRE(&b[i] == &b.get_const(i) && &f.get_data_const()[i] == &b.get_const(i), op << ": operator[] and get_const refer to different elements");
    T v; EP::Error e = b.get_const(i, v);
    REQUIRE(e == EP::Error::NO_ERRORS && Tr<T>::key(v) == m[i], op << ": get_const(" << i << ", value) returns error " << (int)e);
  }
}
// Indices beyond the content do not change anything.
template<class T, uint32_t N> void out_of_range(Src& s, const EP::RepeatedFieldFixedSize<T, N>& f, const List& m) {
  const EP::RepeatedField<T>& b = f;
  uint32_t i = (uint32_t)m.size() + (s.coin() ? 0 : s.coin() ? s.below(5) : (uint32_t)s.draw(0xFFFFFFFFu - m.size()));
  T v = Tr<T>::make(s); const std::string before = Tr<T>::key(v);
  EP::Error e = b.get_const(i, v);
  REQUIRE(e == EP::Error::INDEX_OUT_OF_BOUND, "get_const(" << i << ", value) with length " << m.size() << " returns error " << (int)e);
  REQUIRE(Tr<T>::key(v) == before, "get_const(" << i << ", value) beyond the content changes value");
  const T* p = &b.get_const(i); const T* lo = f.get_data_const().data();
  REQUIRE(p >= lo && p < lo + N, "get_const(" << i << ") gives a reference outside the container");
  REQUIRE(&b[i] == p, "operator[](" << i << ") const differs from get_const");
}
template<class T, uint32_t N> std::string elem_bytes(const T& t, bool packed) { WB w; if(packed) t.serialize(w); return w.d; }

template<class T, uint32_t N, uint32_t M> void repeated(Src& s, const char* name) {
  typedef EP::RepeatedFieldFixedSize<T, N> F; typedef EP::RepeatedFieldFixedSize<T, M> G;
  // Exact heap blocks for the address sanitizer, filled with junk first.
  struct Box { std::unique_ptr<uint64_t[]> mem; F* f; Box() { mk(); f = new(mem.get()) F; } explicit Box(const F& o) { mk(); f = new(mem.get()) F(o); } explicit Box(const G& o) { mk(); f = new(mem.get()) F(o); } explicit Box(G&& o) { mk(); f = new(mem.get()) F(std::move(o)); }
    void mk() { size_t n = (sizeof(F) + 7) / 8; mem.reset(new uint64_t[n]); memset(mem.get(), 0x5A, n * 8); } ~Box() { f->~F(); } };
  std::vector<std::unique_ptr<Box>> b; std::vector<List> m(2);
  b.emplace_back(new Box); b.emplace_back(new Box);
  G g; List gm; std::string key = name; int grown = 0, full = 0;
  const int steps = (int)s.range(1, 30);
  TRACE(name << " capacity " << N);
  for(int k = 0; k < steps; ++k) {
    const uint32_t w = s.below(2); F& f = *b[w]->f; List& l = m[w]; EP::RepeatedField<T>& base = f; const char* op = "";
    const uint32_t kind = s.below(15); key += (char)kind;
    switch(kind) {
      case 0: case 1: case 2: { op = "add"; T v = Tr<T>::make(s); EP::Error e = base.add(v);
        if(l.size() < N) { REQUIRE(e == EP::Error::NO_ERRORS, "add to " << l.size() << " of " << N << " returns " << (int)e); l.push_back(Tr<T>::key(v)); }
        else { ++full; REQUIRE(e == EP::Error::ARRAY_FULL, "add to a full array returns " << (int)e); } break; }
      case 3: case 4: { op = "set"; uint32_t i = index_of(s, (uint32_t)l.size(), N); T v = Tr<T>::make(s); base.set(i, v); uint32_t j = std::min<uint32_t>(i, N - 1); if(j >= l.size()) { ++grown; l.resize(j + 1, Tr<T>::dflt()); } l[j] = Tr<T>::key(v); TRACE("  set(" << i << ")"); break; }
      case 5: case 6: { op = "get"; uint32_t i = index_of(s, (uint32_t)l.size(), N); uint32_t j = std::min<uint32_t>(i, N - 1); T& r = s.coin() ? base.get(i) : base[i]; if(j >= l.size()) { ++grown; l.resize(j + 1, Tr<T>::dflt()); }
        REQUIRE(Tr<T>::key(r) == l[j], "get(" << i << ") gives " << hex(Tr<T>::key(r)) << " instead of " << hex(l[j])); if(s.coin()) { T v = Tr<T>::make(s); r = v; l[j] = Tr<T>::key(v); } TRACE("  get(" << i << ")"); break; }
      case 7: { op = "set_data"; uint32_t n = s.below(4) ? len_of(s, N) : N + 1 + s.below(3); std::vector<T> v; List x; for(uint32_t i = 0; i < n; ++i) { v.push_back(Tr<T>::make(s)); x.push_back(Tr<T>::key(v.back())); } static T none; EP::Error e = base.set_data(n ? v.data() : &none, n);
        if(n <= N) { REQUIRE(e == EP::Error::NO_ERRORS, "set_data of " << n << " returns " << (int)e); l = x; } else { ++full; REQUIRE(e == EP::Error::ARRAY_FULL, "set_data of " << n << " elements in " << N << " returns " << (int)e); } TRACE("  set_data(" << n << ")"); break; }
      case 8: op = "clear"; base.clear(); l.clear(); break;
      case 9: { op = "assignment"; F& o = *b[1 - w]->f; F& ret = (f = o); REQUIRE(&ret == &f, "assignment returns another object"); l = m[1 - w]; break; }
      case 10: { op = "self assignment"; F& o = f; f = o; break; }
      case 11: { op = "copy construction"; std::unique_ptr<Box> c(new Box(f)); b[1 - w] = std::move(c); m[1 - w] = l; break; }
      case 12: { op = "construction from a smaller one"; g.clear(); gm.clear(); uint32_t n = s.range(0, M); for(uint32_t i = 0; i < n; ++i) { T v = Tr<T>::make(s); g.add(v); gm.push_back(Tr<T>::key(v)); } std::unique_ptr<Box> c(s.coin() ? new Box(g) : new Box(std::move(g))); b[w] = std::move(c); m[w] = gm; break; }
      case 13: { op = "own element"; if(l.empty()) break; uint32_t j = s.below((uint32_t)l.size());
        if(s.below(3) == 2) { op = "set_data from its own begin"; const uint32_t n = s.range(0, (uint32_t)l.size()); EP::Error e = base.set_data(&base.get_const(0), n); REQUIRE(e == EP::Error::NO_ERRORS, "set_data of own elements"); l.resize(n); }
        else if(s.coin()) { EP::Error e = base.add(base.get_const(j)); if(l.size() < N) { REQUIRE(e == EP::Error::NO_ERRORS, "add of an own element"); l.push_back(std::string(l[j])); } else REQUIRE(e == EP::Error::ARRAY_FULL, "add to a full array returns " << (int)e); } else { uint32_t i = s.below((uint32_t)l.size()); base.set(i, base.get_const(j)); l[i] = std::string(l[j]); } break; }
      default: op = "get_const out of range"; out_of_range(s, f, l); break;
    }
    TRACE("  " << op << " on " << w << " length now " << m[w].size());
    for(int i = 0; i < 2; ++i) check(*b[(size_t)i]->f, m[(size_t)i], op);
  }
  count("repeated"); if(grown) count("repeated grown by index"); if(full) count("repeated refused when full");
  if(steps > 2) nontrivial(key);
}
// Packed content through deserialize: appends, refuses what does not fit.
template<class T, uint32_t N> void packed(Src& s, const char* name) {
  EP::RepeatedFieldFixedSize<T, N> f; List l; const int rounds = (int)s.range(1, 5); std::string key = name;
  for(int k = 0; k < rounds; ++k) {
    const uint32_t n = len_of(s, N + 2); std::string body; List x; for(uint32_t i = 0; i < n; ++i) { T v = Tr<T>::make(s); WB w; v.serialize(w); body += w.d; x.push_back(Tr<T>::key(v)); }
    const uint32_t cut = s.below(4) == 3 && !body.empty() ? 1 + s.below((uint32_t)body.size()) : 0;
    const std::string tail = s.coin() ? "\x55\x66" : ""; std::string in = varint(body.size()) + body; if(cut) in.resize(in.size() - cut); else in += tail;
    key += in; RB b(in); EP::Error e = f.deserialize(b); TRACE("  deserialize " << n << " elements cut " << cut << " to " << l.size() << " of " << N << " gives " << (int)e);
    const uint32_t len = f.get_length(); REQUIRE(len <= N, "length " << len << " beyond the capacity " << N); REQUIRE(len >= l.size(), "elements are lost");
    List want(l); want.insert(want.end(), x.begin(), x.end());
    if(cut) { REQUIRE(e == EP::Error::END_OF_BUFFER || (e == EP::Error::ARRAY_FULL && want.size() > N), "cut off packed data gives error " << (int)e); }
    else if(want.size() <= N) { REQUIRE(e == EP::Error::NO_ERRORS && len == want.size(), "packed data which fits gives error " << (int)e << " and length " << len); REQUIRE(b.d.size() - b.p == tail.size(), "the wrong number of bytes is consumed"); }
    else REQUIRE(e == EP::Error::ARRAY_FULL, "packed data which does not fit gives error " << (int)e);
    REQUIRE(len <= want.size(), "elements are invented"); l.assign(want.begin(), want.begin() + len); check(f, l, "deserialize");
  }
  count("packed"); nontrivial(key);
}

// ------------------------------------------------------------------------------------------------ strings and bytes
template<uint32_t N> EP::Error cset(EP::FieldString<N>& f, Src& s, const char* p) { if(s.coin()) f = p; else f.set(p); return EP::Error::NO_ERRORS; }
template<class F, class C, uint32_t N> void check_s(const F& f, const std::string& m, bool str, const char* op) {
  REQUIRE(f.get_length() == m.size() && f.get_max_length() == N, op << ": length " << f.get_length() << " of " << f.get_max_length() << " instead of " << m.size() << " of " << N);
  REQUIRE(memcmp(f.get_const(), m.data(), m.size()) == 0, op << ": content " << hex(std::string((const char*)f.get_const(), f.get_length())) << " instead of " << hex(m));
  for(uint32_t i = 0; i < m.size(); ++i) { C c = 0; REQUIRE(f.get_const(i) == (C)m[i] && f[i] == (C)m[i] && f.get_const(i, c) == EP::Error::NO_ERRORS && c == (C)m[i], op << ": element " << i << " differs"); }
  if(str && m.size() < N) REQUIRE(f.get_const()[m.size()] == 0, op << ": the text is not terminated, content " << hex(m) << " is followed by " << (int)f.get_const()[m.size()]);
  WB w; EP::Error e = f.serialize(w); REQUIRE(e == EP::Error::NO_ERRORS && w.d == m, op << ": serialize gives " << hex(w.d));
  REQUIRE(f.serialized_size() == m.size(), op << ": serialized_size is " << f.serialized_size() << " instead of " << m.size());
}
template<class F, class C, uint32_t N, class G, uint32_t M> void stringlike(Src& s, bool str, const char* name) {
  struct Box { std::unique_ptr<uint64_t[]> mem; F* f; Box() { mk(); f = new(mem.get()) F; } explicit Box(const F& o) { mk(); f = new(mem.get()) F(o); } void mk() { size_t n = (sizeof(F) + 7) / 8; mem.reset(new uint64_t[n]); memset(mem.get(), 0x5A, n * 8); } ~Box() { f->~F(); } };
  std::vector<std::unique_ptr<Box>> b; b.emplace_back(new Box); b.emplace_back(new Box); std::string m[2]; G g; std::string gm, key = name; int refused = 0, grown = 0; const int steps = (int)s.range(1, 30);
  auto text = [&](uint32_t n) { std::string r; if(n > 1000) { Src c = Src::child(s.bits64()); for(uint32_t i = 0; i < n; ++i) r += str ? (char)('a' + c.below(26)) : (char)c.draw(255); return r; } for(uint32_t i = 0; i < n; ++i) r += str ? (char)('a' + s.below(26)) : (char)s.draw(255); return r; };
  TRACE(name << " capacity " << N << " other " << M);
  for(int k = 0; k < steps; ++k) {
    const uint32_t w = s.below(2); F& f = *b[w]->f; std::string& l = m[w]; const char* op = ""; const uint32_t kind = s.below(14); key += (char)kind;
    switch(kind) {
      case 0: case 1: { op = "set"; uint32_t n = s.below(5) ? len_of(s, N) : N + 1 + s.below(3); std::string x = text(n); if(s.below(6) == 5) for(auto& c : x) if(s.below(4) == 3) c = 0; std::unique_ptr<C[]> p(new C[n + 1]); memcpy(p.get(), x.data(), n); EP::Error e = f.set(p.get(), n);
        if(n <= N) { REQUIRE(e == EP::Error::NO_ERRORS, "set of " << n << " returns " << (int)e); l = x; } else { ++refused; REQUIRE(e == EP::Error::ARRAY_FULL, "set of " << n << " in " << N << " returns " << (int)e); } break; }
      case 2: case 3: { op = "index"; uint32_t i = index_of(s, (uint32_t)l.size(), N); uint32_t j = std::min<uint32_t>(i, N - 1); C& r = s.coin() ? f.get(i) : f[i]; if(j >= l.size()) { ++grown; l.resize(j + 1, 0); } REQUIRE(r == (C)l[j], "get(" << i << ") gives " << (int)r << " instead of " << (int)l[j]); if(s.below(3)) { C c = str ? (C)('a' + s.below(26)) : (C)s.draw(255); r = c; l[j] = (char)c; } TRACE("  index " << i); break; }
      case 4: op = "clear"; f.clear(); l.clear(); break;
      case 5: { op = "assignment"; F& ret = (f = *b[1 - w]->f); REQUIRE(&ret == &f, "assignment returns another object"); l = m[1 - w]; break; }
      case 6: { op = "self assignment"; F& o = f; f = o; break; }
      case 7: { op = "copy construction"; std::unique_ptr<Box> c(new Box(f)); b[1 - w] = std::move(c); m[1 - w] = l; break; }
      case 8: case 9: { op = "from another capacity"; gm = text(len_of(s, M)); g.clear(); g.set((const C*)gm.data(), (uint32_t)gm.size()); const bool fits = gm.size() <= N; if(s.coin()) { EP::Error e = f.set(g); REQUIRE(e == (fits ? EP::Error::NO_ERRORS : EP::Error::ARRAY_FULL), "set from a field of " << gm.size() << " returns " << (int)e); } else f = g; if(fits) l = gm; else ++refused; break; }
      case 10: case 11: { op = "deserialize"; uint32_t n = s.below(5) ? len_of(s, N) : N + 1 + s.below(3); std::string x = text(n); uint32_t cut = n && s.below(4) == 3 ? 1 + s.below(n) : 0; RB rb(varint(n) + x.substr(0, n - cut) + (cut ? "" : "\x11")); EP::Error e = f.deserialize(rb);
        if(n > N) { ++refused; REQUIRE(e == EP::Error::ARRAY_FULL, "deserialize of " << n << " in " << N << " returns " << (int)e); }
        else if(cut) { REQUIRE(e == EP::Error::END_OF_BUFFER, "cut off content gives " << (int)e); REQUIRE(f.get_length() <= N, "length beyond the capacity"); l = std::string((const char*)f.get_const(), f.get_length()); }
        else { REQUIRE(e == EP::Error::NO_ERRORS && rb.get_size() == 1, "deserialize of " << n << " returns " << (int)e); l = x; } break; }
      case 12: { op = "get_const out of range"; uint32_t i = (uint32_t)l.size() + (s.coin() ? s.below(4) : (uint32_t)s.draw(0xFFFFFFFFu - l.size())); C c = 'x'; EP::Error e = f.get_const(i, c); REQUIRE(e == EP::Error::INDEX_OUT_OF_BOUND && c == 'x', "get_const(" << i << ", value) with length " << l.size() << " returns " << (int)e); const F& cf = f; const C* p = &cf.get_const(i); REQUIRE(p >= f.get_const() && p < f.get_const() + N, "get_const(" << i << ") is outside the container"); REQUIRE(&cf[i] == p, "operator[] const differs from get_const"); break; }
      default: if(s.coin()) { op = "set from itself"; EP::Error e = f.set(f); REQUIRE(e == EP::Error::NO_ERRORS, "set from itself returns " << (int)e); }
        else { op = "shorten with its own begin"; const uint32_t n = s.range(0, (uint32_t)l.size()); EP::Error e = f.set(f.get_const(), n); REQUIRE(e == EP::Error::NO_ERRORS, "set from its own begin returns " << (int)e); l.resize(n); }
        break;
    }
    TRACE("  " << op << " on " << w << " length now " << m[w].size());
    for(int i = 0; i < 2; ++i) check_s<F, C, N>(*b[(size_t)i]->f, m[i], str, op);
  }
  count(str ? "strings" : "bytes"); if(refused) count("text refused"); if(grown) count("text grown by index"); if(steps > 2) nontrivial(key);
}
// C strings, which are cut off at the capacity.
template<uint32_t N> void cstring(Src& s, const char* name) {
  EP::FieldString<N> f; std::string l, key = name; const int steps = (int)s.range(1, 12);
  for(int k = 0; k < steps; ++k) {
    const uint32_t kind = s.below(5); const char* op = "C string";
    if(kind < 3) { uint32_t n = N > 400 ? len_of(s, N + 4) : s.range(0, N + 4); std::string x; if(n > 400) { x.assign(n, (char)('a' + s.below(26))); x[s.below(n)] = '!'; x[n - 1] = '.'; } else for(uint32_t i = 0; i < n; ++i) x += (char)('a' + s.below(26)); std::unique_ptr<char[]> p(new char[n + 1]); memcpy(p.get(), x.c_str(), n + 1); cset(f, s, p.get()); l = x.substr(0, N); key += n > 400 ? std::to_string(n) : x; TRACE("  C string of " << n << " in " << N); }
    else if(kind == 3) { op = "null pointer"; const char* p = nullptr; cset(f, s, p); l.clear(); }
    else { op = "index"; uint32_t i = s.below(N + 2), j = std::min<uint32_t>(i, N - 1); char& r = f.get(i); if(j >= l.size()) l.resize(j + 1, 0); REQUIRE(r == l[j], "get(" << i << ") shows " << (int)r << " which is old content"); r = 'z'; l[j] = 'z'; key += (char)i; }
    check_s<EP::FieldString<N>, char, N>(f, l, true, op);
  }
  count("C strings"); nontrivial(key);
}

template<class T> void rep(Src& s, const char* name) { switch(s.below(4)) { case 0: repeated<T, 2, 1>(s, name); break; case 1: repeated<T, 3, 2>(s, name); break; case 2: repeated<T, 7, 3>(s, name); break; default: repeated<T, 20, 19>(s, name); break; } }
template<class T> void pck(Src& s, const char* name) { switch(s.below(3)) { case 0: packed<T, 1>(s, name); break; case 1: packed<T, 4>(s, name); break; default: packed<T, 17>(s, name); break; } }
template<template<uint32_t> class F, class C> void sl(Src& s, bool str, const char* n) { switch(s.below(5)) { case 0: stringlike<F<1>, C, 1, F<2>, 2>(s, str, n); break; case 1: stringlike<F<2>, C, 2, F<1>, 1>(s, str, n); break; case 2: stringlike<F<5>, C, 5, F<9>, 9>(s, str, n); break; case 3: stringlike<F<16>, C, 16, F<3>, 3>(s, str, n); break; default: stringlike<F<300>, C, 300, F<301>, 301>(s, str, n); break; } }
// Capacity one has no smaller one: add, index and set only.
template<class T> void one(Src& s) {
  EP::RepeatedFieldFixedSize<T, 1> f; List l;
  for(int k = 0; k < 8; ++k) { switch(s.below(4)) { case 0: { T v = Tr<T>::make(s); EP::Error e = f.add(v); REQUIRE(e == (l.empty() ? EP::Error::NO_ERRORS : EP::Error::ARRAY_FULL), "add returns " << (int)e); if(l.empty()) l.push_back(Tr<T>::key(v)); break; } case 1: { T v = Tr<T>::make(s); f.set(s.below(3), v); l.assign(1, Tr<T>::key(v)); break; } case 2: { T& r = f[s.below(3)]; if(l.empty()) l.push_back(Tr<T>::dflt()); REQUIRE(Tr<T>::key(r) == l[0], "element differs"); break; } default: f.clear(); l.clear(); } check(f, l, "capacity one"); }
  count("capacity one");
}
// Lengths and indices which need more than 8 and more than 16 bits.
void large(Src& s) {
  if(s.below(40) == 39) {
    switch(s.below(4)) { case 3: cstring<66000>(s, "c66000"); break; case 0: stringlike<EP::FieldString<66000>, char, 66000, EP::FieldString<70000>, 70000>(s, true, "string"); break; case 1: stringlike<EP::FieldBytes<66000>, uint8_t, 66000, EP::FieldBytes<300>, 300>(s, false, "bytes"); break; default: packed<EP::boolean, 65600>(s, "bool"); break; }
    count("more than 16 bits"); return;
  }
  switch(s.below(10)) {
    case 8: cstring<255>(s, "c255"); break; case 9: cstring<1000>(s, "c1000"); break; case 0: repeated<EP::uint32, 300, 299>(s, "uint32"); break; case 1: repeated<EP::boolean, 300, 260>(s, "bool"); break; case 2: repeated<EP::FieldString<2>, 300, 3>(s, "string"); break; case 3: repeated<Pt, 270, 260>(s, "message"); break;
    case 4: packed<EP::uint32, 300>(s, "uint32"); break; case 5: packed<EP::boolean, 300>(s, "bool"); break; case 6: stringlike<EP::FieldString<300>, char, 300, EP::FieldString<256>, 256>(s, true, "string"); break; default: stringlike<EP::FieldBytes<300>, uint8_t, 300, EP::FieldBytes<400>, 400>(s, false, "bytes"); break;
  }
  count("more than 8 bits");
}
void c12(Src& s) {
  if(s.below(40) == 39) { large(s); return; }
  switch(s.below(22)) {
    case 0: rep<EP::int32>(s, "int32"); break; case 1: rep<EP::uint64>(s, "uint64"); break; case 2: rep<EP::boolean>(s, "bool"); break; case 3: rep<EP::floatfixed>(s, "float"); break;
    case 4: rep<EP::doublefixed>(s, "double"); break; case 5: rep<EP::enumeration<Col>>(s, "enum"); break; case 6: rep<EP::FieldString<6>>(s, "string"); break; case 7: rep<EP::FieldBytes<4>>(s, "bytes"); break;
    case 8: case 9: rep<Pt>(s, "message"); break;
    case 10: pck<EP::int32>(s, "int32"); break; case 11: pck<EP::sint64>(s, "sint64"); break; case 12: pck<EP::fixed32>(s, "fixed32"); break; case 13: pck<EP::doublefixed>(s, "double"); break; case 14: pck<EP::boolean>(s, "bool"); break; case 15: pck<EP::enumeration<Col>>(s, "enum"); break;
    case 16: case 17: sl<EP::FieldString, char>(s, true, "string"); break;
    case 18: case 19: sl<EP::FieldBytes, uint8_t>(s, false, "bytes"); break;
    case 20: switch(s.below(4)) { case 0: cstring<1>(s, "1"); break; case 1: cstring<2>(s, "2"); break; case 2: cstring<8>(s, "8"); break; default: cstring<33>(s, "33"); } break;
    default: switch(s.below(4)) { case 0: one<EP::sint32>(s); break; case 1: one<EP::FieldString<3>>(s); break; case 2: one<Pt>(s); break; default: one<EP::sfixed64>(s); } break;
  }
}
}
static Reg r12("C12", "up to 30 operations (add, set, indexed access around the length and around 2^31 and 2^32, set_data, clear, assignment, self assignment, copy, construction from a smaller capacity, own elements as argument, out of range reads, deserialize complete or cut off) on two objects in junk-filled memory of exact size, for 8 element types and capacities 1, 2, 3, 7, 20 and text capacities 1..300; non-trivial: more than two operations; oracle: a plain bounded list per object, compared completely after every operation", c12);
