// C15: scalar codecs and scalar field objects against an independent encoder.
#include "prop.h"
#include <Fields.h>
#include <WireFormatter.h>
#include <cstring>
#include <type_traits>
namespace EP = EmbeddedProto;
typedef EP::WireFormatter WF;
typedef EP::Error Er;
namespace {
struct RB : EP::ReadBufferInterface {
  const uint8_t* d; uint32_t n, p = 0;
  RB(const void* x, size_t k) : d((const uint8_t*)x), n((uint32_t)k) {}
  uint32_t get_size() const override { return n - p; }
  uint32_t get_max_size() const override { return n; }
  bool peek(uint8_t& b) const override { if(p >= n) return false; b = d[p]; return true; }
  bool advance() override { if(p >= n) return false; ++p; return true; }
  bool advance(const uint32_t k) override { if(k > n - p) { p = n; return false; } p += k; return true; }
  bool pop(uint8_t& b) override { if(p >= n) return false; b = d[p++]; return true; }
};
struct WB : EP::WriteBufferInterface {
  uint8_t d[64]; uint32_t n = 0, cap = 64;
  void clear() override { n = 0; }
  uint32_t get_size() const override { return n; }
  uint32_t get_max_size() const override { return cap; }
  uint32_t get_available_size() const override { return cap - n; }
  bool push(const uint8_t b) override { if(n >= cap) return false; d[n++] = b; return true; }
  bool push(const uint8_t* b, const uint32_t k) override { if(k > cap - n) return false; memcpy(d + n, b, k); n += k; return true; }
  std::string str() const { return std::string((const char*)d, n); }
};
// ---- the independent encoder
std::string e_varint(uint64_t v) { std::string r; while(v > 127) { r += (char)(128 + v % 128); v /= 128; } r += (char)v; return r; }
std::string e_fixed(uint64_t v, int n) { std::string r; for(int i = 0; i < n; ++i) { r += (char)(v % 256); v /= 256; } return r; }
uint64_t e_zigzag(int64_t v) { return v >= 0 ? (uint64_t)v * 2 : (uint64_t)(-(v + 1)) * 2 + 1; }
std::string e_tag(uint32_t field, int wt) { return e_varint((uint64_t)field * 8 + (uint64_t)wt); }

enum class En : uint32_t { Z = 0 };
enum Kind { INT, UINT, SINT, BOOL, ENUM, FIXED, SFIXED, FLOAT };
template<class V> uint64_t bits(V v) { uint64_t u = 0; memcpy(&u, &v, sizeof v); return u; }
template<class V> V from_bits(uint64_t u) { V v; memcpy(&v, &u, sizeof v); return v; }
template<> bool from_bits<bool>(uint64_t u) { return u & 1; }
// T: field class, V: value type, K: kind, WT: wire type
template<class V, int K> std::string payload(V v) {
  switch(K) {
    case INT: return e_varint(sizeof(V) == 4 ? (uint64_t)(uint32_t)bits(v) : bits(v));      // the value's own width, see DESIGN.md
    case UINT: case ENUM: return e_varint(bits(v));
    case SINT: return e_varint(e_zigzag(sizeof(V) == 4 ? (int64_t)(int32_t)(uint32_t)bits(v) : (int64_t)bits(v)));
    case BOOL: return e_varint(bits(v) ? 1 : 0);
    default: return e_fixed(bits(v), sizeof(V));
  }
}
template<class V> Er wf_ser(std::integral_constant<int, INT>, uint32_t f, V v, WB& w) { return WF::SerializeInt(f, v, w); }
template<class V> Er wf_ser(std::integral_constant<int, UINT>, uint32_t f, V v, WB& w) { return WF::SerializeUInt(f, v, w); }
template<class V> Er wf_ser(std::integral_constant<int, SINT>, uint32_t f, V v, WB& w) { return WF::SerializeSInt(f, v, w); }
template<class V> Er wf_ser(std::integral_constant<int, BOOL>, uint32_t f, V v, WB& w) { return WF::SerializeBool(f, v, w); }
template<class V> Er wf_ser(std::integral_constant<int, ENUM>, uint32_t f, V v, WB& w) { return WF::SerializeEnum(f, (uint32_t)v, w); }
template<class V> Er wf_ser(std::integral_constant<int, FIXED>, uint32_t f, V v, WB& w) { return WF::SerializeFixed(f, v, w); }
template<class V> Er wf_ser(std::integral_constant<int, SFIXED>, uint32_t f, V v, WB& w) { return WF::SerializeSFixed(f, v, w); }
Er wf_ser(std::integral_constant<int, FLOAT>, uint32_t f, float v, WB& w) { return WF::SerializeFloat(f, v, w); }
Er wf_ser(std::integral_constant<int, FLOAT>, uint32_t f, double v, WB& w) { return WF::SerializeDouble(f, v, w); }
template<class V> Er wf_des(std::integral_constant<int, INT>, RB& r, V& v) { return WF::DeserializeInt(r, v); }
template<class V> Er wf_des(std::integral_constant<int, UINT>, RB& r, V& v) { return WF::DeserializeUInt(r, v); }
template<class V> Er wf_des(std::integral_constant<int, SINT>, RB& r, V& v) { return WF::DeserializeSInt(r, v); }
template<class V> Er wf_des(std::integral_constant<int, BOOL>, RB& r, V& v) { return WF::DeserializeBool(r, v); }
template<class V> Er wf_des(std::integral_constant<int, ENUM>, RB& r, V& v) { return WF::DeserializeEnum(r, v); }
template<class V> Er wf_des(std::integral_constant<int, FIXED>, RB& r, V& v) { return WF::DeserializeFixed(r, v); }
template<class V> Er wf_des(std::integral_constant<int, SFIXED>, RB& r, V& v) { return WF::DeserializeSFixed(r, v); }
Er wf_des(std::integral_constant<int, FLOAT>, RB& r, float& v) { return WF::DeserializeFloat(r, v); }
Er wf_des(std::integral_constant<int, FLOAT>, RB& r, double& v) { return WF::DeserializeDouble(r, v); }

// One value of one type under one field number: everything which has to hold.
template<class T, class V, int K, int WT> void value(uint32_t field, V v, uint32_t cut, const char* name) {
  typedef std::integral_constant<int, K> KI;
  const std::string pay = payload<V, K>(v), full = e_tag(field, WT) + pay;
#define SHOW name << " value " << std::hex << bits(v) << std::dec << " field " << field << ": "
  { WB w; Er e = wf_ser(KI(), field, v, w); REQUIRE(e == Er::NO_ERRORS && w.str() == full, SHOW << "WireFormatter writes " << hex(w.str()) << " instead of " << hex(full)); }
  { WB w; w.cap = (uint32_t)full.size(); Er e = wf_ser(KI(), field, v, w); REQUIRE(e == Er::NO_ERRORS, SHOW << "refused with exactly enough space"); }
  { WB w; w.cap = cut % (uint32_t)full.size(); Er e = wf_ser(KI(), field, v, w); REQUIRE(e == Er::BUFFER_FULL, SHOW << "error " << (int)e << " with " << w.cap << " of " << full.size() << " bytes free"); }
  T t; t = v; REQUIRE(bits<V>(t.get()) == bits(v), SHOW << "is not held");
  { WB w; Er e = t.serialize(w); REQUIRE(e == Er::NO_ERRORS && w.str() == pay, SHOW << "field serialize writes " << hex(w.str()) << " instead of " << hex(pay)); }
  for(int o = 0; o < 2; ++o) { WB w; Er e = t.serialize_with_id(field, w, o); REQUIRE(e == Er::NO_ERRORS && w.str() == full, SHOW << "field serialize_with_id writes " << hex(w.str()) << " instead of " << hex(full)); }
  { WB w; w.cap = cut % (uint32_t)full.size(); Er e = t.serialize_with_id(field, w, false); REQUIRE(e == Er::BUFFER_FULL, SHOW << "field: error " << (int)e << " with " << w.cap << " of " << full.size() << " bytes free"); }
  REQUIRE(t.serialized_size() == pay.size(), SHOW << "serialized_size " << t.serialized_size());
  const std::string in = full + "\xff\xff";
  { RB r(in.data(), in.size()); WF::WireType wt = WF::WireType::START_GROUP; uint32_t id = 0; Er e = WF::DeserializeTag(r, wt, id); REQUIRE(e == Er::NO_ERRORS && (int)wt == WT && id == field, SHOW << "tag is read as " << id << "/" << (int)wt << " error " << (int)e);
    V x = from_bits<V>(~bits(v)); e = wf_des(KI(), r, x); REQUIRE(e == Er::NO_ERRORS && bits(x) == bits(v) && r.get_size() == 2, SHOW << "read back as " << std::hex << bits(x) << std::dec << " error " << (int)e << " bytes left " << r.get_size()); }
  for(int c = 0; c < 2; ++c) { RB r(in.data() + (full.size() - pay.size()), pay.size() + 2); T x; x.clear(); Er e = c ? x.deserialize_check_type(r, (WF::WireType)WT) : x.deserialize(r); REQUIRE(e == Er::NO_ERRORS && bits<V>(x.get()) == bits(v) && r.get_size() == 2, SHOW << "field reads back " << std::hex << bits<V>(x.get()) << std::dec << " error " << (int)e); }
  { const uint32_t k = cut % (uint32_t)pay.size(); RB r(pay.data(), k); T x; x.clear(); Er e = x.deserialize(r); REQUIRE(e == Er::END_OF_BUFFER, SHOW << "cut off after " << k << " bytes gives error " << (int)e); RB r2(pay.data(), k); V y = v; e = wf_des(KI(), r2, y); REQUIRE(e == Er::END_OF_BUFFER, SHOW << "cut off after " << k << " bytes gives error " << (int)e << " from WireFormatter"); }
  const int wrong = (WT + 1 + (int)(cut % 5)) % 6; if(wrong != WT) { RB r(in.data(), in.size()); T x; x.clear(); Er e = x.deserialize_check_type(r, (WF::WireType)wrong); REQUIRE(e == Er::INVALID_WIRETYPE && r.p == 0, SHOW << "wire type " << wrong << " gives error " << (int)e); REQUIRE(bits<V>(x.get()) == 0, SHOW << "is changed by a wrong wire type"); }
}
// The field objects behave like their values.
template<class T, class V> void wrapper(V a, V b, const char* name) {
  T x(a); REQUIRE(bits<V>(x.get()) == bits(a), name << ": construction"); T y(x); REQUIRE(bits<V>(y.get()) == bits(a), name << ": copy"); T z; z = b; y = z; REQUIRE(bits<V>(y.get()) == bits(b) && bits<V>(z.get()) == bits(b), name << ": assignment"); y.set(x); REQUIRE(bits<V>(y.get()) == bits(a), name << ": set from a field"); y.set(b); REQUIRE(bits<V>(y.get()) == bits(b), name << ": set");
  const V c = x; REQUIRE(bits<V>(c) == bits(a), name << ": conversion"); y.get() = a; REQUIRE(bits<V>(y.get()) == bits(a), name << ": reference"); y = std::move(z); REQUIRE(bits<V>(y.get()) == bits(b), name << ": move assignment"); T m(std::move(y)); REQUIRE(bits<V>(m.get()) == bits(b), name << ": move construction"); V tmp = a; m.set(std::move(tmp)); REQUIRE(bits<V>(m.get()) == bits(a), name << ": set from a temporary"); m = T(b); REQUIRE(bits<V>(m.get()) == bits(b), name << ": assignment of a temporary"); m.set(T(a)); REQUIRE(bits<V>(m.get()) == bits(a), name << ": set of a temporary");
  T p(a), q(b);
#define CMP(op) REQUIRE((p op q) == (a op b) && p.operator op(b) == (a op b), name << ": " #op " of " << std::hex << bits(a) << " and " << bits(b))
  CMP(==); CMP(!=); CMP(<); CMP(>); CMP(<=); CMP(>=);
  p.clear(); REQUIRE(bits<V>(p.get()) == 0, name << ": clear"); T d{}; REQUIRE(bits<V>(d.get()) == 0, name << ": value initialisation");
}
template<class T, class U, class A, class B> void mixed(A a, B b, const char* name) { T p(a); U q(b);
#undef CMP
#define CMP(op) REQUIRE((p op q) == (a op b), name << ": " #op " of " << std::hex << bits(a) << " and " << bits(b))
  CMP(==); CMP(!=); CMP(<); CMP(>); CMP(<=); CMP(>=); }
#undef CMP
#define TYPES(X) X(EP::int32, int32_t, INT, 0) X(EP::int64, int64_t, INT, 0) X(EP::uint32, uint32_t, UINT, 0) X(EP::uint64, uint64_t, UINT, 0) X(EP::sint32, int32_t, SINT, 0) X(EP::sint64, int64_t, SINT, 0) X(EP::boolean, bool, BOOL, 0) X(EP::enumeration<En>, En, ENUM, 0) \
  X(EP::fixed32, uint32_t, FIXED, 5) X(EP::fixed64, uint64_t, FIXED, 1) X(EP::sfixed32, int32_t, SFIXED, 5) X(EP::sfixed64, int64_t, SFIXED, 1) X(EP::floatfixed, float, FLOAT, 5) X(EP::doublefixed, double, FLOAT, 1)
uint32_t gen_field_number(Src& s) { switch(s.below(4)) { case 0: return s.range(1, 20); case 1: { uint32_t k = s.range(1, 29); uint64_t v = ((uint64_t)1 << k) - 1 + s.below(3); return (uint32_t)std::min<uint64_t>(std::max<uint64_t>(v, 1), 536870911); } case 2: return 536870911 - s.below(3); default: return s.range(1, 536870911); } }

// A byte string read as a varint of 32 or 64 bits.
template<class U> void raw_varint(const std::string& in, const char* name) {
  const size_t maxn = sizeof(U) == 4 ? 5 : 10; size_t n = 0; bool closed = false; uint64_t v = 0; unsigned over = 0;
  while(n < in.size() && n < maxn) { uint8_t c = (uint8_t)in[n]; if(n < 9) v += (uint64_t)(c & 127) << (7 * n); else { v += (uint64_t)(c & 1) << 63; over |= c & 0x7e; } ++n; if(c < 128) { closed = true; break; } }
  if(sizeof(U) == 4 && v > 0xFFFFFFFFu) over = 1;
  RB r(in.data(), in.size()); U out = 0; Er e = WF::DeserializeVarint(r, out);
  if(closed) { if(over) { count("varint with more bits than its type"); return; } REQUIRE(e == Er::NO_ERRORS && out == (U)v && r.p == n, name << " varint " << hex(in) << " gives " << out << " error " << (int)e << " after " << r.p << " bytes instead of " << v << " after " << n); }
  else if(n == maxn) REQUIRE(e == Er::OVERLONG_VARINT || (e == Er::END_OF_BUFFER && in.size() == maxn), name << " varint " << hex(in) << " which does not end gives error " << (int)e);
  else REQUIRE(e == Er::END_OF_BUFFER, name << " varint " << hex(in) << " which is cut off gives error " << (int)e);
  if(closed && n > 1 && in[n - 1] == 0) count("padded varint");
}
// Wider varints than the type: 64 bit varints given to 32 bit signed types are truncated, any non zero one is true.
void widths(uint64_t u) {
  const std::string in = e_varint(u);
  { RB r(in.data(), in.size()); int32_t v = 0; Er e = WF::DeserializeInt(r, v); REQUIRE(e == Er::NO_ERRORS && v == (int32_t)(uint32_t)u, "int32 from varint " << hex(in) << " is " << v << " error " << (int)e); }
  { RB r(in.data(), in.size()); bool v = false; Er e = WF::DeserializeBool(r, v); REQUIRE(e == Er::NO_ERRORS && v == (u != 0), "bool from varint " << hex(in) << " is " << v << " error " << (int)e); }
  { RB r(in.data(), in.size()); EP::int32 v; v = 0; Er e = v.deserialize(r); REQUIRE(e == Er::NO_ERRORS && v.get() == (int32_t)(uint32_t)u, "int32 field from varint " << hex(in) << " is " << v.get() << " error " << (int)e); }
  const int64_t s = (int32_t)(uint32_t)u; const std::string neg = e_varint((uint64_t)s);   // as other implementations write a negative int32
  { RB r(neg.data(), neg.size()); EP::int32 v; v = 0; Er e = v.deserialize(r); REQUIRE(e == Er::NO_ERRORS && v.get() == (int32_t)s, "int32 field from a sign extended varint " << hex(neg) << " is " << v.get() << " error " << (int)e); }
}
void zigzag(uint64_t u) {
  const int64_t a = (int64_t)u; const int32_t b = (int32_t)(uint32_t)u;
  REQUIRE(WF::ZigZagEncode(a) == e_zigzag(a) && WF::ZigZagDecode(e_zigzag(a)) == a, "zigzag of " << a); REQUIRE(WF::ZigZagEncode(b) == (uint32_t)e_zigzag(b) && WF::ZigZagDecode((uint32_t)e_zigzag(b)) == b, "zigzag of " << b);
  REQUIRE(WF::ZigZagEncode(WF::ZigZagDecode(u)) == u && WF::ZigZagEncode(WF::ZigZagDecode((uint32_t)u)) == (uint32_t)u, "zigzag is not a bijection at " << u);
}
void one_type(int k, uint32_t f, uint64_t u, uint32_t cut) {
  int i = 0;
#define X(T, V, K, W) if(i++ == k) { value<T, V, K, W>(f, from_bits<V>(u), cut, #T); return; }
  TYPES(X)
#undef X
}
void two_values(int k, uint64_t u, uint64_t w) {
  int i = 0;
#define X(T, V, K, W) if(i++ == k) { wrapper<T, V>(from_bits<V>(u), from_bits<V>(w), #T); return; }
  TYPES(X)
#undef X
}
uint64_t gen_bits(Src& s) { switch(s.below(5)) { case 0: { static const uint64_t fl[] = {0, 0x80000000u, 0x7F800000u, 0xFF800000u, 0x7FC00000u, 0x7F800001u, 1, 0x80000001u, 0x8000000000000000ull, 0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000000ull, 0x7FF0000000000001ull, 0x3F800000u, 0x3FF0000000000000ull}; return fl[s.below(15)]; } case 1: return s.interesting(32); default: return s.interesting(64); } }
void c15(Src& s) {
  const uint64_t u = gen_bits(s);
  switch(s.below(6)) {
    case 0: case 1: case 2: { uint32_t f = gen_field_number(s); int k = (int)s.below(14); uint32_t cut = s.below(60); TRACE("type " << k << " field " << f << " bits " << std::hex << u); one_type(k, f, u, cut); count("codec"); nontrivial(std::to_string(k) + "," + std::to_string(f) + "," + std::to_string(u)); break; }
    case 3: { uint64_t w = s.coin() ? gen_bits(s) : u + s.below(3) - 1; int k = (int)s.below(14); TRACE("field objects of type " << k << " bits " << std::hex << u << " and " << w); two_values(k, u, w); mixed<EP::int32, EP::int64>((int32_t)u, (int64_t)w, "int32/int64"); mixed<EP::floatfixed, EP::doublefixed>(from_bits<float>(u), from_bits<double>(w), "float/double"); mixed<EP::uint64, EP::fixed32>((uint64_t)u, (uint32_t)w, "uint64/fixed32"); count("field objects"); nontrivial("w" + std::to_string(k) + "," + std::to_string(u) + "," + std::to_string(w)); break; }
    case 4: { std::string in; uint32_t n = s.range(0, 12); const uint32_t run = s.range(0, 12); for(uint32_t i = 0; i < n; ++i) { uint8_t c = s.below(4) ? (uint8_t)s.draw(255) : (s.coin() ? 0x80 : 0xff); if(i < run) c |= 0x80; else if(i == run) c &= s.coin() ? 0x7f : 0x01; in += (char)c; } TRACE("varint bytes " << hex(in)); raw_varint<uint32_t>(in, "32 bit"); raw_varint<uint64_t>(in, "64 bit"); count("raw varints"); nontrivial("v" + in);
      // As a tag.
      RB r(in.data(), in.size()); WF::WireType wt = WF::WireType::VARINT; uint32_t id = 0; Er e = WF::DeserializeTag(r, wt, id); uint64_t v = 0; size_t k = 0; bool closed = false; while(k < in.size() && k < 5) { uint8_t c = (uint8_t)in[k]; v += (uint64_t)(c & 127) << (7 * k); ++k; if(c < 128) { closed = true; break; } }
      if(closed && v <= 0xFFFFFFFFu) { if((v & 7) > 5) REQUIRE(e == Er::INVALID_WIRETYPE, "tag " << hex(in) << " with wire type " << (v & 7) << " gives error " << (int)e); else if((v & 7) == 3 || (v & 7) == 4) REQUIRE(e == Er::INVALID_WIRETYPE || (e == Er::NO_ERRORS && (uint64_t)wt == (v & 7)), "tag " << hex(in) << " of a group gives error " << (int)e); else REQUIRE((e == Er::NO_ERRORS && (uint64_t)wt == (v & 7) && id == v / 8) || (v / 8 == 0 && e == Er::INVALID_FIELD_ID), "tag " << hex(in) << " is read as " << id << "/" << (int)wt << " error " << (int)e); }
      else if(!closed) REQUIRE(e != Er::NO_ERRORS, "unterminated tag " << hex(in) << " is accepted"); break; }
    default: TRACE("widths of " << std::hex << u); widths(u); zigzag(u); { uint32_t f = gen_field_number(s); int wt = (int)s.below(6); REQUIRE(WF::MakeTag(f, (WF::WireType)wt) == f * 8u + (uint32_t)wt, "tag of field " << f << " wire type " << wt); } count("widths"); nontrivial("z" + std::to_string(u)); break;
  }
}
// All 32 bit values (a sample of them in the quick tier): encoder, decoder, zigzag.
inline size_t fast_varint(uint64_t v, uint8_t* o) { size_t n = 0; while(v > 127) { o[n++] = (uint8_t)(128 + (v & 127)); v >>= 7; } o[n++] = (uint8_t)v; return n; }
template<class T> inline void quick32(uint32_t u, bool zz, const char* name) {
  uint8_t e[12]; typedef typename T::TYPE V; const V v = (V)u; const uint64_t w = zz ? (uint64_t)(uint32_t)e_zigzag((int32_t)u) : (uint64_t)u; const size_t n = fast_varint(w, e); static WB b; b.n = 0; T t; t = v;
  REQUIRE(t.serialize(b) == Er::NO_ERRORS && b.n == n && !memcmp(b.d, e, n), name << " " << u << " is written as " << hex(b.str())); RB r(e, n); T x; x = (V)~u; REQUIRE(x.deserialize(r) == Er::NO_ERRORS && x.get() == v && r.p == n, name << " " << u << " is read as " << x.get());
}
template<class T> inline void quickfix(uint32_t u, const char* name) {
  typedef typename T::TYPE V; uint8_t e[4] = {(uint8_t)u, (uint8_t)(u >> 8), (uint8_t)(u >> 16), (uint8_t)(u >> 24)}; const V v = from_bits<V>(u); static WB b; b.n = 0; T t; t = v; REQUIRE(t.serialize(b) == Er::NO_ERRORS && b.n == 4 && !memcmp(b.d, e, 4), name << " " << u << " is written as " << hex(b.str())); RB r(e, 4); T x; x.clear(); REQUIRE(x.deserialize(r) == Er::NO_ERRORS && bits<V>(x.get()) == u, name << " " << std::hex << u << " is read as " << bits<V>(x.get()));
}
void fixed15(int worker, int nworkers, bool thorough) {
  // Every power of two plus and minus one, for every type, under field numbers at every boundary.
  int at = 0;
  for(int k = 0; k < 14; ++k) for(int b = 0; b < 64; ++b) for(int d = -1; d <= 1; ++d) for(int neg = 0; neg < 2; ++neg) for(int fk = 0; fk < 29; fk += 2) { if(at++ % nworkers != worker) continue; uint64_t u = ((uint64_t)1 << b) + (uint64_t)(int64_t)d; if(neg) u = 0 - u; uint32_t f = (1u << fk); one_type(k, f, u, (uint32_t)(b + fk)); if(fk) one_type(k, f - 1 ? f - 1 : 1, u, (uint32_t)b); ++g_stats.evaluations; }
  // All field numbers up to 2^14 and those around higher powers, as tags.
  for(uint32_t f = 1 + (uint32_t)worker; f < 20000; f += (uint32_t)nworkers) for(int wt = 0; wt < 6; ++wt) { const std::string t = e_tag(f, wt); WB w; REQUIRE(WF::SerializeVarint(WF::MakeTag(f, (WF::WireType)wt), w) == Er::NO_ERRORS && w.str() == t, "tag of field " << f); ++g_stats.evaluations; }
  const uint64_t total = (uint64_t)1 << 32; const uint64_t stride = thorough ? 1 : 65521; uint64_t done = 0;
  for(uint64_t u = (uint64_t)worker * stride; u < total; u += (uint64_t)nworkers * stride) {
    const uint32_t x = (uint32_t)u; ++done;
    quick32<EP::uint32>(x, false, "uint32"); quick32<EP::int32>(x, false, "int32"); quick32<EP::sint32>(x, true, "sint32"); quickfix<EP::fixed32>(x, "fixed32"); quickfix<EP::sfixed32>(x, "sfixed32"); quickfix<EP::floatfixed>(x, "float");
  }
  count(thorough ? "32 bit values, exhaustive" : "32 bit values, strided", done); g_stats.evaluations += done; g_stats.nontrivial += done;
}
}
static Reg r15("C15", "(type, field number, bit pattern) with bias to powers of two, extremes, NaN, infinities and -0.0, all byte strings up to 12 bytes as varints and tags, pairs of values for the field objects; every power of two +-1 under boundary field numbers and a strided (quick) or exhaustive (thorough) sweep of all 32 bit values; every case is non-trivial; oracle: an encoder of the harness' own by arithmetic, and the raw C++ value semantics", c15, fixed15);
