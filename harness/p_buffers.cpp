// C13: buffers and sections against byte queues.
#include "prop.h"
#include <ReadBufferFixedSize.h>
#include <WriteBufferFixedSize.h>
#include <ReadBufferSection.h>
#include <MessageSizeCalculator.h>
#include <cstring>
#include <memory>
namespace EP = EmbeddedProto;
namespace {
template<class B> struct Heap {   // exact heap block filled with junk
  std::unique_ptr<uint32_t[]> mem; B* b;
  Heap() { size_t n = (sizeof(B) + 3) / 4; void* p = ::operator new[](n * 4); memset(p, 0xC3, n * 4); mem.reset((uint32_t*)p); b = new(p) B; }
  ~Heap() { b->~B(); }
};
uint32_t len_of(Src& s, uint32_t n) {   // 0..n, for large n around the limits of smaller integers
  if(n > 400 && s.below(3)) { static const uint32_t at[] = {127, 255, 256, 16383, 32767, 65535, 65536}; const uint32_t k = s.below(8); return std::min(n, (k < 7 ? at[k] : n) + s.below(3) - (s.coin() ? 1 : 0)); }
  return s.range(0, n);
}
std::string data_of(Src& s, uint32_t n) { std::string r; if(n > 1000) { Src c = Src::child(s.bits64()); for(uint32_t i = 0; i < n; ++i) r += (char)c.draw(255); } else for(uint32_t i = 0; i < n; ++i) r += (char)s.draw(255); return r; }
uint32_t count_arg(Src& s, uint32_t left) {   // distances around what is left and around the wrap
  if(left > 400 && s.coin()) return len_of(s, left);
  switch(s.below(9)) { case 0: return left; case 1: return left + 1; case 2: return left ? left - 1 : 0; case 3: return 0xFFFFFFFFu - s.below(4); case 4: return 0xFFFFFFFFu - left + s.below(3); case 5: return 0x80000000u - 1 + s.below(3); case 6: return 0; default: return s.below(left + 3); }
}
// The bytes of a read buffer not yet consumed.
struct Model { std::string d; uint32_t r = 0; uint32_t left() const { return (uint32_t)d.size() - r; } };

void read_op(Src& s, EP::ReadBufferInterface& b, Model& m, bool can_zero) {
  const uint32_t left = m.left(); const uint32_t kind = s.below(4);
  const uint8_t junk = (uint8_t)s.draw(255);
  if(kind == 0) { uint8_t c = junk; bool ok = b.peek(c); REQUIRE(ok == (left > 0), "peek returns " << ok << " with " << left << " bytes left"); if(ok) REQUIRE(c == (uint8_t)m.d[m.r], "peek gives " << (int)c << " instead of " << (int)(uint8_t)m.d[m.r]); else REQUIRE(c == junk, "a refused peek changes the byte"); }
  else if(kind == 1) { uint8_t c = junk; bool ok = b.pop(c); REQUIRE(ok == (left > 0), "pop returns " << ok << " with " << left << " bytes left"); if(ok) { REQUIRE(c == (uint8_t)m.d[m.r], "pop gives " << (int)c << " instead of " << (int)(uint8_t)m.d[m.r]); ++m.r; } else REQUIRE(c == junk, "a refused pop changes the byte"); }
  else if(kind == 2) { bool ok = b.advance(); REQUIRE(ok == (left > 0), "advance returns " << ok << " with " << left << " bytes left"); if(ok) ++m.r; }
  else { uint32_t n = count_arg(s, left); if(n == 0 && !can_zero && left == 0) return; bool ok = b.advance(n); TRACE("    advance(" << n << ") with " << left << " left gives " << ok); REQUIRE(ok == (n <= left), "advance(" << n << ") returns " << ok << " with " << left << " bytes left"); m.r += std::min(n, left); }
}
// Without consuming anything: what is the next byte?
void next_byte(const EP::ReadBufferInterface& b, const Model& m, const char* what) {
  uint8_t c = 0; bool ok = b.peek(c); REQUIRE(ok == (m.left() > 0), what << ": peek returns " << ok << " with " << m.left() << " bytes left"); if(ok) REQUIRE(c == (uint8_t)m.d[m.r], what << ": next byte is " << (int)c << " instead of " << (int)(uint8_t)m.d[m.r]);
}
template<uint32_t N> void read_buffer(Src& s) {
  typedef EP::ReadBufferFixedSize<N> B; Heap<B> h; B& b = *h.b; Model m; std::string key = "R" + std::to_string(N); const int steps = (int)s.range(1, 60); int refused = 0;
  // A bias such that full and empty are both reached.
  const uint32_t bias = s.range(1, 9);
  for(int k = 0; k < steps; ++k) {
    const uint32_t kind = s.below(10) < bias ? 0 : 1 + s.below(4); key += (char)kind;
    switch(kind) {
      case 0: { const uint32_t burst = s.below(4) ? 1 : s.range(1, std::min<uint32_t>(N, 40)); for(uint32_t i = 0; i < burst; ++i) { uint8_t c = (uint8_t)s.draw(255); bool ok = b.push(c); REQUIRE(ok == (m.d.size() < N), "push returns " << ok << " with " << m.d.size() << " of " << N << " bytes"); if(ok) m.d += (char)c; else ++refused; } break; }
      case 1: { if(s.below(4)) { read_op(s, b, m, true); break; }
        // Bulk: data is placed in the array and its size is told. Only for a buffer which starts anew.
        b.clear(); m = Model(); uint32_t n = len_of(s, N); m.d = data_of(s, n); memcpy(b.get_data(), m.d.data(), n);
        uint32_t tell = n; if(n == N && s.coin()) { tell = N + 1 + s.below(5); if(s.coin()) tell = 0xFFFFFFFFu; } b.set_bytes_written(tell); TRACE("  bulk " << n << " told " << tell); break; }
      case 2: b.clear(); m = Model(); break;
      default: read_op(s, b, m, true); break;
    }
    REQUIRE(b.get_size() == m.d.size(), "get_size is " << b.get_size() << " with " << m.d.size() << " bytes stored"); REQUIRE(b.get_max_size() == N, "get_max_size is " << b.get_max_size()); REQUIRE(m.d.empty() || memcmp(b.get_data(), m.d.data(), m.d.size()) == 0, "the stored data differs");
    next_byte(b, m, "read buffer");
  }
  // Everything left comes out.
  uint8_t c; while(b.pop(c)) { REQUIRE(m.left() && c == (uint8_t)m.d[m.r], "draining gives a wrong byte at " << m.r); ++m.r; } REQUIRE(m.left() == 0, "draining stops " << m.left() << " bytes early");
  count("read buffer"); if(refused) count("read buffer full"); if(steps > 3) nontrivial(key + m.d);
}
template<uint32_t N> void write_buffer(Src& s) {
  typedef EP::WriteBufferFixedSize<N> B; Heap<B> h; B& b = *h.b; std::string m, key = "W" + std::to_string(N); const int steps = (int)s.range(1, 50); int refused = 0, exact = 0;
  for(int k = 0; k < steps; ++k) {
    const uint32_t left = N - (uint32_t)m.size(); const uint32_t kind = s.below(12); key += (char)kind;
    if(kind == 0) { b.clear(); m.clear(); }
    else if(kind < 6) { uint8_t c = (uint8_t)s.draw(255); bool ok = b.push(c); REQUIRE(ok == (left > 0), "push returns " << ok << " with " << left << " bytes free"); if(ok) m += (char)c; else ++refused; }
    else { uint32_t n = count_arg(s, left); const uint32_t have = std::min<uint32_t>(n, N + 3); std::unique_ptr<uint8_t[]> d(new uint8_t[have + 1]); { const std::string x = data_of(s, have); memcpy(d.get(), x.data(), have); }
      bool ok = b.push(d.get(), n); TRACE("  push of " << n << " with " << left << " free gives " << ok); REQUIRE(ok == (n <= left), "push of " << n << " bytes returns " << ok << " with " << left << " bytes free"); if(ok) m.append((const char*)d.get(), n); else ++refused; if(n == left) ++exact; }
    REQUIRE(b.get_size() == m.size() && b.get_max_size() == N && b.get_available_size() == N - m.size(), "sizes are " << b.get_size() << " " << b.get_available_size() << " " << b.get_max_size() << " with " << m.size() << " of " << N << " bytes"); REQUIRE(m.empty() || memcmp(b.get_data(), m.data(), m.size()) == 0, "the content differs from what was pushed");
  }
  count("write buffer"); if(refused) count("write buffer full"); if(exact) count("write buffer filled exactly"); if(steps > 3) nontrivial(key + m);
}
void calculator(Src& s) {
  EP::MessageSizeCalculator c; EP::WriteBufferInterface& b = c; uint32_t n = 0; const int steps = (int)s.range(1, 40); uint8_t some[64] = {0}; std::string key = "C";
  for(int k = 0; k < steps; ++k) { const uint32_t kind = s.below(8); key += (char)kind; if(kind == 0) { b.clear(); n = 0; } else if(kind < 5) { REQUIRE(b.push((uint8_t)s.draw(255)), "push refused"); ++n; } else { uint32_t l = s.range(0, 64); REQUIRE(b.push(some, l), "push of " << l << " refused"); n += l; key += (char)l; }
    REQUIRE(b.get_size() == n, "size is " << b.get_size() << " instead of " << n); REQUIRE(b.get_available_size() >= 0x7FFFFFFFu && b.get_max_size() >= 0x7FFFFFFFu, "the calculator has a limited size of " << b.get_available_size()); }
  count("size calculator"); if(steps > 3) nontrivial(key);
}
// A parent whose get_size() is what is left.
struct Src1 : EP::ReadBufferInterface { Model& m; explicit Src1(Model& x) : m(x) {} uint32_t get_size() const override { return m.left(); } uint32_t get_max_size() const override { return (uint32_t)m.d.size(); } bool peek(uint8_t& b) const override { if(!m.left()) return false; b = (uint8_t)m.d[m.r]; return true; } bool advance() override { if(!m.left()) return false; ++m.r; return true; } bool advance(const uint32_t n) override { uint32_t l = m.left(); m.r += std::min(n, l); return n <= l; } bool pop(uint8_t& b) override { if(!peek(b)) return false; ++m.r; return true; } };
// Sections, nested, over a buffer which is consumed partly before.
void section_ops(Src& s, EP::ReadBufferInterface& parent, Model& m, const std::function<void()>& parent_check, int depth, bool exact_size, std::string& key) {
  const uint32_t left = m.left(); uint32_t size = count_arg(s, left); key += std::to_string(size) + ",";
  EP::ReadBufferSection sec(parent, size); const uint32_t avail = std::min(size, left); const uint32_t start = m.r; Model v; v.d = m.d.substr(m.r, avail);   // what may be seen
  TRACE("  section of " << size << " on " << left << " bytes, depth " << depth);
  const int steps = (int)s.range(0, 12);
  for(int k = 0; k < steps; ++k) {
    if(depth < 4 && s.below(6) == 5) { section_ops(s, sec, v, [&]() { m.r = start + v.r; parent_check(); }, depth + 1, exact_size || avail == size, key); }
    else { key += (char)v.r; read_op(s, sec, v, false); }
    m.r = start + v.r;
    if(exact_size || avail == size) REQUIRE(sec.get_size() == v.left(), "the section says " << sec.get_size() << " bytes with " << v.left() << " left"); else REQUIRE(sec.get_size() <= size, "the section grows");
    if(exact_size || avail == size) REQUIRE(sec.get_max_size() == avail, "maximum size of the section is " << sec.get_max_size() << " instead of " << avail); else REQUIRE(sec.get_max_size() <= size, "maximum size of the section is larger than asked for");
    next_byte(sec, v, "section"); parent_check();
  }
}
void sections(Src& s, bool large = false) {
  std::string key = "S"; Model m; const uint32_t n = large ? len_of(s, 70000) : s.below(4) ? s.range(0, 40) : s.range(0, 300); m.d = data_of(s, n);
  if(large || s.coin()) { Src1 p(m); Model mm = m; m.r = 0;
    // The parent keeps its own position in m; the model of it is mm.
    int rounds = (int)s.range(1, 5); for(int k = 0; k < rounds; ++k) { if(s.coin()) { uint32_t a = s.below(mm.left() + 1); p.advance(a); mm.r += a; } section_ops(s, p, mm, [&]() { REQUIRE(m.r == mm.r, "the parent is at " << m.r << " instead of " << mm.r); }, 0, true, key); }
    count("sections"); nontrivial(key + m.d); return; }
  EP::ReadBufferFixedSize<300> b; for(char c : m.d) b.push((uint8_t)c); int rounds = (int)s.range(1, 5);
  for(int k = 0; k < rounds; ++k) { if(s.coin()) { uint32_t a = s.below(m.left() + 1); b.advance(a); m.r += a; } section_ops(s, b, m, [&]() { next_byte(b, m, "parent of the section"); }, 0, false, key); }
  uint8_t c; while(b.pop(c)) { REQUIRE(m.left() && c == (uint8_t)m.d[m.r], "after the section the parent gives a wrong byte at " << m.r); ++m.r; } REQUIRE(m.left() == 0, "after the section " << m.left() << " bytes are missing in the parent");
  count("sections on ReadBufferFixedSize"); nontrivial(key + m.d);
}
// Sections over a parent of up to 2^32 - 1 bytes, which exist only as a function of their position.
uint8_t far_byte(uint64_t p) { return (uint8_t)((p * 0x9E3779B97F4A7C15ull) >> 56); }
struct Far : EP::ReadBufferInterface { uint64_t len, r = 0; explicit Far(uint64_t n) : len(n) {} uint32_t get_size() const override { return (uint32_t)(len - r); } uint32_t get_max_size() const override { return (uint32_t)len; } bool peek(uint8_t& b) const override { if(r >= len) return false; b = far_byte(r); return true; } bool advance() override { if(r >= len) return false; ++r; return true; } bool advance(const uint32_t n) override { const uint64_t l = len - r; r += std::min<uint64_t>(n, l); return n <= l; } bool pop(uint8_t& b) override { if(!peek(b)) return false; ++r; return true; } };
uint32_t far_count(Src& s, uint64_t left) { const uint64_t v = s.below(3) == 2 ? s.interesting(32) : left + s.below(4) - 2 - (s.coin() ? left / (1 + s.below(9)) : 0); return (uint32_t)std::min<uint64_t>(0xFFFFFFFFu, (int64_t)v < 1 ? 1 : v); }
void far_ops(Src& s, EP::ReadBufferInterface& b, Far& far, uint64_t end, int depth, std::string& key) {   // b shows the bytes up to end
  const int steps = (int)s.range(1, 8);
  for(int k = 0; k < steps; ++k) {
    const uint64_t at = far.r, left = end - at; const uint32_t kind = s.below(6); key += (char)kind; uint8_t c = 0;
    if(kind < 2 && depth < 4) { const uint32_t n = far_count(s, left); key += std::to_string(n); EP::ReadBufferSection sec(b, n); const uint64_t avail = std::min<uint64_t>(n, left); TRACE("section of " << n << " on " << left << " depth " << depth);
      REQUIRE(sec.get_size() == avail && sec.get_max_size() == avail, "a section of " << n << " on " << left << " bytes has size " << sec.get_size() << " maximum " << sec.get_max_size()); far_ops(s, sec, far, at + avail, depth + 1, key); REQUIRE(far.r >= at && far.r <= at + avail, "the section moves its parent from " << at << " to " << far.r << " with " << avail << " bytes available"); }
    else if(kind == 2) { bool ok = b.pop(c); REQUIRE(ok == (left > 0) && (!ok || c == far_byte(at)) && far.r == at + (ok ? 1 : 0), "pop at " << at << " with " << left << " left gives " << ok << " " << (int)c << " and moves to " << far.r); }
    else if(kind == 3) { bool ok = b.advance(); REQUIRE(ok == (left > 0) && far.r == at + (ok ? 1 : 0), "advance at " << at << " with " << left << " left gives " << ok << " and moves to " << far.r); }
    else { const uint32_t n = far_count(s, left); key += std::to_string(n); bool ok = b.advance(n); TRACE("advance " << n << " with " << left << " left, depth " << depth); REQUIRE(ok == (n <= left) && far.r == at + std::min<uint64_t>(n, left), "advance(" << n << ") at " << at << " with " << left << " left gives " << ok << " and moves to " << far.r); }
    REQUIRE(b.get_size() == end - far.r, "size is " << b.get_size() << " instead of " << end - far.r); bool ok = b.peek(c); REQUIRE(ok == (far.r < end) && (!ok || c == far_byte(far.r)), "peek at " << far.r << " of " << end << " gives " << ok << " " << (int)c);
  }
}
void far_sections(Src& s) { std::string key = "F"; Far f(s.coin() ? s.interesting(32) : 0xFFFFFFFFull - s.below(5)); far_ops(s, f, f, f.len, 0, key); count("sections on up to 2^32 - 1 bytes"); nontrivial(key + std::to_string(f.len)); }
void c13(Src& s) {
  if(s.below(16) == 15) { far_sections(s); return; }
  if(s.below(60) == 59) { switch(s.below(3)) { case 0: read_buffer<70000>(s); break; case 1: write_buffer<70000>(s); break; default: sections(s, true); break; } count("more than 16 bits"); return; }
  switch(s.below(14)) {
    case 0: read_buffer<1>(s); break; case 1: read_buffer<2>(s); break; case 2: read_buffer<7>(s); break; case 3: read_buffer<64>(s); break; case 4: read_buffer<300>(s); break;
    case 5: write_buffer<1>(s); break; case 6: write_buffer<2>(s); break; case 7: write_buffer<5>(s); break; case 8: write_buffer<33>(s); break; case 9: write_buffer<257>(s); break;
    case 10: calculator(s); break;
    default: sections(s); break;
  }
}
}
static Reg r13("C13", "up to 60 operations (push, bulk push, bulk write, peek, pop, advance by amounts around what is left and around 2^31 and 2^32, clear) on read and write buffers of capacity 1 to 300 in junk-filled memory of exact size, on the size calculator, and on up to 5 levels of nested sections over two parent types, and over a virtual parent of up to 2^32 - 1 bytes; non-trivial: more than three operations; oracle: a byte queue, compared after every operation, parents included", c13);
