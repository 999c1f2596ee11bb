// C19: no heap calls from within the library. Runs the histories of the other properties with malloc and friends interposed.
// Built without sanitizers and without optimisation (which may remove pairs of new and delete).
#include "engine.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <cerrno>
#include <execinfo.h>
#include <ReadBufferFixedSize.h>
#include <WriteBufferFixedSize.h>
#include <ReadBufferSection.h>
#include <MessageSizeCalculator.h>
#include <Fields.h>
#include <FieldStringBytes.h>
#include <RepeatedFieldFixedSize.h>
#include <memory>

static thread_local unsigned long g_heap_calls = 0; static thread_local const char* g_heap_what = ""; static thread_local size_t g_heap_size = 0;
static thread_local void* g_bt[24]; static thread_local int g_btn = 0;
static void note(const char* what, size_t n) {
  if(g_in_ep <= 0) return;
  const int save = g_in_ep; g_in_ep = 0;
  if(!g_heap_calls++) { g_heap_what = what; g_heap_size = n; g_btn = backtrace(g_bt, 24); }
  g_in_ep = save;
}
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { note("malloc", n); return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { note("calloc", a * b); return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { note("realloc", n); return __libc_realloc(p, n); }
void free(void* p) { if(p) note("free", 0); __libc_free(p); }
void* memalign(size_t a, size_t n) { note("memalign", n); return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { note("aligned_alloc", n); return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { note("posix_memalign", n); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
}
static void verdict(const std::string& what) {
  const unsigned long n = g_heap_calls; g_heap_calls = 0; g_in_ep = 0;
  if(!n) return;
  std::string bt; char** sy = backtrace_symbols(g_bt, g_btn); if(sy) { for(int i = 2; i < g_btn; ++i) bt += std::string("\n  ") + sy[i]; free(sy); }
  fail(what + ": " + std::to_string(n) + " heap calls from within the library, first " + g_heap_what + " of " + std::to_string(g_heap_size) + " bytes" + bt);
}
// Repeated fields of every kind of element: whole array calls from memory of others and from their own array, copies between
// equal and different capacities, to itself, as argument of its own calls.
template<class E, uint32_t N> struct Rep2 {
  EP::RepeatedFieldFixedSize<E, N> a, b; EP::RepeatedFieldFixedSize<E, N + 3> big; E other[N + 4] = {};
  EP::WriteBufferFixedSize<256> w; EP::ReadBufferFixedSize<256> r;
  void op(Src& s) {
    const uint32_t k = (uint32_t)s.draw(N + 3), i = (uint32_t)s.draw(N + 1); const int op = (int)s.below(16);
    EpScope in; E v = {}; const auto& own = a.get_data_const();
    switch(op) {
      case 0: a.set_data(other, k); break;
      case 1: { const uint32_t f = i % N; a.set_data(own.data() + f, k % (N - f + 1)); break; }       // part of its own array
      case 2: a.set_data(b.get_data_const().data(), k % (N + 1)); break;
      case 3: { const auto& me = a; a = me; break; }
      case 4: b = a; break;
      case 5: { EP::RepeatedFieldFixedSize<E, N> c(a); EP::RepeatedFieldFixedSize<E, N> d; d = c; c = EP::RepeatedFieldFixedSize<E, N>(b); break; }
      case 6: { EP::RepeatedFieldFixedSize<E, N + 3> c(a); big = c; break; }
      case 7: a.add(a.get_const(i)); break;
      case 8: a.set(i, a.get_const(k)); break;
      case 9: a.get(i) = other[k % (N + 4)]; other[i] = a[k]; break;
      case 10: a.get_const(i, v); big.add(v); break;
      case 11: a.clear(); break;
      case 12: w.clear(); a.serialize_with_id(k + 1, w, false); break;
      case 13: { w.clear(); a.serialize(w); r.clear(); for(uint32_t j = 0; j < w.get_size(); ++j) r.push(w.get_data()[j]); break; }
      case 14: a.deserialize_check_type(r, EP::WireFormatter::WireType::LENGTH_DELIMITED); break;
      default: a.set(i, other[k % (N + 4)]); a.serialized_size(); break;
    }
  }
};
template<class E, uint32_t N> static void rep2(Src& s) { auto p = std::unique_ptr<Rep2<E, N>>(new Rep2<E, N>()); const int n = (int)s.range(1, 40); for(int k = 0; k < n; ++k) p->op(s); }
template<class S, class B, class C> static void str2(Src& s) {
  S a, b; B big; static C mem[300]; for(int i = 0; i < 300; ++i) mem[i] = (C)('a' + i % 26); mem[299] = 0;
  EP::WriteBufferFixedSize<256> w; EP::ReadBufferFixedSize<256> r; const int n = (int)s.range(1, 40);
  for(int q = 0; q < n; ++q) {
    const uint32_t k = (uint32_t)s.draw(280), i = (uint32_t)s.draw(20); const int op = (int)s.below(14);
    EpScope in; C v = 0;
    switch(op) {
      case 0: a.set(mem, k); break; case 1: { const uint32_t f = i % (a.get_max_length() + 1); a.set(a.get_const() + f, k % (a.get_max_length() - f + 1)); break; }
      case 2: { const S& me = a; a = me; a.set(me); break; } case 3: b = a; break; case 4: big = a; break; case 5: a = big; break; case 6: b.set(big); break; case 7: { S c(a); c = S(b); break; }
      case 8: a[i] = mem[k]; v = a.get_const(i); break; case 9: a.get_const(i, v); break; case 10: a.clear(); break;
      case 11: w.clear(); a.serialize_with_id(i + 1, w, false); break; case 12: { w.clear(); a.serialize(w); r.clear(); for(uint32_t j = 0; j < w.get_size(); ++j) r.push(w.get_data()[j]); break; } default: a.deserialize_check_type(r, EP::WireFormatter::WireType::LENGTH_DELIMITED); break;
    }
  }
}
static void parts2(Src& s) {
  switch(s.below(8)) {
    case 0: rep2<EP::uint32, 5>(s); break; case 1: rep2<EP::doublefixed, 3>(s); break; case 2: rep2<EP::boolean, 9>(s); break; case 3: rep2<EP::FieldString<6>, 4>(s); break; case 4: rep2<EP::FieldBytes<5>, 3>(s); break; case 5: rep2<EP::sint64, 20>(s); break;
    case 6: str2<EP::FieldString<9>, EP::FieldString<60>, char>(s); break; default: str2<EP::FieldBytes<9>, EP::FieldBytes<60>, uint8_t>(s); break;
  }
}
// Direct use of the parts which messages are made of.
static void parts(Src& s) {
  static uint8_t junk[512]; for(int i = 0; i < 512; ++i) junk[i] = (uint8_t)(i * 7 + 1);
  EP::WriteBufferFixedSize<64> w; EP::ReadBufferFixedSize<64> r; EP::MessageSizeCalculator c; EP::FieldString<9> str; EP::FieldString<40> str2; EP::FieldBytes<17> by; EP::RepeatedFieldFixedSize<EP::uint64, 6> ru; EP::RepeatedFieldFixedSize<EP::FieldString<7>, 3> rs; EP::RepeatedFieldFixedSize<EP::boolean, 70> rb; EP::doublefixed db; EP::int32 i32;
  const int n = (int)s.range(1, 40);
  for(int k = 0; k < n; ++k) {
    const uint32_t a = (uint32_t)s.draw(90), b = (uint32_t)s.draw(255); const int op = (int)s.below(30);
    EpScope in; uint8_t x = 0;
    switch(op) {
      case 0: w.push((uint8_t)b); break; case 1: w.push(junk, a); break; case 2: w.clear(); break; case 3: r.push((uint8_t)b); break; case 4: r.pop(x); break; case 5: r.peek(x); break; case 6: r.advance(); break; case 7: r.advance(a); break; case 8: r.clear(); break; case 9: c.push(junk, a); break;
      case 10: str.set(reinterpret_cast<const char*>(junk), a); break; case 11: str = "a text of some length"; break; case 12: str2 = str; break; case 13: str.set(str2); break; case 14: str[a] = 'x'; break; case 15: by.set(junk, a % 20); break; case 16: by[a] = 1; break; case 17: str.serialize_with_id(a + 1, w, false); break; case 18: by.deserialize(r); break; case 19: str.deserialize(r); break;
      case 20: ru.add(EP::uint64(b)); break; case 21: ru.set(a % 8, EP::uint64(b)); break; case 22: ru.serialize_with_id(a + 1, w, false); break; case 23: ru.deserialize(r); break; case 24: { EP::FieldString<7> e; e = "element"; rs.add(e); break; } case 25: rs.deserialize_check_type(r, EP::WireFormatter::WireType::LENGTH_DELIMITED); break; case 26: rs.serialize_with_id(3, w, false); break; case 27: rb.deserialize_check_type(r, EP::WireFormatter::WireType::LENGTH_DELIMITED); break;
      case 28: { db = 1.5; db.serialize_with_id(a + 1, w, false); i32 = (int32_t)b; i32.serialize(w); i32.deserialize(r); break; }
      default: { EP::ReadBufferSection sec(r, a); for(uint32_t j = 0; j < b % 9; ++j) sec.pop(x); sec.advance(b); break; }
    }
  }
}
static Reg r19("C19", "histories of the properties C01 to C14 (setting, decoding valid, foreign and damaged data, serializing into large, exact and too small buffers, refused buffer calls, copies, moves, clears, text output) and direct use of fields and buffers, with malloc, calloc, realloc, free and the memalign family interposed; non-trivial: every history; oracle: no heap call while inside a library call",
  [](Src& s) {
    g_in_ep = 0; g_heap_calls = 0;
    static const char* which[] = {"C06", "C09", "C10", "C11", "C02", "C03", "C07", "C08", "C01", "C05", "C04", "parts", "whole arrays", "C18", "C14"};
    uint32_t k = s.below(15); if(k == 14 && s.below(4)) k = 0; const std::string p = which[k];
    const uint64_t before = g_stats.nontrivial;
    try { if(p == "parts" || p == "whole arrays") { p == "parts" ? parts(s) : parts2(s); nontrivial(p + std::to_string(s.bits64())); } else props()[p].run(s); } catch(const Failure&) { g_stats.nontrivial = before; }   // judged by the other check
    g_stats.known.clear(); count("history of " + p);
    verdict("history of " + p);
  });
