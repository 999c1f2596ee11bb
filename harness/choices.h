// Recorded choice sequences: every random decision of a case is one draw(max).
// A case is completely described by its sequence, so it can be replayed and shrunk.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <algorithm>

// Global record of the current case, kept in static storage such that a crash handler can dump it.
struct ChoiceLog {
  static const size_t MAX = 1u << 18;
  uint64_t v[MAX];
  volatile size_t n;
};
extern ChoiceLog g_log;

class Src {
public:
  explicit Src(uint64_t seed) : mode_(RANDOM) { s_[0] = mix(seed); s_[1] = mix(seed + 0x1234567); g_log.n = 0; }
  // Not recorded: to repeat the same decisions on several objects from one recorded seed.
  static Src child(uint64_t seed) { Src s; s.s_[0] = mix(seed); s.s_[1] = mix(seed + 0x1234567); return s; }
  explicit Src(const std::vector<uint64_t>* replay) : mode_(REPLAY), rep_(replay) { g_log.n = 0; }
  Src(const uint8_t* data, size_t n) : mode_(BYTES), b_(data), bn_(n) { g_log.n = 0; }

  // A value in [0, max].
  uint64_t draw(uint64_t max) {
    uint64_t r = 0;
    if(max == 0) { return 0; }
    switch(mode_) {
      case RANDOM: { uint64_t x = next(); r = (max == UINT64_MAX) ? x : x % (max + 1); break; }
      case REPLAY: if(pos_ < rep_->size()) { r = (*rep_)[pos_++]; } if(r > max) r = max; break;
      case BYTES: {
        int nb = max < 256 ? 1 : max < 65536 ? 2 : max <= UINT32_MAX ? 4 : 8;
        for(int i = 0; i < nb && bpos_ < bn_; ++i) r |= (uint64_t)b_[bpos_++] << (8 * i);
        if(max != UINT64_MAX) r %= (max + 1);
        break; }
    }
    if(!log_) return r;
    if(g_log.n < ChoiceLog::MAX) { g_log.v[g_log.n] = r; g_log.n = g_log.n + 1; }
    else over_ = true;
    return r;
  }
  bool exhausted() const { return over_; }
  uint32_t below(uint32_t n) { return n ? (uint32_t)draw(n - 1) : 0; }            // [0,n)
  uint32_t range(uint32_t a, uint32_t b) { return a + (uint32_t)draw(b - a); }    // [a,b]
  bool coin() { return draw(1) == 1; }
  bool chance(uint32_t num, uint32_t den) { return draw(den - 1) >= den - num; }  // 0 => false
  template<class C> auto pick(const C& c) -> decltype(c[0]) { return c[below((uint32_t)c.size())]; }
  uint64_t bits64() { return draw(UINT64_MAX); }
  // Integers with boundary bias: small, near powers of two, and uniform.
  uint64_t interesting(int width) {
    const uint64_t m = width == 64 ? UINT64_MAX : ((uint64_t)1 << width) - 1;
    switch(below(6)) {
      case 0: return draw(16) & m;
      case 1: { uint32_t k = below(width); uint64_t b = (uint64_t)1 << k; return (b - 1 + draw(2)) & m; }
      case 2: return (m - draw(8)) & m;
      case 3: { uint32_t k = below(width); return (0 - (((uint64_t)1 << k) - 1 + draw(2))) & m; }
      case 4: { uint32_t k = range(1, width); return draw(k == 64 ? UINT64_MAX : (((uint64_t)1 << k) - 1)) & m; }
      default: return bits64() & m;
    }
  }
private:
  enum Mode { RANDOM, REPLAY, BYTES } mode_;
  uint64_t s_[2] = {0, 0};
  const std::vector<uint64_t>* rep_ = nullptr; size_t pos_ = 0;
  const uint8_t* b_ = nullptr; size_t bn_ = 0, bpos_ = 0;
  bool over_ = false, log_ = true;
  Src() : mode_(RANDOM), log_(false) {}
  static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t next() { uint64_t a = s_[0]; const uint64_t b = s_[1]; s_[0] = b; a ^= a << 23; a ^= a >> 17; a ^= b ^ (b >> 26); s_[1] = a; return a + b; }
};
