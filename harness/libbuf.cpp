// Library supplied buffers of a number of sizes behind the interfaces.
#include "engine.h"
#include <cstring>
#include <ReadBufferFixedSize.h>
#include <WriteBufferFixedSize.h>

#define SIZES(X) X(1) X(2) X(3) X(5) X(8) X(13) X(21) X(34) X(55) X(89) X(127) X(128) X(129) X(200) X(300) X(512) X(1000) X(2000) X(5000) X(20000) X(70000)
const std::vector<uint32_t>& lib_sizes() { static const std::vector<uint32_t> v = {
#define X(n) n,
  SIZES(X)
#undef X
  }; return v; }
template<uint32_t N> static std::unique_ptr<EP::ReadBufferInterface> mk(const std::string& d, int kind) {
  std::unique_ptr<EP::ReadBufferFixedSize<N>> b(new EP::ReadBufferFixedSize<N>());
  if(kind == 0) { for(char c : d) REQUIRE(b->push((uint8_t)c), "ReadBufferFixedSize<" << N << "> refuses a byte while not full"); }
  else { memcpy(b->get_data(), d.data(), d.size()); b->set_bytes_written((uint32_t)d.size()); }
  return std::unique_ptr<EP::ReadBufferInterface>(b.release());
}
std::unique_ptr<EP::ReadBufferInterface> lib_read(const std::string& d, int kind, uint32_t slack) {
  const size_t want = d.size() + slack;
#define X(n) if(want <= n) return mk<n>(d, kind);
  SIZES(X)
#undef X
  return nullptr;
}
template<uint32_t N> struct LW : LibWrite { EP::WriteBufferFixedSize<N> b; EP::WriteBufferInterface& buf() override { return b; } std::string data() override { return std::string((const char*)b.get_data(), b.get_size()); } };
std::unique_ptr<LibWrite> lib_write(uint32_t min, bool exact) {
#define X(n) if(exact ? min == n : min <= n) return std::unique_ptr<LibWrite>(new LW<n>());
  SIZES(X)
#undef X
  return nullptr;
}
