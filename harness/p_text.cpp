// C18: text output.
#include "engine.h"
#include "sweep.h"
typedef gp::FieldDescriptor FD;
namespace {
// The text as a list of tokens; white space between them is free. Strings are literal.
typedef std::vector<std::string> Tokens;
std::string num(const FD* f, uint64_t u) {
  char b[512];
  switch(f->cpp_type()) {
    case FD::CPPTYPE_INT32: snprintf(b, sizeof b, "%d", (int32_t)(uint32_t)u); break;
    case FD::CPPTYPE_INT64: snprintf(b, sizeof b, "%lld", (long long)u); break;
    case FD::CPPTYPE_UINT32: snprintf(b, sizeof b, "%u", (uint32_t)u); break;
    case FD::CPPTYPE_UINT64: snprintf(b, sizeof b, "%llu", (unsigned long long)u); break;
    case FD::CPPTYPE_BOOL: return u ? "true" : "false";
    case FD::CPPTYPE_FLOAT: { uint32_t x = (uint32_t)u; float v; memcpy(&v, &x, 4); snprintf(b, sizeof b, "%f", (double)v); break; }
    default: { double v; memcpy(&v, &u, 8); snprintf(b, sizeof b, "%f", v); break; }
  }
  return b;
}
void bytes_tokens(const std::string& s, Tokens& o) { o.push_back("["); for(size_t i = 0; i < s.size(); ++i) { if(i) o.push_back(","); o.push_back(std::to_string((unsigned)(uint8_t)s[i])); } o.push_back("]"); }
void str_tokens(const FD* f, const std::string& s, Tokens& o) { if(is_text(f)) o.push_back("\"" + s + "\""); else bytes_tokens(s, o); }
void msg_tokens(const gp::Message& m, Tokens& o) {
  auto* r = m.GetReflection(); auto* d = m.GetDescriptor(); o.push_back("{"); bool first = true;
  auto field = [&](const FD* f) {
    if(!first) o.push_back(","); first = false;
    o.push_back("\"" + f->name() + "\""); o.push_back(":");
    if(f->is_repeated()) { o.push_back("["); for(int i = 0; i < r->FieldSize(m, f); ++i) { if(i) o.push_back(","); std::string x; if(is_msg(f)) msg_tokens(r->GetRepeatedMessage(m, f, i), o); else if(is_str(f)) str_tokens(f, r->GetRepeatedStringReference(m, f, i, &x), o); else o.push_back(num(f, pb_rget(m, f, i))); } o.push_back("]"); }
    else if(is_msg(f)) msg_tokens(r->GetMessage(m, f), o);
    else if(is_str(f)) { std::string x; str_tokens(f, r->GetStringReference(m, f, &x), o); }
    else o.push_back(num(f, pb_get(m, f)));
  };
  for(int i = 0; i < d->field_count(); ++i) if(!real_oneof(d->field(i))) field(d->field(i));
  for(int k = 0; k < d->real_oneof_decl_count(); ++k) { const FD* f = r->GetOneofFieldDescriptor(m, d->oneof_decl(k)); if(f) field(f); }
  o.push_back("}");
}
bool nul_in_text(const gp::Message& m) {
  auto* r = m.GetReflection(); std::vector<const FD*> fs; r->ListFields(m, &fs); std::string x;
  for(auto* f : fs) for(int i = 0, n = f->is_repeated() ? r->FieldSize(m, f) : 1; i < n; ++i) {
    if(is_msg(f)) { if(nul_in_text(f->is_repeated() ? r->GetRepeatedMessage(m, f, i) : r->GetMessage(m, f))) return true; }
    else if(is_str(f) && is_text(f) && (f->is_repeated() ? r->GetRepeatedStringReference(m, f, i, &x) : r->GetStringReference(m, f, &x)).find('\0') != std::string::npos) return true;
  }
  return false;
}
std::string match(const std::string& text, const Tokens& tk) {
  size_t p = 0;
  for(size_t i = 0; i < tk.size(); ++i) {
    while(p < text.size() && (text[p] == ' ' || text[p] == '\n' || text[p] == '\t' || text[p] == '\r')) ++p;
    if(text.compare(p, tk[i].size(), tk[i]) != 0) return "at character " + std::to_string(p) + " '" + tk[i] + "' is expected";
    p += tk[i].size();
    // A number has to end here.
    if(p < text.size() && (isalnum((unsigned char)tk[i][0]) || tk[i][0] == '-') && (isalnum((unsigned char)text[p]) || text[p] == '.')) return "at character " + std::to_string(p) + " the end of " + tk[i] + " is expected";
  }
  while(p < text.size() && (text[p] == ' ' || text[p] == '\n' || text[p] == '\t' || text[p] == '\r')) ++p;
  return p == text.size() ? "" : "text goes on at character " + std::to_string(p);
}
// A character array of exactly n bytes with a canary, behind the sanitizer's red zones.
struct Arr { char* p; uint32_t n; explicit Arr(uint32_t k) : p(static_cast<char*>(malloc(k ? k : 1))), n(k) { memset(p, 0x7E, k ? k : 1); } ~Arr() { free(p); } };
std::string full_text(const Obj& o, uint32_t guess) {
  for(uint32_t n = guess;; n *= 4) {
    Arr a(n); EP::string_view v{a.p, n}; EP::string_view left = o.m().to_string(v);
    REQUIRE(left.data >= a.p && left.data <= a.p + n && left.size <= (uint32_t)(a.p + n - left.data), "the view returned by to_string is not inside the array of " << n << " characters: offset " << (left.data - a.p) << " size " << left.size);
    const char* z = static_cast<const char*>(memchr(a.p, 0, n)); REQUIRE(z, "text in an array of " << n << " characters is not terminated");
    const uint32_t len = (uint32_t)(z - a.p);
    if(len + 1 < n) {
      REQUIRE(left.data == a.p + len && left.size == n - len, "text of " << len << " characters in an array of " << n << " but the view returned is at " << (left.data - a.p) << " with " << left.size << " left");
      return std::string(a.p, len);
    }
    REQUIRE(n < (64u << 20), "text does not end");
  }
}
void check_size(const Obj& o, const std::string& full, uint32_t n) {
  Arr a(n); char* p = n ? a.p : a.p + 1;
  EP::string_view v{p, n}; EP::string_view left = o.m().to_string(v);
  REQUIRE(left.data >= p && left.data <= p + n && left.size <= (uint32_t)(p + n - left.data), "array of " << n << " characters (full text " << full.size() << "): the returned view is at " << (left.data - p) << " with size " << left.size);
  if(!n) { REQUIRE((unsigned char)a.p[0] == 0x7E, "an array of size zero was written"); return; }
  const char* z = static_cast<const char*>(memchr(p, 0, n)); REQUIRE(z, "array of " << n << " characters (full text " << full.size() << "): not terminated: " << std::string(p, n));
  const size_t len = (size_t)(z - p);
  REQUIRE(len <= full.size() && full.compare(0, len, p, len) == 0, "array of " << n << " characters holds '" << std::string(p, len) << "' which is not a prefix of '" << full << "'");
  if(n > full.size()) { REQUIRE(len == full.size(), "array of " << n << " characters holds " << len << " of " << full.size() << " characters"); REQUIRE(left.data == p + len && left.size == n - len, "array of " << n << ": text ends at " << len << " the view returned is at " << (left.data - p) << " with " << left.size << " left"); }
}
std::string check(const Obj& o, const gp::Message& v) {
  const std::string text = full_text(o, 4096);
  Tokens tk; msg_tokens(v, tk); std::string e = match(text, tk);
  REQUIRE(e.empty(), o.t->ops->inst << " " << show(v) << ": " << e << " in\n" << text);
  return text;
}
}
static Reg r18("C18", "random message values (strings of any characters but NUL, bytes of any value), set through random accessors or decoded; rendered into a large array and into arrays of every size (all sizes up to 400 characters beyond which sizes are sampled); non-trivial: at least one field set; oracle: token list of the content rendered from the descriptor, prefix relation, view inside the array, address sanitizer",
  [](Src& s) {
    const Type& t = pick_type(s); PMsg v = gen_pb(s, t, true); Obj o(t, (uint8_t)s.below(256));
    if(s.below(3) == 2) { PMsg w = gen_pb(s, t, true); apply(s, o.m(), *w); o->clear(); }
    if(s.coin()) apply(s, o.m(), *v); else { EncOpt eo; RBuf b(encode(s, *v, t.caps, eo)); EP::Error e = o->deserialize(b); if(e != EP::Error::NO_ERRORS) return; }
    PMsg before = snapshot(o);
    const std::string text = check(o, *before);
    TRACE(t.ops->inst << " " << show(*v) << " -> " << text);
    const uint32_t L = (uint32_t)text.size();
    uint64_t sizes = 0;
    if(L <= 400) for(uint32_t n = 0; n <= L + 3; ++n) { check_size(o, text, n); ++sizes; }
    else { for(int k = 0; k < 60; ++k) { check_size(o, text, (uint32_t)s.draw(L + 4)); ++sizes; } for(uint32_t n : {0u, 1u, 2u, 3u, L - 2, L - 1, L, L + 1, L + 2}) { check_size(o, text, n); ++sizes; } }
    REQUIRE(ser(*snapshot(o)) == ser(*before), t.ops->inst << " was changed by to_string");
    count("array sizes", sizes); count(std::string("type ") + t.ops->name);
    if(!ser(*v).empty()) nontrivial(std::string(t.ops->inst) + ser(*v));
  },
  [](int w, int n, bool th) { sweep_single(w, n, th, [](const Type& t, const gp::Message& v, const std::string& what) {
    if(nul_in_text(v)) return;
    std::vector<uint64_t> z; Src s(&z); Obj o(t); try { apply(s, o.m(), v); check(o, v); } catch(Failure& f) { f.msg = what + ": " + f.msg; throw; }
    count("boundary sweep"); ++g_stats.evaluations; nontrivial(what + t.ops->inst); }); });
