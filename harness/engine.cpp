#include "engine.h"
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/unknown_field_set.h>
#include <google/protobuf/stubs/logging.h>

typedef gp::FieldDescriptor FD;

std::vector<TypeOps>& types() { static std::vector<TypeOps> t; return t; }
thread_local int g_in_ep = 0;
namespace gl { void unsupported(const char* what) { fprintf(stderr, "harness: unsupported accessor %s\n", what); abort(); } }

// ---------------------------------------------------------------- types
static void quiet(gp::LogLevel, const char*, int, const std::string&) {}
static gp::DescriptorPool& pool() { static gp::DescriptorPool* p = new gp::DescriptorPool; return *p; }
static gp::DynamicMessageFactory& factory() { static gp::DynamicMessageFactory* f = new gp::DynamicMessageFactory(&pool()); return *f; }

static CapNode parse_caps(const char* txt) {
  CapNode root; std::istringstream is(txt); std::string tok;
  while(is >> tok) {
    size_t c = tok.find(':'); CapNode* n = &root; std::istringstream p(tok.substr(0, c)); std::string part;
    while(std::getline(p, part, '.')) n = &n->sub[atoi(part.c_str())];
    int v = atoi(tok.c_str() + c + 2);
    if(tok[c + 1] == 'r') n->r = v; else n->l = v;
  }
  return root;
}
static void facts(Type& t, const gp::Descriptor* d, int depth) {
  for(int i = 0; i < d->field_count(); ++i) {
    const FD* f = d->field(i); ++t.nfields;
    if(real_oneof(f)) t.has_oneof = true;
    if(f->has_optional_keyword()) t.has_optional = true;
    if(f->is_repeated()) t.has_rep = true;
    if(f->is_repeated() || is_str(f)) t.has_cap = true;
    if(is_msg(f)) { t.has_sub = true; facts(t, f->message_type(), depth + 1); }
  }
}
const std::vector<Type>& all_types() {
  static std::vector<Type>* v = nullptr;
  if(!v) {
    gp::SetLogHandler(quiet);
    gp::FileDescriptorSet fds;
    if(!fds.ParseFromArray(g_fds, (int)g_fds_len)) { fprintf(stderr, "harness: descriptor set\n"); abort(); }
    for(auto& f : fds.file()) if(!pool().BuildFile(f)) { fprintf(stderr, "harness: descriptor %s\n", f.name().c_str()); abort(); }
    v = new std::vector<Type>;
    for(auto& o : types()) {
      Type t; t.ops = &o; t.d = pool().FindMessageTypeByName(o.name);
      if(!t.d) { fprintf(stderr, "harness: no descriptor for %s\n", o.name); abort(); }
      t.proto = factory().GetPrototype(t.d); t.caps = parse_caps(o.caps); facts(t, t.d, 0);
      v->push_back(t);
    }
    std::sort(v->begin(), v->end(), [](const Type& a, const Type& b) { return std::string(a.ops->inst) < b.ops->inst; });
  }
  return *v;
}
bool has_type(const std::string& n) { for(auto& t : all_types()) if(n == t.ops->name) return true; return false; }
const Type& type_named(const std::string& n) { for(auto& t : all_types()) if(n == t.ops->name) return t; fprintf(stderr, "harness: no type %s\n", n.c_str()); abort(); }
const Type& pick_type(Src& s, const TypePred& pred) {
  static std::vector<const Type*> all;
  std::vector<const Type*> c;
  for(auto& t : all_types()) if(!pred || pred(t)) c.push_back(&t);
  if(c.empty()) { fprintf(stderr, "harness: no type\n"); abort(); }
  const Type* t = c[s.below((uint32_t)c.size())];
  if(t->ops->size > 100000 && s.below(4)) t = c[s.below((uint32_t)c.size())];   // slow ones less often
  return *t;
}
PMsg new_pb(const Type& t) { return PMsg(t.proto->New()); }
bool real_oneof(const FD* f) { return f->real_containing_oneof() != nullptr; }
bool tracked(const FD* f) { return !f->is_repeated() && (f->has_optional_keyword() || real_oneof(f)); }

Obj::Obj(const Type& ty, uint8_t pattern) : t(&ty), p(aligned_alloc(std::max<size_t>(ty.ops->align, sizeof(void*)), (ty.ops->size + ty.ops->align - 1) / ty.ops->align * ty.ops->align)) { memset(p, pattern, t->ops->size); t->ops->construct(p); bind(); }
Obj::Obj(const Type& ty, Raw, uint8_t pattern) : t(&ty), p(aligned_alloc(std::max<size_t>(ty.ops->align, sizeof(void*)), (ty.ops->size + ty.ops->align - 1) / ty.ops->align * ty.ops->align)) { memset(p, pattern, t->ops->size); }
void Obj::bind() { w.reset(t->ops->wrap(p)); }
Obj::~Obj() { if(w) t->ops->destroy(p); w.reset(); free(p); }

// ---------------------------------------------------------------- scalars
static uint64_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t dbits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
static float tof(uint64_t u) { uint32_t x = (uint32_t)u; float f; memcpy(&f, &x, 4); return f; }
static double tod(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
uint64_t pb_get(const gp::Message& m, const FD* f) {
  auto* r = m.GetReflection();
  switch(f->cpp_type()) {
    case FD::CPPTYPE_INT32: return (uint32_t)r->GetInt32(m, f);
    case FD::CPPTYPE_UINT32: return r->GetUInt32(m, f);
    case FD::CPPTYPE_INT64: return (uint64_t)r->GetInt64(m, f);
    case FD::CPPTYPE_UINT64: return r->GetUInt64(m, f);
    case FD::CPPTYPE_BOOL: return r->GetBool(m, f);
    case FD::CPPTYPE_FLOAT: return fbits(r->GetFloat(m, f));
    case FD::CPPTYPE_DOUBLE: return dbits(r->GetDouble(m, f));
    default: abort();
  }
}
void pb_set(gp::Message* m, const FD* f, uint64_t u) {
  auto* r = m->GetReflection();
  switch(f->cpp_type()) {
    case FD::CPPTYPE_INT32: r->SetInt32(m, f, (int32_t)u); break;
    case FD::CPPTYPE_UINT32: r->SetUInt32(m, f, (uint32_t)u); break;
    case FD::CPPTYPE_INT64: r->SetInt64(m, f, (int64_t)u); break;
    case FD::CPPTYPE_UINT64: r->SetUInt64(m, f, u); break;
    case FD::CPPTYPE_BOOL: r->SetBool(m, f, u != 0); break;
    case FD::CPPTYPE_FLOAT: r->SetFloat(m, f, tof(u)); break;
    case FD::CPPTYPE_DOUBLE: r->SetDouble(m, f, tod(u)); break;
    default: abort();
  }
}
uint64_t pb_rget(const gp::Message& m, const FD* f, int i) {
  auto* r = m.GetReflection();
  switch(f->cpp_type()) {
    case FD::CPPTYPE_INT32: return (uint32_t)r->GetRepeatedInt32(m, f, i);
    case FD::CPPTYPE_UINT32: return r->GetRepeatedUInt32(m, f, i);
    case FD::CPPTYPE_INT64: return (uint64_t)r->GetRepeatedInt64(m, f, i);
    case FD::CPPTYPE_UINT64: return r->GetRepeatedUInt64(m, f, i);
    case FD::CPPTYPE_BOOL: return r->GetRepeatedBool(m, f, i);
    case FD::CPPTYPE_FLOAT: return fbits(r->GetRepeatedFloat(m, f, i));
    case FD::CPPTYPE_DOUBLE: return dbits(r->GetRepeatedDouble(m, f, i));
    default: abort();
  }
}
void pb_add(gp::Message* m, const FD* f, uint64_t u) {
  auto* r = m->GetReflection();
  switch(f->cpp_type()) {
    case FD::CPPTYPE_INT32: r->AddInt32(m, f, (int32_t)u); break;
    case FD::CPPTYPE_UINT32: r->AddUInt32(m, f, (uint32_t)u); break;
    case FD::CPPTYPE_INT64: r->AddInt64(m, f, (int64_t)u); break;
    case FD::CPPTYPE_UINT64: r->AddUInt64(m, f, u); break;
    case FD::CPPTYPE_BOOL: r->AddBool(m, f, u != 0); break;
    case FD::CPPTYPE_FLOAT: r->AddFloat(m, f, tof(u)); break;
    case FD::CPPTYPE_DOUBLE: r->AddDouble(m, f, tod(u)); break;
    default: abort();
  }
}
void pb_rset(gp::Message* m, const FD* f, int i, uint64_t u) {
  auto* r = m->GetReflection();
  switch(f->cpp_type()) {
    case FD::CPPTYPE_INT32: r->SetRepeatedInt32(m, f, i, (int32_t)u); break;
    case FD::CPPTYPE_UINT32: r->SetRepeatedUInt32(m, f, i, (uint32_t)u); break;
    case FD::CPPTYPE_INT64: r->SetRepeatedInt64(m, f, i, (int64_t)u); break;
    case FD::CPPTYPE_UINT64: r->SetRepeatedUInt64(m, f, i, u); break;
    case FD::CPPTYPE_BOOL: r->SetRepeatedBool(m, f, i, u != 0); break;
    case FD::CPPTYPE_FLOAT: r->SetRepeatedFloat(m, f, i, tof(u)); break;
    case FD::CPPTYPE_DOUBLE: r->SetRepeatedDouble(m, f, i, tod(u)); break;
    default: abort();
  }
}
bool is_text(const FD* f) { return f->type() == FD::TYPE_BYTES && f->json_name().compare(0, 8, "vpString") == 0; }
bool is_enum(const FD* f) { return f->type() == FD::TYPE_UINT32 && f->json_name().compare(0, 6, "vpEnum") == 0; }
uint64_t gen_scalar(Src& s, const FD* f) {
  switch(f->cpp_type()) {
    case FD::CPPTYPE_BOOL: return s.draw(1);
    case FD::CPPTYPE_FLOAT: {
      static const uint32_t sp[] = {0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f800001u, 0xffc12345u, 1, 0x80000001u, 0x007fffffu, 0x00800000u, 0x7f7fffffu, 0xff7fffffu};
      uint32_t k = s.below(20); return k < 15 ? sp[k] : s.draw(0xffffffffu); }
    case FD::CPPTYPE_DOUBLE: {
      static const uint64_t sp[] = {0, 0x8000000000000000ull, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff0000000000001ull, 0xfff8123456789abcull, 1, 0x8000000000000001ull, 0x000fffffffffffffull, 0x0010000000000000ull, 0x7fefffffffffffffull, 0xffefffffffffffffull};
      uint32_t k = s.below(20); return k < 15 ? sp[k] : s.bits64(); }
    case FD::CPPTYPE_UINT32: if(is_enum(f)) return s.interesting(31); return s.interesting(32);
    case FD::CPPTYPE_INT32: return s.interesting(32);
    default: return s.interesting(64);
  }
}
uint32_t gen_len(Src& s, uint32_t m) {
  switch(s.below(8)) {
    case 0: return 0;
    case 1: return std::min<uint32_t>(1, m);
    case 2: return m <= 400 || s.below(8) == 7 ? m : m % 97;
    case 3: return m <= 400 || s.below(8) == 7 ? m - std::min<uint32_t>(1, m) : m % 89;
    case 4: return (uint32_t)s.draw(std::min<uint32_t>(m, 4));
    case 5: return std::min<uint32_t>(m, s.range(125, 130));
    default: return (uint32_t)s.draw(std::min<uint32_t>(m, 40));
  }
}
std::string gen_bytes(Src& s, uint32_t maxlen, bool printable) {
  uint32_t n = gen_len(s, maxlen); std::string r(n, 'a');
  int mode = s.below(4);
  // Text (printable) holds any character but NUL, as the text output takes strings literally.
  auto text = [&](char c) { return printable && !c ? '0' : c; };
  if(n > 300) { uint64_t x = s.draw(0xffffff); for(uint32_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1; r[i] = text((char)(x >> 40)); } return r; }
  for(uint32_t i = 0; i < n; ++i) {
    if(mode == 0) r[i] = (char)('a' + s.below(26));
    else if(mode == 1) r[i] = printable ? "%s\"\\\n{}[],: "[s.below(12)] : (char)(s.coin() ? 0 : 'z');
    else if(mode == 2 && printable) r[i] = (char)(' ' + s.below(95));
    else r[i] = text((char)s.below(256));
  }
  return r;
}
static const CapNode& subcap(const CapNode& c, const FD* f) { static const CapNode none; auto it = c.sub.find(f->number()); return it == c.sub.end() ? none : it->second; }
static void gen_one(Src& s, gp::Message* m, const FD* f, const CapNode& c, GenOpt& o);
void gen_field(Src& s, gp::Message* m, const FD* f, const CapNode& c, GenOpt& o) { gen_one(s, m, f, c, o); }
const CapNode& cap_of(const CapNode& c, const FD* f) { return subcap(c, f); }
static void gen_one(Src& s, gp::Message* m, const FD* f, const CapNode& cc, GenOpt& o) {
  auto* r = m->GetReflection(); const CapNode& c = subcap(cc, f);
  if(f->is_repeated()) {
    uint32_t n = gen_len(s, (uint32_t)c.r);
    if(is_msg(f) || is_str(f)) n = std::min<uint32_t>(n, (uint32_t)c.r);
    if(!is_scalar(f) && o.budget < 200) n = std::min<uint32_t>(n, 2);
    uint64_t fill = n > 60 ? 1 : 0;
    for(uint32_t i = 0; i < n; ++i) {
      if(is_msg(f)) gen_msg(s, r->AddMessage(m, f), c, o);
      else if(is_str(f)) r->AddString(m, f, gen_bytes(s, (uint32_t)c.l, o.printable && is_text(f)));
      else if(fill && i > 20) pb_add(m, f, pb_rget(*m, f, i % 20));
      else pb_add(m, f, gen_scalar(s, f));
    }
    return;
  }
  if(is_msg(f)) gen_msg(s, r->MutableMessage(m, f), c, o);
  else if(is_str(f)) r->SetString(m, f, gen_bytes(s, (uint32_t)c.l, o.printable && is_text(f)));
  else pb_set(m, f, gen_scalar(s, f));
}
void gen_msg(Src& s, gp::Message* m, const CapNode& c, GenOpt& o) {
  const gp::Descriptor* d = m->GetDescriptor();
  if(o.budget > 0) --o.budget;
  std::map<const gp::OneofDescriptor*, int> pick;
  for(int i = 0; i < d->field_count(); ++i) {
    const FD* f = d->field(i);
    const gp::OneofDescriptor* oo = f->real_containing_oneof();
    if(oo) {
      if(!pick.count(oo)) pick[oo] = s.draw(99) >= (uint64_t)(100 - o.density) ? (int)s.below(oo->field_count()) : -1;
      if(pick[oo] < 0 || oo->field(pick[oo]) != f) continue;
    } else if(!(s.draw(99) >= (uint64_t)(100 - o.density))) continue;
    if(o.budget == 0 && is_msg(f)) continue;
    if(o.budget > 0) --o.budget;
    gen_one(s, m, f, c, o);
  }
}
PMsg gen_pb(Src& s, const Type& t, bool printable) {
  GenOpt o; o.printable = printable; static const int dens[] = {50, 90, 25, 10, 100}; o.density = dens[s.below(5)]; o.budget = 400;
  PMsg m = new_pb(t); gen_msg(s, m.get(), t.caps, o); return m;
}
PMsg clone(const gp::Message& m) { PMsg r(m.New()); r->CopyFrom(m); return r; }
bool pb_parse(gp::Message* m, const std::string& b) { m->Clear(); return m->ParseFromString(b); }
bool has_unknown(const gp::Message& m) {
  auto* r = m.GetReflection();
  if(!r->GetUnknownFields(m).empty()) return true;
  std::vector<const FD*> fs; r->ListFields(m, &fs);
  for(auto* f : fs) if(is_msg(f)) {
    if(f->is_repeated()) { for(int i = 0; i < r->FieldSize(m, f); ++i) if(has_unknown(r->GetRepeatedMessage(m, f, i))) return true; }
    else if(has_unknown(r->GetMessage(m, f))) return true;
  }
  return false;
}
void normalise(gp::Message* m) {
  auto* r = m->GetReflection(); r->MutableUnknownFields(m)->Clear();
  std::vector<const FD*> fs; r->ListFields(*m, &fs);
  for(auto* f : fs) if(is_msg(f)) {
    if(f->is_repeated()) { for(int i = 0; i < r->FieldSize(*m, f); ++i) normalise(r->MutableRepeatedMessage(m, f, i)); }
    else { normalise(r->MutableMessage(m, f)); if(!tracked(f) && r->GetMessage(*m, f).ByteSizeLong() == 0) r->ClearField(m, f); }
  }
}
std::string ser(const gp::Message& m) {
  std::string out; { gp::io::StringOutputStream os(&out); gp::io::CodedOutputStream cs(&os); cs.SetSerializationDeterministic(true); m.SerializePartialToCodedStream(&cs); }
  return out;
}
std::string canon(const gp::Message& m) { PMsg c = clone(m); normalise(c.get()); return ser(*c); }
std::string show(const gp::Message& m) { std::string s = m.ShortDebugString(); if(s.size() > 1500) s = s.substr(0, 1500) + "..."; return "{" + s + "}"; }

// ---------------------------------------------------------------- application
Elem elem_of(Src& s, const gp::Message& v, const FD* f, int i) {
  Elem e; auto* r = v.GetReflection();
  if(is_msg(f)) { const gp::Message* sub = &r->GetRepeatedMessage(v, f, i); Src* sp = &s; e.fill = [sp, sub](IMsg& x) { x.clear(); apply(*sp, x, *sub); }; }
  else if(is_str(f)) e.s = r->GetRepeatedString(v, f, i);
  else e.u = pb_rget(v, f, i);
  return e;
}
static void put_str(Src& s, IStr& st, const std::string& v) {
  const bool nul = v.find('\0') != std::string::npos;
  switch(s.below(5)) {
    case 0: { EP::Error e = st.set(v); REQUIRE(e == EP::Error::NO_ERRORS, "set() of " << v.size() << " bytes in a string of capacity " << st.maxlen() << " gives " << err_name(e)); break; }
    case 1: if(st.is_string() && !nul) { st.set_cstr(v.c_str()); break; } st.set(v); break;
    case 2: if(st.is_string() && !nul) { st.assign_cstr(v.c_str()); break; } st.set(v); break;
    case 3: st.clear(); for(uint32_t i = 0; i < v.size(); ++i) st.put(i, v[i]); break;
    default: st.clear(); for(uint32_t i = (uint32_t)v.size(); i-- > 0;) st.put(i, v[i]); break;
  }
}
// Afterwards the field holds exactly what v holds for it (which must be present for tracked fields).
void apply_field(Src& s, IMsg& m, const gp::Message& v, const FD* f) {
  auto* r = v.GetReflection(); const int x = f->index();
  if(f->is_repeated()) {
    const int n = r->FieldSize(v, f); const int var = s.below(7);
    if(var >= 5) { // all at once
      std::vector<Elem> es; for(int i = 0; i < n; ++i) es.push_back(elem_of(s, v, f, i));
      if(var == 5) { EP::Error e = m.mut_rep(x)->set_data(es); REQUIRE(e == EP::Error::NO_ERRORS, "set_data of " << n << " elements gives " << err_name(e)); }
      else m.set_rep(x, [&](IRep& q) { for(auto& e : es) q.add(e); });
      return;
    }
    m.clear_field(x);
    for(int i = 0; i < n; ++i) {
      Elem e = elem_of(s, v, f, i);
      switch(var) {
        case 0: m.rep_add(x, e); break;
        case 1: { EP::Error er = m.mut_rep(x)->add(e); REQUIRE(er == EP::Error::NO_ERRORS, "add() of element " << i << " gives " << err_name(er)); break; }
        case 2: m.rep_set(x, i, e, i & 1); break;
        case 3: m.rep_put(x, i, e); break;
        default: if(s.coin()) m.mut_rep(x)->set(i, e); else m.mut_rep(x)->put(i, e); break;
      }
    }
    return;
  }
  if(is_msg(f)) {
    const gp::Message& sub = r->GetMessage(v, f);
    const int var = s.below(3);
    if(var < 2) m.set_sub(x, [&](IMsg& q) { apply(s, q, sub); }, var);
    else { IMsgP q = m.mut_sub(x); q->clear(); apply(s, *q, sub); }
  } else if(is_str(f)) {
    const std::string b = r->GetString(v, f);
    if(s.below(4) == 0) m.set_str(x, b); else put_str(s, *m.mut_str(x), b);
  } else m.set(x, pb_get(v, f), s.below(3));
}
// The object must be in its default state.
void apply(Src& s, IMsg& m, const gp::Message& v) {
  std::vector<const FD*> fs; v.GetReflection()->ListFields(v, &fs);
  if(fs.size() > 1 && s.coin()) for(size_t i = fs.size() - 1; i > 0; --i) std::swap(fs[i], fs[s.below((uint32_t)i + 1)]);
  for(auto* f : fs) apply_field(s, m, v, f);
}

// ---------------------------------------------------------------- snapshot
static void snap_elem(const IRep& q, int i, gp::Message* out, const FD* f, const CapNode& c) {
  auto* r = out->GetReflection();
  if(is_msg(f)) snap(*q.msg(i), r->AddMessage(out, f), f->message_type(), c);
  else if(is_str(f)) { std::string b = q.str(i); REQUIRE(b.size() <= (size_t)c.l, f->full_name() << " element length " << b.size() << " exceeds " << c.l); r->AddString(out, f, b); }
  else { uint64_t u = q.scalar(i); if(f->type() == FD::TYPE_BOOL) REQUIRE(u <= 1, f->full_name() << " holds an invalid boolean " << u); pb_add(out, f, u); }
}
void snap(const IMsg& m, gp::Message* out, const gp::Descriptor* d, const CapNode& cc) {
  auto* r = out->GetReflection();
  for(int i = 0; i < d->field_count(); ++i) {
    const FD* f = d->field(i); const CapNode& c = subcap(cc, f);
    const gp::OneofDescriptor* oo = f->real_containing_oneof();
    bool has = true;
    if(tracked(f)) has = m.has(i);
    if(oo) {
      const uint32_t w = m.which(oo->index());
      REQUIRE(has == (w == (uint32_t)f->number()), f->full_name() << " has " << has << " but which " << w);
      if(f->index_in_oneof() == 0) { bool known = w == 0; for(int k = 0; k < oo->field_count(); ++k) known |= w == (uint32_t)oo->field(k)->number(); REQUIRE(known, oo->full_name() << " which is " << w); }
      if(!has) continue;
    }
    if(f->is_repeated()) {
      IRepP q = m.get_rep(i, 0), q1 = m.get_rep(i, 1);
      const uint32_t n = q->len();
      REQUIRE(q->maxlen() == (uint32_t)c.r, f->full_name() << " has capacity " << q->maxlen() << " instead of " << c.r);
      REQUIRE(n <= (uint32_t)c.r, f->full_name() << " length " << n << " exceeds " << c.r);
      REQUIRE(n == q1->len(), f->full_name() << " getters disagree");
      for(uint32_t k = 0; k < n; ++k) {
        snap_elem(*q, k, out, f, c);
        if(k < 4 || k + 1 == n) {
          if(is_str(f)) REQUIRE(m.rep_str(i, k) == r->GetRepeatedString(*out, f, k), f->full_name() << "(" << k << ") disagrees with get");
          else if(is_scalar(f)) REQUIRE(m.rep_scalar(i, k) == pb_rget(*out, f, k), f->full_name() << "(" << k << ") disagrees with get");
        }
      }
    } else if(is_msg(f)) {
      snap(*m.get_sub(i, 0), r->MutableMessage(out, f), f->message_type(), c);
      if(!has) { PMsg k = clone(r->GetMessage(*out, f)); normalise(k.get()); REQUIRE(k->ByteSizeLong() == 0, f->full_name() << " is not set but holds " << show(*k)); r->ClearField(out, f); }
    } else if(is_str(f)) {
      IStrP q = m.get_str(i);
      REQUIRE(q->maxlen() == (uint32_t)c.l, f->full_name() << " has capacity " << q->maxlen() << " instead of " << c.l);
      REQUIRE(q->len() <= (uint32_t)c.l, f->full_name() << " length " << q->len() << " exceeds " << c.l);
      std::string b = q->content();
      const char* raw = m.raw_str(i);
      REQUIRE(memcmp(raw, b.data(), b.size()) == 0, f->full_name() << " raw pointer differs from content");
      if(q->is_string() && b.size() < (size_t)c.l) REQUIRE(raw[b.size()] == 0, f->full_name() << " is not terminated as a C string although there is space");
      if(has) { if(tracked(f) || !b.empty()) r->SetString(out, f, b); }
      else REQUIRE(b.empty(), f->full_name() << " is not set but holds " << hex(b));
    } else {
      uint64_t u = m.get(i, 0), u1 = m.get(i, 1);
      REQUIRE(u == u1, f->full_name() << " getters disagree: " << u << " " << u1);
      if(f->type() == FD::TYPE_BOOL) REQUIRE(u <= 1, f->full_name() << " holds an invalid boolean " << u);
      if(has) { if(tracked(f) || u != 0) pb_set(out, f, u); }
      else REQUIRE(u == 0, f->full_name() << " is not set but holds " << u);
    }
  }
}
PMsg snapshot(const Obj& o) { PMsg r = new_pb(*o.t); snap(o.m(), r.get(), o.t->d, o.t->caps); normalise(r.get()); return r; }
void check_equal(const Obj& o, const gp::Message& expect, const char* what) {
  PMsg got = snapshot(o);
  if(ser(*got) != canon(expect)) { PMsg e = clone(expect); normalise(e.get()); REQUIRE(false, what << ": message holds " << show(*got) << " expected " << show(*e)); }
}
const char* err_name(EP::Error e) {
  static const char* n[] = {"NO_ERRORS", "END_OF_BUFFER", "BUFFER_FULL", "INVALID_WIRETYPE", "ARRAY_FULL", "INVALID_FIELD_ID", "OVERLONG_VARINT", "INDEX_OUT_OF_BOUND"};
  return (unsigned)e < 8 ? n[(unsigned)e] : "invalid error";
}

// ---------------------------------------------------------------- buffers
WBuf::WBuf(uint32_t c, const std::string& prefix) : mem((uint8_t*)malloc(c ? c : 1)), cap(c) { memset(mem, 0xEE, c ? c : 1); memcpy(mem, prefix.data(), prefix.size()); pos = (uint32_t)prefix.size(); }
WBuf::~WBuf() { free(mem); }
bool WBuf::gate() {
  const int save = g_in_ep; g_in_ep = 0; if(hook) hook(); g_in_ep = save;
  const int64_t k = (int64_t)calls++;
  if(fail_at >= 0 && (k == fail_at || (fail_forever && k > fail_at))) { refused = true; return false; }
  return true;
}
bool WBuf::push(const uint8_t byte) { if(!gate()) return false; if(pos >= cap) return false; mem[pos++] = byte; return true; }
bool WBuf::push(const uint8_t* bytes, const uint32_t length) {
  if(!gate()) return false;
  if(length > cap - pos) return false;
  memcpy(mem + pos, bytes, length); pos += length; return true;
}
RBuf::RBuf(const std::string& d, bool total) : mem((uint8_t*)malloc(d.size() ? d.size() : 1)), n((uint32_t)d.size()), total_size(total) { memcpy(mem, d.data(), d.size()); }
RBuf::~RBuf() { free(mem); }
uint32_t RBuf::get_size() const { return total_size ? n : n - pos; }
struct CallLimit {};
bool RBuf::gate(int kind) {
  const int save = g_in_ep; g_in_ep = 0; if(hook) hook();
  if(calls + peeks > limit) fail("more than " + std::to_string(limit) + " buffer operations for " + std::to_string(n) + " bytes");
  g_in_ep = save;
  const int64_t k = (int64_t)calls++;
  if(fail_at >= 0 && (k == fail_at || (fail_forever && k > fail_at))) { if(refused_pos < 0) { refused_pos = pos; refused_kind = kind; } return false; }
  return true;
}
bool RBuf::peek(uint8_t& byte) const { if(++peeks > limit) { g_in_ep = 0; fail("too many peeks"); } if(pos >= n) return false; byte = mem[pos]; return true; }
bool RBuf::advance() { if(!gate(2)) return false; if(pos >= n) return false; ++pos; return true; }
bool RBuf::advance(const uint32_t k) { if(!gate(3)) return false; if(k > n - pos) { pos = n; return false; } pos += k; return true; }
bool RBuf::pop(uint8_t& byte) { if(!gate(1)) return false; if(pos >= n) return false; byte = mem[pos++]; return true; }

std::string ep_serialize(const IMsg& m) {
  WBuf b(m.serialized_size() + 64);
  EP::Error e = m.serialize(b);
  REQUIRE(e == EP::Error::NO_ERRORS, "serialize into a buffer of serialized_size + 64 gives " << err_name(e));
  return b.data();
}
std::string ep_serialize_any(Src& s, const IMsg& m) {
  const uint32_t size = m.serialized_size();
  switch(s.below(4)) {
    case 0: { WBuf b(size); EP::Error e = m.serialize(b); REQUIRE(e == EP::Error::NO_ERRORS, "serialize into a buffer of exactly serialized_size " << size << " gives " << err_name(e)); return b.data(); }
    case 1: { auto l = lib_write(size, false); if(!l) return ep_serialize(m); EP::Error e = m.serialize(l->buf()); REQUIRE(e == EP::Error::NO_ERRORS, "serialize into a WriteBufferFixedSize of sufficient size gives " << err_name(e)); return l->data(); }
    case 2: { std::string pre = gen_bytes(s, 20); WBuf b(size + (uint32_t)pre.size(), pre); EP::Error e = m.serialize(b); REQUIRE(e == EP::Error::NO_ERRORS, "serialize behind a prefix gives " << err_name(e)); std::string d = b.data(); REQUIRE(d.compare(0, pre.size(), pre) == 0, "prefix in the buffer changed"); return d.substr(pre.size()); }
    default: return ep_serialize(m);
  }
}
std::unique_ptr<EP::ReadBufferInterface> any_read(Src& s, const std::string& data) {
  switch(s.below(4)) {
    case 0: return std::unique_ptr<EP::ReadBufferInterface>(new RBuf(data, false));
    case 1: return std::unique_ptr<EP::ReadBufferInterface>(new RBuf(data, true));
    default: { auto r = lib_read(data, s.below(2), s.below(3)); if(r) return r; return std::unique_ptr<EP::ReadBufferInterface>(new RBuf(data, true)); }
  }
}

// ---------------------------------------------------------------- wire
void put_varint(std::string& o, uint64_t v, int pad_to) {
  int n = 1;
  while(v >= 0x80) { o += (char)(0x80 | (v & 0x7f)); v >>= 7; ++n; }
  if(n >= pad_to) { o += (char)v; return; }
  o += (char)(0x80 | v); ++n;
  while(n < pad_to) { o += (char)0x80; ++n; }
  o += (char)0;
}
static int wire_of(const FD* f) {
  switch(f->type()) {
    case FD::TYPE_FIXED64: case FD::TYPE_SFIXED64: case FD::TYPE_DOUBLE: return 1;
    case FD::TYPE_FIXED32: case FD::TYPE_SFIXED32: case FD::TYPE_FLOAT: return 5;
    case FD::TYPE_BYTES: case FD::TYPE_MESSAGE: return 2;
    default: return 0;
  }
}
static int pad(Src& s, const EncOpt& o, int max) { return o.pad && s.below(8) == 7 ? (int)s.range(2, max) : 0; }
static void put_tag(Src& s, const EncOpt& o, std::string& out, uint32_t num, int wt) { put_varint(out, ((uint64_t)num << 3) | wt, pad(s, o, 5)); }
static void put_scalar(Src& s, const EncOpt& o, std::string& out, const FD* f, uint64_t u) {
  const int w = wire_of(f);
  if(w == 1) { for(int i = 0; i < 8; ++i) out += (char)(u >> (8 * i)); return; }
  if(w == 5) { for(int i = 0; i < 4; ++i) out += (char)(u >> (8 * i)); return; }
  switch(f->type()) {
    case FD::TYPE_UINT32: put_varint(out, u, pad(s, o, 5)); break;
    // A decoder takes the value modulo 2^32, and anything but zero is true.
    case FD::TYPE_BOOL: if(u && o.pad && s.below(8) == 7) { const uint64_t x = s.coin() ? s.interesting(64) : s.bits64() << s.below(64); put_varint(out, x ? x : 1, 0); } else put_varint(out, u, pad(s, o, 10)); break;
    case FD::TYPE_INT32: { int64_t x = (int32_t)(uint32_t)u; if(o.pad && s.below(32) == 31) put_varint(out, (s.interesting(32) << 32) | (uint32_t)u, 0); else if(x < 0 && o.pad && s.coin()) put_varint(out, (uint32_t)u, 0); else put_varint(out, (uint64_t)x, pad(s, o, 10)); break; }
    case FD::TYPE_SINT32: { uint32_t x = (uint32_t)u; x = (x << 1) ^ (uint32_t)((int32_t)x >> 31); if(o.pad && s.below(32) == 31) put_varint(out, (s.interesting(32) << 32) | x, 0); else put_varint(out, x, pad(s, o, 10)); break; }
    case FD::TYPE_SINT64: put_varint(out, (u << 1) ^ (uint64_t)((int64_t)u >> 63), pad(s, o, 10)); break;
    default: put_varint(out, u, pad(s, o, 10)); break;
  }
}
static void put_len(Src& s, const EncOpt& o, std::string& out, const std::string& body) { put_varint(out, body.size(), pad(s, o, 5)); out += body; }
uint32_t unknown_number(Src& s, const gp::Descriptor* d) {
  for(int tries = 0; tries < 20; ++tries) {
    uint64_t n = 1;
    const uint32_t base = d->field_count() ? (uint32_t)d->field(s.below(d->field_count()))->number() : 1;
    switch(s.below(9)) {
      case 0: n = base + 1; break;
      case 1: n = base - 1; break;
      case 2: n = base + ((uint64_t)1 << s.range(4, 28)); break;
      case 3: n = base ^ ((uint32_t)1 << s.below(29)); break;
      case 4: n = s.range(1, 40); break;
      case 5: { static const uint32_t e[] = {15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911, 536870910}; n = e[s.below(10)]; break; }
      case 6: n = base & 0xff; break;
      case 7: n = base & 0xffff; break;
      default: n = s.range(1, 536870911); break;
    }
    if(n < 1 || n > 536870911 || d->FindFieldByNumber((int)n)) continue;
    return (uint32_t)n;
  }
  for(uint32_t n = 1;; ++n) if(!d->FindFieldByNumber((int)n)) return n;
}
std::string unknown_field(Src& s, const gp::Descriptor* d, int depth) {
  EncOpt o; std::string out; static const int wts[] = {0, 1, 2, 2, 5}; const int wt = wts[s.below(5)];
  put_tag(s, o, out, unknown_number(s, d), wt);
  if(wt == 0) put_varint(out, s.interesting(64), pad(s, o, 10));
  else if(wt == 1) for(int i = 0; i < 8; ++i) out += (char)s.below(256);
  else if(wt == 5) for(int i = 0; i < 4; ++i) out += (char)s.below(256);
  else {
    std::string body;
    if(depth < 2 && s.coin()) { int k = s.below(3); while(k-- > 0) body += unknown_field(s, d, depth + 1); }
    else { const bool big = s.below(12) == 11; body = gen_bytes(s, big ? 300 : 20); if(s.below(4) == 3 && d->field_count()) { const FD* f = d->field(s.below(d->field_count())); std::string t; put_varint(t, ((uint64_t)f->number() << 3) | wire_of(f), 0); body = t + body; }
      if(s.below(200) == 199) { static const uint32_t at[] = {127, 128, 255, 256, 16383, 16384, 65535, 65536, 70000}; body.resize(at[s.below(9)] + s.below(2), (char)s.below(256)); } }
    put_len(s, o, out, body);
  }
  return out;
}
static std::vector<std::string> enc_records(Src& s, const gp::Message& v, const CapNode& cc, const EncOpt& o, int depth);
static std::string join(const std::vector<std::string>& r, size_t a, size_t b) { std::string x; for(size_t i = a; i < b; ++i) x += r[i]; return x; }
static void rec_msg(Src& s, std::vector<std::string>& g, const FD* f, const gp::Message& v, const CapNode& c, const EncOpt& o, int depth) {
  std::vector<std::string> in = enc_records(s, v, c, o, depth + 1);
  size_t a = 0; int parts = (o.split && !f->is_repeated()) ? 1 + (s.below(4) == 3 ? (int)s.range(1, 2) : 0) : 1;
  for(int p = 0; p < parts; ++p) {
    size_t b = p + 1 == parts ? in.size() : a + s.below((uint32_t)(in.size() - a + 1));
    std::string x; put_tag(s, o, x, f->number(), 2); put_len(s, o, x, join(in, a, b)); g.push_back(x); a = b;
  }
}
static void rec_field(Src& s, std::vector<std::string>& g, const FD* f, const gp::Message& v, const CapNode& c, const EncOpt& o, int depth) {
  auto* r = v.GetReflection();
  if(f->is_repeated()) {
    const int n = r->FieldSize(v, f);
    if(!is_scalar(f)) {
      for(int i = 0; i < n; ++i) {
        if(is_msg(f)) rec_msg(s, g, f, r->GetRepeatedMessage(v, f, i), c, o, depth);
        else { std::string x; put_tag(s, o, x, f->number(), 2); put_len(s, o, x, r->GetRepeatedString(v, f, i)); g.push_back(x); }
      }
      return;
    }
    int i = 0;
    const int style = o.unpacked ? s.below(4) : 0;      // 0 one chunk, 1 all single, 2/3 mixed
    if(n == 0 && o.defaults && s.below(6) == 5) { std::string x; put_tag(s, o, x, f->number(), 2); put_len(s, o, x, ""); g.push_back(x); }
    while(i < n) {
      int k = style == 0 ? n : style == 1 ? 1 : (int)s.range(0, std::min(n - i, 5));
      if(style == 1 || (style >= 2 && k == 1 && s.coin())) { std::string x; put_tag(s, o, x, f->number(), wire_of(f)); put_scalar(s, o, x, f, pb_rget(v, f, i)); g.push_back(x); ++i; continue; }
      std::string b; for(int e = 0; e < k; ++e) put_scalar(s, o, b, f, pb_rget(v, f, i + e));
      std::string x; put_tag(s, o, x, f->number(), 2); put_len(s, o, x, b); g.push_back(x); i += k;
      if(k == 0 && style >= 2) { // avoid endless empty chunks
        std::string y; put_tag(s, o, y, f->number(), wire_of(f)); put_scalar(s, o, y, f, pb_rget(v, f, i)); g.push_back(y); ++i; }
    }
    return;
  }
  const bool present = f->has_presence() ? r->HasField(v, f) : true;
  if(!present) {
    if(is_msg(f) && !tracked(f) && o.defaults && s.below(6) == 5) { std::string x; put_tag(s, o, x, f->number(), 2); put_len(s, o, x, ""); g.push_back(x); }
    return;
  }
  if(is_msg(f)) { rec_msg(s, g, f, r->GetMessage(v, f), c, o, depth); return; }
  const bool dflt = is_str(f) ? r->GetString(v, f).empty() : pb_get(v, f) == 0;
  const bool dup = o.dup && s.below(6) == 5;
  if(dflt && !tracked(f) && !dup && !(o.defaults && s.below(6) == 5)) return;
  if(dup) { std::string x; put_tag(s, o, x, f->number(), wire_of(f)); if(is_str(f)) put_len(s, o, x, gen_bytes(s, (uint32_t)c.l)); else put_scalar(s, o, x, f, gen_scalar(s, f)); g.push_back(x); }
  std::string x; put_tag(s, o, x, f->number(), wire_of(f));
  if(is_str(f)) put_len(s, o, x, r->GetString(v, f)); else put_scalar(s, o, x, f, pb_get(v, f));
  g.push_back(x);
}
static std::vector<std::string> enc_records(Src& s, const gp::Message& v, const CapNode& cc, const EncOpt& o, int depth) {
  const gp::Descriptor* d = v.GetDescriptor(); auto* r = v.GetReflection();
  std::vector<std::vector<std::string>> groups;
  std::set<const gp::OneofDescriptor*> done;
  for(int i = 0; i < d->field_count(); ++i) {
    const FD* f = d->field(i); const gp::OneofDescriptor* oo = f->real_containing_oneof();
    std::vector<std::string> g;
    if(oo) {
      if(!done.insert(oo).second) continue;
      const FD* act = r->GetOneofFieldDescriptor(v, oo);
      if(!act) continue;
      const FD* prev = act;                 // occurrences of one member in a row would merge, possibly beyond the capacities
      if(o.dup && s.below(4) == 3) for(int k = (int)s.range(1, 2); k > 0; --k) {
        const FD* e = oo->field(s.below(oo->field_count())); if(e == act || e == prev) continue;
        prev = e;
        PMsg tmp(v.New()); GenOpt go; go.budget = 20; gen_one(s, tmp.get(), e, cc, go); rec_field(s, g, e, *tmp, subcap(cc, e), o, depth);
      }
      rec_field(s, g, act, v, subcap(cc, act), o, depth);
    } else rec_field(s, g, f, v, subcap(cc, f), o, depth);
    if(!g.empty()) groups.push_back(g);
  }
  std::vector<std::string> out; std::vector<size_t> at(groups.size(), 0);
  auto unk = [&]() { int guard = 0; while(o.unknown && s.below(8) >= (uint32_t)(8 - o.unknown) && guard++ < 3) out.push_back(unknown_field(s, d)); };
  const bool mix = o.reorder && s.coin();
  size_t left = 0; for(auto& g : groups) left += g.size();
  size_t cur = 0;
  while(left) {
    unk();
    if(mix) { cur = s.below((uint32_t)groups.size()); while(at[cur] >= groups[cur].size()) cur = (cur + 1) % groups.size(); }
    else while(at[cur] >= groups[cur].size()) ++cur;
    out.push_back(groups[cur][at[cur]++]); --left;
  }
  unk();
  return out;
}
std::string encode(Src& s, const gp::Message& v, const CapNode& c, const EncOpt& o, std::vector<std::string>* top) {
  std::vector<std::string> r = enc_records(s, v, c, o, 0);
  if(top) *top = r;
  return join(r, 0, r.size());
}

// ---------------------------------------------------------------- reference decoder
unsigned errbit(EP::Error e) { return 1u << (unsigned)e; }
namespace {
const unsigned END = 1u << 1, WIRE = 1u << 3, FULL = 1u << 4, FID = 1u << 5, OVER = 1u << 6;
struct Cur { const std::string& b; size_t p, end; };
enum VR { V_OK, V_UNSPEC, V_ERR };
// A varint of at most max bytes; bits of the value type 32 or 64.
VR rd_varint(Cur& c, int max, uint64_t& v, unsigned& mask, int& n) {
  v = 0; n = 0;
  for(;;) {
    if(n == max) { mask = OVER; if(c.p >= c.end) mask |= END; return V_ERR; }
    if(c.p >= c.end) { mask = END; return V_ERR; }
    unsigned char x = (unsigned char)c.b[c.p++];
    const int sh = 7 * n; ++n;
    if(max == 5 && n == 5 && !(x & 0x80) && x > 0x0f) return V_UNSPEC;
    if(max == 10 && n == 10 && !(x & 0x80) && x > 1) return V_UNSPEC;
    if(sh < 64) v |= (uint64_t)(x & 0x7f) << sh;
    if(!(x & 0x80)) return V_OK;
  }
}
struct Dec {
  RefResult res;
  bool err(unsigned m, const char* why) { if(res.kind == RefResult::OK) { res.kind = RefResult::ERR; res.mask = m; res.why = why; } return false; }
  bool unspec(const char* why) { if(res.kind == RefResult::OK) { res.kind = RefResult::UNSPEC; res.why = why; } return false; }
  bool varint(Cur& c, int max, uint64_t& v) {
    unsigned mask = 0; int n; VR r = rd_varint(c, max, v, mask, n);
    if(r == V_ERR) return err(mask, "varint"); if(r == V_UNSPEC) return unspec("bits beyond the type");
    return true;
  }
  bool scalar(Cur& c, const FD* f, uint64_t& u) {
    const int w = wire_of(f);
    if(w == 1 || w == 5) { const int n = w == 1 ? 8 : 4; if(c.end - c.p < (size_t)n) { c.p = c.end; return err(END, "fixed"); } u = 0; for(int i = 0; i < n; ++i) u |= (uint64_t)(unsigned char)c.b[c.p++] << (8 * i); return true; }
    const bool u32 = f->type() == FD::TYPE_UINT32;
    if(!varint(c, u32 ? 5 : 10, u)) return false;
    switch(f->type()) {
      case FD::TYPE_BOOL: u = u != 0; break;
      case FD::TYPE_SINT32: { uint32_t x = (uint32_t)u; u = (uint32_t)((x >> 1) ^ (0u - (x & 1))); break; }
      case FD::TYPE_SINT64: u = (u >> 1) ^ (0ull - (u & 1)); break;
      case FD::TYPE_INT32: u = (uint32_t)u; break;
      default: break;
    }
    return true;
  }
  bool field(gp::Message* m, const FD* f, const CapNode& c, Cur& cur, int wt, int depth) {
    auto* r = m->GetReflection();
    if(f->is_repeated()) {
      const int have = r->FieldSize(*m, f);
      if(is_scalar(f)) {
        if(wt == 2) {
          uint64_t len; if(!varint(cur, 5, len)) return false;
          const bool trunc = len > cur.end - cur.p;
          Cur in{cur.b, cur.p, trunc ? cur.end : cur.p + (size_t)len};
          while(in.p < in.end) {
            uint64_t u; if(!scalar(in, f, u)) { if(trunc && res.kind == RefResult::ERR) res.mask |= END; return false; }
            if(r->FieldSize(*m, f) >= c.r) return err(FULL | (trunc ? END : 0), "packed array full");
            pb_add(m, f, u);
          }
          cur.p = in.p;
          if(trunc) return err(END, "packed data cut off");
          return true;
        }
        if(wt != wire_of(f)) return err(WIRE, "wire type mismatch");
        uint64_t u; if(!scalar(cur, f, u)) { if(have >= c.r && res.kind == RefResult::ERR) res.mask |= FULL; return false; }
        if(have >= c.r) return err(FULL, "array full");
        pb_add(m, f, u); return true;
      }
      if(wt != 2) return err(WIRE, "wire type mismatch");
      uint64_t len; if(!varint(cur, 5, len)) { if(have >= c.r && res.kind == RefResult::ERR) res.mask |= FULL; return false; }
      const bool trunc = len > cur.end - cur.p;
      if(have >= c.r) return err(FULL | (trunc ? END : 0), "array full");
      if(is_msg(f)) return sub(r->AddMessage(m, f), c, cur, len, depth, have);
      if(len > (uint64_t)c.l) return err(FULL | (trunc ? END : 0), "string too long");
      if(trunc) return err(END, "string cut off");
      r->AddString(m, f, cur.b.substr(cur.p, len)); cur.p += len; return true;
    }
    if(wt != wire_of(f)) return err(WIRE, "wire type mismatch");
    if(is_scalar(f)) { uint64_t u; if(!scalar(cur, f, u)) return false; pb_set(m, f, u); return true; }
    uint64_t len; if(!varint(cur, 5, len)) return false;
    const bool trunc = len > cur.end - cur.p;
    if(is_msg(f)) return sub(r->MutableMessage(m, f), c, cur, len, depth, -1);
    if(len > (uint64_t)c.l) return err(FULL | (trunc ? END : 0), "string too long");
    if(trunc) return err(END, "string cut off");
    r->SetString(m, f, cur.b.substr(cur.p, len)); cur.p += len; return true;
  }
  bool sub(gp::Message* m, const CapNode& c, Cur& cur, uint64_t len, int depth, int idx) {
    const bool trunc = len > cur.end - cur.p;
    Cur in{cur.b, cur.p, trunc ? cur.end : cur.p + (size_t)len};
    if(!message(m, c, in, depth + 1)) { if(trunc && res.kind == RefResult::ERR) res.mask |= END; return false; }
    cur.p = in.p;
    if(trunc) return err(END, "message cut off");
    return true;
  }
  bool message(gp::Message* m, const CapNode& c, Cur& cur, int depth) {
    while(cur.p < cur.end) {
      const size_t start = cur.p; (void)start;
      if(depth == 0) res.field = 0;
      if((size_t)depth < res.path.size()) res.path.resize(depth);
      uint64_t tag; if(!varint(cur, 5, tag)) return false;
      const int wt = tag & 7; const uint32_t num = (uint32_t)tag >> 3;
      if(num == 0) return err(wt >= 3 && wt != 5 ? (FID | WIRE) : FID, "field number zero");
      if(wt == 6 || wt == 7) return err(WIRE, "illegal wire type");
      const FD* f = m->GetDescriptor()->FindFieldByNumber((int)num);
      if(!f) {
        if(wt == 3 || wt == 4) return err(WIRE, "group");
        uint64_t x;
        if(wt == 0) { if(!varint(cur, 10, x)) { if(res.kind != RefResult::UNSPEC) return false; res.kind = RefResult::OK; } }
        else if(wt == 1 || wt == 5) { size_t n = wt == 1 ? 8 : 4; if(cur.end - cur.p < n) return err(END, "unknown fixed cut off"); cur.p += n; }
        else { if(!varint(cur, 5, x)) return false; if(x > cur.end - cur.p) { res.unknown_cut = true; return err(END, "unknown data cut off"); } cur.p += (size_t)x; }
        continue;
      }
      if(depth == 0) res.field = (int)num;
      res.path.push_back((int)num);
      if(!field(m, f, subcap(c, f), cur, wt, depth)) return false;
      res.path.resize(depth);
    }
    if(depth == 0) res.field = 0;
    return true;
  }
};
}
RefResult ref_decode(gp::Message* m, const CapNode& c, const std::string& b) {
  Dec d; Cur cur{b, 0, b.size()}; d.message(m, c, cur, 0); return d.res;
}

std::vector<std::string> records(const std::string& b) {
  std::vector<std::string> out; Cur c{b, 0, b.size()};
  while(c.p < c.end) {
    const size_t st = c.p; uint64_t t, x; unsigned m; int n;
    if(rd_varint(c, 10, t, m, n) != V_OK) break;
    const int wt = t & 7;
    if(wt == 0) { if(rd_varint(c, 10, x, m, n) != V_OK) break; }
    else if(wt == 1) c.p += 8; else if(wt == 5) c.p += 4;
    else if(wt == 2) { if(rd_varint(c, 10, x, m, n) != V_OK || x > c.end - c.p) break; c.p += (size_t)x; }
    else break;
    if(c.p > c.end) break;
    out.push_back(b.substr(st, c.p - st));
  }
  return out;
}
static std::string rnd(Src& s, size_t n) { std::string r; for(size_t i = 0; i < n; ++i) r += (char)s.below(256); return r; }
std::string mutate(Src& s, std::string b, const Type& t) {
  const size_t n = b.size();
  const uint32_t at = s.below((uint32_t)n + 1);
  switch(s.below(11)) {
    case 0: if(n) b[at % n] ^= (char)(1u << s.below(8)); break;
    case 1: if(n) b[at % n] = (char)s.below(256); break;
    case 2: b = b.substr(0, at); break;
    case 3: b.insert(at, rnd(s, s.range(1, 3))); break;
    case 4: if(n) b.erase(at % n, s.range(1, 3)); break;
    case 5: if(n) { size_t k = at % n; static const unsigned char sp[] = {0, 1, 0x7f, 0x80, 0xff, 0x0f, 0xfe}; b[k] = (char)sp[s.below(7)]; } break;
    case 6: { auto r = records(b); if(!r.empty()) { const std::string& x = r[s.below((uint32_t)r.size())]; int k = s.range(1, 4); while(k--) b += x; } break; }
    case 7: { // a record with a tag of any kind
      std::string x; const gp::Descriptor* d = t.d;
      uint32_t num = d->field_count() && s.below(5) ? (uint32_t)d->field(s.below(d->field_count()))->number() : s.below(8) == 7 ? 0 : unknown_number(s, d);
      put_varint(x, ((uint64_t)num << 3) | s.below(8), s.below(6) == 5 ? s.range(2, 7) : 0);
      if(s.coin()) put_varint(x, s.interesting(s.coin() ? 64 : 8), s.below(5) == 4 ? s.range(2, 12) : 0);
      x += rnd(s, s.below(9)); b.insert(at, x); break; }
    case 8: { // overlong varint
      std::string x((size_t)s.range(4, 11), (char)0x80 + 0); if(s.coin()) x += (char)s.below(128); b.insert(at, x); break; }
    case 9: if(n >= 2) { size_t i = at % n, j = s.below((uint32_t)n); std::swap(b[i], b[j]); } break;
    default: { // grow or shrink a length: change a byte by a small amount
      if(n) { size_t k = at % n; b[k] = (char)(b[k] + (int)s.range(0, 6) - 3); } break; }
  }
  return b;
}
std::string gen_wire(Src& s, const Type& t) {
  std::string b;
  switch(s.below(6)) {
    case 0: b = rnd(s, gen_len(s, 60)); break;
    case 1: { int k = s.below(6); while(k-- > 0) b = mutate(s, b, t); break; }
    default: {
      PMsg v = gen_pb(s, t); EncOpt o; o.unknown = s.below(3);
      b = encode(s, *v, t.caps, o);
      if(b.size() > 3000) b.resize(3000);
      int k = s.below(5); while(k-- > 0) b = mutate(s, b, t); break; }
  }
  return b;
}
void check_usable(Src& s, Obj& o, const char* what) {
  PMsg st = snapshot(o);
  const uint32_t size = o->serialized_size();
  std::string b = ep_serialize(o.m());
  REQUIRE(b.size() == size, what << ": serialized_size " << size << " but " << b.size() << " bytes");
  PMsg back = new_pb(*o.t);
  REQUIRE(pb_parse(back.get(), b) && !has_unknown(*back), what << ": message does not serialize to valid protobuf: " << hex(b));
  REQUIRE(canon(*back) == ser(*st), what << ": message reads as " << show(*st) << " but serializes as " << show(*back));
  if(s.coin()) {
    o->clear();
    PMsg empty = new_pb(*o.t); check_equal(o, *empty, "after clear()");
    REQUIRE(ep_serialize(o.m()).empty(), what << ": a cleared message serializes to data");
    PMsg v = gen_pb(s, *o.t); std::string w = ser(*v);
    auto rb = any_read(s, w); EP::Error e = o->deserialize(*rb);
    REQUIRE(e == EP::Error::NO_ERRORS, what << ": next message is rejected with " << err_name(e));
    check_equal(o, *v, "next message");
  }
}
static bool prefix_ok(const gp::Message& got, const gp::Message& exp, const FD* f, std::string* why) {
  auto* r = got.GetReflection(); const int n = r->FieldSize(exp, f), g = r->FieldSize(got, f);
  if(g < n) { *why = f->full_name() + " lost elements"; return false; }
  for(int i = 0; i < n; ++i) {
    bool same = is_msg(f) ? canon(r->GetRepeatedMessage(got, f, i)) == canon(r->GetRepeatedMessage(exp, f, i)) : is_str(f) ? r->GetRepeatedString(got, f, i) == r->GetRepeatedString(exp, f, i) : pb_rget(got, f, i) == pb_rget(exp, f, i);
    if(!same) { *why = f->full_name() + " element " + std::to_string(i) + " changed"; return false; }
  }
  return true;
}
void check_rest(const gp::Message& got0, const gp::Message& exp0, const std::vector<int>& path, const char* what) {
  PMsg gr = clone(got0), er = clone(exp0); gp::Message *g = gr.get(), *e = er.get();
  for(size_t i = 0; i < path.size(); ++i) {
    const FD* f = g->GetDescriptor()->FindFieldByNumber(path[i]); auto* r = g->GetReflection();
    if(real_oneof(f)) { r->ClearOneof(g, f->real_containing_oneof()); r->ClearOneof(e, f->real_containing_oneof()); break; }
    const bool last = i + 1 == path.size();
    if(f->is_repeated()) {
      if(!last) {                 // the element which failed is the last one of the expectation
        const int n = r->FieldSize(*e, f); if(n == 0 || r->FieldSize(*g, f) < n) { fail(std::string(what) + ": " + f->full_name() + " lost elements"); }
        PMsg e2 = clone(*e); r->RemoveLast(e2.get(), f); std::string why;
        if(!prefix_ok(*g, *e2, f, &why)) fail(std::string(what) + ": " + why);
        gp::Message* gn = r->MutableRepeatedMessage(g, f, n - 1); gp::Message* en = r->MutableRepeatedMessage(e, f, n - 1);
        check_rest(*gn, *en, std::vector<int>(path.begin() + i + 1, path.end()), what);
      } else { std::string why; if(!prefix_ok(*g, *e, f, &why)) fail(std::string(what) + ": " + why); }
      r->ClearField(g, f); r->ClearField(e, f); break;
    }
    if(last) { r->ClearField(g, f); r->ClearField(e, f); break; }
    if(f->has_optional_keyword()) { check_rest(r->GetMessage(*g, f), r->GetMessage(*e, f), std::vector<int>(path.begin() + i + 1, path.end()), what); r->ClearField(g, f); r->ClearField(e, f); break; }
    g = r->MutableMessage(g, f); e = r->MutableMessage(e, f);
  }
  REQUIRE(canon(*gr) == canon(*er), what << ": apart from the failing field the message holds " << show(*gr) << " expected " << show(*er));
}
