// C14: a fault at every operation of the user's buffer.
#include "engine.h"
#include "sweep.h"
typedef gp::FieldDescriptor FD;

static void wfaults(const Type& t, Obj& o, const gp::Message& v, uint32_t max_points, Src* s) {
  WBuf ok(o->serialized_size() + 8); EP::Error e0 = o->serialize(ok);
  REQUIRE(e0 == EP::Error::NO_ERRORS, t.ops->inst << " serialize gives " << err_name(e0));
  const uint64_t n = ok.calls; const std::string good = ok.data();
  const bool all = n <= max_points; const uint64_t m = all ? n : max_points;
  for(uint64_t j = 0; j < m; ++j) for(int forever = 0; forever < 2; ++forever) {
    const uint64_t k = all ? j : s ? s->draw(n - 1) : j * n / m;
    WBuf b((uint32_t)good.size() + 8); b.fail_at = (int64_t)k; b.fail_forever = forever;
    EP::Error e = o->serialize(b);
    REQUIRE(b.refused, t.ops->inst << " serialize makes other calls than before");
    REQUIRE(e == EP::Error::BUFFER_FULL, t.ops->inst << " " << show(v) << ": refusing write operation " << k << " of " << n << (forever ? " and later ones" : " once") << " gives " << err_name(e));
    ++g_stats.evaluations; nontrivial(t.ops->inst + good + "w" + std::to_string(k * 2 + forever)); count("write faults");
  }
  if(all) count("all write points of a message");
  check_equal(o, v, "after refused serialize"); REQUIRE(ep_serialize(o.m()) == good, t.ops->inst << " serializes differently after a refusal");
}
// Positions at which an outermost record starts, and those of unknown length delimited data, outermost and nested.
struct Places { std::set<uint32_t> bounds, unknown_top, unknown_nested; bool ok = true; };
static void places(const gp::Descriptor* d, const std::string& b, uint32_t base, int depth, Places& pl) {
  uint32_t p = 0;
  for(auto& r : records(b)) {
    if(depth == 0) pl.bounds.insert(base + p);
    size_t q = 0; uint64_t tag = 0; int sh = 0; for(;;) { unsigned char c = (unsigned char)r[q++]; tag |= (uint64_t)(c & 0x7f) << sh; sh += 7; if(!(c & 0x80)) break; }
    if((tag & 7) == 2) {
      while((unsigned char)r[q++] & 0x80) {}
      const FD* f = d->FindFieldByNumber((int)((uint32_t)tag >> 3));
      if(!f) (depth ? pl.unknown_nested : pl.unknown_top).insert(base + p + (uint32_t)q);
      else if(is_msg(f)) places(f->message_type(), r.substr(q), base + p + (uint32_t)q, depth + 1, pl);
    }
    p += (uint32_t)r.size();
  }
  if(p != b.size()) pl.ok = false;
  if(depth == 0) pl.bounds.insert(base + p);
}
static void rfaults(const Type& t, const std::string& b, uint32_t max_points, Src* s, Src& us) {
  PMsg full = new_pb(t); RefResult fr = ref_decode(full.get(), t.caps, b);
  if(fr.kind != RefResult::OK) return;
  Places pl; places(t.d, b, 0, 0, pl); if(!pl.ok) return;
  const std::set<uint32_t>& bounds = pl.bounds;
  uint64_t n; { Obj o(t); RBuf rb(b); EP::Error e = o->deserialize(rb); REQUIRE(e == EP::Error::NO_ERRORS, t.ops->inst << " " << hex(b) << " gives " << err_name(e)); n = rb.calls; }
  const bool all = n <= max_points; const uint64_t m = all ? n : max_points;
  for(uint64_t j = 0; j < m; ++j) for(int forever = 0; forever < 2; ++forever) {
    const uint64_t k = all ? j : s ? s->draw(n - 1) : j * n / m;
    Obj o(t, 0x5E); RBuf rb(b, (k & 1) != 0); rb.fail_at = (int64_t)k; rb.fail_forever = forever; rb.limit = 1000 + 60 * (uint64_t)b.size();
    EP::Error e = o->deserialize(rb);
    ++g_stats.evaluations; nontrivial(t.ops->inst + b + "r" + std::to_string(k * 2 + forever)); count("read faults");
    REQUIRE(rb.refused_pos >= 0, t.ops->inst << " deserialize makes other calls than before");
    const bool between = rb.refused_kind == 1 && bounds.count((uint32_t)rb.refused_pos);
    if(between) {
      count("refused between fields");
      REQUIRE(e == EP::Error::NO_ERRORS || e == EP::Error::END_OF_BUFFER, t.ops->inst << " " << hex(b) << ": refusal between two fields gives " << err_name(e));
      PMsg part = new_pb(t); ref_decode(part.get(), t.caps, b.substr(0, (size_t)rb.refused_pos)); check_equal(o, *part, "fields before the refusal");
    } else if(!forever && rb.refused_kind == 3 && e != EP::Error::END_OF_BUFFER && (pl.unknown_top.count((uint32_t)rb.refused_pos) || (e != EP::Error::NO_ERRORS && pl.unknown_nested.count((uint32_t)rb.refused_pos)))) {
      // Listed: the data of the unknown field is read as fields when advance() refuses only once.
      known_finding("C14-advance-once", "a single refusal of advance(n) for an unknown field is not reported as such");
      count("known finding");
    } else REQUIRE(e == EP::Error::END_OF_BUFFER, t.ops->inst << " " << hex(b) << ": refusing read operation " << k << " of " << n << " at byte " << rb.refused_pos << (forever ? " and later ones" : " once") << " gives " << err_name(e));
    if((k & 3) == (uint64_t)forever) check_usable(us, o, "after a refusal"); else { snapshot(o); }
    if((k & 7) == 7) { o->clear(); RBuf again(b); EP::Error e2 = o->deserialize(again); REQUIRE(e2 == EP::Error::NO_ERRORS, t.ops->inst << " does not decode after a refusal: " << err_name(e2)); check_equal(o, *full, "decoded after a refusal"); }
  }
  if(all) count("all read points of a message");
}
static Reg r14("C14", "random messages serialized to and random conforming encodings (with unknown fields) deserialized from a buffer which refuses operation k, once or from then on, for every k (sampled above 250 operations); non-trivial: every fault point; oracle: BUFFER_FULL, END_OF_BUFFER or exactly the fields before the refusal, sanitizers, and normal use afterwards",
  [](Src& s) {
    const Type& t = pick_type(s, [](const Type& t) { return t.nfields > 0; }); GenOpt go; go.density = (int)s.range(10, 60); go.budget = (uint32_t)s.range(3, 25); PMsg v = new_pb(t); gen_msg(s, v.get(), t.caps, go);
    if(ser(*v).size() > 1200) return;
    TRACE(t.ops->inst << " " << show(*v));
    if(s.coin()) { Obj o(t); apply(s, o.m(), *v); wfaults(t, o, *v, 250, &s); }
    else { EncOpt o; o.unknown = (int)s.below(4); if(s.coin()) o.pad = o.split = o.dup = 0; rfaults(t, encode(s, *v, t.caps, o), 250, &s, s); }
  },
  [](int w, int n, bool th) { sweep_single(w, n, th, [th](const Type& t, const gp::Message& v, const std::string& what) {
    std::vector<uint64_t> z; Src s(&z); if(!th && (fnv(what) % 8)) return; try { Obj o(t); apply(s, o.m(), v); wfaults(t, o, v, 24, nullptr); std::string b = ser(v); std::string u("\xfa\xff\xff\xff\x0f\x03xyz", 9); if(b.size() < 600) rfaults(t, u + b + u, 40, nullptr, s); }
    catch(Failure& f) { f.msg = what + ": " + f.msg; throw; } count("boundary sweep"); }); });
