// C02 conforming encodings, C03 unknown fields, C06 arbitrary bytes, C07 errors, C08 capacities.
#include "engine.h"
#include "sweep.h"
typedef gp::FieldDescriptor FD;

static void must_decode(Src& s, const Type& t, const std::string& b, const gp::Message& expect, const char* what) {
  Obj o(t, (uint8_t)s.below(256));
  if(s.below(4) == 3) { PMsg w = gen_pb(s, t); apply(s, o.m(), *w); o->clear(); }
  auto rb = any_read(s, b); EP::Error e = o->deserialize(*rb);
  REQUIRE(e == EP::Error::NO_ERRORS, t.ops->inst << " " << what << " " << hex(b) << " of " << show(expect) << " is rejected with " << err_name(e));
  check_equal(o, expect, what);
}
static void self_check(const Type& t, const std::string& b, const gp::Message& v) {
  PMsg p = new_pb(t); if(!pb_parse(p.get(), b) || canon(*p) != canon(v)) { fprintf(stderr, "harness: encoder is wrong for %s %s: %s\n", t.ops->inst, show(v).c_str(), hex(b, 10000).c_str()); abort(); }
}
static Reg r02("C02", "random message values in a random conforming encoding (field order, packed/unpacked/chunked, duplicates, split sub messages, explicit defaults, padded varints), decoded whole, in consecutive calls cut at record boundaries, and on top of existing content; non-trivial: at least two records; oracle: libprotobuf on the same bytes",
  [](Src& s) {
    const Type& t = pick_type(s, [](const Type& t) { return t.nfields > 0; }); PMsg v = gen_pb(s, t); EncOpt o; std::vector<std::string> top;
    std::string b = encode(s, *v, t.caps, o, &top); self_check(t, b, *v);
    TRACE(t.ops->inst << " " << show(*v) << " as " << hex(b));
    must_decode(s, t, b, *v, "encoding");
    count(std::string("type ") + t.ops->name); count("records", top.size());
    if(top.size() > 1) { // consecutive calls
      Obj q(t, 0x77); size_t a = 0; int parts = 0;
      while(a < top.size()) { size_t e = a + 1 + s.below((uint32_t)(top.size() - a)); std::string x; for(size_t i = a; i < e; ++i) x += top[i]; auto rb = any_read(s, x); EP::Error er = q->deserialize(*rb); REQUIRE(er == EP::Error::NO_ERRORS, t.ops->inst << " part " << hex(x) << " is rejected with " << err_name(er)); a = e; ++parts; }
      check_equal(q, *v, "decoded in parts"); if(parts > 1) count("decoded in parts");
      nontrivial(std::string(t.ops->inst) + b);
    }
    // On top of existing content.
    PMsg w = gen_pb(s, t); PMsg m = clone(*w); RefResult r = ref_decode(m.get(), t.caps, b);
    if(r.kind == RefResult::OK) {
      PMsg chk = new_pb(t); if(!chk->ParseFromString(ser(*w) + b) || canon(*chk) != canon(*m)) { fprintf(stderr, "harness: reference decoder disagrees with libprotobuf on %s\n", hex(ser(*w) + b, 10000).c_str()); abort(); }
      Obj q(t, 0x12); apply(s, q.m(), *w); auto rb = any_read(s, b); EP::Error e = q->deserialize(*rb);
      REQUIRE(e == EP::Error::NO_ERRORS, t.ops->inst << " " << hex(b) << " on top of " << show(*w) << " is rejected with " << err_name(e));
      check_equal(q, *m, "merged into existing content"); count("merged");
      Obj q2(t, 0x13); auto rb1 = any_read(s, ser(*w)), rb2 = any_read(s, b); EP::Error e1 = q2->deserialize(*rb1), e2 = q2->deserialize(*rb2);
      REQUIRE(e1 == EP::Error::NO_ERRORS && e2 == EP::Error::NO_ERRORS, t.ops->inst << " two messages: " << err_name(e1) << " " << err_name(e2));
      Obj q3(t, 0x14); auto rb3 = any_read(s, ser(*w) + b); EP::Error e3 = q3->deserialize(*rb3);
      REQUIRE(e3 == EP::Error::NO_ERRORS, t.ops->inst << " concatenation: " << err_name(e3));
      check_equal(q2, *m, "two calls"); check_equal(q3, *m, "concatenation");
    }
  },
  [](int w, int n, bool th) { sweep_single(w, n, th, [](const Type& t, const gp::Message& v, const std::string& what) {
    try { std::vector<uint64_t> z; Src s(&z);
      Obj o(t, 0x3C); RBuf rb(ser(v), false); EP::Error e = o->deserialize(rb);
      REQUIRE(e == EP::Error::NO_ERRORS, "libprotobuf encoding " << hex(ser(v)) << " is rejected with " << err_name(e)); check_equal(o, v, "libprotobuf encoding");
      Src s2(fnv(what)); EncOpt op; std::string b = encode(s2, v, t.caps, op); self_check(t, b, v);
      Obj q(t, 0x3D); RBuf rb2(b, true); e = q->deserialize(rb2); REQUIRE(e == EP::Error::NO_ERRORS, "encoding " << hex(b) << " is rejected with " << err_name(e)); check_equal(q, v, "encoding");
    } catch(Failure& f) { f.msg = std::string(t.ops->inst) + " " + what + ": " + f.msg; throw; }
    count("boundary sweep"); ++g_stats.evaluations; nontrivial(what + t.ops->inst); }); });

static const char* PAIRS[][2] = {{"vp.ver.NewV", "vp.ver.OldV"}, {"vp.ver.OldV", "vp.ver.NewV"}, {"vp.ver.NewSub", "vp.ver.OldSub"}};
static Reg r03("C03", "random message values encoded with unknown fields (number near or aliasing known ones, all proto3 wire types, any length and content, nested) inserted between records at every nesting level; NewV data read with OldV and reverse; non-trivial: at least one unknown field; oracle: result equals that without them",
  [](Src& s) {
    if(s.below(4) == 3 && has_type(PAIRS[0][0])) {
      const auto& pr = PAIRS[s.below(3)]; const Type &from = type_named(pr[0]), &to = type_named(pr[1]);
      PMsg v = gen_pb(s, from); Obj w(from); apply(s, w.m(), *v); std::string b = s.coin() ? ep_serialize(w.m()) : ser(*v);
      PMsg e = new_pb(to); if(!pb_parse(e.get(), b)) { fprintf(stderr, "harness: version pair %s\n", hex(b).c_str()); abort(); } const bool unk = has_unknown(*e);
      TRACE(pr[0] << " read as " << pr[1] << " " << show(*v));
      normalise(e.get()); must_decode(s, to, b, *e, "other version"); count("version pairs"); if(unk) nontrivial(pr[1] + b); return;
    }
    const Type& t = pick_type(s); PMsg v = gen_pb(s, t); EncOpt o; o.unknown = s.range(1, 4); if(s.coin()) { o.reorder = o.dup = o.split = o.unpacked = o.pad = o.defaults = 0; }
    std::string b = encode(s, *v, t.caps, o);
    PMsg p = new_pb(t); if(!pb_parse(p.get(), b)) { fprintf(stderr, "harness: encoder %s\n", hex(b).c_str()); abort(); } const bool unk = has_unknown(*p);
    TRACE(t.ops->inst << " " << show(*v) << " with unknown fields " << hex(b));
    must_decode(s, t, b, *v, "encoding with unknown fields");
    count(std::string("type ") + t.ops->name); if(unk) nontrivial(std::string(t.ops->inst) + b);
  },
  [](int w, int n, bool) { // every type x unknown number class x wire type, before and behind known content
    uint64_t k = 0; std::vector<uint64_t> zz;
    for(auto& t : all_types()) {
      Src gs(fnv(t.ops->inst)); PMsg v = gen_pb(gs, t); std::string body = ser(*v);
      std::set<uint32_t> nums; for(uint32_t x : {1u, 2u, 3u, 4u, 5u, 15u, 16u, 17u, 127u, 128u, 255u, 256u, 2047u, 2048u, 65535u, 65536u, 262143u, 262144u, 33554431u, 33554432u, 268435456u, 536870911u}) nums.insert(x);
      for(int i = 0; i < t.d->field_count(); ++i) { uint32_t b = (uint32_t)t.d->field(i)->number(); for(int sh = 0; sh < 29; ++sh) nums.insert(b ^ (1u << sh)); nums.insert(b + 1); nums.insert(b - 1); nums.insert(b & 0xff); nums.insert(b & 0xffff); nums.insert(b & 0xffffff); nums.insert(b + 0x10000); nums.insert((b << 3) & 0x1fffffff); nums.insert(b >> 3); }
      for(uint32_t num : nums) {
        if(num < 1 || num > 536870911 || t.d->FindFieldByNumber((int)num)) continue;
        for(int wt : {0, 1, 2, 5}) {
          if((int)(k++ % n) != w) continue;
          std::string u; put_varint(u, ((uint64_t)num << 3) | wt);
          if(wt == 0) put_varint(u, (uint64_t)num * 0x9E3779B97F4A7C15ull); else if(wt == 1) u += "\x08\x96\x01\x12\x7f\x01\x02\x03"; else if(wt == 5) u += "\x12\x01\x08\xff"; else { std::string x(k % 300, '\x12'); put_varint(u, x.size()); u += x; }
          Obj o(t, 0x21); RBuf rb(u + body + u, k & 1); EP::Error e = o->deserialize(rb);
          REQUIRE(e == EP::Error::NO_ERRORS, t.ops->inst << ": unknown field " << num << " wire type " << wt << " gives " << err_name(e));
          check_equal(o, *v, "with unknown field"); count("unknown number and wire type sweep"); ++g_stats.evaluations; nontrivial(t.ops->inst + u);
        }
      }
    }
  });

static Reg r06("C06", "arbitrary and mutated byte strings (random bytes, mutated valid encodings, spliced records) fed to every type in random prior states through limited buffers under address and undefined behaviour sanitizers, followed by use of the message; non-trivial: at least 3 bytes and at least one field decoded or an error reported; oracle: sanitizers, bounded operation count, invariants and libprotobuf on the reserialized state",
  [](Src& s) {
    const Type& t = pick_type(s); Obj o(t, (uint8_t)s.below(256));
    if(s.below(3) == 2) { PMsg w = gen_pb(s, t); apply(s, o.m(), *w); }
    const int rounds = 1 + (s.below(4) == 3); EP::Error e = EP::Error::NO_ERRORS; std::string b;
    for(int r = 0; r < rounds; ++r) {
      b = gen_wire(s, t);
      TRACE(t.ops->inst << " <- " << hex(b));
      if(s.below(3) == 2) { auto rb = any_read(s, b); e = o->deserialize(*rb); }
      else { RBuf rb(b, s.coin()); rb.limit = 100 + 60 * (uint64_t)b.size(); e = o->deserialize(rb); }
      REQUIRE((unsigned)e < 8, "invalid error value");
      count(std::string("result ") + err_name(e));
    }
    PMsg st = snapshot(o);
    check_usable(s, o, "after arbitrary input");
    if(b.size() >= 3 && (e != EP::Error::NO_ERRORS || !ser(*st).empty())) nontrivial(std::string(t.ops->inst) + b);
  },
  [](int w, int n, bool th) { // every input of up to two (thorough: for one type three) bytes
    int k = 0;
    for(auto& t : all_types()) {
      if(k++ % n != w) continue;
      Obj o(t, 0x5A);
      for(int len = 0; len <= 2; ++len) for(uint32_t x = 0; x < (1u << (8 * len)); ++x) {
        if(len == 2 && !th && (x % 13) != (uint32_t)(k % 13)) continue;
        std::string b; for(int i = 0; i < len; ++i) b += (char)(x >> (8 * i));
        RBuf rb(b); rb.limit = 400; o->deserialize(rb); count("all short inputs"); ++g_stats.evaluations;
        if(x % 16 == 0) { snapshot(o); o->clear(); }
      }
    }
  });

static void judge(const Type& t, const std::string& b, Obj& o, EP::Error e, const RefResult& r, const gp::Message& m) {
  if(r.kind == RefResult::UNSPEC) return;
  if(r.kind == RefResult::OK) { REQUIRE(e == EP::Error::NO_ERRORS, t.ops->inst << ": valid input " << hex(b) << " is rejected with " << err_name(e)); check_equal(o, m, "decoded"); return; }
  REQUIRE(e != EP::Error::NO_ERRORS, t.ops->inst << ": malformed input " << hex(b) << " (" << r.why << ") is accepted");
  REQUIRE(errbit(e) & r.mask, t.ops->inst << ": malformed input " << hex(b) << " (" << r.why << ") gives " << err_name(e));
}
static void judge1(Src& s, const Type& t, const std::string& b, bool any) {
  PMsg m = new_pb(t); RefResult r = ref_decode(m.get(), t.caps, b);
  Obj o(t, 0x42); EP::Error e;
  if(any) { auto rb = any_read(s, b); e = o->deserialize(*rb); } else { RBuf rb(b, b.size() & 1); e = o->deserialize(rb); }
  ++g_stats.evaluations;
  count(r.kind == RefResult::UNSPEC ? "unspecified" : r.kind == RefResult::OK ? "expect ok" : "expect error");
  if(r.kind == RefResult::ERR) { count("error " + r.why); nontrivial(std::string(t.ops->inst) + b); }
  judge(t, b, o, e, r, *m);
}
static Reg r07("C07", "every truncation of random conforming encodings (with unknown fields), and encodings with combined corruptions of tags, lengths and varints; non-trivial: the reference decoder reports an error; oracle: a reference decoder giving the permitted error codes, or libprotobuf's content for valid input",
  [](Src& s) {
    const Type& t = pick_type(s, [](const Type& t) { return t.nfields > 0; });
    if(s.coin()) {
      PMsg v = gen_pb(s, t); EncOpt o; o.unknown = s.below(3); std::string b = encode(s, *v, t.caps, o);
      if(b.size() > 160) { size_t k = s.below((uint32_t)b.size()); b = b.substr(0, k); }
      TRACE(t.ops->inst << " every prefix of " << hex(b));
      for(size_t k = b.size() > 160 ? b.size() - 160 : 0; k <= b.size(); ++k) { judge1(s, t, b.substr(0, k), false); count("truncations"); }
    } else {
      std::string b = gen_wire(s, t); TRACE(t.ops->inst << " <- " << hex(b)); judge1(s, t, b, true);
    }
  },
  [](int w, int n, bool th) {
    // Every tag of a known field with every wire type and several payloads, directly and inside nested messages.
    uint64_t k = 0; std::vector<uint64_t> z; Src s(&z);
    std::vector<std::string> payload = {"", std::string("\0", 1), "\x01", "\x05", "\x7f", "\x80", std::string("\x80\x00", 2), "\x80\x80\x80\x80", "\x80\x80\x80\x80\x01", std::string("\x80\x80\x80\x80\x80\x00", 6), "\xff\xff\xff\xff\x0f", "\xff\xff\xff\xff\xff\x01", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01",
      "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "1234", "12345678", "\x03" "abc", "\x04" "abc", std::string("\x02\x08\x00", 3), "\x01\x80", std::string("\x02\x80\x00", 3), "\x02\x09\x01", std::string("\x02\x00\x01", 3), "\x02\x07\x01", "\x01\x0b", "\xff\xff\xff\xff\x0f" "abc", "\x80\x80\x80\x80\x08" "abc"};
    for(auto& t : all_types()) {
      std::vector<uint32_t> nums = {0, 1, 536870911}; for(int i = 0; i < t.d->field_count(); ++i) nums.push_back((uint32_t)t.d->field(i)->number());
      for(uint32_t num : nums) for(int wt = 0; wt < 8; ++wt) for(auto& p : payload) {
        if((int)(k++ % n) != w) continue;
        std::string b; put_varint(b, ((uint64_t)num << 3) | wt); b += p;
        judge1(s, t, b, false); ++g_stats.evaluations; count("tag and payload sweep");
        // the same inside each message field, with the length right and one less or more
        for(int i = 0; i < t.d->field_count(); ++i) { const FD* f = t.d->field(i); if(!is_msg(f) || (!th && ((k + i) % 3))) continue;
          for(int d = -1; d <= 1; ++d) { std::string x; put_varint(x, ((uint64_t)f->number() << 3) | 2); if((int)b.size() + d < 0) continue; put_varint(x, b.size() + d); x += b; judge1(s, t, x, false); ++g_stats.evaluations; } }
      }
    }
  });

// ---------------------------------------------------------------- C08
struct Slot { std::vector<int> path; };
static bool leads(const gp::Descriptor* d, int depth) { if(depth > 6) return false; for(int i = 0; i < d->field_count(); ++i) { const FD* f = d->field(i); if(f->is_repeated() || is_str(f) || (is_msg(f) && leads(f->message_type(), depth + 1))) return true; } return false; }
// Bring one bounded field somewhere in m to cap + extra. Returns a description.
static std::string overfill(Src& s, gp::Message* m, const CapNode& cc, int extra, const std::string& path) {
  const gp::Descriptor* d = m->GetDescriptor(); auto* r = m->GetReflection(); std::vector<const FD*> c;
  for(int i = 0; i < d->field_count(); ++i) { const FD* f = d->field(i); if(f->is_repeated() || is_str(f) || (is_msg(f) && leads(f->message_type(), 0))) c.push_back(f); }
  const FD* f = c[s.below((uint32_t)c.size())]; const CapNode& k = cap_of(cc, f); const std::string here = path + "." + f->name();
  GenOpt o; o.budget = 30;
  if(f->is_repeated()) {
    const bool inner = (is_str(f) || (is_msg(f) && leads(f->message_type(), 0))) && k.r > 0 && s.below(3) == 2;
    if(inner) {
      if(r->FieldSize(*m, f) == 0) { if(is_msg(f)) r->AddMessage(m, f); else r->AddString(m, f, ""); }
      const int i = s.below((uint32_t)r->FieldSize(*m, f));
      if(is_msg(f)) return overfill(s, r->MutableRepeatedMessage(m, f, i), k, extra, here + "[" + std::to_string(i) + "]");
      r->SetRepeatedString(m, f, i, std::string((size_t)std::max(0, k.l + extra), 'q')); return here + " element length " + std::to_string(k.l + extra) + " of " + std::to_string(k.l);
    }
    const int want = std::max(0, k.r + extra);
    while(r->FieldSize(*m, f) > want) r->RemoveLast(m, f);
    const bool rnd = want < 60;
    while(r->FieldSize(*m, f) < want) {
      if(is_msg(f)) { gp::Message* x = r->AddMessage(m, f); if(rnd) gen_msg(s, x, k, o); } else if(is_str(f)) r->AddString(m, f, rnd ? gen_bytes(s, (uint32_t)std::min(k.l, 20)) : "x"); else pb_add(m, f, rnd ? gen_scalar(s, f) : 1);
    }
    return here + " length " + std::to_string(want) + " of " + std::to_string(k.r);
  }
  if(is_str(f)) { r->SetString(m, f, std::string((size_t)std::max(0, k.l + extra), 's')); return here + " length " + std::to_string(k.l + extra) + " of " + std::to_string(k.l); }
  return overfill(s, r->MutableMessage(m, f), k, extra, here);
}
static void c08_decode(Src& s, const Type& t, const std::string& b, const gp::Message* before, const std::string& what) {
  Obj o(t, 0x66); PMsg m = new_pb(t);
  if(before) { apply(s, o.m(), *before); m->CopyFrom(*before); }
  RefResult r = ref_decode(m.get(), t.caps, b);
  auto rb = any_read(s, b); EP::Error e = o->deserialize(*rb);
  if(r.kind == RefResult::UNSPEC) return;
  if(r.kind == RefResult::OK) { REQUIRE(e == EP::Error::NO_ERRORS, t.ops->inst << " " << what << ": content within the capacities is refused with " << err_name(e)); check_equal(o, *m, what.c_str()); count("fits"); return; }
  REQUIRE(errbit(e) & r.mask, t.ops->inst << " " << what << ": " << r.why << " gives " << err_name(e));
  PMsg got = snapshot(o);
  if(r.mask & errbit(EP::Error::ARRAY_FULL)) { check_rest(*got, *m, r.path, what.c_str()); count("refused"); }
}
static void c08_api(Src& s, const Type& t) {
  Obj o(t, 0x67); PMsg v = gen_pb(s, t); apply(s, o.m(), *v); PMsg model = snapshot(o);
  // walk down to a bounded field through mutable accessors
  std::vector<IMsgP> hold; IMsg* cur = &o.m(); gp::Message* mm = model.get(); const CapNode* cc = &t.caps;
  for(int depth = 0; depth < 6; ++depth) {
    const gp::Descriptor* d = mm->GetDescriptor(); auto* r = mm->GetReflection(); std::vector<const FD*> c;
    for(int i = 0; i < d->field_count(); ++i) { const FD* f = d->field(i); if(f->is_repeated() || is_str(f) || (is_msg(f) && leads(f->message_type(), 0))) c.push_back(f); }
    if(c.empty()) return;
    const FD* f = c[s.below((uint32_t)c.size())]; const CapNode& k = cap_of(*cc, f); const int x = f->index();
    if(is_msg(f) && !f->is_repeated()) { hold.push_back(cur->mut_sub(x)); cur = hold.back().get(); mm = r->MutableMessage(mm, f); cc = &k; continue; }
    if(f->is_repeated()) {
      IRepP q = cur->mut_rep(x);
      PMsg tmp(mm->New()); auto mk = [&]() { tmp->Clear(); GenOpt go; go.budget = 6; if(is_msg(f)) gen_msg(s, r->AddMessage(tmp.get(), f), k, go); else if(is_str(f)) r->AddString(tmp.get(), f, gen_bytes(s, (uint32_t)k.l)); else pb_add(tmp.get(), f, gen_scalar(s, f)); return elem_of(s, *tmp, f, 0); };
      auto push = [&]() { if(is_msg(f)) r->AddMessage(mm, f)->CopyFrom(r->GetRepeatedMessage(*tmp, f, 0)); else if(is_str(f)) r->AddString(mm, f, r->GetRepeatedString(*tmp, f, 0)); else pb_add(mm, f, pb_rget(*tmp, f, 0)); };
      const int guard = k.r > 200 ? 10 : k.r + 3;
      for(int i = 0; i < guard; ++i) {
        Elem e = mk(); const bool room = r->FieldSize(*mm, f) < k.r;
        if(s.below(4) == 3) cur->rep_add(x, e);
        else { EP::Error er = q->add(e); REQUIRE(er == (room ? EP::Error::NO_ERRORS : EP::Error::ARRAY_FULL), t.ops->inst << " " << f->full_name() << ".add() at length " << r->FieldSize(*mm, f) << " of " << k.r << " gives " << err_name(er)); }
        if(room) push();
        REQUIRE(q->len() == (uint32_t)r->FieldSize(*mm, f), f->full_name() << " length after add");
      }
      check_equal(o, *model, "after adds"); count("api repeated");
      if(k.r <= 200) {
        const int n = k.r - 1 + (int)s.range(0, 3); std::vector<Elem> es; PMsg keep(mm->New()); 
        for(int i = 0; i < n; ++i) { mk(); keep->MergeFrom(*tmp); }
        for(int i = 0; i < n; ++i) es.push_back(elem_of(s, *keep, f, i));
        EP::Error er = q->set_data(es); REQUIRE(er == (n <= k.r ? EP::Error::NO_ERRORS : EP::Error::ARRAY_FULL), f->full_name() << ".set_data() of " << n << " elements with maximum " << k.r << " gives " << err_name(er));
        if(n <= k.r) { r->ClearField(mm, f); mm->MergeFrom(*keep); }
        check_equal(o, *model, "after set_data");
      }
      // indexes beyond the end are limited
      const uint32_t idx = s.coin() ? (uint32_t)k.r + s.below(3) : 0xFFFFFFFFu; Elem e = mk();
      if(s.coin()) q->set(idx, e); else cur->rep_set(x, idx, e, 0);
      REQUIRE(q->len() <= (uint32_t)k.r, f->full_name() << " length " << q->len() << " exceeds " << k.r);
      snapshot(o);
    } else {
      IStrP q = cur->mut_str(x); if(f->has_presence()) r->SetString(mm, f, r->GetString(*mm, f));
      for(int extra : {-1, 0, 1, 2, 300}) {
        if(k.l + extra < 0 || s.below(3) == 0) continue;
        std::string b((size_t)(k.l + extra), (char)('a' + s.below(26)));
        const int var = q->is_string() ? s.below(2) : 0;
        if(var == 0) { EP::Error er = q->set(b); REQUIRE(er == (extra <= 0 ? EP::Error::NO_ERRORS : EP::Error::ARRAY_FULL), f->full_name() << ".set() of " << b.size() << " with maximum " << k.l << " gives " << err_name(er)); if(extra <= 0) r->SetString(mm, f, b); }
        else { std::vector<char> z(b.begin(), b.end()); z.push_back(0); q->set_cstr(z.data()); r->SetString(mm, f, b.substr(0, (size_t)k.l)); }
        REQUIRE(q->len() <= (uint32_t)k.l, f->full_name() << " length exceeds its maximum");
        check_equal(o, *model, "after set"); count("api string");
      }
    }
    return;
  }
}
static Reg r08("C08", "messages in which a random bounded field at any nesting level is brought to its capacity -1..+3, decoded from random conforming encodings into fresh and filled messages, and the same through add/set/set_data; non-trivial: a capacity is met or exceeded; oracle: reference decoder with the configured capacities, refused operations leave the rest equal to the model",
  [](Src& s) {
    const Type& t = pick_type(s, [](const Type& t) { return t.has_cap; });
    if(s.below(4) == 3) { c08_api(s, t); nontrivial("api" + std::to_string(g_stats.evaluations)); return; }
    PMsg v = gen_pb(s, t); const int extra = (int)s.range(0, 4) - 1; std::string what = overfill(s, v.get(), t.caps, extra, t.ops->name);
    EncOpt o; if(s.coin()) o.dup = o.split = o.pad = 0; o.unknown = s.below(2);
    PMsg w; if(s.below(3) == 2) w = gen_pb(s, t);
    std::string b = encode(s, *v, t.caps, o); TRACE(t.ops->inst << " " << what << " <- " << hex(b));
    count("extra " + std::to_string(extra));
    c08_decode(s, t, b, w.get(), what); nontrivial(std::string(t.ops->inst) + b);
  },
  [](int w, int n, bool th) {
    uint64_t k = 0; std::vector<uint64_t> z; Src s(&z);
    for(auto& t : all_types()) for(int i = 0; i < t.d->field_count(); ++i) {
      const FD* f = t.d->field(i); const CapNode& c = cap_of(t.caps, f); PMsg base = new_pb(t); auto* r = base->GetReflection();
      if(f->is_repeated()) { auto L = boundary_lengths((uint32_t)c.r, th); L.push_back((uint32_t)c.r + 1); L.push_back((uint32_t)c.r + 2);
        for(uint32_t len : L) for(int style = 0; style < 2; ++style) {
          if((int)(k++ % n) != w) continue;
          PMsg v = clone(*base); for(uint32_t j = 0; j < len; ++j) { if(is_msg(f)) r->AddMessage(v.get(), f); else if(is_str(f)) r->AddString(v.get(), f, "v"); else pb_add(v.get(), f, f->type() == FD::TYPE_BOOL ? j & 1 : j + 1); }
          std::string b; if(style && is_scalar(f)) { for(uint32_t j = 0; j < len; ++j) { PMsg one = new_pb(t); pb_add(one.get(), f, pb_rget(*v, f, (int)j)); std::string x = ser(*one); b += x; } } else b = ser(*v);
          c08_decode(s, t, b, nullptr, f->full_name() + " length " + std::to_string(len)); count("capacity sweep"); ++g_stats.evaluations; nontrivial(t.ops->inst + b); } }
      if(is_str(f)) { auto L = boundary_lengths((uint32_t)c.l, th); for(uint32_t e = 1; e < 4; ++e) L.push_back((uint32_t)c.l + e);
        for(uint32_t len : L) {
          if((int)(k++ % n) != w) continue;
          PMsg v = clone(*base); if(f->is_repeated()) r->AddString(v.get(), f, std::string(len, 'w')); else r->SetString(v.get(), f, std::string(len, 'w'));
          c08_decode(s, t, ser(*v), nullptr, f->full_name() + " string length " + std::to_string(len)); count("capacity sweep"); ++g_stats.evaluations; nontrivial(t.ops->inst + ser(*v)); } }
    }
  });
