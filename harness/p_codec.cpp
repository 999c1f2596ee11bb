// C01 serialization means its content, C04 round trip and determinism, C05 sizes and fitting.
#include "engine.h"
#include "sweep.h"
typedef gp::FieldDescriptor FD;

static bool empty_pb(const gp::Message& m) { return ser(m).empty(); }
// Bring a new object to content v through some history.
static ObjP make(Src& s, const Type& t, const gp::Message& v) {
  ObjP o(new Obj(t, (uint8_t)(s.below(3) * 0x5A + s.below(2))));
  const int pre = s.below(5);
  if(pre == 1) { PMsg w = gen_pb(s, t); apply(s, o->m(), *w); o->m().clear(); }
  else if(pre == 2) { std::string junk = gen_wire(s, t); RBuf b(junk); o->m().deserialize(b); o->m().clear(); }
  else if(pre == 3) { // overwrite: other values first, fields which are not part of v are cleared one by one
    PMsg w = gen_pb(s, t); apply(s, o->m(), *w);
    for(int i = 0; i < t.d->field_count(); ++i) { const FD* f = t.d->field(i); if(s.coin() || !(f->is_repeated() ? v.GetReflection()->FieldSize(v, f) > 0 : v.GetReflection()->HasField(v, f))) o->m().clear_field(i); }
  } else if(pre == 4) { Obj src(t, 0x11); apply(s, src.m(), v); t.ops->assign(o->p, src.p); return o; }
  apply(s, o->m(), v);
  return o;
}
static void c01(const Type& t, const Obj& o, const gp::Message& v, const std::string& b) {
  PMsg back = new_pb(t);
  REQUIRE(pb_parse(back.get(), b), t.ops->inst << " " << show(v) << ": protobuf rejects " << hex(b));
  REQUIRE(!has_unknown(*back), t.ops->inst << " " << show(v) << ": protobuf finds fields which are not in the schema in " << hex(b));
  REQUIRE(canon(*back) == canon(v), t.ops->inst << ": content " << show(v) << " was serialized as " << show(*back) << " bytes " << hex(b));
  PMsg snap = snapshot(o);
  REQUIRE(canon(*back) == ser(*snap), t.ops->inst << ": object reads " << show(*snap) << " but was serialized as " << show(*back));
}
static Reg r01("C01", "random message values (structure, lengths and scalars biased to boundaries) of every message type in the schemas, set through random accessors and histories; non-trivial: at least one field set; oracle: libprotobuf parses the bytes to exactly the content",
  [](Src& s) {
    const Type& t = pick_type(s); PMsg v = gen_pb(s, t); ObjP o = make(s, t, *v);
    std::string b = ep_serialize_any(s, o->m());
    TRACE(t.ops->inst << " " << show(*v) << " -> " << hex(b));
    count(std::string("type ") + t.ops->name); count("bytes", b.size());
    c01(t, *o, *v, b);
    if(!empty_pb(*v)) nontrivial(std::string(t.ops->inst) + ser(*v));
  },
  [](int w, int n, bool th) { sweep_single(w, n, th, [](const Type& t, const gp::Message& v, const std::string& what) {
    std::vector<uint64_t> z; Src s(&z); Obj o(t); try { apply(s, o.m(), v); c01(t, o, v, ep_serialize(o.m())); } catch(Failure& f) { f.msg = what + ": " + f.msg; throw; }
    count("boundary sweep"); ++g_stats.evaluations; nontrivial(what + t.ops->inst); }); });

static Reg r04("C04", "random message values reached through different histories in differently prefilled memory, decoded into a fresh object and serialized again into different buffer types; non-trivial: at least two fields or one element set; oracle: equality of values and bytes",
  [](Src& s) {
    const Type& t = pick_type(s); PMsg v = gen_pb(s, t); ObjP o = make(s, t, *v);
    std::string b = ep_serialize_any(s, o->m());
    TRACE(t.ops->inst << " " << show(*v) << " -> " << hex(b));
    REQUIRE(ep_serialize_any(s, o->m()) == b, t.ops->inst << " serializing twice gives different bytes for " << show(*v));
    Obj q(t, (uint8_t)s.below(256)); if(s.coin()) { PMsg w = gen_pb(s, t); apply(s, q.m(), *w); q->clear(); }
    auto rb = any_read(s, b); EP::Error e = q->deserialize(*rb);
    REQUIRE(e == EP::Error::NO_ERRORS, t.ops->inst << " own serialization " << hex(b) << " of " << show(*v) << " is rejected with " << err_name(e));
    PMsg so = snapshot(*o), sq = snapshot(q);
    REQUIRE(ser(*so) == ser(*sq), t.ops->inst << " round trip changed " << show(*so) << " into " << show(*sq));
    std::string b2 = ep_serialize_any(s, q.m());
    REQUIRE(b2 == b, t.ops->inst << " serializing the decoded message gives " << hex(b2) << " instead of " << hex(b));
    ObjP o2 = make(s, t, *v); std::string b3 = ep_serialize_any(s, o2->m());
    REQUIRE(b3 == b, t.ops->inst << " bytes depend on the history: " << hex(b) << " and " << hex(b3) << " for " << show(*v));
    { Obj o3(t, 0x00), o4(t, 0xFF); apply(s, o3.m(), *v); t.ops->assign(o4.p, o3.p); REQUIRE(ep_serialize(o3.m()) == ep_serialize(o4.m()), t.ops->inst << " bytes depend on memory"); }
    count(std::string("type ") + t.ops->name);
    if(b.size() > 3) nontrivial(std::string(t.ops->inst) + b);
  },
  [](int w, int n, bool th) { sweep_single(w, n, th, [](const Type& t, const gp::Message& v, const std::string& what) {
    std::vector<uint64_t> z; Src s(&z); Obj o(t); try {
      apply(s, o.m(), v); std::string b = ep_serialize(o.m()); Obj q(t, 0x3C); RBuf rb(b, true); EP::Error e = q->deserialize(rb);
      REQUIRE(e == EP::Error::NO_ERRORS, "own serialization " << hex(b) << " is rejected with " << err_name(e));
      PMsg so = snapshot(o), sq = snapshot(q);
      REQUIRE(ser(*so) == ser(*sq), "round trip changed " << show(*so) << " into " << show(*sq));
      REQUIRE(ep_serialize(q.m()) == b, "second serialization differs");
    } catch(Failure& f) { f.msg = std::string(t.ops->inst) + " " + what + ": " + f.msg; throw; }
    count("boundary sweep"); ++g_stats.evaluations; nontrivial(what + t.ops->inst); }); });

static void fit(const Type& t, const Obj& o, const std::string& b, uint32_t room, const std::string& pre, bool honest) {
  WBuf w((uint32_t)pre.size() + room, pre); (void)honest;
  EP::Error e = o.m().serialize(w);
  if(room >= b.size()) {
    REQUIRE(e == EP::Error::NO_ERRORS, t.ops->inst << ": " << b.size() << " bytes into " << room << " free after " << pre.size() << " gives " << err_name(e));
    REQUIRE(w.data() == pre + b, t.ops->inst << ": buffer holds " << hex(w.data()) << " instead of prefix " << hex(pre) << " and " << hex(b));
  } else {
    REQUIRE(e == EP::Error::BUFFER_FULL, t.ops->inst << ": " << b.size() << " bytes into " << room << " free gives " << err_name(e));
    REQUIRE(w.pos <= w.cap && w.pos >= pre.size() && w.data().compare(0, pre.size(), pre) == 0, t.ops->inst << ": bytes already in the buffer changed");
    for(uint32_t i = w.pos; i < w.cap; ++i) REQUIRE(w.mem[i] == 0xEE, t.ops->inst << ": memory behind the written bytes changed");
  }
}
static void fit_lib(Src& s, const Type& t, const Obj& o, const std::string& b) {
  auto l = lib_write((uint32_t)s.range(0, (uint32_t)b.size() + 4), false); if(!l) return;
  const uint32_t cap = l->buf().get_max_size();
  // prefill such that the free space is around the size
  uint32_t room = std::min<uint32_t>(cap, (uint32_t)std::max<int64_t>(0, (int64_t)b.size() + (int64_t)s.range(0, 4) - 2)); const uint32_t fill = cap - room;
  std::string pre; for(uint32_t i = 0; i < fill; ++i) { pre += (char)(i * 11); REQUIRE(l->buf().push((uint8_t)(i * 11)), "WriteBufferFixedSize refuses a byte while not full"); }
  EP::Error e = o.m().serialize(l->buf());
  if(room >= b.size()) { REQUIRE(e == EP::Error::NO_ERRORS, t.ops->inst << ": " << b.size() << " bytes into WriteBufferFixedSize<" << cap << "> with " << room << " free gives " << err_name(e)); REQUIRE(l->data() == pre + b, t.ops->inst << ": wrong bytes in WriteBufferFixedSize"); }
  else { REQUIRE(e == EP::Error::BUFFER_FULL, t.ops->inst << ": " << b.size() << " bytes into WriteBufferFixedSize<" << cap << "> with " << room << " free gives " << err_name(e)); REQUIRE(l->data().compare(0, pre.size(), pre) == 0 && l->buf().get_size() <= cap, t.ops->inst << ": bytes already in WriteBufferFixedSize changed"); }
  count(room >= b.size() ? "library buffer, fits" : "library buffer, too small");
}
static Reg r05("C05", "random message values serialized into buffers with every amount of free space from 0 to size+2 (sampled above 80 bytes), with and without prefix, own exact-size buffers and WriteBufferFixedSize instances; non-trivial: size > 0; oracle: size equals bytes written, success exactly when it fits",
  [](Src& s) {
    const Type& t = pick_type(s); PMsg v = gen_pb(s, t); ObjP o = make(s, t, *v);
    const uint32_t size = o->m().serialized_size();
    WBuf big(size + 4096); EP::Error e = o->m().serialize(big);
    REQUIRE(e == EP::Error::NO_ERRORS, t.ops->inst << " serialize into a large buffer gives " << err_name(e));
    std::string b = big.data();
    TRACE(t.ops->inst << " " << show(*v) << " size " << size);
    REQUIRE(b.size() == size, t.ops->inst << " serialized_size " << size << " but " << b.size() << " bytes written for " << show(*v));
    std::string pre = s.coin() ? gen_bytes(s, 12) : "";
    if(size <= 80) { for(uint32_t room = 0; room <= size + 2; ++room) { fit(t, *o, b, room, pre, true); count("free space amounts"); } count("all amounts"); }
    else for(int i = 0; i < 12; ++i) { uint32_t room = i < 3 ? size - 1 + i : i < 6 ? s.below(size) : size - std::min<uint32_t>(size, s.below(20)); fit(t, *o, b, room, pre, true); count("free space amounts"); }
    for(int i = 0; i < 4; ++i) fit_lib(s, t, *o, b);
    REQUIRE(o->m().serialized_size() == size, "serialized_size changed");
    if(size) nontrivial(std::string(t.ops->inst) + b);
  },
  [](int w, int n, bool th) { sweep_single(w, n, th, [](const Type& t, const gp::Message& v, const std::string& what) {
    std::vector<uint64_t> z; Src s(&z); Obj o(t); try {
      apply(s, o.m(), v); std::string b = ep_serialize(o.m());
      REQUIRE(o->serialized_size() == b.size(), "serialized_size " << o->serialized_size() << " but " << b.size() << " bytes");
      const uint32_t z = (uint32_t)b.size();
      std::set<uint32_t> rooms; for(uint32_t k = 0; k <= 14 && k <= z; ++k) { rooms.insert(k); rooms.insert(z - k); } rooms.insert(z + 1); rooms.insert(z + 2);
      for(uint32_t room : rooms) fit(t, o, b, room, "", true);
    } catch(Failure& f) { f.msg = what + ": " + f.msg; throw; }
    count("boundary sweep"); ++g_stats.evaluations; nontrivial(what + t.ops->inst); }); });
