// C09 field model, C10 oneofs, C11 copies and clear: histories of operations against a libprotobuf message as model.
#include "engine.h"
#include "sweep.h"
typedef gp::FieldDescriptor FD;

namespace {
struct Machine {
  const Type& t; Obj o; PMsg model; std::string what;
  explicit Machine(const Type& ty, uint8_t pattern = 0xA5) : t(ty), o(ty, pattern), model(new_pb(ty)) {}
  Machine(const Type& ty, Obj::Raw r, uint8_t pattern) : t(ty), o(ty, r, pattern), model(new_pb(ty)) {}
  void check() { check_equal(o, *model, what.c_str()); }
};
void replace_field(gp::Message* m, const gp::Message& v, const FD* f) {
  auto* r = m->GetReflection(); r->ClearField(m, f);
  if(f->is_repeated()) {
    for(int i = 0; i < r->FieldSize(v, f); ++i) { if(is_msg(f)) r->AddMessage(m, f)->CopyFrom(r->GetRepeatedMessage(v, f, i)); else if(is_str(f)) r->AddString(m, f, r->GetRepeatedString(v, f, i)); else pb_add(m, f, pb_rget(v, f, i)); }
  } else if(is_msg(f)) r->MutableMessage(m, f)->CopyFrom(r->GetMessage(v, f));
  else if(is_str(f)) r->SetString(m, f, r->GetString(v, f));
  else pb_set(m, f, pb_get(v, f));
}
const FD* pick_field(Src& s, const gp::Descriptor* d, bool oneof_bias) {
  if(oneof_bias && d->real_oneof_decl_count() && s.below(4)) { auto* oo = d->oneof_decl(s.below((uint32_t)d->real_oneof_decl_count())); return oo->field(s.below((uint32_t)oo->field_count())); }
  return d->field(s.below((uint32_t)d->field_count()));
}
// One operation on one field of the message; cur and m are the object and its model.
std::string field_op(Src& s, IMsg& cur, gp::Message* m, const CapNode& cc, bool oneof_bias, int depth) {
  const gp::Descriptor* d = m->GetDescriptor(); auto* r = m->GetReflection();
  if(d->field_count() == 0) return "nothing";
  const FD* f = pick_field(s, d, oneof_bias); const CapNode& c = cap_of(cc, f); const int x = f->index(); const std::string n = f->name();
  GenOpt go; go.budget = 12;
  switch(s.below(8)) {
    case 0: case 1: case 2: { // set to a new value
      PMsg v(m->New()); gen_field(s, v.get(), f, cc, go); 
      if(!f->is_repeated() && is_scalar(f) && s.below(5) == 4) pb_set(v.get(), f, 0);     // setting the default is setting
      apply_field(s, cur, *v, f); replace_field(m, *v, f); count(real_oneof(f) ? "op set member" : "op set"); return "set " + n + " " + show(*v); }
    case 3: cur.clear_field(x); r->ClearField(m, f); count("op clear field"); return "clear " + n;
    case 4: case 5: // obtain mutable, perhaps change something
      if(f->is_repeated()) {
        IRepP q = cur.mut_rep(x);
        const int len = r->FieldSize(*m, f);
        PMsg v(m->New()); do { r->ClearField(v.get(), f); gen_field(s, v.get(), f, cc, go); } while(r->FieldSize(*v, f) == 0 && s.below(8)); if(r->FieldSize(*v, f) == 0) return "mutable " + n;
        Elem e = elem_of(s, *v, f, 0);
        if(s.coin()) { // add
          EP::Error er = q->add(e); REQUIRE(er == (len < c.r ? EP::Error::NO_ERRORS : EP::Error::ARRAY_FULL), n << " add gives " << err_name(er));
          if(len < c.r) { if(is_msg(f)) r->AddMessage(m, f)->CopyFrom(r->GetRepeatedMessage(*v, f, 0)); else if(is_str(f)) r->AddString(m, f, r->GetRepeatedString(*v, f, 0)); else pb_add(m, f, pb_rget(*v, f, 0)); }
          count("op add"); return "add " + n;
        }
        if(len) { const int i = (int)s.below((uint32_t)len);
          if(is_msg(f) && s.coin()) { IMsgP q2 = q->mut_msg((uint32_t)i); std::string w = field_op(s, *q2, r->MutableRepeatedMessage(m, f, i), c, oneof_bias, depth + 1); return n + "[" + std::to_string(i) + "]." + w; }
          if(s.coin()) cur.rep_set(x, (uint32_t)i, e, (int)s.below(2)); else q->set((uint32_t)i, e);
          if(is_msg(f)) r->MutableRepeatedMessage(m, f, i)->CopyFrom(r->GetRepeatedMessage(*v, f, 0)); else if(is_str(f)) r->SetRepeatedString(m, f, i, r->GetRepeatedString(*v, f, 0)); else pb_rset(m, f, i, pb_rget(*v, f, 0));
          count("op set element"); return "set element " + std::to_string(i) + " of " + n; }
        return "mutable " + n;
      }
      if(is_msg(f)) { IMsgP q = cur.mut_sub(x); gp::Message* sm = r->MutableMessage(m, f); count("op mutable message"); if(depth < 4 && s.below(4)) return n + "." + field_op(s, *q, sm, c, oneof_bias, depth + 1); return "mutable " + n; }
      if(is_str(f)) {
        IStrP q = cur.mut_str(x); std::string b = r->GetString(*m, f); count("op mutable string");
        if(s.coin()) { const uint32_t i = s.below((uint32_t)c.l); const char ch = (char)s.range(1, 255); // write one character, which grows the string to it
          // Characters between the old end and the new one are those of a cleared string.
          q->put(i, ch); if(i >= b.size()) b.resize(i + 1, '\0'); b[i] = ch; }
        r->SetString(m, f, b); return "mutable " + n;
      }
      if(is_enum(f) || real_oneof(f)) { uint64_t u = gen_scalar(s, f); cur.set(x, u, (int)s.below(2)); pb_set(m, f, u); return "set " + n; }
      { uint64_t u = s.coin() ? gen_scalar(s, f) : 0; cur.set(x, u, 2); pb_set(m, f, u); count("op mutable scalar"); return "mutable " + n; }
    case 6: if(s.coin()) { // set from the reference the getter of the field itself, or of the active member of its oneof, returns
        const FD* g = f;
        if(real_oneof(f)) {
          g = r->GetOneofFieldDescriptor(*m, f->real_containing_oneof()); if(!g) return "nothing";
          if(g != f && (is_msg(f) || is_str(f) || is_msg(g) || is_str(g) || is_enum(f) != is_enum(g) || f->cpp_type() != g->cpp_type())) f = g;
        }
        if(!cur.alias_set(f->index(), g->index())) return "nothing";          // another enumeration
        if(g != f) { uint64_t u = pb_get(*m, g); pb_set(m, f, u); count("op set member from another member"); }
        else if(f->is_repeated()) {}
        else if(is_msg(f)) r->MutableMessage(m, f);
        else if(is_str(f)) r->SetString(m, f, r->GetString(*m, f));
        else pb_set(m, f, pb_get(*m, f));
        count("op set from itself"); return "set " + f->name() + " from " + g->name();
      }
      if(f->is_repeated()) { cur.get_rep(x, 0); } else if(tracked(f)) cur.has(x); return "read " + n;
    default: // descend
      if(is_msg(f) && !f->is_repeated() && depth < 4) { IMsgP q = cur.mut_sub(x); return n + "." + field_op(s, *q, r->MutableMessage(m, f), c, oneof_bias, depth + 1); }
      if(is_msg(f) && f->is_repeated() && r->FieldSize(*m, f) && depth < 4) { const int i = (int)s.below((uint32_t)r->FieldSize(*m, f)); IMsgP q = cur.mut_rep(x)->mut_msg((uint32_t)i); return n + "[]." + field_op(s, *q, r->MutableRepeatedMessage(m, f, i), c, oneof_bias, depth + 1); }
      return "nothing";
  }
}
// After a failing deserialize: members of the oneof at fault are none, the failing one, or what was active before.
void oneof_after_error(const Type& t, const gp::Message& got, const gp::Message& exp, const std::vector<int>& path) {
  const gp::Message *g = &got, *e = &exp;
  for(size_t i = 0; i < path.size(); ++i) {
    const FD* f = g->GetDescriptor()->FindFieldByNumber(path[i]); auto* r = g->GetReflection();
    if(real_oneof(f)) {
      const FD* a = r->GetOneofFieldDescriptor(*g, f->real_containing_oneof()); const FD* b = r->GetOneofFieldDescriptor(*e, f->real_containing_oneof());
      REQUIRE(!a || a == f || a == b, t.ops->inst << " " << f->full_name() << " failed to deserialize but " << a->full_name() << " is set"); return;
    }
    if(!is_msg(f)) return;
    if(f->is_repeated()) { const int n = r->FieldSize(*e, f); if(n == 0 || r->FieldSize(*g, f) != n) return; g = &r->GetRepeatedMessage(*g, f, n - 1); e = &r->GetRepeatedMessage(*e, f, n - 1); }
    else { g = &r->GetMessage(*g, f); e = &r->GetMessage(*e, f); }
  }
}
std::string do_deserialize(Src& s, Machine& k, bool allow_bad) {
  std::string b;
  PMsg v = gen_pb(s, k.t); EncOpt eo; eo.unknown = (int)s.below(2);
  b = encode(s, *v, k.t.caps, eo); if(b.size() > 1500) b = "";
  if(allow_bad && s.below(3) == 2) { int n = (int)s.range(1, 3); while(n--) b = mutate(s, b, k.t); }
  PMsg m = clone(*k.model); RefResult r = ref_decode(m.get(), k.t.caps, b);
  auto rb = any_read(s, b); EP::Error e = k.o->deserialize(*rb);
  if(r.kind == RefResult::OK) { REQUIRE(e == EP::Error::NO_ERRORS, k.t.ops->inst << " " << hex(b) << " is rejected with " << err_name(e)); k.model = std::move(m); count("op deserialize"); }
  else {
    PMsg got = snapshot(k.o);
    if(r.kind == RefResult::ERR) { REQUIRE(e != EP::Error::NO_ERRORS, k.t.ops->inst << " " << hex(b) << " (" << r.why << ") is accepted"); 
      // With several permitted errors the place of the failure is not determined.
      if(r.mask && !(r.mask & (r.mask - 1))) { check_rest(*got, *m, r.path, "after a failing deserialize"); oneof_after_error(k.t, *got, *m, r.path); } }
    k.model = std::move(got); count("op failing deserialize");
  }
  return "deserialize " + hex(b, 60);
}
void step(Src& s, Machine& k, bool oneof_bias, bool allow_bad) {
  const uint32_t a = s.below(14);
  if(a < 10) k.what = field_op(s, k.o.m(), k.model.get(), k.t.caps, oneof_bias, 0);
  else if(a == 10) { std::string b = ep_serialize_any(s, k.o.m()); PMsg back = new_pb(k.t); REQUIRE(pb_parse(back.get(), b) && !has_unknown(*back) && canon(*back) == canon(*k.model), k.t.ops->inst << " serializes to " << hex(b) << " while it should hold " << show(*k.model)); k.what = "serialize"; count("op serialize"); }
  else if(a == 11 || a == 12) k.what = do_deserialize(s, k, allow_bad);
  else if(s.below(3) == 2) { k.o->clear(); k.model->Clear(); k.what = "clear"; count("op clear"); }
  else { k.o->serialized_size(); k.what = "serialized_size"; }
  TRACE("  " << k.what);
  k.check();
}

// Exhaustive over pairs of fields of the same message: one operation must not show in the other.
void pairs(int w, int n, bool) {
  uint64_t k = 0;
  for(auto& t : all_types()) {
    const gp::Descriptor* d = t.d; PMsg base = new_pb(t);
    for(int i = 0; i < d->field_count(); ++i) {
      if((int)(k++ % n) != w) continue;
      for(int j = 0; j < d->field_count(); ++j) {
        const FD *f = d->field(i), *g = d->field(j); Src s = Src::child(fnv(f->full_name() + g->name())); GenOpt go; go.budget = 3; go.density = 90;
        Machine m(t, (uint8_t)(i * 31 + j)); PMsg v = new_pb(t); gen_field(s, v.get(), f, t.caps, go); PMsg u = new_pb(t); gen_field(s, u.get(), g, t.caps, go);
        auto* r = base->GetReflection();
        m.what = std::string(t.ops->inst) + " set " + f->name(); apply_field(s, m.o.m(), *v, f); replace_field(m.model.get(), *v, f); m.check();
        m.what = std::string(t.ops->inst) + " set " + f->name() + " then " + g->name(); apply_field(s, m.o.m(), *u, g); replace_field(m.model.get(), *u, g); m.check();
        std::string b = ep_serialize(m.o.m()); Obj q(t); { RBuf rb(b); EP::Error e = q->deserialize(rb); REQUIRE(e == EP::Error::NO_ERRORS, m.what << " does not decode: " << err_name(e)); } check_equal(q, *m.model, "decoded pair");
        m.what += " then clear " + f->name(); m.o->clear_field(i); r->ClearField(m.model.get(), f); m.check();
        m.what += " then mutable"; if(is_msg(f) && !f->is_repeated()) { m.o->mut_sub(i); r->MutableMessage(m.model.get(), f); } else if(is_str(f) && !f->is_repeated()) { m.o->mut_str(i); r->SetString(m.model.get(), f, ""); } else if(!f->is_repeated()) { const bool mut = !is_enum(f) && !real_oneof(f); m.o->set(i, 0, mut ? 2 : 0); pb_set(m.model.get(), f, 0); } m.check();
        m.what += " then clear " + g->name(); m.o->clear_field(j); r->ClearField(m.model.get(), g); m.check();
        PMsg fits = new_pb(t); if(ref_decode(fits.get(), t.caps, ser(*v) + ser(*u)).kind == RefResult::OK) { Machine m2(t, 0x17); RBuf rb(ser(*v) + ser(*u)); EP::Error e = m2.o->deserialize(rb); REQUIRE(e == EP::Error::NO_ERRORS, "deserialize of " << f->name() << " and " << g->name() << ": " << err_name(e));
          PMsg ex = new_pb(t); pb_parse(ex.get(), ser(*v) + ser(*u)); check_equal(m2.o, *ex, "received pair"); m2.o->clear(); ex->Clear(); check_equal(m2.o, *ex, "clear after pair"); }
        count("field pairs"); ++g_stats.evaluations; nontrivial(m.what);
      }
    }
  }
}
}
static Reg r09("C09", "histories of set, mutable, get, has, clear, add, serialize and (also failing) deserialize on any field at any nesting level of one object, the whole message read back after every step, and all pairs of fields of every message; non-trivial: at least 4 state changing steps; oracle: libprotobuf message as model",
  [](Src& s) {
    const Type& t = pick_type(s, [](const Type& t) { return t.nfields > 0; }); Machine k(t, (uint8_t)s.below(256)); TRACE(t.ops->inst);
    k.what = "new"; k.check(); const int n = (int)s.range(1, 24); std::string h;
    for(int i = 0; i < n; ++i) { step(s, k, false, true); h += k.what; }
    count(std::string("type ") + t.ops->name); count("steps", (uint64_t)n); if(n >= 4) nontrivial(t.ops->inst + h);
  }, pairs);
static Reg r10("C10", "histories concentrated on the members of oneofs (set, mutable, clear active and inactive members, assignment from other objects, valid and failing deserialize) at any nesting level; non-trivial: at least 3 steps on a type with a oneof; oracle: libprotobuf's oneof semantics, after failures consistency and no foreign member",
  [](Src& s) {
    const Type& t = pick_type(s, [](const Type& t) { return t.has_oneof; }); Machine a(t, (uint8_t)s.below(256)), b(t, (uint8_t)s.below(256)); TRACE(t.ops->inst);
    const int n = (int)s.range(1, 24); std::string h;
    for(int i = 0; i < n; ++i) {
      Machine& k = s.below(4) == 3 ? b : a;
      if(s.below(10) == 9) { Machine& q = &k == &a ? b : a; if(s.coin()) t.ops->assign(k.o.p, q.o.p); else t.ops->move_assign(k.o.p, q.o.p); k.model->CopyFrom(*q.model); k.what = "assign"; TRACE("  assign"); a.check(); b.check(); count("op assign"); }
      else if(s.below(12) == 11) { // an encoding which ends inside a oneof member or has it with a wrong wire type
        std::string w = do_deserialize(s, k, true); k.what = w; TRACE("  " << w); k.check(); }
      else step(s, k, true, true);
      h += k.what;
    }
    count(std::string("type ") + t.ops->name); count("steps", (uint64_t)n); if(n >= 3) nontrivial(t.ops->inst + h);
  },
  [](int w, int nw, bool) { // all sequences of three selections of members for every oneof of every type
    uint64_t cnt = 0;
    for(auto& t : all_types()) for(int o = 0; o < t.d->real_oneof_decl_count(); ++o) {
      auto* oo = t.d->oneof_decl(o); const int n = oo->field_count(); const int ways = 4;   // set, mutable, receive, clear
      for(int a = 0; a < n * ways; ++a) for(int b = 0; b < n * ways; ++b) {
        if((int)(cnt++ % nw) != w) continue;
        for(int c = 0; c < n; ++c) {
          Machine m(t, (uint8_t)(a * 7 + b)); auto* r = m.model->GetReflection(); int stepno = 0;
          for(int z : {a, b, c * ways + (a + b + c) % ways}) {
            const FD* f = oo->field(z / ways); Src s = Src::child(fnv(f->full_name()) + (uint64_t)z * 977 + (uint64_t)stepno); GenOpt go; go.budget = 3; go.density = 80; const int x = f->index();
            m.what = std::string(t.ops->inst) + " step " + std::to_string(stepno++) + " " + f->name() + " way " + std::to_string(z % ways);
            switch(z % ways) {
              case 0: { PMsg v = new_pb(t); gen_field(s, v.get(), f, t.caps, go); apply_field(s, m.o.m(), *v, f); replace_field(m.model.get(), *v, f); break; }
              case 1: if(is_msg(f)) { m.o->mut_sub(x); r->MutableMessage(m.model.get(), f); } else if(is_str(f)) { m.o->mut_str(x); r->SetString(m.model.get(), f, r->GetString(*m.model, f)); } else { m.o->set(x, 0, 1); pb_set(m.model.get(), f, 0); } break;
              case 2: { PMsg v = new_pb(t); gen_field(s, v.get(), f, t.caps, go); std::string bytes = ser(*v); RefResult rr = ref_decode(m.model.get(), t.caps, bytes); RBuf rb(bytes); EP::Error e = m.o->deserialize(rb); if(rr.kind == RefResult::OK) REQUIRE(e == EP::Error::NO_ERRORS, m.what << " " << err_name(e)); else m.model = snapshot(m.o); r = m.model->GetReflection(); break; }
              default: m.o->clear_field(x); r->ClearField(m.model.get(), f); break;
            }
            m.check();
            std::string bytes = ep_serialize(m.o.m()); PMsg back = new_pb(t); REQUIRE(pb_parse(back.get(), bytes) && canon(*back) == canon(*m.model), m.what << " serializes to " << hex(bytes));
          }
          count("member triples"); ++g_stats.evaluations; nontrivial(m.what + std::to_string(a) + "," + std::to_string(b));
        }
      }
    }
  });

// ---------------------------------------------------------------- C11
// Operations whose decisions depend on a seed only, so that they can be repeated on another object. Returns what was observed.
static std::string blind_op(uint64_t seed, Obj& o) {
  Src s = Src::child(seed); const Type& t = *o.t; std::ostringstream out; const gp::Descriptor* d = t.d;
  const uint32_t a = s.below(8);
  if(a < 4 && d->field_count()) {
    const FD* f = pick_field(s, d, s.coin()); const int x = f->index(); const CapNode& c = cap_of(t.caps, f); GenOpt go; go.budget = 8;
    PMsg v = new_pb(t); gen_field(s, v.get(), f, t.caps, go);
    if(f->is_repeated() && s.coin()) { // grow by index: shows what is behind the end
      IRepP q = o->mut_rep(x); const uint32_t i = s.below((uint32_t)c.r); PMsg v1 = new_pb(t); gen_field(s, v1.get(), f, t.caps, go);
      if(v1->GetReflection()->FieldSize(*v1, f) == 0) { if(is_msg(f)) q->mut_msg(i); out << "touch"; if(!is_msg(f)) q->put(i, Elem()); }
      else { Elem e = elem_of(s, *v1, f, 0); if(s.coin()) q->set(i, e); else q->put(i, e); }
    }
    else if(is_str(f) && !f->is_repeated() && s.coin()) { IStrP q = o->mut_str(x); const uint32_t i = s.below((uint32_t)c.l); q->put(i, (char)s.range(1, 255)); out << q->len() << hex(q->content()); }
    else if(is_msg(f) && !f->is_repeated() && s.coin()) { o->mut_sub(x); }
    else if(s.below(4) == 3) o->clear_field(x);
    else apply_field(s, o.m(), *v, f);
  } else if(a < 6) { std::string b = gen_wire(s, t); auto rb = any_read(s, b); out << err_name(o->deserialize(*rb)); }
  else if(a == 6) { out << hex(ep_serialize(o.m()), 100000); }
  else { out << o->serialized_size(); }
  PMsg p = snapshot(o); out << "|" << ser(*p) << "|" << ep_serialize(o.m());
  return out.str();
}
static Reg r11("C11", "pools of objects of one type under random changes, copy and move construction into patterned memory, copy, move and self assignment and clear; all objects compared with their models after every step, and a cleared object run in lock step with a new one (including growth by index, which shows data behind the end); non-trivial: a copy of or over non-empty content; oracle: models, equality of observations",
  [](Src& s) {
    const Type& t = pick_type(s); TRACE(t.ops->inst); std::vector<std::unique_ptr<Machine>> p; const int n = (int)s.range(2, 3); bool interesting = false;
    for(int i = 0; i < n; ++i) { p.emplace_back(new Machine(t, (uint8_t)s.below(256))); if(s.below(4)) { p[i]->model = gen_pb(s, t); apply(s, p[i]->o.m(), *p[i]->model); } }
    const int steps = (int)s.range(1, 10); std::string h;
    for(int i = 0; i < steps; ++i) {
      const int a = (int)s.below((uint32_t)n), b = (int)s.below((uint32_t)n); Machine &A = *p[a], &B = *p[b]; std::string what;
      switch(s.below(8)) {
        case 0: if(a == b) break; what = "copy construct"; { std::unique_ptr<Machine> m(new Machine(t, Obj::RAW, (uint8_t)s.below(256))); t.ops->copy(m->o.p, B.o.p); m->o.bind(); m->model->CopyFrom(*B.model); p[a] = std::move(m); } break;
        case 1: if(a == b) break; what = "move construct"; { std::unique_ptr<Machine> m(new Machine(t, Obj::RAW, (uint8_t)s.below(256))); t.ops->move(m->o.p, B.o.p); m->o.bind(); m->model->CopyFrom(*B.model); p[a] = std::move(m); } break;
        case 2: case 3: what = a == b ? "self assign" : "assign"; t.ops->assign(A.o.p, B.o.p); if(a != b) A.model->CopyFrom(*B.model); break;
        case 4: what = a == b ? "self move assign" : "move assign"; t.ops->move_assign(A.o.p, B.o.p); if(a != b) A.model->CopyFrom(*B.model); break;
        case 5: what = "clear"; A.o->clear(); A.model->Clear(); break;
        default: what = "change"; A.what = field_op(s, A.o.m(), A.model.get(), t.caps, s.coin(), 0); break;
      }
      if(what.empty()) continue;
      TRACE("  " << what << " " << a << " <- " << b); count("op " + what); h += what;
      if(what != "change" && what != "clear") interesting |= !ser(*p[a]->model).empty();
      for(int k = 0; k < n; ++k) { p[k]->what = std::string(t.ops->inst) + " object " + std::to_string(k) + " after " + what + " " + std::to_string(a) + " <- " + std::to_string(b); p[k]->check(); }
    }
    for(int k = 0; k < n; ++k) { std::string x = ep_serialize(p[k]->o.m()); PMsg back = new_pb(t); REQUIRE(pb_parse(back.get(), x) && canon(*back) == canon(*p[k]->model), "object " << k << " serializes to " << hex(x)); }
    if(s.coin()) { // a cleared object and a new one
      Obj& c = p[0]->o; c->clear(); Obj fresh(t, (uint8_t)s.below(256)); PMsg e = new_pb(t); check_equal(c, *e, "after clear()");
      const int m = (int)s.range(1, 6);
      for(int i = 0; i < m; ++i) { const uint64_t seed = s.draw(0xffffffff); std::string x = blind_op(seed, c), y = blind_op(seed, fresh); if(x != y) { PMsg pc = snapshot(c), pf = snapshot(fresh); REQUIRE(false, t.ops->inst << ": after clear() an operation gives " << show(*pc) << " on a new message it gives " << show(*pf) << " (" << x.substr(0, 30) << " / " << y.substr(0, 30) << ")"); } count("cleared versus new"); }
    }
    count(std::string("type ") + t.ops->name); if(interesting) nontrivial(t.ops->inst + h + ser(*p[0]->model));
  },
  [](int w, int nw, bool th) { sweep_single(w, nw, th, [](const Type& t, const gp::Message& v, const std::string& what) {
    std::vector<uint64_t> z; Src s(&z); try {
      Obj o(t); apply(s, o.m(), v); Obj c(t, Obj::RAW, 0xCD); t.ops->copy(c.p, o.p); c.bind(); check_equal(c, v, "copy"); Obj m(t, Obj::RAW, 0xFF); t.ops->move(m.p, o.p); m.bind(); check_equal(m, v, "moved"); check_equal(o, v, "source");
      Obj a(t, 0x00); Src s2 = Src::child(fnv(what)); PMsg q = gen_pb(s2, t); apply(s2, a.m(), *q); t.ops->assign(a.p, o.p); check_equal(a, v, "assigned"); check_equal(o, v, "source after assign");
      Obj b(t, 0x00); apply(s2, b.m(), *q); t.ops->move_assign(b.p, o.p); check_equal(b, v, "move assigned"); check_equal(o, v, "source after move assign");
      t.ops->assign(a.p, a.p); check_equal(a, v, "self assigned");
      PMsg e = new_pb(t); t.ops->assign(o.p, Obj(t).p); check_equal(o, *e, "assigned from a new message"); a->clear(); check_equal(a, *e, "cleared"); check_equal(b, v, "after changing the source"); check_equal(c, v, "after changing the source");
    } catch(Failure& f) { f.msg = what + ": " + f.msg; throw; }
    count("boundary sweep"); ++g_stats.evaluations; nontrivial(what + t.ops->inst); }); });
