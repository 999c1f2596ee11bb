// C20: independence of objects under interleaving, re-entrant buffers and threads.
#include "engine.h"
#include <thread>
#include <atomic>
typedef gp::FieldDescriptor FD;
namespace {
struct Op { int kind; uint64_t seed; std::string bytes; PMsg value; };
struct Actor { const Type* t; std::vector<Op> ops; std::unique_ptr<Obj> o; size_t at = 0; std::vector<std::string> seen; bool busy = false; };
typedef std::function<void()> Hook;
// Executes one operation. hook is called from within the buffers.
std::string exec(Obj& o, const Op& op, const Hook& hook) {
  const Type& t = *o.t; std::ostringstream out;
  switch(op.kind) {
    case 0: { Src s = Src::child(op.seed); o->clear(); apply(s, o.m(), *op.value); break; }
    case 1: { RBuf b(op.bytes, op.seed & 1); b.hook = hook; EP::Error e = o->deserialize(b); out << err_name(e) << b.pos; break; }
    case 2: { WBuf b(o->serialized_size() + 3); b.hook = hook; EP::Error e = o->serialize(b); out << err_name(e) << b.data(); break; }
    case 3: { WBuf b((uint32_t)(op.seed % 40)); b.hook = hook; EP::Error e = o->serialize(b); out << err_name(e) << b.data(); break; }
    case 4: out << o->serialized_size(); break;
    case 5: o->clear(); break;
    case 6: { Obj c(t, Obj::RAW, 0xA1); t.ops->copy(c.p, o.p); c.bind(); out << ser(*snapshot(c)); break; }
    default: { if(t.d->field_count()) { Src s = Src::child(op.seed); const FD* f = t.d->field((int)(op.seed % (uint64_t)t.d->field_count())); PMsg v = new_pb(t); GenOpt g; g.budget = 5; gen_field(s, v.get(), f, t.caps, g); if(s.coin()) apply_field(s, o.m(), *v, f); else o->clear_field(f->index()); } break; }
  }
  out << "#" << ser(*snapshot(o)); return out.str();
}
std::vector<std::string> alone(const Actor& a) { Obj o(*a.t, 0x33); std::vector<std::string> r; for(auto& op : a.ops) r.push_back(exec(o, op, nullptr)); return r; }
void interleave(Src& s) {
  const int n = (int)s.range(2, 4); std::vector<Actor> a((size_t)n); const Type* same = &pick_type(s);
  for(auto& x : a) { x.t = s.coin() ? same : &pick_type(s); const int k = (int)s.range(1, 6);
    for(int i = 0; i < k; ++i) { Op op; op.kind = (int)s.below(8); op.seed = s.draw(0xffffff); if(op.kind == 0) op.value = gen_pb(s, *x.t); if(op.kind == 1) { if(s.below(4)) { PMsg v = gen_pb(s, *x.t); EncOpt o; o.unknown = 1; op.bytes = encode(s, *v, x.t->caps, o); } else op.bytes = gen_wire(s, *x.t); if(op.bytes.size() > 800) op.bytes.resize(800); } x.ops.push_back(std::move(op)); }
    x.o.reset(new Obj(*x.t, 0x33)); }
  int depth = 0, nested = 0; size_t left = 0; for(auto& x : a) left += x.ops.size();
  std::function<void(int)> run; Hook hook = [&]() { if(depth < 4 && s.below(12) == 11) { int k = (int)s.below((uint32_t)n); if(!a[k].busy && a[k].at < a[k].ops.size()) { ++nested; run(k); } } };
  run = [&](int k) { Actor& x = a[k]; x.busy = true; ++depth; size_t i = x.at++; std::string r = exec(*x.o, x.ops[i], hook); x.seen.push_back(r); --depth; x.busy = false; --left; TRACE("  object " << k << " operation " << x.ops[i].kind); };
  while(left) { int k = (int)s.below((uint32_t)n); while(a[k].at >= a[k].ops.size()) k = (k + 1) % n; run(k); }
  for(int k = 0; k < n; ++k) { auto ref = alone(a[k]); for(size_t i = 0; i < ref.size(); ++i) REQUIRE(ref[i] == a[k].seen[i], a[k].t->ops->inst << " object " << k << " operation " << i << " kind " << a[k].ops[i].kind << " gives another result when interleaved with others: " << hex(a[k].seen[i]) << " alone: " << hex(ref[i])); }
  count("nested operations", (uint64_t)nested); if(nested) count("cases with re-entrant operations");
  std::string key; for(auto& x : a) for(auto& r : x.seen) key += r; if(n > 1) nontrivial(key);
}
// Threads: prepared single threaded, run concurrently, results compared afterwards.
struct Task { const Type* t; std::string in; Obj* o; const Obj* shared; std::string expect_shared; std::string out; EP::Error e1, e2; uint32_t size; std::string out_shared; };
struct TW : EP::WriteBufferInterface { std::vector<uint8_t> d; uint32_t cap; explicit TW(uint32_t c) : cap(c) { d.reserve(c); } void clear() override { d.clear(); } uint32_t get_size() const override { return (uint32_t)d.size(); } uint32_t get_max_size() const override { return cap; } uint32_t get_available_size() const override { return cap - (uint32_t)d.size(); }
  bool push(const uint8_t b) override { if(d.size() >= cap) return false; d.push_back(b); return true; } bool push(const uint8_t* b, const uint32_t n) override { if(n > cap - d.size()) return false; d.insert(d.end(), b, b + n); return true; } };
struct TR : EP::ReadBufferInterface { const std::string& d; uint32_t p = 0; explicit TR(const std::string& x) : d(x) {} uint32_t get_size() const override { return (uint32_t)d.size() - p; } uint32_t get_max_size() const override { return (uint32_t)d.size(); } bool peek(uint8_t& b) const override { if(p >= d.size()) return false; b = (uint8_t)d[p]; return true; } bool advance() override { if(p >= d.size()) return false; ++p; return true; } bool advance(const uint32_t n) override { if(n > d.size() - p) { p = (uint32_t)d.size(); return false; } p += n; return true; } bool pop(uint8_t& b) override { if(p >= d.size()) return false; b = (uint8_t)d[p++]; return true; } };
void work(Task* k) {
  for(int r = 0; r < 3; ++r) {
    TR rb(k->in); k->o->m().clear(); k->e1 = k->o->m().deserialize(rb);
    k->size = k->o->m().serialized_size(); TW w(k->size + 4); k->e2 = k->o->m().serialize(w); k->out.assign(w.d.begin(), w.d.end());
    TW w2(k->shared->m().serialized_size() + 4); k->shared->m().serialize(w2); k->out_shared.assign(w2.d.begin(), w2.d.end());
    std::string copy; Obj c(*k->t, Obj::RAW, 0x77); k->t->ops->copy(c.p, k->o->p); c.bind();
  }
}
void threads(Src& s) {
  const int n = (int)s.range(2, 6); const Type* st = &pick_type(s); Obj shared(*st, 0x44); { PMsg v = gen_pb(s, *st); apply(s, shared.m(), *v); } const std::string sb = ep_serialize(shared.m());
  std::vector<Task> ts((size_t)n); std::vector<std::unique_ptr<Obj>> os, ref; std::vector<std::string> expect; std::vector<EP::Error> err; std::string key;
  for(auto& k : ts) { k.t = s.below(3) ? st : &pick_type(s); if(s.below(4)) { PMsg v = gen_pb(s, *k.t); EncOpt o; o.unknown = 1; k.in = encode(s, *v, k.t->caps, o); } else k.in = gen_wire(s, *k.t); if(k.in.size() > 2000) k.in.resize(2000); key += k.in;
    Obj a(*k.t, 0x55); TR rb(k.in); err.push_back(a->deserialize(rb)); expect.push_back(ep_serialize(a.m())); os.emplace_back(new Obj(*k.t, 0x66)); k.o = os.back().get(); k.shared = &shared; }
  std::vector<std::thread> th; for(auto& k : ts) th.emplace_back(work, &k); for(auto& x : th) x.join();
  for(int i = 0; i < n; ++i) { REQUIRE(ts[i].e1 == err[i] && ts[i].e2 == EP::Error::NO_ERRORS && ts[i].out == expect[i] && ts[i].size == expect[i].size(), ts[i].t->ops->inst << " " << hex(ts[i].in) << " gives " << hex(ts[i].out) << " in a thread and " << hex(expect[i]) << " alone"); REQUIRE(ts[i].out_shared == sb, st->ops->inst << " serialized concurrently gives " << hex(ts[i].out_shared) << " instead of " << hex(sb)); }
  count("threads", (uint64_t)n); nontrivial(key);
}
}
static Reg r20("C20", "2 to 4 objects with operation lists (set, deserialize valid or not, serialize, failing serialize, size, clear, copy, change) interleaved at random with further operations started from within buffer callbacks, and 2 to 6 threads working on their own objects while serializing one shared object (thread sanitizer); non-trivial: more than one object; oracle: each object's results equal those of its list run alone, no data race",
  [](Src& s) { if(s.below(3) == 2) threads(s); else interleave(s); });
