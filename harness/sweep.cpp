#include "sweep.h"
#include <set>
typedef gp::FieldDescriptor FD;
std::vector<uint64_t> boundary_values(const FD* f) {
  std::set<uint64_t> v;
  switch(f->cpp_type()) {
    case FD::CPPTYPE_BOOL: return {0, 1};
    case FD::CPPTYPE_FLOAT: return {0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00001u, 1, 0x80000001u, 0x00800000u, 0x7f7fffffu, 0x00000100u, 0x00010000u, 0x01000000u};
    case FD::CPPTYPE_DOUBLE: { std::vector<uint64_t> r = {0x8000000000000000ull, 0x3ff0000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0xfff8000000000001ull, 0x7fefffffffffffffull, 0}; for(int i = 0; i < 64; i += 8) r.push_back(1ull << i); return r; }
    default: break;
  }
  const bool w64 = f->cpp_type() == FD::CPPTYPE_INT64 || f->cpp_type() == FD::CPPTYPE_UINT64;
  const int w = w64 ? 64 : is_enum(f) ? 31 : 32; const uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
  for(int k = 0; k < w; ++k) for(int d = -1; d <= 1; ++d) { const uint64_t x = (1ull << k) + (uint64_t)(int64_t)d; v.insert(x & m); if(!is_enum(f)) v.insert((0 - x) & m); }
  return std::vector<uint64_t>(v.begin(), v.end());
}
std::vector<uint32_t> boundary_lengths(uint32_t cap, bool thorough) {
  std::set<uint32_t> v;
  if(cap <= (thorough ? 400u : 40u)) for(uint32_t i = 0; i <= cap; ++i) v.insert(i);
  for(uint32_t x : {0u, 1u, 2u, 126u, 127u, 128u, 129u, 255u, 256u, 257u, 16383u, 16384u, 16385u}) if(x <= cap) v.insert(x);
  // The size of the field with its tag and length, and of the messages around it, passes these limits a few bytes earlier.
  for(uint32_t x : {128u, 16384u, 65536u}) for(uint32_t k = x - 14; k <= x + 2; ++k) if(k <= cap) v.insert(k);
  v.insert(cap); if(cap) v.insert(cap - 1);
  return std::vector<uint32_t>(v.begin(), v.end());
}
static void rec(const Type& t, gp::Message* root, gp::Message* m, const CapNode& cc, int depth, bool thorough, uint64_t& n, int worker, int nworkers, const std::string& path,
                const std::function<void(const Type&, const gp::Message&, const std::string&)>& cb) {
  const gp::Descriptor* d = m->GetDescriptor(); auto* r = m->GetReflection();
  static const CapNode none;
  for(int i = 0; i < d->field_count(); ++i) {
    const FD* f = d->field(i); auto it = cc.sub.find(f->number()); const CapNode& c = it == cc.sub.end() ? none : it->second;
    auto go = [&](const std::string& what) { if((int)(n++ % nworkers) == worker) cb(t, *root, path + "." + f->name() + " " + what); };
    if(f->is_repeated()) {
      for(uint32_t len : boundary_lengths((uint32_t)c.r, thorough)) {
        std::vector<uint64_t> bv; if(is_scalar(f)) bv = boundary_values(f);
        for(uint32_t k = 0; k < len; ++k) { if(is_msg(f)) r->AddMessage(m, f); else if(is_str(f)) r->AddString(m, f, std::string(std::min<uint32_t>(k % 3, (uint32_t)c.l), (char)('A' + k % 26))); else pb_add(m, f, bv[(k * 7 + len) % bv.size()]); }
        go("length " + std::to_string(len)); r->ClearField(m, f);
      }
      if(is_scalar(f)) for(uint64_t u : boundary_values(f)) { pb_add(m, f, u); go("element " + std::to_string(u)); r->ClearField(m, f); }
      if(is_str(f)) for(uint32_t len : boundary_lengths((uint32_t)c.l, thorough)) { r->AddString(m, f, std::string(len, 'x')); go("element length " + std::to_string(len)); r->ClearField(m, f); }
      if(is_msg(f) && depth < 2) { rec(t, root, r->AddMessage(m, f), c, depth + 1, thorough, n, worker, nworkers, path + "." + f->name(), cb); r->ClearField(m, f); }
    } else if(is_msg(f)) {
      gp::Message* s = r->MutableMessage(m, f); go("empty");
      if(depth < 2) rec(t, root, s, c, depth + 1, thorough, n, worker, nworkers, path + "." + f->name(), cb);
      r->ClearField(m, f);
    } else if(is_str(f)) {
      for(uint32_t len : boundary_lengths((uint32_t)c.l, thorough)) { std::string b; for(uint32_t k = 0; k < len; ++k) b += (char)(k * 37 + len); r->SetString(m, f, b); go("length " + std::to_string(len)); r->ClearField(m, f); }
    } else {
      for(uint64_t u : boundary_values(f)) { pb_set(m, f, u); go("value " + std::to_string(u)); r->ClearField(m, f); }
    }
  }
}
void sweep_single(int worker, int nworkers, bool thorough, const std::function<void(const Type&, const gp::Message&, const std::string& what)>& cb) {
  uint64_t n = 0;
  for(auto& t : all_types()) { PMsg m = new_pb(t); if((int)(n++ % nworkers) == worker) cb(t, *m, "empty"); rec(t, m.get(), m.get(), t.caps, 0, thorough, n, worker, nworkers, t.ops->name, cb); }
}
