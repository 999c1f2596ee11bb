// Names of fields by number, part of C16.
#include "engine.h"
#include <cstring>
static void names(const Type& t, uint32_t n) {
  Obj o(t); const char* p = o.m().number_to_name(n); const gp::FieldDescriptor* f = n && n <= (1u << 29) - 1 ? t.d->FindFieldByNumber((int)n) : nullptr;
  REQUIRE(p, t.d->full_name() << ": no name for field number " << n);
  if(f) REQUIRE(f->name() == p, t.d->full_name() << ": field number " << n << " is called " << p << " instead of " << f->name());
  else REQUIRE(!t.d->FindFieldByName(p) || !isalpha((unsigned char)*p), t.d->full_name() << ": field number " << n << " which does not exist is called " << p);
}
static Reg rn("NAMES", "field_number_to_name for the numbers of all fields and of others",
  [](Src& s) {
    const Type& t = pick_type(s); uint32_t n = (uint32_t)s.draw((1u << 29) - 1);
    if(t.d->field_count() && s.below(4)) n = (uint32_t)t.d->field((int)s.below((uint32_t)t.d->field_count()))->number() + (s.below(4) ? 0 : s.below(3)) - (s.below(4) ? 0 : 1);
    names(t, n); nontrivial(t.d->full_name() + std::to_string(n));
  },
  [](int w, int nw, bool) { int k = 0; for(auto& t : all_types()) for(int i = 0; i < t.d->field_count(); ++i) if(k++ % nw == w) names(t, (uint32_t)t.d->field(i)->number()); });
