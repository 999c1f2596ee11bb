// Model side of the harness: generation of values, application to Embedded Proto objects, snapshots, buffers,
// adversarial encoder and reference decoder. The oracle is Google protobuf (DynamicMessage).
#pragma once
#include "prop.h"
#include "imsg.h"
#include <google/protobuf/descriptor.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/message.h>
#include <memory>

namespace gp = google::protobuf;
typedef std::unique_ptr<gp::Message> PMsg;

struct CapNode { int r = -1, l = -1; std::map<int, CapNode> sub; };

struct Type {
  const TypeOps* ops; const gp::Descriptor* d; const gp::Message* proto; CapNode caps;
  bool has_oneof = false, has_optional = false, has_rep = false, has_cap = false, has_sub = false; size_t nfields = 0;
};
const std::vector<Type>& all_types();
const Type& type_named(const std::string& name);
bool has_type(const std::string& name);
typedef std::function<bool(const Type&)> TypePred;
const Type& pick_type(Src& s, const TypePred& pred = nullptr);
PMsg new_pb(const Type& t);
bool real_oneof(const gp::FieldDescriptor* f);          // member of a oneof which is not a synthetic one
bool tracked(const gp::FieldDescriptor* f);             // singular field with presence through has_x(): optional or oneof
inline bool is_str(const gp::FieldDescriptor* f) { return f->type() == gp::FieldDescriptor::TYPE_BYTES; }
inline bool is_msg(const gp::FieldDescriptor* f) { return f->type() == gp::FieldDescriptor::TYPE_MESSAGE; }
inline bool is_scalar(const gp::FieldDescriptor* f) { return !is_str(f) && !is_msg(f); }

// An Embedded Proto object in memory of its own of exactly its size, filled with a pattern before construction.
struct Obj {
  const Type* t; void* p; std::unique_ptr<IMsg> w;
  explicit Obj(const Type& t, uint8_t pattern = 0xA5);
  Obj(const Obj&) = delete; Obj& operator=(const Obj&) = delete;
  enum Raw { RAW };
  Obj(const Type& t, Raw, uint8_t pattern);             // memory only, construct through ops
  void bind();
  ~Obj();
  IMsg& m() { return *w; }
  const IMsg& m() const { return *w; }
  IMsg* operator->() { return w.get(); }
};
typedef std::unique_ptr<Obj> ObjP;

// Scalars as 64 bit patterns.
uint64_t pb_get(const gp::Message& m, const gp::FieldDescriptor* f);
void pb_set(gp::Message* m, const gp::FieldDescriptor* f, uint64_t u);
uint64_t pb_rget(const gp::Message& m, const gp::FieldDescriptor* f, int i);
void pb_add(gp::Message* m, const gp::FieldDescriptor* f, uint64_t u);
void pb_rset(gp::Message* m, const gp::FieldDescriptor* f, int i, uint64_t u);
uint64_t gen_scalar(Src& s, const gp::FieldDescriptor* f);
std::string gen_bytes(Src& s, uint32_t maxlen, bool printable = false);
uint32_t gen_len(Src& s, uint32_t maxlen);              // [0,maxlen] with boundary bias

struct GenOpt { int density = 50; bool printable = false; uint32_t budget = 4000; };
void gen_msg(Src& s, gp::Message* m, const CapNode& c, GenOpt& o);
void gen_field(Src& s, gp::Message* m, const gp::FieldDescriptor* f, const CapNode& parent, GenOpt& o);   // f is empty in m
const CapNode& cap_of(const CapNode& c, const gp::FieldDescriptor* f);
PMsg gen_pb(Src& s, const Type& t, bool printable = false);                     // random content within the capacities
// Normal form: sub messages without presence are absent when they are empty.
void normalise(gp::Message* m);
std::string ser(const gp::Message& m);                  // deterministic
std::string canon(const gp::Message& m);                // ser of the normal form
PMsg clone(const gp::Message& m);
std::string show(const gp::Message& m);
bool has_unknown(const gp::Message& m);
bool pb_parse(gp::Message* m, const std::string& b);

// Application of content to an object through randomly chosen accessors.
void apply(Src& s, IMsg& m, const gp::Message& v);
void apply_field(Src& s, IMsg& m, const gp::Message& v, const gp::FieldDescriptor* f);
Elem elem_of(Src& s, const gp::Message& v, const gp::FieldDescriptor* f, int i);
// Read everything through the getters, checking their consistency and the capacities on the way.
void snap(const IMsg& m, gp::Message* out, const gp::Descriptor* d, const CapNode& c);
PMsg snapshot(const Obj& o);
void check_equal(const Obj& o, const gp::Message& expect, const char* what);

// ---------------------------------------------------------------- buffers
struct WBuf : EP::WriteBufferInterface {
  uint8_t* mem; uint32_t cap, pos = 0; uint64_t calls = 0; int64_t fail_at = -1; bool fail_forever = false; bool refused = false;
  bool lie_available = false;
  std::function<void()> hook;                            // called from within an operation
  explicit WBuf(uint32_t cap, const std::string& prefix = "");
  ~WBuf(); WBuf(const WBuf&) = delete;
  void clear() override { pos = 0; }
  uint32_t get_size() const override { return pos; }
  uint32_t get_max_size() const override { return cap; }
  uint32_t get_available_size() const override { return cap - pos; }
  bool push(const uint8_t byte) override;
  bool push(const uint8_t* bytes, const uint32_t length) override;
  std::string data() const { return std::string((const char*)mem, pos); }
private: bool gate();
};
struct RBuf : EP::ReadBufferInterface {
  uint8_t* mem; uint32_t n, pos = 0; bool total_size; uint64_t calls = 0, limit = UINT64_MAX; int64_t fail_at = -1; bool fail_forever = false;
  int64_t refused_pos = -1; int refused_kind = 0;        // 1 pop, 2 advance, 3 advance(n), 4 peek
  mutable std::function<void()> hook;
  explicit RBuf(const std::string& data, bool total_size = false);
  ~RBuf(); RBuf(const RBuf&) = delete;
  uint32_t get_size() const override;
  uint32_t get_max_size() const override { return n; }
  bool peek(uint8_t& byte) const override;
  bool advance() override;
  bool advance(const uint32_t k) override;
  bool pop(uint8_t& byte) override;
private: bool gate(int kind); mutable uint64_t peeks = 0;
};
// A library supplied read or write buffer of at least the given size, behind the interface. kind chooses the way of filling.
struct LibRead { std::unique_ptr<EP::ReadBufferInterface> b; };
std::unique_ptr<EP::ReadBufferInterface> lib_read(const std::string& data, int kind, uint32_t slack = 0);
struct LibWrite { virtual ~LibWrite() {} virtual EP::WriteBufferInterface& buf() = 0; virtual std::string data() = 0; };
std::unique_ptr<LibWrite> lib_write(uint32_t min_size, bool exact);    // exact: null when no instance of this size exists
const std::vector<uint32_t>& lib_sizes();

// Any read buffer, chosen by the source.
std::unique_ptr<EP::ReadBufferInterface> any_read(Src& s, const std::string& data);
// Serialize into a buffer which is large enough; requires success.
std::string ep_serialize(const IMsg& m);
std::string ep_serialize_any(Src& s, const IMsg& m);
const char* err_name(EP::Error e);

// ---------------------------------------------------------------- wire
void put_varint(std::string& o, uint64_t v, int pad_to = 0);
struct EncOpt {
  int reorder = 1, dup = 1, split = 1, unpacked = 1, pad = 1, defaults = 1;
  int unknown = 0;                                      // chance in 8 per position
};
// Encode v in a randomly chosen conforming way. top (optional) receives the boundaries of the top level records.
std::string encode(Src& s, const gp::Message& v, const CapNode& c, const EncOpt& o, std::vector<std::string>* top = nullptr);
std::string unknown_field(Src& s, const gp::Descriptor* d, int depth = 0);
uint32_t unknown_number(Src& s, const gp::Descriptor* d);

struct RefResult {
  enum Kind { OK, ERR, UNSPEC } kind = OK;
  unsigned mask = 0;                                     // permitted errors when kind is ERR
  int field = 0;                                         // number of the field of the outermost message in which it happened, 0 for a tag
  bool unknown_cut = false;
  std::vector<int> path;                                 // field numbers leading to the place of the error
  std::string why;
};
unsigned errbit(EP::Error e);
// Decode b into m as Embedded Proto has to.
RefResult ref_decode(gp::Message* m, const CapNode& c, const std::string& b);
// Compare apart from the field in which an error occurred; elements of a failing repeated field which were there before must be kept.
void check_rest(const gp::Message& got, const gp::Message& exp, const std::vector<int>& path, const char* what);
bool is_enum(const gp::FieldDescriptor* f);
bool is_text(const gp::FieldDescriptor* f);             // string, not bytes
// Arbitrary or mutated input for the type.
std::string gen_wire(Src& s, const Type& t);
std::string mutate(Src& s, std::string b, const Type& t);
// Split a (valid) encoding into its top level records.
std::vector<std::string> records(const std::string& b);

// After any outcome: lengths, serialization, clear and reuse.
void check_usable(Src& s, Obj& o, const char* what);
