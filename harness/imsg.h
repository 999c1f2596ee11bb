// Reflection interface over generated Embedded Proto classes. Only the public API of the generated code is used behind it.
#pragma once
#include <cstdint>
#include <string>
#include <memory>
#include <functional>
#include <vector>
#include <Errors.h>
#include <ReadBufferInterface.h>
#include <WriteBufferInterface.h>
#include <Defines.h>

namespace EP = ::EmbeddedProto;

struct IMsg; struct IStr; struct IRep;
typedef std::unique_ptr<IMsg> IMsgP;
typedef std::unique_ptr<IStr> IStrP;
typedef std::unique_ptr<IRep> IRepP;
typedef std::function<void(IMsg&)> Fill;
typedef std::function<void(IRep&)> FillRep;

// A value handed to an element: scalar bits, string content, or a function filling a message.
struct Elem { uint64_t u = 0; std::string s; Fill fill; };

// A string or bytes field.
struct IStr {
  virtual ~IStr() {}
  virtual uint32_t len() const = 0;
  virtual uint32_t maxlen() const = 0;
  virtual std::string content() const = 0;
  virtual EP::Error set(const std::string&) = 0;               // pointer and length
  virtual void set_cstr(const char*) = 0;                      // only for strings
  virtual void assign_cstr(const char*) = 0;                   // operator= , only for strings
  virtual bool is_string() const = 0;
  virtual void put(uint32_t i, char c) = 0;                    // operator[]
  virtual char at(uint32_t i) const = 0;                       // const operator[]
  virtual void clear() = 0;
};

// A repeated field.
struct IRep {
  virtual ~IRep() {}
  virtual uint32_t len() const = 0;
  virtual uint32_t maxlen() const = 0;
  virtual uint64_t scalar(uint32_t i) const = 0;
  virtual std::string str(uint32_t i) const = 0;
  virtual IMsgP msg(uint32_t i) const = 0;
  virtual EP::Error add(const Elem&) = 0;
  virtual void set(uint32_t i, const Elem&) = 0;
  virtual void put(uint32_t i, const Elem&) = 0;               // operator[] =
  virtual EP::Error set_data(const std::vector<Elem>&) = 0;
  virtual IMsgP mut_msg(uint32_t i) = 0;                       // get(i), messages only
  virtual void clear() = 0;
};

struct IMsg {
  virtual ~IMsg() {}
  virtual const char* type() const = 0;                        // full proto name
  virtual EP::Error serialize(EP::WriteBufferInterface&) const = 0;
  virtual EP::Error serialize_with_id(uint32_t id, EP::WriteBufferInterface&, bool optional) const = 0;
  virtual EP::Error deserialize(EP::ReadBufferInterface&) = 0;
  virtual EP::Error deserialize_check_type(EP::ReadBufferInterface&, int wire_type) = 0;
  virtual uint32_t serialized_size() const = 0;
  virtual void clear() = 0;
  // Fields by index in the descriptor.
  virtual bool has(int f) const = 0;
  virtual void clear_field(int f) = 0;
  virtual uint64_t get(int f, int var) const = 0;
  virtual void set(int f, uint64_t u, int var) = 0;
  virtual IStrP mut_str(int f) = 0;
  virtual IStrP get_str(int f) const = 0;
  virtual const char* raw_str(int f) const = 0;
  virtual void set_str(int f, const std::string& s) = 0;
  virtual IMsgP mut_sub(int f) = 0;
  virtual IMsgP get_sub(int f, int var) const = 0;
  virtual void set_sub(int f, const Fill&, int var) = 0;
  virtual IRepP mut_rep(int f) = 0;
  virtual IRepP get_rep(int f, int var) const = 0;
  virtual void set_rep(int f, const FillRep&) = 0;
  virtual bool alias_set(int f, int g) = 0;                    // set_f(get_g()), g is f or another member of its oneof with the same type
  virtual void rep_add(int f, const Elem&) = 0;
  virtual void rep_set(int f, uint32_t i, const Elem&, int var) = 0;
  virtual void rep_put(int f, uint32_t i, const Elem&) = 0;    // mutable_x(i) = 
  virtual uint64_t rep_scalar(int f, uint32_t i) const = 0;    // x(i)
  virtual std::string rep_str(int f, uint32_t i) const = 0;
  virtual IMsgP rep_msg(int f, uint32_t i) const = 0;
  virtual uint32_t which(int oneof) const = 0;
  virtual uint32_t field_number(int f) const = 0;
  virtual const char* name_const(int f) const = 0;
  virtual const char* number_to_name(uint32_t n) const = 0;
  virtual EP::string_view to_string(EP::string_view& v) const = 0;
};

// One concrete (fully instantiated) message type.
struct TypeOps {
  const char* name;              // proto full name
  const char* inst;              // C++ type as text
  const char* caps;              // expected capacities "1.4:r5 1.4:l8 ..." path of field numbers
  size_t size, align;
  IMsg* (*wrap)(void*);
  void (*construct)(void*);
  void (*copy)(void*, const void*);
  void (*move)(void*, void*);
  void (*assign)(void*, const void*);
  void (*move_assign)(void*, void*);
  void (*destroy)(void*);
  const char* extra;             // free form facts
};
std::vector<TypeOps>& types();
struct TypeReg { TypeReg(const TypeOps& t) { types().push_back(t); } };
// Descriptor set (serialized) used by the oracle.
extern const unsigned char g_fds[]; extern const unsigned long g_fds_len;

// While inside a library call.
extern thread_local int g_in_ep;
struct EpScope { EpScope() { ++g_in_ep; } ~EpScope() { --g_in_ep; } };
