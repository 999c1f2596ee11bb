// Deterministic enumeration of boundary contents, spread over the workers.
#pragma once
#include "engine.h"
// Calls cb with every message which has exactly one field (at nesting depth <= 2) set to a boundary value or filled to a
// boundary (or, when small enough, every) length. which limits to the share of this worker.
void sweep_single(int worker, int nworkers, bool thorough, const std::function<void(const Type&, const gp::Message&, const std::string& what)>& cb);
std::vector<uint64_t> boundary_values(const gp::FieldDescriptor* f);
std::vector<uint32_t> boundary_lengths(uint32_t cap, bool thorough);
