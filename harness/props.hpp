// Helpers shared by the properties
#pragma once
#include "erased.hpp"
#include "pbt.hpp"

// Model of a tuple-like object: its storage as plain bytes
struct Region_model {
  Bytes storage;
  std::vector<Type_info_> types;
  Fmt fmt;
  size_t off, size;
  std::vector<size_t> at; // offset in the storage of each element

  Region_model() : off(0), size(0) {}
  Region_model(const std::vector<Type_info_> &t, Fmt f, size_t o) : types(t), fmt(f), off(o), size(0) {
    for (size_t i = 0; i < t.size(); i++) {
      at.push_back(o + size);
      size += wire_size(t[i].leaves);
    }
  }
  Vals get(size_t i) const { return dec_all(types[i].leaves, storage.data() + at[i], fmt); }
  void set(size_t i, const Vals &v) {
    Bytes b = enc_all(types[i].leaves, v, fmt);
    for (size_t k = 0; k < b.size(); k++)
      storage[at[i] + k] = b[k];
  }
};
inline size_t total_size(const std::vector<Type_info_> &t) {
  size_t n = 0;
  for (size_t i = 0; i < t.size(); i++)
    n += wire_size(t[i].leaves);
  return n;
}
inline std::string str(const std::vector<Type_info_> &t) {
  std::string s = "<";
  for (size_t i = 0; i < t.size(); i++)
    s += (i ? "," : "") + t[i].name;
  return s + ">";
}

void region_history(Gen &g, IRegion &r, Region_model &m, unsigned steps);
void prop_c01(Gen &g);
void prop_c02(Gen &g);
void prop_c03(Gen &g);
void prop_c04(Gen &g);
void prop_c05(Gen &g);
void prop_c06(Gen &g);
void rpc_encoding(Gen &g);
void rpc_decoding(Gen &g);
void rpc_roundtrip(Gen &g);
bool tuples_applicable();
