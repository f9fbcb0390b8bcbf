// tiny option map for demonstrations: the "buffer" is a std::map<std::string,long>
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
namespace flexbuffers {
typedef std::map<std::string, long> Opts;
struct Reference; struct Map { const Opts* o; Reference operator[](const char* k) const; };
struct Reference { const Opts* o; std::string key;
  bool IsNull() const { return !o->count(key); }
  int32_t AsInt32() const { return o->count(key) ? o->at(key) : 0; } int64_t AsInt64() const { return AsInt32(); } bool AsBool() const { return AsInt32(); }
  uint8_t AsUInt8() const { return AsInt32(); } Map AsMap() const { return {o}; } };
inline Reference Map::operator[](const char* k) const { return {o, k}; }
inline Reference GetRoot(const uint8_t* b, size_t) { return {(const Opts*)b, ""}; }
}
