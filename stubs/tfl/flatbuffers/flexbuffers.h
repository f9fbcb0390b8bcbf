// Stand-in for flatbuffers/flexbuffers.h.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace flexbuffers {
class Vector; class Map; class TypedVector; class Blob; class Keys;
class String { public: size_t length() const; size_t size() const; const char* c_str() const; std::string str() const; };
class Reference { public: bool IsNull() const; bool IsBool() const; bool IsInt() const; bool IsUInt() const; bool IsIntOrUint() const; bool IsFloat() const; bool IsNumeric() const; bool IsString() const; bool IsKey() const; bool IsVector() const; bool IsMap() const; bool IsBlob() const;
 bool AsBool() const; int64_t AsInt64() const; int32_t AsInt32() const; int16_t AsInt16() const; int8_t AsInt8() const; uint64_t AsUInt64() const; uint32_t AsUInt32() const; uint16_t AsUInt16() const; uint8_t AsUInt8() const; double AsDouble() const; float AsFloat() const; const char* AsKey() const; String AsString() const; std::string ToString() const; Vector AsVector() const; Map AsMap() const; };
class Vector { public: size_t size() const; bool IsTheEmptyVector() const; Reference operator[](size_t) const; };
class Map : public Vector { public: using Vector::operator[]; Reference operator[](const char*) const; Reference operator[](const std::string&) const; Vector Values() const; bool IsTheEmptyMap() const; };
enum BuilderFlag { BUILDER_FLAG_NONE = 0, BUILDER_FLAG_SHARE_KEYS = 1, BUILDER_FLAG_SHARE_STRINGS = 2 };
class Builder { public: Builder(size_t n = 256, BuilderFlag f = BUILDER_FLAG_SHARE_KEYS);
 template <class F> size_t Map(F f);
 size_t StartMap(); size_t EndMap(size_t);
 void Int(int64_t); void Int(const char*, int64_t); void UInt(uint64_t); void UInt(const char*, uint64_t); void Bool(bool); void Bool(const char*, bool); void Float(float); void Float(const char*, float); void Double(const char*, double);
 size_t String(const char*); void String(const char*, const char*); void String(const char*, const std::string&); size_t Key(const char*); void Add(const char*, int64_t);
 void Finish(); const std::vector<uint8_t>& GetBuffer() const; size_t GetSize() const; };
template <class F> size_t Builder::Map(F f) { size_t s = StartMap(); f(); return EndMap(s); }
Reference GetRoot(const uint8_t*, size_t);
Reference GetRoot(const std::vector<uint8_t>&);
}
