#pragma once
#include <vector>
#include <string>
#include <type_traits>
namespace absl { template <typename T> class Span { public: Span(); template <typename C> Span(C& c); size_t size() const; T& operator[](size_t) const; T* begin() const; T* end() const; }; }
