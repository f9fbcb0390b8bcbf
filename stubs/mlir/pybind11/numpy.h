#pragma once
#include "pybind11/pybind11.h"
namespace pybind11 {
class dtype : public object { public: template <typename T> static dtype of(); size_t itemsize() const; char kind() const; bool equal(const dtype&) const; };
class array : public object { public: enum { c_style = 1, f_style = 2, forcecast = 0x10 }; array(); array(const dtype&, std::vector<int>, const void* ptr = nullptr, handle base = handle());
 static array ensure(handle h, int flags = 0); dtype dtype_() const; pybind11::dtype dtype() const; ssize_t ndim() const; ssize_t shape(ssize_t) const; const ssize_t* shape() const; ssize_t nbytes() const; ssize_t itemsize() const; ssize_t size() const; const void* data() const; void* mutable_data(); };
}
