// Stand-in declarations for pybind11 (type-checking only).
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
struct PyObject; extern PyObject* Py_None;
namespace pybind11 {
class object; class handle { public: template <typename T> T cast() const; bool is_none() const; bool is(const handle&) const; object attr(const char*) const; PyObject* ptr() const; explicit operator bool() const; };
class object : public handle { public: object(); template <typename T> object& operator=(const T&); };
class none : public object {}; 
class bytes : public object { public: bytes(); bytes(const std::string&); bytes(const char*, size_t); operator std::string() const; };
class str : public object { public: str(const char*); str(const std::string&); };
struct item_accessor { template <typename T> void operator=(const T&); operator object() const; template <typename T> T cast() const; };
class tuple : public object { public: explicit tuple(size_t n = 0); item_accessor operator[](size_t) const; size_t size() const; };
class list : public object { public: list(); explicit list(size_t); template <typename T> void append(const T&); size_t size() const; object operator[](size_t) const; object* begin() const; object* end() const; };
class dict : public object { public: item_accessor operator[](const char*) const; };
template <typename T, typename U> T cast(const U&); template <typename U> object cast(const U&);
template <typename T> bool isinstance(const handle&);
class error_already_set : public std::runtime_error { public: error_already_set(); };
class value_error : public std::runtime_error { public: explicit value_error(const char*); explicit value_error(const std::string&); };
class type_error : public std::runtime_error { public: explicit type_error(const char*); };
class gil_scoped_release { public: gil_scoped_release(); ~gil_scoped_release(); }; class gil_scoped_acquire { public: gil_scoped_acquire(); ~gil_scoped_acquire(); };
struct arg { explicit arg(const char*); template <typename T> arg& operator=(T&&); };
template <typename... A> struct init_t {}; template <typename... A> init_t<A...> init();
class module_ : public object { public: template <typename F, typename... X> module_& def(const char*, F f, const X&...); };
template <typename T> class class_ { public: class_(module_&, const char*); template <typename... A, typename... X> class_& def(init_t<A...>, const X&...); template <typename F, typename... X> class_& def(const char*, F f, const X&...);
 template <typename F, typename G> class_& def_property(const char*, F f, G g); template <typename F> class_& def_property_readonly(const char*, F f); };
}
#define PYBIND11_MODULE(name, variable) void pybind11_init_##name(::pybind11::module_& variable)
