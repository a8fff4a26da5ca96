// A stand-in for pybind11 in the sanitizer builds of the harness: the binding code of /repo compiles
// against it (fast) and is never executed there. The Python properties use the real module.
// If /repo does not compile against this file, build.py falls back to the installed pybind11.
#ifndef VERIF_STUB_PYBIND11
#define VERIF_STUB_PYBIND11
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <initializer_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <algorithm>
#include <iostream>
#include <sstream>
#define PYBIND11_EXPORT
#define PYBIND11_NOINLINE
typedef struct _object PyObject;
extern "C++" {
inline PyObject *PyExc_RuntimeError, *PyExc_TypeError, *PyExc_ValueError, *PyExc_IndexError, *PyExc_KeyError, *PyExc_Exception, *PyExc_SyntaxError;
inline void PyErr_SetString(PyObject *, const char *) {}
}
namespace pybind11
{
    struct any_arg { template <typename T> any_arg(T &&) {} };
    struct handle
    {
        template <typename T> T cast() const { throw std::logic_error("stub"); }
        handle inc_ref() const { return *this; }
        bool is_none() const { return true; }
    };
    struct object : handle
    {
        object() {}
        template <typename T> object(T &&, int) {}
        object *begin() const { return nullptr; }
        object *end() const { return nullptr; }
        std::size_t size() const { return 0; }
        template <typename... A> object operator()(A &&...) const { return {}; }
        template <typename K> object operator[](K &&) const { return {}; }
        object attr(const char *) const { return {}; }
    };
    struct none : object {};
    struct str : object { str() {} template <typename T> str(T &&) {} };
    struct list : object { template <typename T> void append(T &&) {} };
    struct tuple : object {};
    struct args : object {};
    struct kwargs : object {};
    struct dict : object {};
    struct iterator : object {};
    struct error_already_set : std::exception {};
    struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
    struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
    struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
    struct stop_iteration : std::runtime_error { stop_iteration(const char *s = "") : std::runtime_error(s) {} };
    template <typename T> object cast(T &&) { return {}; }
    template <typename T, typename U, typename = std::enable_if_t<!std::is_same_v<T, U>>> T cast(U &&) { throw std::logic_error("stub"); }
    inline iterator iter(const object &) { return {}; }
    template <typename... T> iterator make_iterator(T &&...) { return {}; }
    struct arg
    {
        explicit arg(const char *) {}
        arg operator=(std::nullptr_t) const { return *this; }
        template <typename T> arg operator=(T &&) const { return *this; }
        arg &noconvert(bool = true) { return *this; }
    };
    inline namespace literals { inline arg operator""_a(const char *n, size_t) { return arg(n); } }
    struct init_ {};
    template <typename... T, typename... A> init_ init(A &&...) { return {}; }
    template <typename... T> struct keep_alive {};
    template <typename... T> struct call_guard {};
    struct is_operator {};
    struct dynamic_attr {};
    struct arithmetic {};
    struct scope { template <typename... A> scope(A &&...) {} };
    enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
    struct module_ : object
    {
        template <typename... A> module_ &def(A &&...) { return *this; }
        template <typename... A> void add_object(A &&...) {}
        module_ def_submodule(const char *, const char * = nullptr) { return {}; }
        struct sink { template <typename T> void operator=(T &&) {} };
        sink attr(const char *) { return {}; }
        const char *&doc() { static const char *d = nullptr; return d; }
    };
    using module = module_;
    template <typename T, typename... O> struct class_ : object
    {
        template <typename S, typename... A> class_(S &&, const char *, A &&...) {}
#define VERIF_DEF(n) template <typename... A> class_ &n(A &&...) { return *this; }
        VERIF_DEF(def) VERIF_DEF(def_static) VERIF_DEF(def_readwrite) VERIF_DEF(def_readonly) VERIF_DEF(def_property)
        VERIF_DEF(def_property_readonly) VERIF_DEF(def_readonly_static) VERIF_DEF(def_readwrite_static) VERIF_DEF(def_property_static)
        VERIF_DEF(def_property_readonly_static) VERIF_DEF(def_cast)
#undef VERIF_DEF
    };
    template <typename T> struct enum_ : class_<T>
    {
        template <typename S, typename... A> enum_(S &&s, const char *n, A &&...) : class_<T>(s, n) {}
        template <typename... A> enum_ &value(A &&...) { return *this; }
        enum_ &export_values() { return *this; }
    };
} // namespace pybind11
#define PYBIND11_MODULE(name, m) [[maybe_unused]] static void verif_stub_module_##name(::pybind11::module_ &m)
#define PYBIND11_DECLARE_HOLDER_TYPE(...)
#define PYBIND11_MAKE_OPAQUE(...)
#endif
