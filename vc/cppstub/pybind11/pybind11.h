// Stand-in for pybind11: accepts the binding code and records names, values and argument names.
#pragma once
#include <string>
#include <sstream>
#include <vector>
namespace pybind11 {
inline std::string &vc_log() { static std::string s; return s; }
struct arg {
    std::string name; std::string dflt;
    explicit arg(const char *n) : name(n) {}
    template <class T> arg &operator=(const T &v) { std::ostringstream o; o << v; dflt = "=" + o.str(); return *this; }
};
namespace literals { inline arg operator"" _a(const char *s, std::size_t) { return arg(s); } }
inline void vc_extra(std::ostringstream &o, const arg &a) { o << " " << a.name << a.dflt; }
template <class T> inline void vc_extra(std::ostringstream &, const T &) {}
template <class... A> struct init {};
struct module_ {
    template <class F, class... A> module_ &def(const char *name, F &&, const A &... a) {
        std::ostringstream o; o << "def " << name;
        int u[] = {0, (vc_extra(o, a), 0)...}; (void) u;
        vc_log() += o.str() + "\n"; return *this; }
};
typedef module_ module;
template <class T> struct array_t { const T *p; std::size_t n; };
template <class F> struct vc_vec { F f; template <class A> A operator()(const A &a) const { return a; } };
template <class F> vc_vec<F> vectorize(F f) { return vc_vec<F>{f}; }
template <class T> struct enum_ {
    std::string nm;
    enum_(module_ &, const char *n) : nm(n) {}
    enum_ &value(const char *n, T v) { std::ostringstream o; o << "enum " << nm << " " << n << " " << static_cast<int>(v); vc_log() += o.str() + "\n"; return *this; }
    enum_ &export_values() { return *this; }
};
template <class T> struct class_ {
    std::string nm;
    class_(module_ &, const char *n) : nm(n) {}
    template <class I, class... A> class_ &def(I, const A &... a) {
        std::ostringstream o; o << "class " << nm;
        int u[] = {0, (vc_extra(o, a), 0)...}; (void) u;
        vc_log() += o.str() + "\n"; return *this; }
};
}
#define PYBIND11_MODULE(name, var) void vc_bind(pybind11::module_ &var)
