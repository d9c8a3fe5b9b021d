"""The real C++ kernels, compiled from /repo's current source (g++), for replay and cross-checks.

Each source file is compiled as it is (stand-in headers for pybind11 and GSL) inside a namespace; wrappers that pass
arguments as flat buffers are generated from the signatures clang reports.  The quadrature `gsl_integration_qag` is a
call-back, so that a contract can observe or replace it, as in the symbolic module."""
import ctypes
import json
import os
import re
import subprocess
import types

from . import cpp

KNOWN = {'dbl', 'double', 'int', 'bool', 'size_t', 'std', 'vector', 'array', 'pair', 'const', 'unsigned', 'long'}

BASE = r'''
#include "pre.h"
namespace vc {
typedef const double *In; typedef double *Out;
template <class T> struct Dec { static T get(In &p) { return static_cast<T>(*p++); } };
template <class T> struct Dec<std::vector<T> > { static std::vector<T> get(In &p) { std::size_t n = (std::size_t) *p++; std::vector<T> r; for (std::size_t i = 0; i < n; ++i) r.push_back(Dec<T>::get(p)); return r; } };
template <class T, std::size_t N> struct Dec<std::array<T, N> > { static std::array<T, N> get(In &p) { std::array<T, N> r; for (std::size_t i = 0; i < N; ++i) r[i] = Dec<T>::get(p); return r; } };
template <class T> struct Enc { static void put(Out &o, const T &x) { *o++ = static_cast<double>(x); } };
template <class T> struct Enc<std::vector<T> > { static void put(Out &o, const std::vector<T> &x) { *o++ = (double) x.size(); for (auto &y : x) Enc<T>::put(o, y); } };
template <class A, class B> struct Enc<std::pair<A, B> > { static void put(Out &o, const std::pair<A, B> &x) { *o++ = 2; Enc<A>::put(o, x.first); Enc<B>::put(o, x.second); } };
template <class T, std::size_t N> struct Enc<std::array<T, N> > { static void put(Out &o, const std::array<T, N> &x) { *o++ = (double) N; for (auto &y : x) Enc<T>::put(o, y); } };
template <std::size_t... I> struct Seq {};
template <std::size_t N, std::size_t... I> struct Make : Make<N - 1, N - 1, I...> {};
template <std::size_t... I> struct Make<0, I...> { typedef Seq<I...> type; };
template <class R, class... A, std::size_t... I> void go(R (*f)(A...), std::tuple<typename std::decay<A>::type...> &args, Out out, Seq<I...>) {
    R r = f(std::get<I>(args)...);
    Enc<typename std::decay<R>::type>::put(out, r);
}
template <class R, class... A> void wrap(R (*f)(A...), In in, Out out) {
    std::tuple<typename std::decay<A>::type...> args{Dec<typename std::decay<A>::type>::get(in)...};
    go(f, args, out, typename Make<sizeof...(A)>::type());
}
}
static char vc_message[4096];
extern "C" {
const char *vc_what() { return vc_message; }
typedef int (*vc_qag_t)(const gsl_function *, double, double, double, double, double *, double *);
vc_qag_t vc_qag = 0;
void vc_set_qag(vc_qag_t q) { vc_qag = q; }
gsl_integration_workspace *gsl_integration_workspace_alloc(std::size_t n) { gsl_integration_workspace *w = new gsl_integration_workspace; w->limit = n; w->size = 0; return w; }
void gsl_integration_workspace_free(gsl_integration_workspace *w) { delete w; }
gsl_error_handler_t *gsl_set_error_handler_off() { return 0; }
const char *gsl_strerror(const int) { return "error"; }
double vc_eval(const gsl_function *f, double x, int *status) {
    try { *status = 0; return f->function(x, f->params); }
    catch (const std::exception &e) { std::snprintf(vc_message, sizeof vc_message, "%s", e.what()); *status = 1; return 0.; }
}
static std::vector<gsl_integration_workspace *> vc_busy;
struct VcBusy { VcBusy(gsl_integration_workspace *w) { vc_busy.push_back(w); } ~VcBusy() { vc_busy.pop_back(); } };
int gsl_integration_qag(const gsl_function *f, double a, double b, double epsabs, double epsrel, std::size_t limit, int, gsl_integration_workspace *w, double *result, double *abserr) {
    if (limit > w->limit) throw std::runtime_error("more subdivisions than the workspace holds");
    for (auto x : vc_busy) if (x == w) throw std::runtime_error("workspace in use by the enclosing quadrature");
    VcBusy busy(w);
    if (!vc_qag) throw std::runtime_error("vc: quadrature without a contract");
    *abserr = 0;
    int st = vc_qag(f, a, b, epsabs, epsrel, result, abserr);
    if (st == 77) throw std::runtime_error(std::string(vc_message));
    return st;
}
}
'''


def build(k):
    def make(t):
        tr = cpp.translate(k)
        d = t + '.d'
        os.makedirs(d, exist_ok=True)
        ns = 'V%d' % k
        srcs = cpp.sources(k)
        structs, funcs = tr['structs'], tr['signatures']
        known = KNOWN | set(structs) | set(tr['enum_types'])
        txt = ['#include "pre.h"', 'namespace %s {' % ns, '#include "%s"' % srcs[0], '}']
        txt.append(BASE.replace('#include "pre.h"', ''))
        txt.append('namespace vc {')
        for s, params in structs.items():
            if all(set(re.findall(r'[A-Za-z_]\w*', ty)) <= known for _, ty in params):
                txt.append('template <> struct Dec<%s::%s> { static %s::%s get(In &p); };' % (ns, s, ns, s))
        txt.append('}')
        txt.append('namespace %s {' % ns)
        wrapped = {}
        for s, params in structs.items():
            if all(set(re.findall(r'[A-Za-z_]\w*', ty)) <= known for _, ty in params):
                body = ''.join('auto a%d = vc::Dec<std::decay<%s>::type>::get(p); ' % (i, ty) for i, (_, ty) in enumerate(params))
                ctor = '%s%s' % (s, '(%s)' % ', '.join('a%d' % i for i in range(len(params))))
                txt.append('} namespace vc { using namespace %s; %s::%s Dec<%s::%s>::get(In &p) { %s return %s::%s; } } namespace %s {'
                           % (ns, ns, s, ns, s, body, ns, ctor, ns))
        for py, (name, sig, params) in funcs.items():
            words = set(re.findall(r'[A-Za-z_]\w*', sig))
            if not words <= known or 'void' in words:
                continue
            ret, rest = sig.split(' (', 1)
            txt.append('%s %s(%s;' % (ret, name, rest))
            txt.append('extern "C" int vcw_%s(const double *in, double *out) { try { vc::wrap(static_cast<%s (*)(%s>(&%s), in, out); return 0; } '
                       'catch (const std::exception &e) { std::snprintf(vc_message, sizeof vc_message, "%%s", e.what()); return 1; } }' % (py, ret, rest, name))
            wrapped[py] = (sig, params)
        txt.append('extern "C" const char *vc_bindings() { static std::string s; if (s.empty()) { pybind11::module_ m; vc_bind(m); s = pybind11::vc_log(); } return s.c_str(); }')
        txt.append('}')
        open(os.path.join(d, 'w0.cpp'), 'w').write('\n'.join(txt) + '\n')
        objs = []
        procs = []
        for i, s in enumerate(srcs):
            f = os.path.join(d, 'w%d.cpp' % i)
            if i:
                open(f, 'w').write('#include "pre.h"\nnamespace %s {\n#include "%s"\n}\n' % (ns, s))
            o = f[:-4] + '.o'
            objs.append(o)
            procs.append(subprocess.Popen(['g++', '-std=c++11', '-O1', '-fPIC', '-fno-gnu-unique', '-w', '-I', cpp.STUB, '-c', f, '-o', o], stderr=subprocess.PIPE, text=True))
        errs = [p.communicate()[1] for p in procs]
        if any(p.returncode for p in procs):
            raise RuntimeError('kernel does not compile: ' + ''.join(errs)[:1500])
        subprocess.run(['g++', '-shared', '-Wl,-Bsymbolic', '-o', os.path.join(d, 'k.so')] + objs, check=True)
        os.rename(os.path.join(d, 'k.so'), t)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
        json.dump(wrapped, open(os.path.join(cpp.cache_dir(), 'wr-%d-%s.json' % (k, cpp.source_hash(k))), 'w'))
    so = cpp.cached('k-%d-%s.so' % (k, cpp.source_hash(k)), make)
    return so, json.load(open(os.path.join(cpp.cache_dir(), 'wr-%d-%s.json' % (k, cpp.source_hash(k)))))


class Codec(object):
    def __init__(self, structs):
        self.structs = structs

    def put(self, ty, x, out):
        ty = ty.replace('const ', '').replace('&', '').strip()
        m = re.match(r'std::vector<(.*)>$', ty)
        if m:
            x = list(x)
            out.append(float(len(x)))
            for y in x:
                self.put(m.group(1).strip(), y, out)
            return
        m = re.match(r'std::array<(.*),\s*(\d+)[UL]*>$', ty)
        if m:
            x = list(x)
            if len(x) != int(m.group(2)):
                raise TypeError('array of %d' % len(x))
            for y in x:
                self.put(m.group(1).strip(), y, out)
            return
        b = ty.split('::')[-1]
        if b in self.structs:
            for n, t in self.structs[b]:
                self.put(t, getattr(x, n), out)
            return
        out.append(float(x))


CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_double, ctypes.c_double, ctypes.c_double, ctypes.c_double,
                      ctypes.POINTER(ctypes.c_double), ctypes.POINTER(ctypes.c_double))


def gk15(f, a, b, epsabs, epsrel, depth=0):
    """adaptive Gauss-Legendre, independent of the code under test"""
    import numpy as np
    x, w = np.polynomial.legendre.leggauss(24)

    def rule(a, b):
        h, c = (b - a) / 2, (a + b) / 2
        return h * sum(wi * f(c + h * xi) for xi, wi in zip(x, w))

    def rec(a, b, whole, d):
        c = (a + b) / 2
        l, r = rule(a, c), rule(c, b)
        if d > 8 or abs(l + r - whole) <= max(epsabs, epsrel * abs(l + r)):
            return l + r
        return rec(a, c, l, d + 1) + rec(c, b, r, d + 1)
    return rec(a, b, rule(a, b), 0)


_MODS = {}


def module(k):
    key = (k, cpp.source_hash(k))
    if key in _MODS:
        m = _MODS[key]
        m.qag = None
        m.__dict__.update(m.originals)
        return m
    so, wrapped = build(k)
    tr = cpp.translate(k)
    lib = ctypes.CDLL(so)
    lib.vc_what.restype = lib.vc_bindings.restype = ctypes.c_char_p
    lib.vc_eval.restype = ctypes.c_double
    lib.vc_eval.argtypes = [ctypes.c_void_p, ctypes.c_double, ctypes.POINTER(ctypes.c_int)]
    codec = Codec(tr['structs'])
    m = types.ModuleType('cpp.%d' % k)
    m.qag = None
    m.pending = None

    def qag(fp, a, b, epsabs, epsrel, res, err):
        def f(x):
            st = ctypes.c_int()
            r = lib.vc_eval(fp, float(x), ctypes.byref(st))
            if st.value:
                raise RuntimeError(lib.vc_what().decode())
            return r
        try:
            if m.qag is None:
                raise RuntimeError('quadrature without a contract')
            r = m.qag(f, a, b, epsabs, epsrel)
            st = 0
            if isinstance(r, tuple):
                st, r = r
            res[0] = float(r)
            return st
        except BaseException as e:
            m.pending = e
            return 77
    m.cb = CB(qag)
    lib.vc_set_qag(m.cb)

    def make(py, sig, params, ret):
        fn = getattr(lib, 'vcw_' + py)

        def f(*a):
            buf = []
            a = list(a)
            for i in range(len(a), len(params)):
                if params[i][2] is None:
                    raise TypeError('%s: missing argument' % py)
                a.append(params[i][2])
            for (n, ty, _), x in zip(params, a):
                codec.put(ty, x, buf)
            inp = (ctypes.c_double * len(buf))(*buf)
            out = (ctypes.c_double * 4096)()
            m.pending = None
            st = fn(inp, out)
            if m.pending is not None:
                e, m.pending = m.pending, None
                raise e
            if st:
                raise RuntimeError(lib.vc_what().decode())
            if ret.startswith(('std::vector', 'std::array')):
                return [out[1 + i] for i in range(int(out[0]))]
            if ret.startswith('std::pair'):
                return tuple(int(out[1 + i]) if 'int' in ret else out[1 + i] for i in range(2))
            if ret in ('int', 'bool') or ret in tr['enum_types']:
                return int(out[0])
            return out[0]
        f.__name__ = py
        return f
    for py, (sig, params) in wrapped.items():
        setattr(m, py, make(py, sig, params, sig.split(' (', 1)[0].strip()))
    for e, x in tr['enums'].items():
        setattr(m, e, x)
    m.bindings = lib.vc_bindings().decode()
    m.translation = tr
    m.originals = {k: x for k, x in m.__dict__.items() if callable(x)}
    _MODS[key] = m
    return m
