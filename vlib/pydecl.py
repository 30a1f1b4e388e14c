"""The extern declarations of the Cython bindings against the C and C++ headers.

Declared types are spelled as C++ types and compared by the compiler with the types of the
entities they name (const dropped on both sides at every level: bindings may omit it)."""
import os
import re
import shutil
import subprocess
import tempfile

from . import build, pyx
from .build import AnalysisError

PYDIR = "python/geoarrow-c/src/geoarrow/c"

STUB = """
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct _object PyObject;
typedef ptrdiff_t Py_ssize_t;
typedef int PyGILState_STATE;
void Py_INCREF(PyObject*);
void Py_DECREF(PyObject*);
PyGILState_STATE PyGILState_Ensure(void);
void PyGILState_Release(PyGILState_STATE);
int PyGILState_Check(void);
static inline void Py_XINCREF(PyObject* o) { if (o) Py_INCREF(o); }
static inline void Py_XDECREF(PyObject* o) { if (o) Py_DECREF(o); }
static inline PyObject* Py_NewRef(PyObject* o) { Py_INCREF(o); return o; }
static inline PyObject* Py_XNewRef(PyObject* o) { if (o) Py_INCREF(o); return o; }
static inline void Py_IncRef(PyObject* o) { if (o) Py_INCREF(o); }
static inline void Py_DecRef(PyObject* o) { if (o) Py_DECREF(o); }
#define Py_CLEAR(x) do { PyObject* t_ = (x); (x) = 0; if (t_) Py_DECREF(t_); } while (0)
int Py_IsInitialized(void);
#ifdef __cplusplus
}
#endif
"""

PRELUDE = """
#include <Python.h>
#include <stdint.h>
#include <string>
#include <type_traits>
#include <utility>
#include "geoarrow/geoarrow.h"
#include "geoarrow/geoarrow.hpp"
#include "geoarrow_python/geoarrow_python.h"
using geoarrow::GeometryDataType;
template <class T, int N> struct arr_ { typedef T type[N]; };
template <class T, int N> using arr = typename arr_<T, N>::type;
template <class F> struct fun_ { typedef F type; };
template <class F> using fun = typename fun_<F>::type;
template <class T> struct norm { typedef T type; };
template <class T> struct norm<const T> { typedef typename norm<T>::type type; };
template <class T> struct norm<T*> { typedef typename norm<T>::type* type; };
template <class T> struct norm<T&> { typedef typename norm<T>::type& type; };
template <class T, size_t N> struct norm<T[N]> { typedef typename norm<T>::type type[N]; };
template <class R, class... A> struct norm<R(A...)> { typedef typename norm<R>::type type(typename norm<A>::type...); };
template <class A, class B> struct same { static constexpr bool value = std::is_same<typename norm<A>::type, typename norm<B>::type>::value; };
template <class T, size_t N, class U, size_t M> struct same<T[N], U[M]> { static constexpr bool value = N <= M && same<T, U>::value; };
"""


def module():
    return pyx.Module(os.path.join(build.REPO, PYDIR, "_lib.pyx"))


def fdecl(d):
    """(function declarator, number of pointers it is behind)"""
    ptr = 0
    while d["k"] != "CFuncDeclaratorNode":
        if d["k"] != "CPtrDeclaratorNode":
            return None
        d = d["base"]
        ptr += 1
    return d


def args_of(d):
    return [pyx.ctype(a["base_type"], a["declarator"]) if pyx.declnode(a["declarator"]).get("name") else
            pyx.ctype(a["base_type"], a["declarator"]) for a in d.get("args", [])]


def compile_text(text, flags):
    tmp = tempfile.mkdtemp(prefix="ga_py_")
    try:
        build.make_config(tmp, False, False)
        open(os.path.join(tmp, "Python.h"), "w").write(STUB)
        src = os.path.join(tmp, "w.cpp")
        open(src, "w").write(text)
        out = os.path.join(tmp, "w.ll")
        p = subprocess.run([build.CLANGXX, "-std=c++17", "-w", "-ferror-limit=0", "-S", "-emit-llvm", "-o", out, src, "-I" + tmp,
                            "-I" + build.REPO + "/src", "-I" + build.REPO + "/src/vendor", "-I" + os.path.join(build.REPO, PYDIR)] + flags,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return p.returncode, p.stderr, (open(out).read() if p.returncode == 0 else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def prelude_ok():
    rc, err, _ = compile_text(PRELUDE, ["-fsyntax-only"]) if False else compile_text(PRELUDE, ["-O0"])
    if rc:
        raise AnalysisError("the headers of the bindings do not compile: %s" % err[:400])


def methods(m):
    """(class, name, index) -> (base, declarator, line, static, C++ name, return type, arguments)"""
    for cls, c in m.cpp.items():
        for name, decls in c["methods"].items():
            for i, (bt, d, line, static, node) in enumerate(decls):
                fd = fdecl(d)
                if fd is None:
                    continue
                cname = pyx.declnode(d).get("cname") or name
                ret = None if pyx.basetype(bt) is None else pyx.ctype(bt, dict(k="CNameDeclaratorNode"))
                if name == cls:
                    ret = None
                yield (cls, name, i), (bt, fd, line, static, cname, ret, args_of(fd))


def may_throw(ctx, m):
    text = [PRELUDE]
    keys = {}
    n = 0
    for key, (bt, d, line, static, cname, ret, args) in methods(m):
        n += 1
        ps = ["std::remove_reference_t<%s>* a%d" % (a, i) for i, a in enumerate(args)]
        av = ", ".join("*a%d" % i for i in range(len(args)))
        cpp = key[0]
        if ret is None:
            body = "%s x%s; (void)x;" % (cpp, "(%s)" % av if av else "")
            pl = ps
        elif static:
            body = "(void)%s::%s(%s);" % (cpp, cname, av)
            pl = ps
        else:
            body = "(void)self->%s(%s);" % (cname, av)
            pl = ["%s* self" % cpp] + ps
        text.append('extern "C" void w_%d(%s) { %s }' % (n, ", ".join(pl), body))
        keys["w_%d" % n] = (key, d, line, bt)
    prelude_ok()
    rc, err, ll = compile_text("\n".join(text), ["-O2", "-fexceptions", "-mllvm", "-inline-threshold=5000"])
    if rc:
        raise AnalysisError("a declared C++ method can't be called as declared: %s" % (
            [l for l in err.splitlines() if "error:" in l] or [err])[0][:300])
    attrs = dict(re.findall(r'^attributes (#\d+) = \{(.*)\}$', ll, re.M))
    out = {}
    for f, (key, d, line, bt) in keys.items():
        mm = re.search(r'^define [^\n]*@%s\([^\n]*\{' % f, ll, re.M)
        if not mm:
            raise AnalysisError("witness %s vanished" % f)
        a = re.findall(r'#\d+', mm.group(0))
        why = None if any("nounwind" in attrs.get(x, "") for x in a) else "unwinds"
        out[key] = (bt, d, line, why)
    return out
