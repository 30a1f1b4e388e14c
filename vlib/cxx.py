"""The C++ wrappers as one IR module in which every function is present, and facts about their classes.

The declarations are listed from clang's syntax tree; a translation unit that uses each of them is generated."""
import hashlib
import json
import os
import shutil
import tempfile

from . import build, ir
from .build import AnalysisError

HEADERS = ("geoarrow/geoarrow.hpp", "geoarrow/hpp/array_reader.hpp", "geoarrow/hpp/array_writer.hpp")
INC = "".join('#include "%s"\n' % h for h in HEADERS)
WRAP = ("array_reader.hpp", "array_writer.hpp", "geometry_data_type.hpp", "exception.hpp", "internal.hpp")

TEMPLATES = '''
struct Elems {
  using value_type = double;
  double* data() const;
  size_t size() const;
  Elems(Elems&&);
  Elems(const Elems&);
  ~Elems();
};
void Templates(geoarrow::ArrayBuilder& b, const Elems& v, const Elems& w, const std::vector<int32_t>& o, GeoArrowBufferView view) {
  b.AppendToBuffer(1, v);
  b.AppendToOffsetBuffer(1, o);
  b.SetBufferWrapped(1, v);
  b.SetBufferWrapped(1, w, view);
}
'''


def ast():
    """Top level declarations of namespace geoarrow."""
    tmp = tempfile.mkdtemp(prefix="ga_ast_")
    try:
        build.make_config(tmp, True, True)
        src = os.path.join(tmp, "t.cc")
        open(src, "w").write(INC)
        out = os.path.join(tmp, "t.json")
        build.run("%s -std=c++17 -w -fsyntax-only -Xclang -ast-dump=json -Xclang -ast-dump-filter=geoarrow -I%s -I%s/src -I%s/src/vendor %s > %s" % (
            build.CLANGXX, tmp, build.REPO, build.REPO, src, out), shell=True)
        t = open(out).read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    dec, i, docs = json.JSONDecoder(), 0, []
    while i < len(t):
        while i < len(t) and t[i] in " \n\r\t":
            i += 1
        if i < len(t):
            d, i = dec.raw_decode(t, i)
            docs.append(d)
    return docs


def split_type(q):
    """'ret (args) quals' -> (ret, '(args) quals')"""
    depth = 0
    end = q.rfind(")")
    for i in range(end, -1, -1):
        depth += {")": 1, "(": -1}.get(q[i], 0)
        if depth == 0:
            return q[:i].strip(), q[i:]
    raise AnalysisError("function type %s" % q)


class Decls:
    """Classes and functions of the wrappers."""

    def __init__(self):
        self.classes = {}       # qualified name -> dict(methods=[...], ctors=[...], dtor, fields)
        self.functions = []
        seen = set()
        self.file = ""
        for d in ast():
            self.walk(d, [], seen)

    def walk(self, d, path, seen):
        k = d.get("kind")
        for r in (d.get("loc", {}), d.get("range", {}).get("begin", {})):
            for l in (r, r.get("expansionLoc", {}), r.get("spellingLoc", {})):
                if "file" in l:
                    self.file = l["file"]
        if k == "NamespaceDecl":
            for c in d.get("inner", []):
                self.walk(c, path + [d["name"]], seen)
        elif k == "CXXRecordDecl" and d.get("completeDefinition") and not d.get("isImplicit") and d["id"] not in seen:
            seen.add(d["id"])
            name = "::".join(path + [d.get("name", "")])
            info = self.classes.setdefault(name, dict(methods=[], ctors=[], dtor=None, fields=[], file=self.file, bases=[b["type"]["qualType"] for b in d.get("bases", [])]))
            access = "public" if d.get("tagUsed") == "struct" else "private"
            for c in d.get("inner", []):
                ck = c.get("kind")
                if ck == "AccessSpecDecl":
                    access = c["access"]
                elif ck == "FieldDecl":
                    info["fields"].append((c.get("name"), c["type"]["qualType"]))
                elif ck in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                    m = dict(name=c["name"], type=c["type"]["qualType"], access=access, implicit=bool(c.get("isImplicit")),
                             deleted=bool(c.get("explicitlyDeleted") or c.get("isDeleted") or (c.get("explicitlyDefaulted") == "deleted")),
                             static=c.get("storageClass") == "static", defaulted=bool(c.get("explicitlyDefaulted")),
                             params=[p["type"]["qualType"] for p in c.get("inner", []) if p.get("kind") == "ParmVarDecl"],
                             names=[p.get("name", "") for p in c.get("inner", []) if p.get("kind") == "ParmVarDecl"])
                    if ck == "CXXConstructorDecl":
                        info["ctors"].append(m)
                    elif ck == "CXXDestructorDecl":
                        info["dtor"] = m
                    else:
                        info["methods"].append(m)
                elif ck == "CXXRecordDecl":
                    self.walk(c, path + [d.get("name", "")], seen)
        elif k == "FunctionDecl" and d["id"] not in seen and not d.get("isImplicit"):
            seen.add(d["id"])
            self.functions.append(("::".join(path + [d["name"]]), d["type"]["qualType"], self.file))

    def uses(self):
        """C++ text that uses every function."""
        out, n = [], 0
        for c, info in sorted(self.classes.items()):
            if os.path.basename(info["file"]) not in WRAP:
                continue
            for m in info["methods"]:
                if m["implicit"] or m["deleted"] or m["access"] != "public" or m["name"].startswith("operator"):
                    continue
                r, rest = split_type(m["type"])
                out.append("%s (%s*u%d)%s = &::%s::%s;" % (r, "" if m["static"] else "::%s::" % c, n, rest, c, m["name"]))
                n += 1
            for m in info["methods"]:
                if m["name"] == "operator=" and m["access"] == "public" and not m["deleted"] and len(m["params"]) == 1 and not m["implicit"]:
                    out.append("void u%d(::%s& a, %s b) { a = static_cast<%s>(b); }" % (n, c, m["params"][0], m["params"][0] if "&" in m["params"][0] else m["params"][0] + "&&"))
                    n += 1
            for m in info["ctors"]:
                if m["deleted"] or m["access"] != "public" or m["implicit"] and m["params"]:
                    continue
                ps = ", ".join("%s a%d" % (p, i) for i, p in enumerate(m["params"]))
                fw = ", ".join("static_cast<%s>(a%d)" % (p if "&" in p else p + "&&", i) for i, p in enumerate(m["params"]))
                out.append("void u%d(%s) { ::%s c%s; }" % (n, ps, c, "(%s)" % fw if fw else ""))
                n += 1
        for name, t, file in self.functions:
            if os.path.basename(file) not in WRAP:
                continue
            r, rest = split_type(t)
            out.append("%s (*u%d)%s = &::%s;" % (r, n, rest, name))
            n += 1
        if n < 40:
            raise AnalysisError("only %d functions found in the C++ wrappers" % n)
        return "#include <string>\n#include <vector>\n" + INC + "namespace geoarrow { namespace internal {} namespace witness {\nusing namespace geoarrow::internal;\n" + "\n".join(out) + TEMPLATES + "}}\n"


def module(decls):
    text = decls.uses()
    d = os.path.join(build.VERIF, "build", "gen")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "wrap-%s.cpp" % hashlib.sha256(text.encode()).hexdigest()[:16])
    if not os.path.exists(p):
        open(p + ".tmp%d" % os.getpid(), "w").write(text)
        os.rename(p + ".tmp%d" % os.getpid(), p)
    return ir.Module(build.build_cxx_module(srcs=[p], tag="wrap"))
