"""Parse a .pyx with Cython's own parser and print the syntax tree as JSON.

Run with an interpreter that has Cython (no compilation, no import of the module)."""
import json
import sys

from Cython.Compiler import Errors, Main, Options, Parsing
from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
from Cython.Compiler import Nodes, ExprNodes
import Cython

SKIP = {"pos", "pos_list", "compiler_directives", "env", "scope", "type", "entry", "directives"}


STACK = set()


def js(x, depth=0):
    if isinstance(x, (Nodes.Node,)):
        if id(x) in STACK:
            return None
        STACK.add(id(x))
        d = {"k": type(x).__name__, "line": x.pos[1] if x.pos else 0}
        names = set(getattr(x, "child_attrs", None) or ()) | set(vars(x))
        for n in sorted(names):
            if n in SKIP or n.startswith("_"):
                continue
            v = js(getattr(x, n, None), depth + 1)
            if v is not None:
                d[n] = v
        STACK.discard(id(x))
        return d
    if isinstance(x, (list, tuple)):
        return [js(i, depth + 1) for i in x]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, str):
        return str(x)
    if isinstance(x, bytes):
        return x.decode("latin1")
    return None


def main(path):
    Errors.init_thread()
    opts = Options.CompilationOptions(Options.default_options, language_level=3, cplus=True)
    ctx = Main.Context.from_options(opts)
    sd = FileSourceDescriptor(path, path)
    from Cython.Compiler.Symtab import ModuleScope
    scope = ctx.find_module("m", pos=(sd, 1, 0), need_pxd=False)
    tree = ctx.parse(sd, scope, pxd=0, full_module_name="m")
    json.dump(js(tree), sys.stdout)


main(sys.argv[1])
