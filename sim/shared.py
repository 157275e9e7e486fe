"""What a run changes in state that all threads share, and where it is used.

`snap()` before and after a run, `places(a, b)` gives the source lines
("file.py:12") of those functions of the package that touch a module-level
object, a class attribute or a default argument which the run has changed.  The
result only steers the search for schedules; nothing is judged by it.
"""
import dis
import logging
import sys
import types

from boot import PKG

SKIP = (types.ModuleType, types.BuiltinFunctionType, logging.Logger, type(None), str, bytes, int, float, bool, complex)
NAME = "latex2json"


def modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == NAME or n.startswith(NAME + ".")) and m is not None]


def print_of(x, depth=3):
    """A cheap print of an object that changes when something is put in or taken out."""
    if depth == 0 or isinstance(x, SKIP) or isinstance(x, (type, types.FunctionType)):
        return id(x)
    if isinstance(x, dict):
        if len(x) > 4000:
            return len(x)
        return ("d", len(x), hash(tuple((id(k), print_of(v, depth - 1)) for k, v in list(x.items()))))
    if isinstance(x, (list, tuple)):
        if len(x) > 4000:
            return len(x)
        return ("l", len(x), hash(tuple(print_of(v, depth - 1) for v in list(x))))
    if isinstance(x, (set, frozenset)):
        return ("s", len(x), hash(frozenset(id(v) for v in list(x))))
    d = getattr(x, "__dict__", None)
    if type(d) is dict:
        return ("o", id(x), print_of(d, depth))
    try:
        return ("n", id(x), len(x))
    except Exception:
        return id(x)


def functions(m):
    todo = [v for v in list(vars(m).values())]
    seen = set()
    while todo:
        f = todo.pop()
        if isinstance(f, type):
            if f.__module__ == m.__name__ and f not in seen:
                seen.add(f)
                todo += list(vars(f).values())
            continue
        if isinstance(f, property):
            todo += [f.fget, f.fset, f.fdel]
            continue
        f = getattr(f, "__func__", f)
        f = getattr(f, "__wrapped__", f)
        if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(PKG) and f not in seen:
            seen.add(f)
            yield f


def snap():
    out = {}
    for m in modules():
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, type):
                if v.__module__ == m.__name__:
                    for a, b in list(vars(v).items()):
                        if not (a.startswith("__") or isinstance(b, (types.FunctionType, property, staticmethod, classmethod))):
                            out["c", m.__name__, k, a] = (id(b), print_of(b))
            elif not isinstance(v, types.FunctionType):
                out["g", m.__name__, k] = (id(v), print_of(v))
        for f in functions(m):
            x = [print_of(d) for d in f.__defaults__ or ()] + [print_of(f.__kwdefaults__)]
            if vars(f):
                x.append(print_of(vars(f)))
            for c in f.__closure__ or ():
                try:
                    if not isinstance(c.cell_contents, types.FunctionType):
                        x.append(print_of(c.cell_contents))
                except ValueError:
                    pass
            out["f", m.__name__, f.__qualname__, f.__code__.co_firstlineno] = hash(tuple(x))
    return out


def lines_of(code):
    s = {l for _, _, l in code.co_lines() if l}
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            s |= lines_of(c)
    return s


def uses(code, names, attrs):
    for i in dis.get_instructions(code):
        if i.opname in ("LOAD_GLOBAL", "STORE_GLOBAL", "DELETE_GLOBAL", "LOAD_NAME") and i.argval in names:
            return True
        if i.opname in ("LOAD_ATTR", "STORE_ATTR", "LOAD_METHOD") and i.argval in attrs:
            return True
    return any(uses(c, names, attrs) for c in code.co_consts if isinstance(c, types.CodeType))


def places(a, b):
    changed = [k for k in b if a.get(k, 0) != b[k]]
    if not changed:
        return []
    attrs = {k[3] for k in changed if k[0] == "c"}
    owners = set()
    out = set()
    for m in modules():
        names = {k[2] for k in changed if k[0] == "g" and k[1] == m.__name__}
        for n in names:
            v = vars(m).get(n)
            if getattr(type(v), "__module__", "").startswith(NAME):
                owners.add(type(v))
    for m in modules():
        names = {k[2] for k in changed if k[0] == "g" and k[1] == m.__name__}
        marked = {k[2:] for k in changed if k[0] == "f" and k[1] == m.__name__}
        own = {getattr(g, "__func__", g) for c in owners if c.__module__ == m.__name__ for g in vars(c).values()}
        for f in functions(m):
            c = f.__code__
            if (f.__qualname__, c.co_firstlineno) in marked or f in own or uses(c, names, attrs):
                fn = c.co_filename[c.co_filename.rfind("/") + 1:]
                out |= {"%s:%d" % (fn, l) for l in lines_of(c)}
    return sorted(out)
