"""Runs the repository's Python readers on request: one JSON object per line."""
import base64, json, os, sys
out = os.fdopen(os.dup(1), "w")
inp = os.fdopen(os.dup(0))
os.dup2(2, 1)
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])


def plain(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return [float(y) for y in x.ravel()]
    if isinstance(x, (bool, np.bool_)):
        return [1.0 if x else 0.0]
    return [float(x)]


def array(x):
    import numpy as np
    x = np.asarray(x)
    ok = x.dtype.kind == "f"
    return {"shape": list(x.shape), "float": bool(ok),
            "data": base64.b64encode(x.astype("<f8").tobytes(order="C")).decode()}


def fields(obj, names):
    r = {}
    for n in names:
        o = obj
        for part in n.split("."):
            o = getattr(o, part)
        r[n] = plain(o)
    return r


def run(q):
    if q["op"] == "header":
        import gotetra
        h = gotetra.read_header(q["file"])
        return {"fields": fields(h, q["names"]), "text": str(h)}
    if q["op"] == "grid":
        import gotetra
        return {"arrays": {"grid": array(gotetra.read_grid(q["file"]))}}
    if q["op"] == "sheet":
        import gtet
        f = gtet.File(q["file"])
        return {"fields": fields(f, q["names"]),
                "arrays": {n: array(getattr(f, n)) for n in ("x", "v", "xn", "vn")}}
    if q["op"] == "deriv":
        return call_deriv(q)
    if q["op"] == "script":
        return call_script(q)
    if q["op"] == "run":
        return run_script(q)
    raise ValueError(q["op"])


def call_deriv(q):
    """Calls a function of render/scripts/deriv.py on arrays."""
    import numpy as np
    sys.path.insert(0, sys.argv[2])
    import deriv
    a = {}
    for k, b in q["arrays"].items():
        a[k] = np.frombuffer(base64.b64decode(b), dtype="<f8").copy()
    before = {k: x.copy() for k, x in a.items()}
    kw = {k: (int(x) if k == "order" else x) for k, x in (q["keywords"] or {}).items()}
    f = q["names"][0]
    if f.startswith("churazov."):
        c = deriv.ChurazovInterpolant(a["xs"], a["ys"], **kw)
        r = getattr(c, f.split(".")[1])(a["at"])
    else:
        r = getattr(deriv, f)(*[a[k] for k in q["names"][1:]], **kw)
    for k, x in a.items():
        if x.tobytes() != before[k].tobytes():
            raise AssertionError("changed its argument " + k)
    return {"arrays": {"out": array(r)}}


scripts = {}


class Numpy2(object):
    """numpy whose array() takes ragged lists, as the numpy of the scripts did."""

    def __getattr__(self, name):
        import numpy
        return getattr(numpy, name)

    @staticmethod
    def array(x, *args, **kw):
        import numpy
        try:
            return numpy.array(x, *args, **kw)
        except ValueError:
            r = numpy.empty(len(x), dtype=object)
            for i, y in enumerate(x):
                r[i] = y
            return r


def load(name):
    """The functions and classes of a script of render/scripts: what is left of
    it without its plots, with the names of Python 2."""
    import ast, builtins, re, unittest.mock, warnings
    if name in scripts:
        return scripts[name]
    warnings.simplefilter("ignore")
    sys.path.insert(0, sys.argv[2])
    for m in ("matplotlib", "matplotlib.pyplot", "matplotlib.patches", "healpy", "healpy.pixelfunc"):
        sys.modules[m] = unittest.mock.MagicMock()
    lines = open(os.path.join(sys.argv[2], name)).read().split("\n")
    i = 0
    while i < len(lines):
        m = re.match(r"^(\s*)print\b\s*(.*)$", lines[i])
        if m and not m.group(2).startswith("("):
            j, text = i, m.group(2)
            while text.count("(") > text.count(")") and j + 1 < len(lines):
                j += 1
                text += "\n" + lines[j]
            lines[i:j + 1] = [m.group(1) + "print(" + text + ")"]
        i += 1
    tree = ast.parse("\n".join(lines))
    ns = {"__name__": name, "xrange": range, "print": lambda *a, **k: None,
          "map": lambda *a: list(builtins.map(*a)), "zip": lambda *a: list(builtins.zip(*a)),
          "filter": lambda *a: list(builtins.filter(*a))}
    flags = 0
    for node in tree.body:
        if not isinstance(node, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Assign)):
            continue
        try:
            exec(compile(ast.Module([node], []), name, "exec"), ns)
        except Exception:
            if not isinstance(node, ast.Assign):
                raise
        if "np" in ns:
            ns["np"] = Numpy2()
    scripts[name] = ns
    return ns


def call_script(q):
    """Evaluates an expression in the names of a script; its value is a list of
    arrays."""
    import numpy as np
    ns = dict(load(q["names"][0]))
    for k, b in q["arrays"].items():
        ns[k] = np.frombuffer(base64.b64decode(b), dtype="<f8").copy()
    for k, x in (q["keywords"] or {}).items():
        ns[k] = int(x) if x == int(x) else x
    ns["text"] = q.get("text", "")
    r = eval(q["names"][1], ns)
    out = {"n": array(np.array([float(len(r))]))}
    for i, x in enumerate(r):
        out[str(i)] = array(np.asarray(x, dtype=float))
    return {"arrays": out}


class Plots(object):
    """What is plotted: stands in for matplotlib.pyplot, its figures and axes."""

    def __init__(self, calls):
        self._calls = calls

    def __iter__(self):  # fig, ax = subplots()
        return iter((self, self))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            self._calls.append((name, a, k))
            return self
        return f


def python2(text):
    """The syntax tree of a Python 2 script, for Python 3: prints, and what /
    does to integers."""
    import ast, re
    lines = text.split("\n")
    if "print_function" not in text:
        i = 0
        while i < len(lines):
            m = re.match(r"^(\s*)print\b\s*(.*)$", lines[i])
            if m:
                j, t = i, m.group(2)
                while t.count("(") > t.count(")") and j + 1 < len(lines):
                    j += 1
                    t += "\n" + lines[j]
                lines[i:j + 1] = [m.group(1) + "print(" + t + ")"]
            i += 1
    tree = ast.parse("\n".join(lines))
    if any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and "division" in [a.name for a in n.names] for n in tree.body):
        return tree

    class Divide(ast.NodeTransformer):
        def visit_BinOp(self, node):
            self.generic_visit(node)
            if not isinstance(node.op, ast.Div):
                return node
            return ast.Call(ast.Name("__divide__", ast.Load()), [node.left, node.right], [])

        def visit_AugAssign(self, node):
            self.generic_visit(node)
            if isinstance(node.op, ast.Div):
                raise ValueError("/= is not translated")
            return node
    return ast.fix_missing_locations(Divide().visit(tree))


def divide(a, b):
    import numpy as np
    if np.asarray(a).dtype.kind in "iub" and np.asarray(b).dtype.kind in "iub":
        return a // b
    return a / b


def run_script(q):
    """Runs a script of Python 2 with arguments; what it prints and plots."""
    import builtins, contextlib, io, unittest.mock
    root = os.path.dirname(sys.argv[1])
    file = os.path.join(root, q["names"][0])
    tree = python2(open(file).read())
    calls = []
    plots, package = Plots(calls), unittest.mock.MagicMock()
    package.pyplot = plots
    ns = {"__name__": "__main__", "__file__": file, "__divide__": divide, "xrange": range, "exit": sys.exit,
          "map": lambda *a: list(builtins.map(*a)), "zip": lambda *a: list(builtins.zip(*a)),
          "filter": lambda *a: list(builtins.filter(*a)), "range": lambda *a: list(builtins.range(*a))}
    argv, mods = sys.argv, {m: sys.modules.get(m) for m in ("matplotlib", "matplotlib.pyplot", "profile")}
    if "profile" in open(file).read():
        import types
        module = types.ModuleType("profile")
        module.__dict__.update(load("profile.py"))
    else:
        module = None
    sys.argv = [file] + q["names"][1:]
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = package, plots
    if module is not None:
        sys.modules["profile"] = module
    out, status, error = io.StringIO(), 0, ""
    try:
        with contextlib.redirect_stdout(out):
            exec(compile(tree, file, "exec"), ns)
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Exception as e:
        status, error = 1, "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv = argv
        for m, v in mods.items():
            if v is None:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = v
    r = {"error": error, "text": out.getvalue(), "fields": {"status": [float(status)]}, "arrays": {}, "plots": []}
    for name, a, k in calls:
        p = {"name": name, "text": [str(x) for x in a if isinstance(x, str)], "numbers": {}}
        if name == "imshow":
            r["arrays"][str(len(r["plots"]))] = array(a[0])
        for key, x in k.items():
            if isinstance(x, str):
                p["text"].append(key + "=" + x)
            elif x is not None:
                p["numbers"][key] = [float(y) for y in x] if isinstance(x, (list, tuple)) else plain(x)
        r["plots"].append(p)
    return r


for line in inp:
    try:
        r = run(json.loads(line))
    except BaseException as e:
        r = {"error": "%s: %s" % (type(e).__name__, e)}
    out.write(json.dumps(r) + "\n")
    out.flush()
