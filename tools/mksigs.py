"""Reads the public names and signatures of the installed third-party libraries into mstat/data/sigs.json.

Run with the interpreter the package is installed for (/opt/venv/bin/python tools/mksigs.py).  The file is reference data of the checks,
like a header file; the checks themselves import nothing of the package or of these libraries.
"""
import builtins, collections, concurrent.futures, copy, functools, importlib, inspect, itertools, json, math, operator, os, pathlib, pickle
import platform, random, re, sys, time, logging, types
import matplotlib
matplotlib.use("Agg")
import numpy, pandas, scipy.stats, scipy.special, scipy.spatial.distance, matplotlib.pyplot


def sig(o):
    try:
        s = inspect.signature(o)
    except (ValueError, TypeError):
        return None
    pos, kwo, need, var, vkw, ponly = [], [], 0, False, False, 0
    needk = []
    for p in s.parameters.values():
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            pos.append(p.name)
            if p.kind is p.POSITIONAL_ONLY:
                ponly += 1
            if p.default is p.empty:
                need = len(pos)
        elif p.kind is p.KEYWORD_ONLY:
            kwo.append(p.name)
            if p.default is p.empty:
                needk.append(p.name)
        elif p.kind is p.VAR_POSITIONAL:
            var = True
        else:
            vkw = True
    return [pos, need, ponly, kwo, needk, var, vkw]


def names(o):
    return sorted(n for n in dir(o))


out = {"names": {}, "sigs": {}, "types": {}}
mods = ["numpy", "numpy.linalg", "numpy.random", "numpy.ma", "numpy.fft", "math", "itertools", "functools", "operator", "copy", "time", "os", "os.path", "pathlib", "pickle",
        "random", "re", "sys", "platform", "logging", "types", "typing", "collections", "collections.abc", "numbers", "abc", "inspect", "warnings", "datetime",
        "concurrent", "concurrent.futures", "multiprocessing", "scipy", "scipy.stats", "scipy.special", "scipy.spatial", "scipy.spatial.distance",
        "scipy.optimize", "pandas", "matplotlib", "matplotlib.pyplot", "builtins", "json", "string", "decimal", "heapq", "bisect", "threading",
        "queue", "tempfile", "shutil", "textwrap", "enum", "dataclasses", "statistics", "traceback", "contextlib", "uuid", "hashlib"]
for m in mods:
    try:
        M = importlib.import_module(m)
    except ImportError:
        continue
    out["names"][m] = names(M)
    for n in dir(M):
        if n.startswith("_") and m != "builtins":
            continue
        o = getattr(M, n, None)
        if callable(o) and (m.split(".")[0] in ("numpy", "math", "itertools", "copy", "operator", "functools", "random", "time") or m in (
                "concurrent.futures", "os", "os.path", "pickle", "scipy.special", "scipy.spatial.distance", "builtins", "pandas")):
            s = sig(o)
            if s is None and isinstance(o, numpy.ufunc):
                s = [["x%d" % i for i in range(o.nin)] + ["out"] * 1, o.nin, o.nin, ["out", "where", "casting", "order", "dtype", "subok", "signature", "axes", "axis", "keepdims"], [], False, False]
            elif isinstance(o, numpy.ufunc):
                s = [["x%d" % i for i in range(o.nin)] + ["out"] * 1, o.nin, o.nin, ["out", "where", "casting", "order", "dtype", "subok", "signature", "axes", "axis", "keepdims"], [], False, False]
            if s is not None:
                out["sigs"][f"{m}.{n}"] = s
g = numpy.random.default_rng()
for label, o in (("generator", g), ("array", numpy.zeros(3)), ("list", [1]), ("dict", {}), ("str", ""), ("set", {1}), ("tuple", (1,)), ("int", 1), ("float", 1.0),
                 ("logger", logging.getLogger("x")), ("frame", pandas.DataFrame()), ("Path", pathlib.Path(".")), ("future", concurrent.futures.Future()), ("axes", matplotlib.pyplot.figure().add_subplot()), ("axes3d", matplotlib.pyplot.figure().add_subplot(projection="3d")),
                 ("figure", matplotlib.pyplot.figure()), ("series", pandas.Series(dtype=float)), ("executor", concurrent.futures.ThreadPoolExecutor()), ("file", open(os.devnull)),
                 ("exception", Exception()), ("handler", logging.StreamHandler()), ("groupby", pandas.DataFrame({"a": [1]}).groupby("a")), ("scipyspline", None), ("complex", 1j), ("deque", collections.deque()),
                 ("axis", matplotlib.pyplot.figure().add_subplot().xaxis), ("spine", matplotlib.pyplot.figure().add_subplot().spines), ("pandasplot", pandas.DataFrame({"a": [1]}).plot), ("function", sig), ("counter", collections.Counter())):
    out["types"][label] = names(o)
    for n in dir(o):
        if n.startswith("_"):
            continue
        f = getattr(type(o), n, None)
        if callable(f):
            s = sig(getattr(o, n)) if label in ("generator", "list", "dict", "logger", "Path", "future", "str", "set", "array", "tuple") else None
            if s is not None:
                out["sigs"][f"<{label}>.{n}"] = s
# legacy signatures that inspect cannot read
out["versions"] = {"numpy": numpy.__version__, "python": platform.python_version(), "scipy": scipy.__version__, "pandas": pandas.__version__}
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mstat", "data", "sigs.json")
with open(path, "w") as f:
    json.dump(out, f, sort_keys=True, separators=(",", ":"))
print(len(out["sigs"]), "signatures", os.path.getsize(path))
for k in ("numpy.clip", "numpy.where", "numpy.exp", "numpy.dot", "numpy.array", "numpy.max", "numpy.concatenate", "<generator>.uniform", "<generator>.choice", "<generator>.random", "<array>.sum", "<list>.index", "numpy.zeros", "numpy.arange",
          "builtins.len", "builtins.max", "builtins.int", "builtins.range", "builtins.isinstance", "builtins.sorted", "builtins.abs", "math.gamma"):
    print(k, out["sigs"].get(k))
