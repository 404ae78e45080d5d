#!/opt/venv/bin/python -B
"""trigger.py CXX --count OUT.json            how often each (function, trigger) pair occurs in the check
   trigger.py CXX --plant FUNC TRIGGER        run the check with FUNC giving a wrong answer whenever TRIGGER holds

Wrong answers in the running process, without a change of the sources: every function and method of czone can be made to
answer wrongly when its inputs have one of the properties below.  A pair that never occurs is an input the workload
lacks; one that occurs and stays undetected is something the monitors do not judge (or nothing anybody can see)."""
import copy, functools, inspect, json, os, sys, weakref
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv import core
import multiprocessing as mp
import numpy as np

MODS = ["volume.algebraic", "volume.volume", "volume.voxel", "generator.generator", "generator.amorphous_algorithms",
        "molecule.molecule", "prefab.prefab", "prefab.wulff", "scene.scene", "surface.adsorbate", "surface.alpha_shape",
        "transform.post", "transform.strain", "transform.transform", "util.measure", "util.misc", "viz.viz"]


def arrays(args):
    for a in args:
        if isinstance(a, np.ndarray):
            yield a
        elif isinstance(a, (list, tuple)) and a and not isinstance(a[0], str):
            try:
                b = np.asarray(a)
            except Exception:
                continue
            if b.dtype.kind in "fiu":
                yield b


def numeric(a):
    return a.dtype.kind in "fiu" and a.size


def state(self):
    out = []
    for v in getattr(self, "__dict__", {}).values():
        if isinstance(v, np.ndarray):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            out += [x for x in v if isinstance(x, np.ndarray)]
    return out


def scalars(self):
    return [v for v in getattr(self, "__dict__", {}).values() if isinstance(v, (int, float, np.number)) and not isinstance(v, bool)]


def arr_triggers(pre, A):
    A = [a for a in A if numeric(a)]
    if not A:
        return
    a = A[0]
    mx = np.abs(a).max()
    if (a < 0).all(): yield pre + "neg"
    if (a > 0).all(): yield pre + "pos"
    if mx > 300: yield pre + "big"
    if mx < 0.1 and mx > 0: yield pre + "tiny"
    if a.dtype != np.float64: yield pre + "dtype-" + a.dtype.name
    if not a.flags.c_contiguous: yield pre + "strided"
    if not a.flags.writeable: yield pre + "readonly"
    if a.ndim == 1: yield pre + "1d"
    if a.ndim == 2:
        n = a.shape[0]
        if n == 1: yield pre + "one"
        if n == 2: yield pre + "two"
        if n == 3: yield pre + "three"
        if n > 64: yield pre + "gt64"
        if n > 256: yield pre + "gt256"
        if n > 1000: yield pre + "gt1000"
        if n > 5000: yield pre + "gt5000"
        if 1 < n < 200 and len(np.unique(a, axis=0)) < n: yield pre + "dups"
        if (np.abs(a).sum(1) == 0).any(): yield pre + "zerorow"
        if n > 1 and (np.ptp(a, axis=0) == 0).any(): yield pre + "flat"
        if a.shape[1] == 3 and n > 1 and np.abs(a).mean(0).max() > 50 * (np.ptp(a, axis=0).max() + 1e-9): yield pre + "far"
    elif a.ndim == 1 and a.size == 3:
        if (a == 0).sum() == 2: yield pre + "axis"
        if not a.any(): yield pre + "zero"
    if any(not np.isfinite(x).all() for x in A if x.dtype.kind == "f"): yield pre + "nonfinite"


class Hist:
    """what was seen before with the same object"""
    def __init__(self):
        self.d = {}

    def get(self, o):
        r = self.d.get(id(o))
        if r is None or r[0]() is not o:
            try:
                r = (weakref.ref(o), {})
            except TypeError:
                return None
            self.d[id(o)] = r
            if len(self.d) > 20000:
                self.d.clear()
        return r[1]


HIST = Hist()


def triggers(name, self, args, kw):
    t = list(arr_triggers("arg-", list(arrays(list(args) + list(kw.values())))))
    if self is not None:
        t += list(arr_triggers("self-", state(self)))
        s = [float(x) for x in scalars(self)]
        if any(abs(x) > 100 for x in s): t.append("scalar-big")
        if any(0 < abs(x) < 0.5 for x in s): t.append("scalar-small")
        if any(isinstance(x, (int, np.integer)) for x in scalars(self)): t.append("scalar-int")
        if any(isinstance(x, np.float32) for x in scalars(self)): t.append("scalar-f32")
    for i, a in enumerate(args):
        if isinstance(a, (list, tuple)): t.append(f"a{i}-{type(a).__name__}{min(len(a), 4)}")
        elif isinstance(a, (int, np.integer)) and not isinstance(a, bool):
            t.append(f"a{i}-int"); t += [f"a{i}-neg"] * (a < 0) + [f"a{i}-gt20"] * (a > 20) + [f"a{i}-is{a}"] * (0 <= a < 3)
        elif isinstance(a, (float, np.floating)):
            t += [f"a{i}-neg"] * bool(a < 0) + [f"a{i}-gt20"] * bool(a > 20) + [f"a{i}-zero"] * bool(a == 0) + [f"a{i}-small"] * bool(0 < abs(a) < 0.1)
        elif a is None: t.append(f"a{i}-none")
        elif isinstance(a, bool): t.append(f"a{i}-{a}")
        elif type(a).__module__.startswith("czone"): t.append(f"a{i}-{type(a).__name__}")
    for k, a in kw.items():
        if isinstance(a, bool) or a is None: t.append(f"kw-{k}={a}")
        elif isinstance(a, (int, float, np.number)): t.append(f"kw-{k}-{type(a).__name__}" + ("-neg" if a < 0 else "-zero" if a == 0 else "-big" if a > 100 else ""))
        else: t.append(f"kw-{k}")
    o = self
    if o is None:
        o = next((a for a in list(args) + list(kw.values()) if hasattr(a, "__weakref__") or isinstance(a, np.ndarray)), None)
    h = HIST.get(o) if o is not None else None
    if h is not None:
        n = h[name] = h.get(name, 0) + 1
        t.append({1: "call-1", 2: "call-2", 3: "call-3"}.get(n, "call-4+"))
        if n > 1000: t.append("call-1000+")
    if self is not None and type(self).__module__.startswith("czone"):
        t.append("is-" + type(self).__name__)
        d = self.__dict__
        for k, v in d.items():
            if v is None: t.append(f"self.{k}-none")
            elif isinstance(v, (list, tuple, dict)): t.append(f"self.{k}-len{min(len(v), 4)}")
            elif isinstance(v, bool): t.append(f"self.{k}-{v}")
            elif type(v).__module__.startswith("czone"): t.append(f"self.{k}-{type(v).__name__}")
    return t


def wrong(r):
    """r made slightly wrong; None if there is nothing to make wrong"""
    if isinstance(r, np.ndarray):
        if r.size == 0:
            return None
        r = np.array(r)
        if r.dtype.kind == "b":
            r.reshape(-1)[r.size // 2] ^= True
        elif r.dtype.kind == "f":
            v = r.reshape(-1)
            i = r.size // 2
            v[i] = v[i] + 0.03 * max(1.0, abs(v[i])) if np.isfinite(v[i]) else 0.0
            r = v.reshape(r.shape)
        elif r.dtype.kind in "iu":
            r.reshape(-1)[r.size // 2] += 1
        else:
            return None
        return r
    if isinstance(r, (bool, np.bool_)):
        return not r
    if isinstance(r, (int, np.integer)):
        return r + 1
    if isinstance(r, (float, np.floating)):
        return type(r)(r * 1.03 + 0.01)
    if isinstance(r, tuple):
        for i, x in enumerate(r):
            w = wrong(x)
            if w is not None:
                return r[:i] + (w,) + r[i + 1:]
        return None
    if isinstance(r, list):
        return r[:-1] if r else None
    if r is not None and type(r).__module__.startswith("czone"):
        try:
            q = copy.deepcopy(r)
        except Exception:
            return None
        for k, v in q.__dict__.items():
            w = wrong(v) if isinstance(v, (np.ndarray, float)) else None
            if w is not None:
                q.__dict__[k] = w
                return q
    return None


class Log:
    """pairs seen, collected through a file descriptor opened for append"""
    def __init__(self, path):
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        self.n = {}
        self.calls = {}

    def add(self, fn, trigs):
        for t in trigs:
            n = self.n[(fn, t)] = self.n.get((fn, t), 0) + 1
            if n in (1, 5, 25):
                os.write(self.fd, f"{fn}\t{t}\t{n}\n".encode())


def install(count=None, plant=None):
    import importlib
    mods = {m: importlib.import_module("czone." + m) for m in MODS}
    log = Log(count) if count else None
    hits = [0]

    def wrap(fn, qual, bound, setter=False):
        @functools.wraps(fn)
        def g(*a, **k):
            self, rest = (a[0], a[1:]) if bound and a else (None, a)
            if plant and qual != plant[0]:
                return fn(*a, **k)
            if log:
                log.calls[qual] = log.calls.get(qual, 0) + 1
                if log.calls[qual] > 3000 and log.calls[qual] % 10:
                    return fn(*a, **k)
            try:
                t = triggers(qual, self, rest, k)
            except Exception:
                t = []
            if log:
                log.add(qual, t + ["any"])
                return fn(*a, **k)
            if plant[1] in t or plant[1] == "any":
                r0 = None
                if setter or MUT.get(qual):
                    if MUTMODE == "skip":
                        return None
                r0 = fn(*a, **k)
                w = wrong(r0)
                if w is not None:
                    hits[0] += 1
                    return w
                return r0
            return fn(*a, **k)
        return g
    allmods = [m for n, m in sys.modules.items() if n.startswith("czone") and m]
    for mn, m in mods.items():
        for n, o in list(vars(m).items()):
            if inspect.isfunction(o) and o.__module__ == m.__name__:
                q = f"{mn}.{n}"
                if plant and q != plant[0]:
                    continue
                w = wrap(o, q, False)
                for mm in allmods:
                    for n2, o2 in list(vars(mm).items()):
                        if o2 is o:
                            setattr(mm, n2, w)
            elif inspect.isclass(o) and o.__module__ == m.__name__:
                for n2, f in list(vars(o).items()):
                    q = f"{mn}.{n}.{n2}"
                    if inspect.isfunction(f) and not (n2.startswith("__") and n2 != "__init__"):
                        setattr(o, n2, wrap(f, q, True))
                    elif isinstance(f, property):
                        setattr(o, n2, property(wrap(f.fget, q + ".get", True) if f.fget else None,
                                                wrap(f.fset, q + ".set", True, True) if f.fset else None, None, f.__doc__))
                    elif isinstance(f, classmethod):
                        setattr(o, n2, classmethod(wrap(f.__func__, q, True)))
                    elif isinstance(f, staticmethod):
                        setattr(o, n2, staticmethod(wrap(f.__func__, q, False)))
    return hits


# methods which work by changing their object: the wrong answer is not to do it
MUT = {}
MUTMODE = "skip"
if __name__ == "__main__":
    prop = sys.argv[1]
    if sys.argv[2] == "--count":
        out = sys.argv[3]
        install(count=out)
        rc = core.run_check(prop, "quick", 1, None, int(os.environ.get("RV_PROCS", "8")), float(os.environ.get("SC", "1")))
    else:
        fn, trig = sys.argv[3:5]
        if os.environ.get("SKIP"):
            MUT[fn] = 1
        install(plant=(fn, trig))
        os.environ["RV_FIRST"] = "1"
        rc = core.run_check(prop, "quick", 1, None, 1, float(os.environ.get("SC", "1")))
    sys.stdout.flush()
    os._exit(rc)
