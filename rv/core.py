"""Case runner for the runtime monitors: seeds, processes, verdicts, evidence, replay."""
import os
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
import sys
sys.dont_write_bytecode = True

import collections
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import random
import resource
import signal
import time
import traceback
import warnings
import zlib

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CZONE_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

# A case takes well below two seconds of CPU time on the unchanged tree.  A case that burns this much
# is taken for a hang of the code under test, which is a violation (every call must answer).
CASE_CPU_S = {"quick": 75.0, "thorough": 150.0}
# Nor does one need much memory (0.5 GB with everything imported); MemoryError beyond this is a violation, too.
MEMORY_B = 3 * 2**30
DEADLINE_S = {"quick": 780.0, "thorough": 3 * 3600.0}

# --------------------------------------------------------------------------------------
# random number seam: np.random.default_rng() without seed draws OS entropy.  Runs have to
# be replayable, so unseeded generators get their seed from the case.
# --------------------------------------------------------------------------------------
_orig_default_rng = np.random.default_rng
_seam = {"ss": None, "unseeded": 0, "rewrite": True}


def _default_rng(seed=None):
    if seed is None and _seam["ss"] is not None and _seam["rewrite"]:
        _seam["unseeded"] += 1
        seed = int(_seam["ss"].integers(0, 2**63 - 1))
    return _orig_default_rng(seed)


np.random.default_rng = _default_rng


class Violation(Exception):
    def __init__(self, what, info=None, key=None):
        super().__init__(what)
        self.what, self.info, self.key = what, info or {}, key


class Skip(Exception):
    """Generated case is outside the domain of the property."""


class Undecided(Exception):
    """Case could not be decided."""


class CaseTimeout(BaseException):
    pass


def _jsonable(o, depth=0):
    if isinstance(o, np.ndarray):
        if o.size > 60:
            return {"shape": list(o.shape), "head": np.ravel(o)[:30].tolist()}
        return o.tolist()
    if isinstance(o, (np.integer, np.floating, np.bool_)):
        return o.item()
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        o = list(o)
        return [_jsonable(v) for v in o[:60]]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:300]


class Ctx:
    """Everything a case needs: rng, oracle checks, event counters, descriptors."""

    def __init__(self, prop, family, index, seed, tier, known):
        self.prop, self.family, self.index, self.seed, self.tier = prop, family, index, seed, tier
        self.ss = np.random.SeedSequence([seed, zlib.crc32(f"{prop}/{family}".encode()), index])
        self.rng = np.random.Generator(np.random.PCG64(self.ss))
        self.events = collections.Counter()
        self.desc = {}
        self.checks = 0
        self.observed = 0
        self._known = known
        self.known_hits = []
        self.keys = set()

    # -- evidence ------------------------------------------------------------------
    def describe(self, **kw):
        self.desc.update(kw)

    def event(self, name, n=1):
        self.events[name] += int(n)

    def observe(self, n=1):
        """n non-trivial observations (atoms, points, pairs...) were judged by an oracle."""
        self.observed += int(n)

    def state(self, *key):
        self.keys.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    # -- oracles -------------------------------------------------------------------
    def fail(self, what, key=None, **info):
        if key is not None and key in self._known:
            self.known_hits.append(key)
            return
        raise Violation(what, info, key)

    def check(self, cond, what, key=None, **info):
        self.checks += 1
        if not bool(cond):
            self.fail(what, key, **info)

    def close(self, a, b, tol, what, **info):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.checks += 1
        if a.shape != b.shape:
            self.fail(f"{what}: shape {a.shape} in place of {b.shape}", **info)
        if a.size == 0:
            return
        d = np.abs(a - b)
        if not np.all(np.isfinite(d)) or np.max(d) > tol:
            self.fail(f"{what}: deviation {np.max(d) if np.all(np.isfinite(d)) else 'not finite'} > {tol}",
                      got=a, expected=b, **info)

    def raises(self, fn, what, excs=Exception):
        self.checks += 1
        try:
            r = fn()
        except excs:
            self.event("refusals")
            return
        self.fail(f"{what}: accepted", result=r)

    # -- random helpers --------------------------------------------------------------
    def choice(self, seq):
        return seq[int(self.rng.integers(0, len(seq)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def randint(self, a, b):
        """inclusive"""
        return int(self.rng.integers(a, b + 1))


def load_known(prop):
    keys = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open:"):
                rest = line[5:].strip()
                parts = rest.split(None, 2)
                d = dict(x.split("=", 1) for x in parts[:2])
                if d["property"] == prop:
                    keys[d["key"]] = parts[2] if len(parts) > 2 else d["key"]
    return keys


# --------------------------------------------------------------------------------------
# execution of a single case
# --------------------------------------------------------------------------------------
_G = {}


def _on_timer(signum, frame):
    raise CaseTimeout()


def run_case(modname, family, index, seed, tier):
    mod = _G.get("mod") or importlib.import_module(modname)
    fam = {f.name: f for f in mod.FAMILIES}[family]
    known = _G.get("known", {})
    ctx = Ctx(mod.PROP, family, index, seed, tier, known)
    np.random.seed(int(ctx.rng.integers(0, 2**31 - 1)))
    random.seed(int(ctx.rng.integers(0, 2**31 - 1)))
    _seam["ss"] = _orig_default_rng(int(ctx.rng.integers(0, 2**62)))
    from . import probes
    probes.begin(ctx)
    res = dict(family=family, index=index, status="ok")
    t0 = time.process_time()
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S[tier] / (1 + 2 * _G.get("hangs", 0)))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fam.fn(ctx)
    except Violation as e:
        res.update(status="violation", what=e.what, info=_jsonable(e.info), key=e.key,
                   tb=traceback.format_exc(limit=-8))
    except Skip as e:
        res.update(status="skip", what=str(e))
    except Undecided as e:
        res.update(status="undecided", what=str(e))
    except CaseTimeout:
        res.update(status="violation", what="hang: no answer within the CPU limit of a case", info={}, key=None,
                   hang=True, tb=traceback.format_exc(limit=-12))
        _G["hangs"] = _G.get("hangs", 0) + 1
    except MemoryError:
        res.update(status="violation", what="memory: case needs more than the memory limit", info={}, key=None, tb=traceback.format_exc(limit=-12))
    except Exception as e:  # the code under test must not raise on valid input
        what = f"unexpected {type(e).__name__}: {str(e)[:200]}"
        tb = traceback.extract_tb(e.__traceback__)
        key = None
        for fr in reversed(tb):
            if "/czone/" in fr.filename:
                key = f"{type(e).__name__}@{os.path.basename(fr.filename)}:{fr.name}"
                break
        res.update(status="violation", what=what + (f" [{key}]" if key else ""), info={}, key=key,
                   tb=traceback.format_exc(limit=-14))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        probes.end()
        _seam["ss"] = None
    res.update(cpu=time.process_time() - t0, events=dict(ctx.events), checks=ctx.checks,
               observed=ctx.observed, known=ctx.known_hits, desc=_jsonable(ctx.desc),
               keys=sorted(ctx.keys))
    return res


def _run_chunk(args):
    modname, chunk, seed, tier = args
    out = [run_case(modname, f, i, seed, tier) for f, i in chunk]
    if out:
        out[-1]["lines"] = sorted(_new_lines)
        _new_lines.clear()
    return out


# which lines of the package the workloads of a check have run; every line reports once per worker
_new_lines = set()


def _watch_lines():
    root = os.path.join(os.path.abspath(REPO), "czone") + os.sep
    mon = sys.monitoring

    def on_line(code, line):
        if code.co_filename.startswith(root):
            _new_lines.add((code.co_filename[len(root):], line))
        return mon.DISABLE
    try:
        mon.use_tool_id(mon.COVERAGE_ID, "rv")
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    except ValueError:
        pass        # somebody else is watching


def _function_lines(path):
    """Lines inside of functions of a source file."""
    out = set()

    def walk(code, inside):
        if inside:
            out.update(l for _, _, l in code.co_lines() if l and l > code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, "co_lines"):
                walk(c, bool(c.co_flags & 1))     # functions, not bodies of classes
    walk(compile(open(path).read(), path, "exec"), False)
    return out


class Family:
    def __init__(self, name, fn, quick, thorough, what=""):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.what = what or (fn.__doc__ or "").strip().split("\n")[0]


def family(registry, quick, thorough, what=""):
    def deco(fn):
        registry.append(Family(fn.__name__, fn, quick, thorough, what))
        return fn
    return deco


# --------------------------------------------------------------------------------------
# whole check
# --------------------------------------------------------------------------------------
# how much more than the numbers given with the families the quick tier runs
QUICK_SCALE = {'C01': 6, 'C02': 3, 'C03': 9, 'C04': 6, 'C05': 12, 'C06': 12, 'C07': 12, 'C08': 5, 'C09': 4, 'C10': 3, 'C11': 12, 'C12': 7, 'C13': 7, 'C14': 12, 'C15': 8, 'C16': 7, 'C17': 9, 'C18': 2.5, 'C19': 7, 'C20': 6, 'C21': 1.5, 'C22': 12, 'C23': 2, 'C24': 12, 'C25': 7, 'C26': 2, 'C27': 7, 'C28': 4, 'C29': 1.5, 'C30': 2}


def run_check(prop, tier, seed, only=None, procs=None, scale=1.0):
    t0 = time.time()
    modname = f"rv.props.{prop.lower()}"
    evdir = os.environ.get("RV_EVIDENCE") or os.path.join(HERE, "evidence")
    first = bool(os.environ.get("RV_FIRST"))        # stop at the first violation; for trials of planted changes
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    stdout = sys.stdout
    try:
        import czone
        assert os.path.abspath(czone.__file__).startswith(os.path.abspath(REPO) + os.sep), czone.__file__
        mod = importlib.import_module(modname)
        from . import probes
        probes.install()
    except Exception as e:
        # the package under test can not even be imported
        traceback.print_exc()
        rp = os.path.join(evdir, "replays", f"{prop}-import.json")
        json.dump(dict(property=prop, what="import failed", error=repr(e)), open(rp, "w"))
        if any("/czone/" in fr.filename for fr in traceback.extract_tb(e.__traceback__)):
            print(f"VIOLATION property={prop} replay={rp} what=package cannot be imported: {e!r}")
            return 1
        print(f"NO VERDICT property={prop}: harness cannot be imported")
        return 2
    known = load_known(prop)
    _G.update(mod=mod, known=known)

    tasks = []
    for f in mod.FAMILIES:
        if only and f.name not in only:
            continue
        n = f.quick if tier == "quick" else f.thorough
        n = max(1, int(round(n * scale * (QUICK_SCALE.get(prop, 1) if tier == "quick" else 1))))
        tasks += [(f.name, i) for i in range(n)]
    order = np.random.Generator(np.random.PCG64(12345)).permutation(len(tasks))
    tasks = [tasks[i] for i in order]
    procs = procs or int(os.environ.get("RV_PROCS", "8"))
    chunk = max(1, min(25, len(tasks) // (procs * 6) or 1))
    chunks = [(modname, tasks[i:i + chunk], seed, tier) for i in range(0, len(tasks), chunk)]

    results = []
    trouble = []
    if procs == 1:
        resource.setrlimit(resource.RLIMIT_DATA, (MEMORY_B, MEMORY_B))
        _watch_lines()
        for c in chunks:
            results += _run_chunk(c)
            if first and any(r["status"] == "violation" and r["key"] not in known for r in results):
                break
    else:
        ctx = mp.get_context("fork")
        ex = cf.ProcessPoolExecutor(procs, mp_context=ctx, initializer=_quiet)
        futs = [ex.submit(_run_chunk, c) for c in chunks]
        try:
            for fu in cf.as_completed(futs, timeout=DEADLINE_S[tier]):
                results += fu.result()
                if sum(bool(r.get("hang")) for r in results) >= 3:
                    trouble.append("stopped after hangs")
                    break
        except cf.TimeoutError:
            trouble.append("deadline of the check reached")
        except cf.process.BrokenProcessPool:
            trouble.append("a worker process ended")
        finally:
            for fu in futs:
                fu.cancel()
            pr = list((ex._processes or {}).values())
            if trouble:
                for p_ in pr:
                    p_.kill()
            ex.shutdown(wait=not trouble, cancel_futures=True)

    results.sort(key=lambda r: (r["family"], r["index"]))
    return _report(mod, prop, tier, seed, results, trouble, known, t0, len(tasks), evdir, only, scale)


def _quiet():
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY_B, MEMORY_B))
    _watch_lines()
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    os.dup2(devnull.fileno(), 1)


def _report(mod, prop, tier, seed, results, trouble, known, t0, ntasks, evdir, only, scale):
    events = collections.Counter()
    fams = collections.OrderedDict((f.name, dict(cases=0, nontrivial=0, skipped=0, observations=0,
                                                 oracle_checks=0, what=f.what)) for f in mod.FAMILIES
                                   if not only or f.name in only)
    distinct, statekeys, samples, known_hits = set(), set(), [], set()
    viol, undecided, slow = [], [], []
    for r in results:
        fa = fams[r["family"]]
        fa["cases"] += 1
        fa["observations"] += r["observed"]
        fa["oracle_checks"] += r["checks"]
        events.update(r["events"])
        known_hits.update(r["known"])
        statekeys.update(r["keys"])
        if r["status"] == "skip":
            fa["skipped"] += 1
        if r["status"] == "undecided":
            undecided.append(r)
        if r["status"] == "violation":
            if r["key"] in known:
                known_hits.add(r["key"])
            else:
                viol.append(r)
        if r["status"] == "ok" and r["observed"] > 0:
            h = hashlib.sha1(json.dumps([r["family"], r["desc"]], sort_keys=True).encode()).hexdigest()
            if h not in distinct:
                distinct.add(h)
                fa["nontrivial"] += 1
                if fa["nontrivial"] <= 2:
                    samples.append(dict(family=r["family"], index=r["index"], case=r["desc"],
                                        observations=r["observed"], oracle_checks=r["checks"]))
    # order of violations: cheapest first
    viol.sort(key=lambda r: (r["cpu"]))
    seen, shown = set(), []
    for r in viol:
        k = (r["family"], r["what"].split(":")[0])
        if k in seen:
            continue
        seen.add(k)
        rp = os.path.join(evdir, "replays", f"{prop}-{r['family']}-{r['index']}-s{seed}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=prop, family=r["family"], index=r["index"], seed=seed, tier=tier,
                           what=r["what"], info=r.get("info"), case=r["desc"], traceback=r.get("tb")), f, indent=1)
        shown.append((r, rp))

    ran = {}
    for r in results:
        for f, l in r.get("lines", []):
            ran.setdefault(f, set()).add(l)
    lines = {}
    for f in sorted(ran):
        every = _function_lines(os.path.join(REPO, "czone", f))
        if every & ran[f]:
            lines[f] = dict(run=len(every & ran[f]), of=len(every))
            if os.environ.get("RV_LINES"):
                lines[f]["lines"] = sorted(every & ran[f])

    low = []
    if not only and scale >= 1.0:
        for name, n in getattr(mod, "MIN_EVENTS", {}).items():
            if events.get(name, 0) < n:
                low.append(f"{name}: {events.get(name, 0)} < {n}")
        for n, fa in fams.items():
            if fa["cases"] - fa["skipped"] == 0:
                low.append(f"family {n} decided no case")

    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(distinct),
                            rule=getattr(mod, "RULE", "") + " A case counts as non-trivial if it ran to its end, its "
                                 "monitors judged at least one observation, and no other case had the same description.",
                            samples=samples, families=fams, oracle_checks=sum(f["oracle_checks"] for f in fams.values()),
                            observations=sum(f["observations"] for f in fams.values()),
                            distinct_monitor_states=len(statekeys),
                            monitored_events=dict(sorted(events.items())),
                            lines_of_package_run=lines,
                            skipped=sum(f["skipped"] for f in fams.values()),
                            undecided=len(undecided), known_findings=sorted(known_hits),
                            cpu_s=round(sum(r["cpu"] for r in results), 2),
                            max_worker_memory_mb=resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss // 1024,
                            max_case_cpu_s=round(max([r["cpu"] for r in results] or [0]), 2)),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    print(f"{prop} {tier} seed={seed}: {len(results)}/{ntasks} cases, {len(distinct)} distinct non-trivial, "
          f"{ev['coverage']['oracle_checks']} oracle checks, {ev['coverage']['observations']} observations, "
          f"{sum(events.values())} events, {wall:.1f}s wall, max case {ev['coverage']['max_case_cpu_s']}s")
    for k in sorted(known):
        if k in known_hits:
            print(f"KNOWN-FINDING: property={prop} {known[k]}")
    for r, rp in shown[:6]:
        print(f"VIOLATION property={prop} replay={rp} family={r['family']} case={r['index']} what={r['what']}")
    if viol:
        print(f"{len(viol)} violating cases")
        return 1
    for r in undecided[:5]:
        print(f"UNDECIDED {r['family']}[{r['index']}]: {r['what']}")
    for t in trouble + low:
        print("NO VERDICT:", t)
    if undecided or trouble or low:
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    if "family" not in d:
        print(json.dumps(d, indent=1))
        return run_check(d["property"], "quick", 1)
    from . import probes
    modname = f"rv.props.{d['property'].lower()}"
    mod = importlib.import_module(modname)
    probes.install()
    _G.update(mod=mod, known=load_known(d["property"]))
    r = run_case(modname, d["family"], d["index"], d["seed"], d["tier"])
    print(json.dumps(r, indent=1)[:6000])
    if r.get("tb"):
        print(r["tb"])
    if r["status"] == "violation" and r["key"] not in _G["known"]:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0 if r["status"] in ("ok", "skip", "violation") else 2
