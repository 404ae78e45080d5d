import itertools
import math
import numpy as np
from .. import core, gen, model as m

PROP = "C24"
FAMILIES = []
RULE = ("All combinations of small numbers, separations and lengths, and random large ones, loose, tight and one too short. Each answer is judged "
        "position by position; every admissible position has to occur over many seeds; tight requests have to be answered too.")
ASSUMPTIONS = ["number and separation are non-negative integers", "a choice is valid if positions lie in [m, l-m), at least m apart"]
MIN_EVENTS = {"answers": 2500, "refusals": 300, "tight": 300, "supports": 20, "long_lists": 60, "ranges": 20}


def feasible(n, m_, l):
    return n == 0 or l - 2 * m_ > (n - 1) * m_


def judge(ctx, s, n, m_, l, what="splits"):
    ctx.check(len(s) == n, f"{what}: number", got=len(s), n=n, m=m_, l=l)
    a = np.asarray(s, float)
    ctx.check(np.all(a == np.round(a)), f"{what}: not integers", s=s)
    if n:
        ctx.check(np.all(np.diff(a) >= 0), f"{what}: not sorted", s=s)
        ctx.check(a[0] >= m_ and a[-1] < l - m_, f"{what}: out of range", s=s, n=n, m=m_, l=l)
        ctx.check(np.all(np.diff(a) >= m_), f"{what}: too close", s=s, n=n, m=m_, l=l)
    ctx.event("answers")
    ctx.observe()


def ask(ctx, n, m_, l, seed=None):
    from czone.util.misc import get_N_splits
    if feasible(n, m_, l):
        s = get_N_splits(n, m_, l) if seed is None else get_N_splits(n, m_, l, seed=seed) if ctx.chance(.5) else get_N_splits(n=n, m=m_, l=l, seed=seed)
        judge(ctx, s, n, m_, l)
        if n and l - 2 * m_ == (n - 1) * m_ + 1:
            ctx.event("tight")
        if seed is not None:
            ctx.check(list(map(int, s)) == list(map(int, get_N_splits(n, m_, l, seed))), "seeded choice is not repeatable", n=n, m=m_, l=l, seed=seed)
        return s
    ctx.raises(lambda: get_N_splits(n, m_, l), f"impossible request (n={n}, m={m_}, l={l})", ValueError)


@core.family(FAMILIES, 36, 36, "all small requests")
def small(ctx):
    n, m_ = divmod(ctx.index, 6)
    for l in range(1, 2 * m_ + (n + 1) * m_ + 8):
        for k in range(2):
            ask(ctx, n, m_, l, None if k == 0 else ctx.randint(0, 1000))
    ctx.describe(n=n, m=m_)
    ctx.observe()


@core.family(FAMILIES, 900, 12000, "random requests, loose, tight and impossible")
def requests(ctx):
    for _ in range(4):
        n, m_ = ctx.randint(1, 25), ctx.randint(0, 30)
        least = 2 * m_ + (n - 1) * m_ + 1
        r = ctx.rng.random()
        l = least if r < .25 else least - 1 if r < .4 else least + ctx.randint(1, 3) if r < .6 else least + ctx.randint(1, 400) if r < .9 else ctx.randint(1, 500)
        if l < 1:
            l = 1
        ask(ctx, n, m_, l, None if ctx.chance(.3) else ctx.randint(0, 2**31))
    ctx.describe(n=n, m=m_, l=l)


@core.family(FAMILIES, 120, 2000, "long lists, many positions, large separations")
def long(ctx):
    n = ctx.choice([1, 2, 5, 40, 150, 400])
    m_ = ctx.choice([0, 1, 2, 60, 500, 4000])
    least = 2 * m_ + (n - 1) * m_ + 1
    l = least + ctx.choice([0, 1, 100, 1500, 40000, 10**6])
    seed = ctx.randint(0, 2**31)
    ask(ctx, n, m_, l, seed)
    free = l - least
    ctx.describe(n=n, m=m_, l=l)
    ctx.event("long_lists")
    if free < 100:
        ctx.observe()
        return
    # room is used to the end: the k-th position less its separations is the k-th of n draws from [0, free], give or take n
    from czone.util.misc import get_N_splits
    k = max(1, 300 // n)
    F = []
    for s in ctx.rng.integers(0, 2**31, k):
        x = get_N_splits(n, m_, l, int(s))
        judge(ctx, x, n, m_, l, "splits of a long list")
        F.append(np.asarray(x, float) - m_ - m_ * np.arange(n))
    F = np.concatenate(F)
    lo, hi = F.min() / free, F.max() / free
    # 300 or more positions: all of them below (above) a tenth of the room has a chance below 1e-13
    ctx.check(lo < .5 and hi > .5, "positions keep to one half of the list", n=n, m=m_, l=l, lowest=lo, highest=hi)
    if free > 20 * n:
        ctx.check(lo < .1 and hi > .9, "positions avoid an end of the list", n=n, m=m_, l=l, lowest=lo, highest=hi)
        ctx.event("ranges")


def admissible(n, m_, l):
    """Positions that are part of a valid choice."""
    out = set()
    for p in range(m_, l - m_):
        # k to the left, n-1-k to the right
        for k in range(n):
            if p - m_ >= k * m_ and (l - m_ - 1) - p >= (n - 1 - k) * m_:
                out.add(p)
    return out


@core.family(FAMILIES, 40, 600, "every admissible position occurs")
def support(ctx):
    from czone.util.misc import get_N_splits
    n, m_ = ctx.randint(1, 4), ctx.randint(1, 5)
    l = 2 * m_ + (n - 1) * m_ + ctx.randint(1, 5)
    adm = admissible(n, m_, l)
    seen, sets = set(), set()
    seeds = ctx.rng.integers(0, 2**31, 1500)
    for i, s in enumerate(seeds):
        x = tuple(int(v) for v in get_N_splits(n, m_, l, int(s)))
        ctx.check(set(x) <= adm, "position that is part of no valid choice", x=x, n=n, m=m_, l=l)
        seen |= set(x)
        sets.add(x)
    ctx.check(seen == adm, "admissible positions never occur", missing=sorted(adm - seen), n=n, m=m_, l=l)
    free = l - 2 * m_ - (n - 1) * m_ - 1
    total = math.comb(free + n, n)
    if total > 1:
        ctx.check(len(sets) > 1, "the same choice for every seed", n=n, m=m_, l=l)
    ctx.event("supports")
    ctx.observe(len(seeds))
    ctx.describe(n=n, m=m_, l=l, choices=total, seen=len(sets))
    # unseeded calls differ too
    if total >= 4:
        u = {tuple(int(v) for v in get_N_splits(n, m_, l)) for _ in range(60)}
        ctx.check(len(u) > 1, "unseeded calls always give the same choice", n=n, m=m_, l=l)
