import numpy as np
from .. import core, gen, model as m
from ..digest import digest
from . import _world as W

PROP = "C30"
FAMILIES = []
RULE = ("Scenes of volumes, unions and molecules with any bounds, and bare coordinates, shown by every view function with default and given "
        "angles; the panels of the figure are read back: positions, colours, limits and directions on the screen.")
ASSUMPTIONS = ["views are drawn with the Agg backend of matplotlib; ipywidgets is not installed, its sliders are replaced by stand-ins that call back "
               "with any value of their range",
               "with more than ten elements (the colour cycle of matplotlib) elements may share colours"]
MIN_EVENTS = {"panels": 100, "points_shown": 5000, "directions": 200, "slider_moves": 20}

SCREEN = {"XY projection": (0, 1), "XZ projection": (0, 2), "YZ projection": (1, 2)}


def read(ax):
    """positions and colours shown in a panel"""
    P, C = [np.zeros((0, 3))], [np.zeros((0, 4))]
    for c in ax.collections:
        x = np.array([np.asarray(q, float) for q in c._offsets3d]).T
        f = np.array(c.get_facecolors())
        P.append(x)
        C.append(np.repeat(f[:1], len(x), axis=0) if len(f) != len(x) else f)
    for l in ax.lines:
        x = np.array(l.get_data_3d(), float).T
        P.append(x)
        C.append(np.tile(np.array(__import__("matplotlib").colors.to_rgba(l.get_color())), (len(x), 1)))
    P, C = np.vstack(P), np.vstack(C)
    return P, np.round(C[:, :3], 6), C[:, 3]


def panels(ctx, fig, X, Z, bounds, azim, elev, what):
    from mpl_toolkits.mplot3d import proj3d
    axes = {a.get_title(): a for a in fig.axes}
    ctx.check(set(axes) == set(SCREEN) | {"Rotatable view"} and len(fig.axes) == 4, f"{what}: panels", titles=sorted(axes))
    colours = {}
    for t, ax in axes.items():
        P, C, opaque = read(ax)
        ctx.check(ax.get_visible() and np.all(opaque > .05), f"{what}: atoms can not be seen", panel=t)
        ctx.check(P.shape == np.shape(X), f"{what}: number of atoms shown", panel=t, got=len(P), expected=len(X))
        m.same_rows(ctx, P, np.zeros(len(P), int) if Z is None else np.zeros(len(P), int), X, np.zeros(len(X), int), f"{what}: atoms of panel {t}")
        if Z is not None:
            # colours: one for each element, the same in all panels
            used = {}
            order = {tuple(np.round(x, 9)): set() for x in X}
            for x, z in zip(X, Z):
                order[tuple(np.round(x, 9))].add(int(z))
            for x, c in zip(P, C):
                el = order.get(tuple(np.round(x, 9)), set())
                if len(el) == 1:
                    used.setdefault(next(iter(el)), set()).add(tuple(c))
            ctx.check(all(len(v) == 1 for v in used.values()), f"{what}: element shown in several colours", panel=t)
            flat = [next(iter(v)) for v in used.values()]
            if len(set(np.asarray(Z).tolist())) <= 10:
                ctx.check(len(set(flat)) == len(flat), f"{what}: elements share a colour", panel=t)
            else:
                ctx.event("many_elements")
            for z, v in used.items():
                ctx.check(colours.setdefault(z, v) == v, f"{what}: colours differ between panels", panel=t, element=z)
        if bounds is not None:
            lim = np.array([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()])
            ctx.close(lim.T, bounds, 1e-9 * max(1., np.max(np.abs(bounds))), f"{what}: limits of panel {t}")
        if t in SCREEN:
            M = ax.get_proj()
            lim = np.array([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()])
            c, w = lim.mean(axis=1), np.ptp(lim, axis=1)

            def scr(p):
                return np.array(proj3d.proj_transform(*p, M)[:2])
            h, v = SCREEN[t]
            for k in range(3):
                e = np.zeros(3)
                e[k] = .1 * w[k]
                d = scr(c + e) - scr(c - e)
                n = np.abs(d) / max(1e-12, np.max(np.abs(scr(lim[:, 1]) - scr(lim[:, 0]))))
                if k == h:
                    ctx.check(d[0] > 0 and n[1] < 1e-6, f"{what}: panel {t} does not show {'XYZ'[k]} to the right", d=d)
                elif k == v:
                    ctx.check(d[1] > 0 and n[0] < 1e-6, f"{what}: panel {t} does not show {'XYZ'[k]} upwards", d=d)
                else:
                    ctx.check(np.all(n < 1e-6), f"{what}: panel {t} is not seen along {'XYZ'[k]}", d=d)
                ctx.event("directions")
            lab = (ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel())
            ctx.check(lab[h] == "XYZ"[h] and lab[v] == "XYZ"[v], f"{what}: labels of panel {t}", labels=lab)
        else:
            ctx.check(abs(ax.azim - azim) < 1e-9 and abs(ax.elev - elev) < 1e-9, f"{what}: angles of the rotatable view", got=(ax.azim, ax.elev), expected=(azim, elev))
        ctx.event("panels")
    # panels stand side by side
    fig.canvas.draw()
    box = [a.get_position() for a in fig.axes]
    for i in range(4):
        ctx.check(min(box[i].width, box[i].height) > .05, f"{what}: panel without extent")
        for j in range(i):
            ov = [max(0., min(box[i].x1, box[j].x1) - max(box[i].x0, box[j].x0)), max(0., min(box[i].y1, box[j].y1) - max(box[i].y0, box[j].y0))]
            ctx.check(ov[0] * ov[1] < .1 * min(box[i].width * box[i].height, box[j].width * box[j].height), f"{what}: panels cover each other", overlap=ov)
    ctx.event("points_shown", 4 * len(X))
    ctx.observe(4 * len(X))


def angles(ctx):
    kw = {}
    if ctx.chance(.6):
        kw["azim"] = float(ctx.rng.uniform(-180, 180)) if ctx.chance(.6) else ctx.choice([0, 0., 90., -90, 180., 45])
    if ctx.chance(.6):
        kw["elev"] = float(ctx.rng.uniform(-90, 90)) if ctx.chance(.6) else ctx.choice([0, 0., 90., -90, 45])
    return kw, kw.get("azim", -60), kw.get("elev", 30)


@core.family(FAMILIES, 40, 800, "views of scenes")
def scenes(ctx):
    import matplotlib.pyplot as plt
    from czone.viz import viz
    w = W.World(ctx)
    for _ in range(ctx.randint(1, 3)):
        w.op_add()
    if ctx.chance(.3):
        from czone.molecule.molecule import Molecule
        n = ctx.choice([11, 14, 30, 90])
        mol = Molecule(ctx.rng.permutation(np.arange(1, 95))[:n], gen.point(ctx) + ctx.rng.normal(size=(n, 3)) * 9)
        mol.print_warnings = False
        w.scene.add_object(mol)
        w.scene.populate()
    else:
        w.op_populate()
    sc = w.scene
    if ctx.chance(.8):
        lo = gen.point(ctx)
        sc.bounds = np.array([lo, lo + ctx.rng.uniform(3, 60, 3)])
    X, Z = np.array(sc.all_atoms), np.array(sc.all_species)
    if not len(X):
        raise core.Skip("scene without atoms")
    before = digest(sc)
    try:
        for f in (viz.simple_scene_view, viz.simple_scene_view_with_rotate):
            plt.close("all")
            kw, az, el = angles(ctx)
            f(sc, **kw)
            ctx.check(len(plt.get_fignums()) == 1, "number of figures", n=len(plt.get_fignums()))
            panels(ctx, plt.gcf(), X, Z, np.array(sc.bounds, float), az, el, f.__name__)
            ctx.check(digest(sc) == before, "scene changed by showing it")
            if f is viz.simple_scene_view and ctx.chance(.5):       # the scene goes on between views
                w.op_transform()
                sc.populate()
                sc.bounds = np.array(sc.bounds) + ctx.rng.uniform(-1, 1, 3)
                X, Z = np.array(sc.all_atoms), np.array(sc.all_species)
                before = digest(sc)
                ctx.event("changed_between_views")
                if not len(X):
                    break
            for bad in (X, None, [sc], sc.objects[0]):
                ctx.raises(lambda: f(bad), "view of something that is no scene", (TypeError,))
    finally:
        plt.close("all")
    ctx.describe(objects=[e.shadow.kind for e in w.entries], atoms=len(X), elements=sorted(set(Z.tolist())))


@core.family(FAMILIES, 30, 600, "views of coordinates")
def coordinates(ctx):
    import matplotlib.pyplot as plt
    from czone.viz import viz
    n = ctx.choice([1, 2, 10, 200])
    X = gen.point(ctx, 40.) + ctx.rng.normal(size=(n, 3)) * ctx.rng.uniform(.1, 30, 3)
    X0 = X.copy()
    kw, az, el = angles(ctx)
    try:
        plt.close("all")
        viz.simple_view_with_rotate(X, **kw)
        panels(ctx, plt.gcf(), X0, None, None, az, el, "simple_view_with_rotate")
        ctx.check(np.array_equal(X, X0), "coordinates were changed")
    finally:
        plt.close("all")
    ctx.describe(n=n, angles=sorted(kw), at=np.round(X0[0], 2))


class Fake:
    """Stand-in for the part of ipywidgets a slider view can use: interact calls the function with the values of the sliders."""

    def __init__(self, ctx):
        self.made, self.called = [], []
        outer = self

        class Slider:
            def __init__(self, value=None, min=0., max=100., step=.1, description="", **kw):
                if min > max or not min <= value <= max:
                    raise ValueError("slider range")
                self.value, self.min, self.max, self.step, self.description = value, min, max, step, description
                outer.made.append(self)

        class Layout:
            def __init__(self, **kw):
                self.kw = kw

        class Fixed:
            def __init__(self, value):
                self.value = value

        def interact(f, **kw):
            def update(**new):
                for k, v in kw.items():
                    if isinstance(v, Slider) and k in new:
                        v.value = new[k]
                return f(**{k: v.value if isinstance(v, (Slider, Fixed)) else v for k, v in kw.items()})
            outer.called.append((f, kw, update))
            update()
            return f
        self.names = dict(FloatSlider=Slider, Layout=Layout, fixed=Fixed, interact=interact, interact_manual=interact, interactive=interact)


@core.family(FAMILIES, 24, 300, "slider views, with stand-ins for the sliders")
def widgets(ctx):
    import importlib.util
    import sys
    import types
    import matplotlib.pyplot as plt
    from czone.viz import viz as real
    fake = Fake(ctx)
    mod = types.ModuleType("ipywidgets")
    mod.__dict__.update(fake.names)
    old = sys.modules.get("ipywidgets")
    sys.modules["ipywidgets"] = mod
    try:
        spec = importlib.util.spec_from_file_location("czone.viz.viz_with_sliders", real.__file__)
        viz = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(viz)
        plt.close("all")
        if ctx.index % 2:
            w = W.World(ctx, kinds=("molecule",))
            w.op_add()
            w.op_populate()
            lo = gen.point(ctx)
            w.scene.bounds = np.array([lo, lo + ctx.rng.uniform(3, 60, 3)])
            arg, X, Z, b = w.scene, np.array(w.scene.all_atoms), np.array(w.scene.all_species), np.array(w.scene.bounds)
            before = digest(arg)
            viz.simple_scene_widget(arg)
        else:
            X = gen.point(ctx, 20.) + ctx.rng.normal(size=(ctx.randint(1, 60), 3)) * 5
            arg, Z, b, before = X.copy(), None, None, None
            viz.simple_view_widget(arg)
        ctx.check(len(fake.called) == 1 and len(fake.made) == 2, "sliders of the view", n=len(fake.made))
        f, kw, update = fake.called[0]
        what = "slider view"
        panels(ctx, plt.gcf(), X, Z, b, -60, 30, what)
        full = {"azim": (-180, 180), "elev": (-90, 90)}
        for k, (lo, hi) in full.items():
            ctx.check(k in kw and kw[k].min == lo and kw[k].max == hi, f"{what}: range of slider", slider=k)
        ctx.check("zim" in kw["azim"].description and "lev" in kw["elev"].description, f"{what}: labels of sliders")
        for _ in range(2):
            new = {k: float(ctx.choice([lo, hi, ctx.rng.uniform(lo, hi)])) for k, (lo, hi) in full.items()}
            plt.close("all")
            update(**new)
            panels(ctx, plt.gcf(), X, Z, b, new["azim"], new["elev"], what + " after moving sliders")
            ctx.event("slider_moves")
        if before is not None:
            ctx.check(digest(arg) == before, "scene changed by showing it")
    finally:
        plt.close("all")
        if old is None:
            sys.modules.pop("ipywidgets", None)
        else:
            sys.modules["ipywidgets"] = old
    ctx.describe(kind="scene" if ctx.index % 2 else "coordinates", n=len(X), at=np.round(X[0], 3))
