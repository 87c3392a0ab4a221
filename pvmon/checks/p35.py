"""P35: charts show exactly the portfolios and assumptions they are given."""
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from matplotlib.colors import to_rgba
from pyvallocation import AssetsDistribution, PortfolioWrapper
from pyvallocation import plotting as pl
from pyvallocation.portfolioapi import PortfolioFrontier

from .. import gen, use
from ..core import scenario

SCN = []
QUICK_FACTOR = 1  # relative cost of this check
ASSUMPTIONS = ["what a chart shows is the data held by its artists (lines, point collections, bars, labels), read back through matplotlib's public API",
               "tangency marks are judged on frontiers whose risks are all positive",
               "marks of tied points may be any of the tied points"]


def front(rng, names=None, M=None, meta=False):
    M = M or int(rng.choice([1, 2, 3, 6, 11]))
    n = int(rng.integers(1, 7))
    names = names if names is not None else (gen.strlabels(rng, n) if rng.random() < .8 else None)
    n = len(names) if names is not None else n
    risks = np.abs(rng.normal(.1, .1, M)) + .01
    if rng.random() < .4:
        risks = np.sort(risks)
    alt = {k: np.abs(rng.normal(.2, .1, M)) + .01 for k in ["CVaR", "Radius"][: int(rng.integers(0, 3))]}
    md = None
    if meta:
        lam = rng.choice([0.0, .5, 1.0, 2.0, 4.0, 7.0, 9.0, 3.0, 11.0, 12.0, 13.0], M, replace=False)
        md = [{"lambda": float(a), "note": f"n{j}", "gap": None if j % 2 else 1.5} for j, a in enumerate(lam)]
    return PortfolioFrontier(weights=rng.normal(.3, .4, (n, M)), returns=rng.normal(.05, .05, M), risks=risks,
                             risk_measure=str(rng.choice(["Volatility", "CVaR 5%"])), asset_names=names, alternate_risks=alt, metadata=md)


def offsets(ax):
    """All scatter points with their face colours."""
    out = []
    for c in ax.collections:
        o = np.asarray(c.get_offsets())
        if len(o):
            out.append((c, o))
    return out


def drawn(cx, line, x, y, what):
    cx.check(np.array_equal(np.asarray(line.get_xdata(), float), x) and np.array_equal(np.asarray(line.get_ydata(), float), y),
             f"{what} holds the frontier's risks and returns in order", x=line.get_xdata(), want=x)


def best(f, marker, rv, rf):
    """Columns a mark may sit on."""
    if marker == "min_risk":
        return np.flatnonzero(rv == rv.min())
    if marker == "max_return":
        return np.flatnonzero(f.returns == f.returns.max())
    s = (f.returns - rf) / rv
    return np.flatnonzero(s >= s.max() - 1e-12 * max(1, abs(s.max())))


def marks(cx, ax, fs, labels, rl, hl, rf, keys=(), fmt=None):
    recs = ax._frontier_highlights
    cx.check(len(recs) == len(fs) * len(hl), "one mark per frontier and requested highlight", got=len(recs), want=len(fs) * len(hl))
    pts = np.vstack([o for _, o in offsets(ax)]) if offsets(ax) else np.zeros((0, 2))
    it = iter(recs)
    for f, lab in zip(fs, labels):
        rv = f._risk_vector(rl) if rl else f.risks
        for m in hl:
            r = next(it)
            j = r["index"]
            cx.check(j in best(f, m, rv, rf), "a mark sits on the portfolio it names", marker=m, index=j)
            cx.check(r["risk"] == rv[j] and r["return"] == f.returns[j], "a mark's coordinates are its portfolio's risk and return")
            cx.check(r["risk_measure"] == (rl or f.risk_measure) and r["frontier"] == lab, "a mark names its frontier and measure", rec=r["frontier"], want=lab)
            cx.check(np.array_equal(np.asarray(r["weights"], float), f.weights[:, j]), "a mark carries its portfolio's weights")
            if f.asset_names is not None:
                cx.check(list(r["weights"].index) == list(f.asset_names), "a mark's weights are labelled by asset")
            cx.check((r["metadata"] is None) == (f.metadata is None) and (f.metadata is None or r["metadata"] == f.metadata[j]), "a mark carries its portfolio's metadata")
            cx.check(bool(np.any(np.all(pts == [rv[j], f.returns[j]], axis=1))), "a mark is drawn at its portfolio")
            cx.event("marks")
            if keys and f.metadata:
                texts = [c.get_label() for c, _ in offsets(ax)]
                toks = []
                for k in keys:
                    v = f.metadata[j].get(k)
                    if v is not None:
                        toks.append(fmt(k, v) if fmt else (f"{k}={v:.4f}" if isinstance(v, float) else f"{k}={v}"))
                cx.check(any(str(t).startswith(f"{lab} - ") and all(k in t for k in toks) for t in texts), "a mark's legend quotes its portfolio's metadata", texts=texts, want=toks)
                cx.event("metadata")


@scenario(SCN, 300, thorough=2500, need=["marks", "metadata", "overlay", "alternate measure", "single point"])
def curves(cx):
    """plot_frontiers: lines, points, overlays, highlights and labels."""
    rng = cx.rng
    k = int(rng.integers(1, 4))
    fs = [front(rng, meta=rng.random() < .5) for _ in range(k)]
    labels = [f"f{j}" for j in range(k)]
    form = rng.choice(["one", "list", "labelled", "mapping"])
    shared = set.intersection(*[set(f.alternate_risks) for f in fs])
    rl = str(rng.choice(sorted(shared))) if shared and rng.random() < .6 else None
    if form == "one":
        fs, arg, kw = fs[:1], fs[0], {}
    elif form == "list":
        arg, kw = list(fs), {}
    elif form == "labelled":
        arg, kw = list(fs), dict(labels=labels)
    else:
        arg, kw = dict(zip(labels, fs)), {}
    names = labels[: len(fs)] if form in ("labelled", "mapping") else [rl or f.risk_measure for f in fs]
    hl = list(rng.permutation(["min_risk", "max_return", "tangency"])[: int(rng.integers(0, 4))])
    rf = float(rng.choice([0.0, .02, -.01]))
    ov = ["CVaR", "Radius"] if rng.random() < .5 else None
    pts = bool(rng.random() < .5)
    keys = ["lambda", "gap", "missing"] if rng.random() < .5 else None
    fmt = (lambda a, b: f"<{a}:{b}>") if rng.random() < .4 else None
    fig, ax = plt.subplots()
    own = rng.random() < .7
    cx.state(form, len(fs), rl, tuple(hl), ov is not None, pts, keys is not None)
    if any(f.weights.shape[1] == 1 for f in fs):
        cx.event("single point")
    if rl:
        cx.event("alternate measure")
    try:
        ax = pl.plot_frontiers(arg, ax=ax if own else None, highlight=hl, risk_free_rate=rf, show_points=pts, overlay_risk_labels=ov, risk_label=rl,
                               highlight_metadata_keys=keys, metadata_value_formatter=fmt, percent_axes=bool(rng.random() < .5), legend=bool(rng.random() < .5), **kw)
        lines = iter(ax.lines)
        for f, lab in zip(fs, names):
            rv = f._risk_vector(rl)
            line = next(lines)
            drawn(cx, line, rv, f.returns, "a frontier's curve")
            cx.check(line.get_label() == lab, "a curve is labelled by its frontier", got=line.get_label(), want=lab)
            for o in ov or []:
                if o in f.alternate_risks:
                    x = next(lines)
                    drawn(cx, x, f.alternate_risks[o], f.returns, "an overlay")
                    cx.check(o in x.get_label() and x.get_color() == line.get_color(), "an overlay names its measure in its frontier's colour")
                    cx.event("overlay")
            if pts:
                cx.check(any(np.array_equal(o, np.c_[rv, f.returns]) for _, o in offsets(ax)), "every frontier point is drawn when asked for")
        cx.check(next(lines, None) is None, "nothing else is drawn as a curve")
        marks(cx, ax, fs, names, rl, hl, rf, keys or (), fmt)
        want = rl or (fs[0].risk_measure if len({f.risk_measure for f in fs}) == 1 else "Risk")
        cx.check(ax.get_xlabel() == want, "the risk axis names the measure it shows", got=ax.get_xlabel(), want=want)
    finally:
        plt.close("all")


@scenario(SCN, 160, thorough=1200, need=["same names", "several groups", "blank panels"])
def grids(cx):
    """plot_frontiers_grid: every frontier appears once, in its own group."""
    rng = cx.rng
    k = int(rng.integers(1, 6))
    fs = [front(rng) for _ in range(k)]
    mode = rng.choice(["none", "labels", "repeated", "mapping"])
    labels = {"none": None, "labels": [f"f{j}" for j in range(k)], "repeated": ["same"] * k, "mapping": [f"f{j}" for j in range(k)]}[mode]
    arg, kw = (dict(zip(labels, fs)), {}) if mode == "mapping" else (fs, dict(labels=labels))
    if k > 1 and mode in ("none", "repeated"):
        cx.event("same names")
    if rng.random() < .4:
        par = {id(f): str(rng.choice(["g1", "g2", "g3"])) for f in fs}
        kw["by"] = lambda lab, f: par[id(f)]
        group = [par[id(f)] for f in fs]
    else:
        group = [f.risk_measure for f in fs]
    order = list(dict.fromkeys(group))
    cols = None if rng.random() < .5 else int(rng.integers(1, 4))
    pol = str(rng.choice(["auto", "each", "all", "none"]))
    cx.state(mode, k, len(order), cols, pol)
    if len(order) > 1:
        cx.event("several groups")
    try:
        fig, axes = pl.plot_frontiers_grid(arg, cols=cols, highlight=["max_return"], legend_policy=pol, **kw)
        cx.check(len(axes) >= len(order), "every group has a panel")
        for ax, g in zip(axes, order):
            mine = [(j, f) for j, f in enumerate(fs) if group[j] == g]
            cx.check(ax.get_title() == g, "panels are titled by their group")
            cx.check(len(ax.lines) == len(mine), "a panel draws every frontier of its group", got=len(ax.lines), want=len(mine))
            for line, (j, f) in zip(ax.lines, mine):
                drawn(cx, line, f.risks, f.returns, "a panel's curve")
                cx.check(line.get_label() == (labels[j] if labels else f.risk_measure), "a panel's curve is labelled by its frontier")
            marks(cx, ax, [f for _, f in mine], [labels[j] if labels else f.risk_measure for j, f in mine], None, ["max_return"], 0.0)
            has = ax.get_legend() is not None
            cx.check(has == ({"auto": len(order) == 1, "each": True, "all": True, "none": False}[pol]), "legends follow the policy", policy=pol)
        for ax in axes[len(order):]:
            cx.event("blank panels")
            cx.check(not ax.lines, "left-over panels stay empty")
    finally:
        plt.close("all")


def bars(ax, kind):
    """[(label, value)] of a one-series bar chart."""
    ax.figure.canvas.draw()
    t = [x.get_text() for x in (ax.get_yticklabels() if kind == "barh" else ax.get_xticklabels())]
    return list(zip(t, [p.get_width() if kind == "barh" else p.get_height() for p in ax.patches]))


def bar_series(cx, ax, s, kind, top):
    got = bars(ax, kind)
    s = s.sort_values(ascending=False)
    want = s if top is None else s.iloc[: top]
    cx.check(len(got) == len(want), "a weights chart has one bar per asset shown", got=len(got), want=len(want))
    vals = np.array([v for _, v in got])
    cx.check(np.array_equal(np.sort(vals)[::-1], want.to_numpy()), "the bars are the largest weights", got=vals, want=want.to_numpy())
    for lab, v in got:
        cx.check(lab in [str(a) for a, b in s.items() if b == v], "a bar's label is the asset holding that weight", label=lab, value=v)
    d = np.diff(vals)
    cx.check(bool(np.all(d >= 0) if kind == "barh" else np.all(d <= 0)), "bars are sorted by weight")
    cx.event("bars")


@scenario(SCN, 220, thorough=1800, need=["bars", "top", "frame", "vertical"])
def weights(cx):
    """plot_weights: bars, labels, order, top_n, stacked frames."""
    rng = cx.rng
    n = int(rng.integers(1, 9))
    names = gen.strlabels(rng, n)
    kind = str(rng.choice(["barh", "bar"]))
    pct = bool(rng.random() < .6)
    if kind == "bar":
        cx.event("vertical")
    try:
        if rng.random() < .65:
            s = pd.Series(np.round(rng.normal(.2, .3, n), int(rng.choice([1, 6]))) + 0.0, index=names)
            top = None if rng.random() < .5 else int(rng.integers(1, n + 2))
            if top is not None and top < n:
                cx.event("top")
            cx.state("series", n, kind, top, pct)
            cx.note(s=s, kind=kind, top=top)
            ax = pl.plot_weights(s, kind=kind, top_n=top, percent_axes=pct, title="T")
            bar_series(cx, ax, s, kind, top)
            cx.check(ax.get_title() == "T", "the title is shown")
        else:
            m = int(rng.integers(1, 4))
            F = pd.DataFrame(rng.normal(.2, .3, (n, m)), index=names, columns=[f"p{j}" for j in range(m)])
            stacked = bool(rng.random() < .5)
            cx.state("frame", n, m, kind, stacked)
            ax = pl.plot_weights(F, kind=kind, stacked=stacked, percent_axes=pct)
            ax.figure.canvas.draw()
            t = [x.get_text() for x in (ax.get_yticklabels() if kind == "barh" else ax.get_xticklabels())]
            cx.check(t == [str(a) for a in names], "a frame's bars are labelled by asset", got=t)
            cx.check(len(ax.containers) == m, "a frame has one bar group per portfolio")
            for c, name in zip(ax.containers, F.columns):
                v = [p.get_width() if kind == "barh" else p.get_height() for p in c.patches]
                cx.close(np.array(v), F[name].to_numpy(), "a frame's bars are its weights", rtol=1e-12, atol=1e-12)
                cx.check(c.get_label() == name, "bar groups are labelled by portfolio")
            cx.event("frame")
        if pct:
            axis = ax.xaxis if kind == "barh" else ax.yaxis
            cx.check(axis.get_major_formatter()(.256, 0) == "25.6%", "the weight axis reads in percent")
    finally:
        plt.close("all")


SEL = ["min_risk", "minimum_risk", "max_return", "maximum_return", "tangency", "max_sharpe", "sharpe", "risk_target", "max_return_subject_to_risk",
       "return_target", "min_risk_subject_to_return", "risk_percentile", "risk_pct", "percentile", "risk_match", "risk_nearest", "index", "column", "Min_Risk"]


@scenario(SCN, 260, thorough=2000, need=["report", "tangency with a rate", "alternate measure", "given weights"])
def reports(cx):
    """plot_frontier_report: the marked point and the weights shown are the selected portfolio."""
    rng = cx.rng
    f = front(rng, names=gen.strlabels(rng, int(rng.integers(1, 6))))
    M = f.weights.shape[1]
    f.weights[:] = f.weights + 0.001 * np.arange(f.weights.size).reshape(f.weights.shape)
    rl = str(rng.choice(sorted(f.alternate_risks))) if f.alternate_risks and rng.random() < .5 else None
    rv = f._risk_vector(rl)
    sel = SEL[cx.index % len(SEL)]
    key = sel.lower()
    kw = {}
    rf = float(rng.choice([0.0, .03, -.02]))
    if key in ("tangency", "max_sharpe", "sharpe"):
        if rng.random() < .7:
            kw = {"risk_free_rate": rf}
            cx.event("tangency with a rate")
        else:
            rf = 0.0
        ok = best(f, "tangency", rv, rf)
    elif key in ("min_risk", "minimum_risk"):
        ok = best(f, "min_risk", rv, 0)
    elif key in ("max_return", "maximum_return"):
        ok = best(f, "max_return", rv, 0)
    elif key in ("risk_target", "max_return_subject_to_risk"):
        kw = {"max_risk": float(rng.uniform(rv.min(), rv.max() * 1.2 + 1e-9))}
        q = np.flatnonzero(rv <= kw["max_risk"])
        ok = q[f.returns[q] == f.returns[q].max()]
    elif key in ("return_target", "min_risk_subject_to_return"):
        kw = {"min_return": float(rng.uniform(f.returns.min() - .1, f.returns.max() - 1e-9))}
        q = np.flatnonzero(f.returns >= kw["min_return"])
        ok = q[rv[q] == rv[q].min()]
    elif key in ("risk_percentile", "risk_pct", "percentile"):
        kw = {"percentile": float(rng.choice([0.0, .25, .5, .8, 90.0, 100.0]))}
        w = f.at_percentile(kw["percentile"], risk_label=rl)[0]
        ok = [j for j in range(M) if np.array_equal(f.weights[:, j], w)]
    elif key in ("risk_match", "risk_nearest"):
        kw = {"target_risk": float(rng.uniform(0, rv.max() * 1.2))}
        d = np.abs(rv - kw["target_risk"])
        ok = np.flatnonzero(d <= d.min() + 1e-12)
    else:
        kw = {"index": int(rng.integers(0, M))}
        ok = [kw["index"]]
    given = None
    if rng.random() < .15:
        given = pd.Series(rng.normal(.3, .3, f.weights.shape[0]), index=f.asset_names)
        cx.event("given weights")
    cx.state(sel, M, rl, bool(kw), given is not None)
    cx.note(selection=sel, kwargs=kw, risk_label=rl, returns=f.returns, risks=rv)
    if rl:
        cx.event("alternate measure")
    try:
        fig, (a, b) = pl.plot_frontier_report(f, selection=sel, selection_kwargs=kw, risk_label=rl, weights=given, show_points=False,
                                              overlay_risk_labels=["CVaR"] if rng.random() < .3 else None, percent_axes=bool(rng.random() < .5))
        drawn(cx, a.lines[0], rv, f.returns, "a report's curve")
        shown = {lab: v for lab, v in bars(b, "barh")}
        if given is not None:
            bar_series(cx, b, given, "barh", None)
        else:
            hit = [j for j in ok if all(shown.get(str(x)) == f.weights[i, j] for i, x in enumerate(f.asset_names))]
            cx.check(bool(hit), "a report shows the weights of the selected portfolio", shown=shown, admissible=list(ok))
            pts = [o for _, o in offsets(a)]
            cx.check(len(pts) == 1 and len(pts[0]) == 1, "a report marks one point", got=len(pts))
            cx.check(any(pts[0][0][0] == rv[j] and pts[0][0][1] == f.returns[j] for j in hit), "a report marks the portfolio whose weights it shows", point=pts[0][0])
        cx.event("report")
    finally:
        plt.close("all")


@scenario(SCN, 200, thorough=1600, need=["path", "impact", "surface", "supplied axes"])
def parameters(cx):
    """plot_robust_path, plot_param_impact, plot_robust_surface: every point with its own parameter."""
    rng = cx.rng
    f = front(rng, meta=True)
    M = f.weights.shape[1]
    rl = str(rng.choice(sorted(f.alternate_risks))) if f.alternate_risks and rng.random() < .5 else None
    rv = f._risk_vector(rl)
    lam = np.array([m["lambda"] for m in f.metadata])
    param = "lambda"
    if rng.random() < .3:
        for m, v in zip(f.metadata, lam):
            m["gamma"] = v
        param = "gamma"
    cx.state(M, rl, param)
    try:
        ov = "CVaR" if rng.random() < .4 else None
        line = bool(rng.random() < .5)
        ax = pl.plot_robust_path(f, param=param, risk_label=rl, overlay_risk_label=ov, show_points=line, percent_axes=bool(rng.random() < .5))
        c, o = offsets(ax)[0]
        cx.check(np.array_equal(o, np.c_[rv, f.returns]), "a robust path's points are the frontier's")
        cx.check(np.array_equal(np.asarray(c.get_array()), lam), "a robust path colours each point by its own parameter", got=c.get_array(), want=lam)
        k = 0
        if line:
            drawn(cx, ax.lines[0], rv, f.returns, "a robust path")
            k = 1
        if ov in f.alternate_risks:
            drawn(cx, ax.lines[k], f.alternate_risks[ov], f.returns, "a robust path's overlay")
        cx.check(ax.get_xlabel() == (rl or f.risk_measure), "a robust path's axis names its measure")
        cx.event("path")
        own = None
        if rng.random() < .5:
            own = plt.subplots(1, 2)[1]
            cx.event("supplied axes")
        fig, (a, b) = pl.plot_param_impact(f, param=param, risk_label=rl, percent_axes=bool(rng.random() < .5), **({} if own is None else {"ax": own}))
        cx.check(own is None or (a is own[0] and b is own[1]), "the impact is drawn on the axes supplied")
        j = np.argsort(lam)
        drawn(cx, a.lines[0], lam[j], f.returns[j], "a return impact")
        drawn(cx, b.lines[0], lam[j], rv[j], "a risk impact")
        cx.check(b.get_ylabel() == (rl or f.risk_measure) and a.get_xlabel() == param == b.get_xlabel(), "impact axes name what they show")
        cx.event("impact")
        ax = pl.plot_robust_surface(f, param=param, risk_label=rl)
        x, y, z = (np.asarray(v, float) for v in ax.collections[0]._offsets3d)
        got = np.c_[x, y, z]
        want = np.c_[lam, rv, f.returns]
        cx.check(got.shape == want.shape and np.array_equal(got[np.lexsort(got.T)], want[np.lexsort(want.T)]), "a robust surface's points are parameter, risk and return")
        cx.event("surface")
        if M > 1:
            f.metadata[int(rng.integers(0, M))].pop(param)
            cx.raises(lambda: pl.plot_param_impact(f, param=param), "an impact chart without all parameters raises", ValueError)
            cx.raises(lambda: pl.plot_robust_surface(f, param=param), "a surface without all parameters raises", ValueError)
    finally:
        plt.close("all")


@scenario(SCN, 90, thorough=700, need=["three or more assets", "few assets", "thinned", "uncertainty", "ellipsoid axes"])
def assumptions(cx):
    """plot_assumptions_3d: centre, spread and scenarios in principal-axis coordinates."""
    rng = cx.rng
    n = int(rng.integers(1, 6))
    S = gen.cov(rng, n, scale=.05, kind=None) + 1e-5 * np.diag(rng.uniform(1, 2, n))
    mu = rng.normal(.05, .05, n)
    U = gen.cov(rng, n, scale=.01) + 1e-6 * np.eye(n) if rng.random() < .6 else None
    T = int(rng.integers(2, 60))
    R = rng.normal(size=(T, n)) * .05 + mu if rng.random() < .7 else None
    cap = int(rng.choice([5, 2500]))
    k, ku = float(rng.choice([1.0, 2.0])), float(rng.choice([1.0, 3.0]))
    cx.state(n, R is None, U is None, cap)
    cx.event("few assets" if n < 3 else "three or more assets")
    try:
        fig, axes = pl.plot_assumptions_3d(mu, S, scenarios=R, uncertainty_cov=U, max_points=cap,
                                            **({} if k == 1 and rng.random() < .5 else {"n_std": k}),
                                            **({} if ku == 1 and rng.random() < .5 else {"uncertainty_std": ku}))
        if n >= 3:
            val, vec = np.linalg.eigh(S)
            C = vec[:, ::-1][:, :3]
        else:
            val, C = np.linalg.eigvalsh(S), np.eye(n, 3)
        flip = None

        def world(ax, cov, std):
            nonlocal flip
            cols = [np.c_[tuple(np.asarray(v, float) for v in c._offsets3d)] for c in ax.collections if hasattr(c, "_offsets3d")]
            pts = next(c for c in reversed(cols) if len(c) == 1)[0]
            want = np.abs(C.T @ mu) if n >= 3 else C.T @ mu
            cx.close(np.abs(pts) if n >= 3 else pts, want, "the centre drawn is the mean", rtol=1e-8, atol=1e-10)
            surf = next(c for c in ax.collections if hasattr(c, "_faces"))
            V = np.asarray(surf._faces, float).reshape(-1, 3).T - pts[:, None]
            A = C.T @ cov @ C
            want = np.sort(np.linalg.eigvalsh(A))
            r = np.linalg.norm(V, axis=0)
            cx.close(r.max(), std * np.sqrt(max(want[-1], 0)), "the ellipsoid's longest axis is the declared number of deviations", rtol=2e-2, atol=1e-6)
            cx.check(r.max() <= std * np.sqrt(max(want[-1], 0)) * (1 + 1e-6) + 1e-6, "the ellipsoid stays within the declared deviations")
            seg = sorted(np.linalg.norm(np.ptp(np.array(x.get_data_3d()), axis=1)) / 2 for x in ax.lines)
            cx.close(np.array(seg), np.sqrt(np.clip(want, 0, None)), "the principal axes are one deviation long", rtol=1e-6, atol=3e-8)
            ends = np.array([np.ptp(np.array(x.get_data_3d())[:, [0, -1]], axis=1) * np.sign(np.diff(np.array(x.get_data_3d())[:, [0, -1]], axis=1)[:, 0]) / 2 for x in ax.lines])
            if len(ends) == 3 and seg[0] > 1e-4 * seg[-1] and seg[0] > 1e-6:
                t = (ends / (ends ** 2).sum(1)[:, None]) @ V  # position along each drawn axis, in deviations
                cx.leq((t ** 2).sum(0), np.full(t.shape[1], std ** 2 * (1 + 1e-3)), "the ellipsoid is the drawn axes' own", tol=0)
                cx.close(np.abs(t).max(1), np.full(3, std), "the ellipsoid extends the declared deviations along every axis", rtol=3e-2, atol=1e-6)
                cx.event("ellipsoid axes")
            for x in ax.lines:
                cx.close(np.array(x.get_data_3d()).mean(1), pts, "the principal axes cross at the mean", rtol=1e-7, atol=1e-9)
            if n < 3:  # coordinates are the assets themselves
                z = V[:n]
                q = np.einsum("ij,ik,kj->j", z, np.linalg.inv(cov), z)
                cx.leq(q, np.full(len(q), std ** 2 * (1 + 1e-4) + 1e-6), "every point of the surface is within the declared deviations", tol=0)
            return cols, pts
        cols, _ = world(axes[0], S, k)
        if R is not None:
            sc = [c for c in cols if len(c) > 1]
            m = min(T, cap)
            cx.check(len(sc) == 1 and len(sc[0]) == m, "scenarios are drawn, thinned only above the limit", got=[len(c) for c in sc], want=m)
            if T > cap:
                cx.event("thinned")
            Y = R @ C
            d = np.abs(np.abs(sc[0])[:, None] - np.abs(Y)[None]).max(-1)
            cx.leq(d.min(1), np.full(m, 1e-9), "every scenario drawn is an observed one in the chart's coordinates", tol=0)
            if T > cap and n >= 2:  # evenly thinned: distinct scenarios from the whole record
                at = d.argmin(1)
                cx.check(len(set(at.tolist())) == m and np.diff(np.sort(at), prepend=-1, append=T).max() <= 2 * np.ceil(T / m),
                         "the thinned scenarios span the record", drawn=at, of=T)
            if T <= cap:
                cx.leq(d.min(0), np.full(T, 1e-9), "every observed scenario is drawn", tol=0)
        if U is not None:
            cx.event("uncertainty")
            world(axes[1], U, ku)
        sh = np.clip(np.sort(val)[::-1], 0, None)
        for lab, v in zip((axes[0].get_xlabel(), axes[0].get_ylabel(), axes[0].get_zlabel()), sh / sh.sum()):
            cx.check(f"({v:.0%})" in lab or abs(float(lab.split("(")[1].rstrip("%)")) / 100 - v) < .0051, "axes state their share of variance", label=lab, share=v)
    finally:
        plt.close("all")
