"""P22: repricing functions, composed repricing and linear shock maps."""
import numpy as np
import pandas as pd
from pyvallocation import (PortfolioWrapper, compose_repricers, linear_map, make_repricing_fn, project_scenarios,
                           reprice_exp, reprice_taylor)

from .. import gen
from ..core import scenario

SCN = []
ASSUMPTIONS = ["invariant columns carry string labels; pricing functions are vectorised over scenarios",
               "a driver list of one column is delivered as a one-dimensional array, as documented"]


def moves(rng, S=None, n=None):
    S = S or int(rng.choice([1, 2, 17, 60]))
    n = n or int(rng.integers(1, 7))
    return rng.normal(0, float(rng.choice([1e-6, .01, .3, 2.0])), (S, n))


@scenario(SCN, 12000, need=["vector greeks", "scalar greeks", "zero moves"])
def greeks(cx):
    rng = cx.rng
    D = moves(rng)
    S, n = D.shape
    if rng.random() < .15:
        D = D[:, 0]
        n = 1
    kw = {}
    tau = float(rng.choice([0.0, 1 / 252, 1 / 12, 1.0]))
    for g in ("theta", "delta", "gamma"):
        r = rng.random()
        if r < .35 or (r < .7 and D.ndim == 1):
            kw[g] = float(rng.normal(0, 3))
            cx.event("scalar greeks")
        elif r < .8:
            v = rng.normal(0, 3, n)
            kw[g] = v if rng.random() < .7 else v.tolist()
            cx.event("vector greeks") if D.ndim == 2 else kw.update({g: float(v[0])})
    kw["tau"] = tau
    cx.note(delta_y=D, **kw)
    cx.state(S, n, sorted(kw), tau > 0, D.ndim)
    out = reprice_taylor(D, **kw)
    g = {k: np.asarray(kw.get(k, 0.0), float) for k in ("theta", "delta", "gamma")}
    want = np.empty(D.shape)
    for i in range(S):
        want[i] = g["theta"] * tau + g["delta"] * D[i] + g["gamma"] * D[i] * D[i] / 2
    cx.close(out, want, "Taylor repricing equals the second-order expansion", rtol=1e-12, atol=1e-13)
    z = reprice_taylor(np.zeros_like(D), **{**kw, "tau": 0.0})
    cx.close(z, np.zeros_like(D), "no move and no time gives no P&L", rtol=0, atol=0)
    cx.event("zero moves")
    cx.close(reprice_taylor(np.zeros_like(D), **kw), np.broadcast_to(g["theta"] * tau, D.shape), "without a move only time decay remains", rtol=1e-14, atol=0)
    e = reprice_exp(D)
    cx.close(e, np.expm1(D), "exponential repricing equals its definition", rtol=1e-9, atol=3e-16)
    cx.close(reprice_exp(np.zeros_like(D)), np.zeros_like(D), "no move gives no P&L", rtol=0, atol=0)
    K = rng.integers(-3, 4, (4, 3))
    cx.close(reprice_taylor(K, delta=.3, gamma=.5), .3 * K + .25 * K ** 2, "integer moves are repriced exactly", rtol=1e-13)


PRICERS = {
    "bond": lambda y: 100 * np.exp(-7 * y).sum(-1) if np.ndim(y) > 1 else 100 * np.exp(-7 * np.asarray(y)).sum(),
    "columns": lambda y: np.column_stack([np.exp(y), y ** 2]) if np.ndim(y) > 1 else np.concatenate([np.exp(y), y ** 2]),
    "each": lambda y: np.log(2 + y ** 2),
    "first": lambda y: (y[..., 0] if np.ndim(y) else y) * 3.0 + 1,
}


@scenario(SCN, 6000, need=["full repricing"])
def pricing(cx):
    rng = cx.rng
    D = moves(rng)
    S, n = D.shape
    y0 = rng.normal(0, 1, n)
    k = str(rng.choice(list(PRICERS)))
    calls = []

    def f(y):
        calls.append(np.array(y))
        return PRICERS[k](np.asarray(y))
    cx.note(delta_y=D, y0=y0, pricer=k)
    cx.state(S, n, k)
    r = make_repricing_fn(f, y0 if rng.random() < .7 else list(y0))
    out = np.asarray(r(D))
    want = np.array([PRICERS[k](y0 + D[i]) - PRICERS[k](y0) for i in range(S)])
    cx.close(out, want.reshape(out.shape) if want.size == out.size else want, "full repricing is price after less price before", rtol=1e-9, atol=1e-11)
    cx.close(np.asarray(r(np.zeros((2, n)))), np.zeros((2,) + out.shape[1:]), "no move gives no P&L", rtol=0, atol=1e-13)
    cx.event("full repricing")


@scenario(SCN, 8000, need=["multi-driver", "reused column", "bare callable", "problem"])
def composed(cx):
    rng = cx.rng
    n = int(rng.integers(1, 7))
    cols = [str(c) for c in gen.strlabels(rng, n)]
    m = int(rng.integers(1, 7))
    inst, plan, seen = {}, [], {}

    def pricer(name, kind, coef):
        def f(chunk):
            x = np.asarray(chunk, float)
            seen.setdefault(name, []).append(x.copy())
            if kind == "exp":
                return np.expm1(x) * coef
            if kind == "list":
                return list(x * coef)
            if kind == "column":
                return (x * coef)[:, None]
            return x @ coef + (x ** 2).sum(1)
        return f
    used = []
    free = list(rng.permutation(cols))
    for j in range(m):
        r = rng.random()
        if r < .3 and free:
            c = str(free.pop())
            name, ds, bare = c, [c], True
            cx.event("bare callable")
        else:
            name = f"I{j}" if rng.random() < .8 else f"{cols[0]}!"
            if name in inst:
                continue
            d = 1 if rng.random() < .5 else int(rng.integers(1, n + 1))
            ds, bare = [str(c) for c in rng.permutation(cols)[:d]], False
        if set(ds) & set(used):
            cx.event("reused column")
        used += ds
        if len(ds) == 1:
            k = str(rng.choice(["exp", "list", "column"]))
            coef = float(rng.normal())
        else:
            k, coef = "multi", rng.normal(size=len(ds))
            cx.event("multi-driver")
        f = pricer(name, k, coef)
        inst[name] = f if bare else ((ds[0] if len(ds) == 1 and rng.random() < .5 else (ds if rng.random() < .7 else tuple(ds))), f)
        plan.append((name, [cols.index(c) for c in ds], k, coef))
    order = list(inst)
    D = moves(rng, n=n)
    S = len(D)
    cx.note(delta_y=D, columns=cols, plan=[(a, b, k) for a, b, k, _ in plan])
    cx.state(n, m, sorted(k for _, _, k, _ in plan))
    fn, names = compose_repricers(inst, cols if rng.random() < .7 else pd.Index(cols))
    cx.check(list(names) == order, "instrument order is kept", names=names, order=order)

    def want(D):
        W = np.empty((len(D), len(plan)))
        for j, (_, ix, k, c) in enumerate(plan):
            if k == "multi":
                W[:, j] = D[:, ix] @ c + (D[:, ix] ** 2).sum(1)
            else:
                x = D[:, ix[0]]
                W[:, j] = np.expm1(x) * c if k == "exp" else x * c
        return W
    keep = D.copy()
    out = fn(D)
    cx.close(out, want(D), "composed repricing prices every instrument from its own drivers", rtol=1e-9, atol=1e-13)
    cx.close(D, keep, "moves are untouched", rtol=0, atol=0)
    for name, ix, k, c in plan:
        got = seen[name]
        cx.check(len(got) == 1, "each instrument is priced once", calls=len(got))
        cx.close(got[0], D[:, ix] if len(ix) > 1 else D[:, ix[0]], "each instrument receives exactly its drivers in declared order", rtol=0, atol=0)
    if n == 1 and len(plan) == 1:
        cx.close(fn(D[:, 0]), want(D), "a single driver may be one-dimensional", rtol=1e-9, atol=1e-13)
    if cx.index % 4 == 0 and len(order) > 1:
        T, seed = int(rng.integers(4, 30)), gen.seed(rng)
        X = pd.DataFrame(gen.panel(rng, T, n, scale=.1), columns=cols)
        h, sims = int(rng.integers(1, 4)), 40
        w = PortfolioWrapper.from_invariants(X, horizon=h, n_simulations=sims, reprice=inst, seed=seed)
        base = project_scenarios(X.to_numpy(), h, None, sims, None, seed)
        cx.check(list(w.dist.asset_names) == order, "the problem lists the instruments in order")
        cx.close(w.dist.scenarios, want(base), "the problem holds the repriced projection", rtol=1e-9, atol=1e-12)
        cx.event("problem")


@scenario(SCN, 8000, need=["matrix", "scale", "shift", "identity"])
def linear(cx):
    rng = cx.rng
    R = moves(rng)
    S, n = R.shape
    kw, want = {}, np.array(R, copy=True)
    if rng.random() < .5:
        M = rng.normal(size=(n, n))
        kw["matrix"] = M
        want = np.array([M @ r for r in R])
        cx.event("matrix")
    if rng.random() < .5:
        kw["scale"] = float(rng.choice([0.0, 2.0, -1.5, .3])) if rng.random() < .8 else 2
        want = want * kw["scale"]
        cx.event("scale")
    if rng.random() < .5:
        v = rng.normal(size=n)
        kw["mean_shift"] = v if rng.random() < .6 else (v.tolist() if rng.random() < .5 else pd.Series(v))
        want = want + v
        cx.event("shift")
    if not kw:
        cx.event("identity")
    cx.note(R=R, **kw)
    cx.state(S, n, sorted(kw))
    f = linear_map(**kw)
    keep = R.copy()
    cx.close(f(R), want, "a linear shock applies matrix, scale and shift in that order", rtol=1e-10, atol=1e-13)
    cx.close(f(R), want, "a shock map may be applied again", rtol=1e-10, atol=1e-13)
    cx.close(R, keep, "scenarios are untouched", rtol=0, atol=0)
    cx.close(f(pd.DataFrame(R)), want, "frames and arrays are shocked alike", rtol=1e-10, atol=1e-13)
    if "mean_shift" not in kw:
        cx.raises(lambda: linear_map(mean_shift=np.ones(n + 1))(R), "a shift of the wrong length is rejected", types=(ValueError,))
        cx.raises(lambda: linear_map(mean_shift=np.ones((1, n)))(R), "a shift of the wrong shape is rejected", types=(ValueError,))


@scenario(SCN, 400, need=["raised:KeyError", "raised:TypeError"])
def malformed(cx):
    rng = cx.rng
    cols = [str(c) for c in gen.strlabels(rng, int(rng.integers(1, 5)))]
    f = lambda x: x
    cx.state(len(cols))
    cx.raises(lambda: compose_repricers({"unknown": f}, cols), "an instrument without its own column is rejected", types=(KeyError,))
    cx.raises(lambda: compose_repricers({"I": ("unknown", f)}, cols), "an unknown driver is rejected", types=(KeyError,))
    cx.raises(lambda: compose_repricers({"I": (cols + ["unknown"], f)}, cols), "an unknown driver is rejected", types=(KeyError,))
    cx.raises(lambda: compose_repricers({cols[0]: 3.0}, cols), "an unusable specification is rejected", types=(TypeError,))
    cx.raises(lambda: compose_repricers({"I": (cols[0], 3.0)}, cols), "an unusable specification is rejected", types=(TypeError,))
    g, _ = compose_repricers({"I": (cols[0], lambda x: x[:-1])}, cols)
    cx.raises(lambda: g(np.zeros((4, len(cols)))), "prices of the wrong length are rejected", types=(ValueError,))
