"""P21: bootstrap projection and path simulation."""
import numpy as np
import pandas as pd
from pyvallocation import project_scenarios, simulate_paths
from pyvallocation.utils.projection import project_risk_drivers, reprice_exp

from .. import gen
from ..core import scenario

SCN = []
RULE = ("every scenario row carries a tag block (one indicator column per observed row), so the draws behind each "
        "projected scenario are read off the output itself; frequencies are judged at 6 standard errors")
ASSUMPTIONS = ["probability vectors are non-negative with a positive finite sum (others are covered by the rejection scenario)"]


def setup(cx, tags=True):
    rng = cx.rng
    T, n = int(rng.integers(1, 25)), int(rng.integers(1, 6))
    R = gen.panel(rng, T, n, scale=.05) if T > 1 else rng.normal(size=(1, n))
    kind = str(rng.choice(["none", "series", "probs", "zeros", "scaled", "rounded"]))
    q = gen.probs(rng, T)
    if kind == "zeros" and T > 1:
        q[rng.permutation(T)[: int(rng.integers(1, T))]] = 0.0
        if q.sum() == 0:
            q[0] = 1.0
        q = q / q.sum()
    p = q
    if kind == "none":
        p, q = None, np.full(T, 1 / T)
    elif kind == "series":
        p = pd.Series(q, index=rng.permutation(T))
    elif kind == "scaled":
        p = q * gen.mass(rng)
    elif kind == "rounded":
        p = np.maximum(np.round(q, 6), 0)
        q = p / p.sum()
    elif rng.random() < .3:
        p = list(q)
    seed = gen.seed(rng)
    h = int(rng.choice([1, 1, 2, 3, 5, 13, 52]))
    cx.note(R=R, p=p, horizon=h, seed=seed)
    cx.state(T, n, kind, h)
    return rng, T, n, R, p, q, h, seed


def counts(cx, tag, h, q, what):
    """The tag block must be integer draw counts summing to the horizon, none of probability zero."""
    tag = np.asarray(tag, float)
    c = np.round(tag)
    cx.leq(np.abs(tag - c), 1e-9, f"{what} consists of whole observed rows", tol=0)
    cx.check((c >= 0).all() and (c.sum(axis=-1) == h).all(), f"{what} draws one row per step", horizon=h)
    cx.check((c[..., q == 0] == 0).all(), f"{what} never draws a row of probability zero", q=q)
    cx.event("draws", int(c.sum()))
    if (q == 0).any():
        cx.event("zero-probability rows")
    return c


@scenario(SCN, 5000, need=["draws", "zero-probability rows", "repriced", "frame"])
def projected(cx):
    rng, T, n, R, p, q, h, seed = setup(cx)
    S = int(rng.choice([1, 7, 40, 150]))
    if rng.random() < .1:
        cut = project_scenarios(R, float(h), p, S, None, seed)
        cx.close(np.asarray(cut, float), np.asarray(project_scenarios(R, h, p, S, None, seed), float), "a whole horizon given as a float is that horizon", rtol=0, atol=0)
        cut = project_scenarios(R, h + .5, p, S, None, seed)
        cx.close(np.asarray(cut, float), np.asarray(project_scenarios(R, h, p, S, None, seed), float), "only whole steps of a fractional horizon are taken", rtol=0, atol=0)
        cx.event("fractional horizon")
    X = np.hstack([R, np.eye(T)])
    frame = rng.random() < .5
    names = gen.labels(rng, n, "str") + [f"tag{i}" for i in range(T)]
    data = pd.DataFrame(X, columns=names, index=pd.date_range("2020", periods=T)) if frame else X
    call = lambda **k: project_scenarios(data, investment_horizon=h, p=p, n_simulations=S, seed=seed, **k)
    if rng.random() < .2:
        h = np.int64(h)
    out = call()
    if frame:
        cx.event("frame")
        cx.check(isinstance(out, pd.DataFrame) and list(out.columns) == names and len(out) == S, "projected frame keeps the columns")
    Y = np.asarray(out, float)
    cx.check(Y.shape == (S, n + T), "one row per simulation", shape=Y.shape)
    c = counts(cx, Y[:, n:], h, q, "a projected scenario")
    cx.close(Y[:, :n], c @ R, "a projected scenario sums jointly observed rows", rtol=1e-9, atol=1e-12)
    cx.close(np.asarray(call(), float), Y, "the same seed gives the same scenarios", rtol=0, atol=0)
    cx.close(np.asarray(project_risk_drivers(data, h, p, S, None, seed), float), Y, "the alias gives the same scenarios", rtol=0, atol=0)
    seen = []

    def rp(d):
        seen.append(np.array(d, float))
        return np.asarray(d) ** 2 - 0.5
    Z = np.asarray(call(reprice=rp), float)
    cx.check(len(seen) == 1, "repricing happens once", calls=len(seen))
    cx.close(seen[0], Y, "repricing receives the summed moves", rtol=0, atol=0)
    cx.close(Z, Y ** 2 - .5, "repriced scenarios are the repriced sums", rtol=1e-12, atol=1e-12)
    E = np.asarray(call(reprice=reprice_exp), float)
    cx.close(E[:, :n], np.expm1(c @ R), "exponential repricing compounds the summed moves", rtol=1e-9, atol=1e-12)
    cx.event("repriced")
    # paths: same draws, one per step
    P = simulate_paths(data, horizon=int(h), n_paths=S, p=p, seed=seed)
    cx.check(isinstance(P, np.ndarray) and P.shape == (S, h, n + T), "one value per path, step and driver", shape=P.shape)
    step = np.diff(P, axis=1, prepend=0.0)
    k = counts(cx, step[:, :, n:], 1, q, "a path step")
    cx.close(P[:, :, :n], np.cumsum(k @ R, axis=1), "a path accumulates jointly observed rows", rtol=1e-9, atol=1e-12)
    cx.close(P[:, -1], Y, "paths end at the projected scenario for the same seed", rtol=1e-9, atol=1e-12)
    PP = simulate_paths(data, horizon=int(h), n_paths=S, p=p, seed=seed, reprice=lambda d: d ** 2 - .5)
    cx.close(PP, P ** 2 - .5, "every path step is repriced", rtol=1e-12, atol=1e-12)


@scenario(SCN, 1500, need=["series", "one instrument", "integer drivers"])
def shapes(cx):
    """One-dimensional inputs, integer drivers and repricing that changes the number of columns."""
    rng, T, n, R, p, q, h, seed = setup(cx)
    S = int(rng.choice([1, 6, 50]))
    T1 = pd.Series(R[:, 0], name="x", index=pd.date_range("2020", periods=T)) if rng.random() < .6 else R[:, 0]
    a = project_scenarios(T1, h, p, S, None, seed)
    want = project_scenarios(R[:, :1], h, p, S, None, seed)[:, 0]
    if isinstance(T1, pd.Series):
        cx.check(isinstance(a, pd.Series) and a.name == "x" and len(a) == S, "a series projects to a series")
    cx.close(np.asarray(a), want, "one driver projects like a one-column panel", rtol=1e-12, atol=1e-15)
    P = simulate_paths(T1, h, S, p, None, seed)
    cx.check(P.shape == (S, h, 1), "one driver gives one path column", shape=P.shape)
    cx.close(P[:, -1, 0], want, "paths end at the projected scenario for the same seed", rtol=1e-9, atol=1e-12)
    cx.event("series")
    K = rng.integers(-2, 3, (T, n))
    M = rng.normal(size=(n, int(rng.integers(1, 5))))
    for data in (K, K.astype(float), pd.DataFrame(K)):
        Q = simulate_paths(data, h, S, p, lambda d: np.exp(.1 * np.asarray(d)) @ M, seed)
        base = simulate_paths(K.astype(float), h, S, p, None, seed)
        cx.close(Q, np.exp(.1 * base) @ M, "every path step is repriced into its instruments", rtol=1e-9, atol=1e-12)
    f = project_scenarios(K, h, p, S, lambda d: np.exp(.1 * np.asarray(d)) @ M, seed)
    cx.close(f, np.exp(.1 * base[:, -1]) @ M, "sums are repriced into their instruments", rtol=1e-9, atol=1e-12)
    cx.event("integer drivers")
    cx.event("one instrument", int(M.shape[1] == 1))


@scenario(SCN, 400, thorough=4000, need=["frequencies"])
def law(cx):
    """Draws are independent with the declared probabilities."""
    rng = cx.rng
    T = int(rng.integers(2, 8))
    q = gen.probs(rng, T)
    p = None if rng.random() < .2 else q
    q = np.full(T, 1 / T) if p is None else q
    h, S, seed = int(rng.choice([2, 3, 4])), 20000, int(rng.integers(1 << 31))
    cx.note(p=p, horizon=h, seed=seed)
    cx.state(T, h, p is None)
    I = np.eye(T)
    P = np.diff(simulate_paths(I, h, S, p, None, seed), axis=1, prepend=0.0)
    d = P.argmax(-1)
    for t in range(h):
        f = np.bincount(d[:, t], minlength=T) / S
        cx.leq(np.abs(f - q), 6 * np.sqrt(q * (1 - q) / S) + 6 / S, "rows are drawn with their probabilities", tol=0, f=f, q=q, step=t)
    a, b = sorted(rng.permutation(h)[:2])
    J = np.zeros((T, T))
    np.add.at(J, (d[:, a], d[:, b]), 1 / S)
    Q = np.outer(q, q)
    cx.leq(np.abs(J - Q), 6 * np.sqrt(Q * (1 - Q) / S) + 8 / S, "steps are drawn independently, with replacement", tol=0)
    e = np.arange(S - 1)
    J = np.zeros((T, T))
    np.add.at(J, (d[e, 0], d[e + 1, 0]), 1 / (S - 1))
    cx.leq(np.abs(J - Q), 6 * np.sqrt(Q * (1 - Q) / S) + 8 / S, "simulations are drawn independently", tol=0)
    Y = project_scenarios(I, h, p, S, None, seed + 1)
    m = Y.mean(0)
    cx.leq(np.abs(m - h * q), 6 * np.sqrt(h * q * (1 - q) / S) + 6 / S, "projected sums have the declared mean", tol=0)
    C = np.cov(Y.T, ddof=0)
    want = h * (np.diag(q) - np.outer(q, q))
    cx.leq(np.abs(C - want), 6 * 3 * h / np.sqrt(S), "projected sums have the declared covariance", tol=0)
    Z = project_scenarios(I, h, p, S, None, seed + 2)
    if (q > .02).sum() > 1:
        cx.check(not np.array_equal(Y, Z), "different seeds give different scenarios")
    u, v = project_scenarios(I, h, p, 500, None, None), project_scenarios(I, h, p, 500, None, None)
    if (q > .1).sum() > 1:
        cx.check(not np.array_equal(u, v), "unseeded calls are independent")
    cx.event("frequencies")


@scenario(SCN, 500, need=["raised:ValueError"])
def malformed(cx):
    rng, T, n, R, p, q, h, seed = setup(cx)
    V = (ValueError,)
    w = q.copy()
    w[int(rng.integers(T))] = float(rng.choice([-.1, np.nan, np.inf, -np.inf]))
    for f in (lambda **k: project_scenarios(R, k.get("h", h), k.get("p"), k.get("S", 5), None, 1),
              lambda **k: simulate_paths(R, k.get("h", h), k.get("S", 5), k.get("p"), None, 1)):
        cx.raises(lambda: f(p=w), "invalid probabilities are rejected", types=V)
        cx.raises(lambda: f(p=np.zeros(T)), "invalid probabilities are rejected", types=V)
        cx.raises(lambda: f(p=-q), "invalid probabilities are rejected", types=V)
        cx.raises(lambda: f(p=np.append(q, .1)), "probabilities of the wrong length are rejected", types=V)
    cx.raises(lambda: project_scenarios(R, int(rng.choice([0, -2])), None, 5), "a horizon below one step is rejected", types=V)
    cx.raises(lambda: project_scenarios(R, 2, None, int(rng.choice([0, -2]))), "no simulations is rejected", types=V)
    cx.raises(lambda: simulate_paths(R, int(rng.choice([0, -2])), 5), "a horizon below one step is rejected", types=V)
    cx.raises(lambda: simulate_paths(R, 2, int(rng.choice([0, -2]))), "no simulations is rejected", types=V)
    cx.raises(lambda: project_scenarios(R[None], 2, None, 5), "wrong dimensions are rejected", types=V)
    cx.raises(lambda: simulate_paths(R[None], 2, 5), "wrong dimensions are rejected", types=V)
