"""P20: log/simple and horizon conversions, price histories to returns."""
import numpy as np
import pandas as pd
import pyvallocation as pv
from pyvallocation import PortfolioWrapper, RobustBayesPosterior
from pyvallocation.utils import projection as J
from pyvallocation.utils.data_helpers import numpy_weights_to_pandas_series, pandas_to_numpy_returns

from .. import gen, use
from ..core import scenario

SCN = []
QUICK_FACTOR = 2  # relative cost of this check
ASSUMPTIONS = ["prices are strictly positive; where one is missing, the steps at either end have no return and the stated policy fills or drops the returns",
               "moments are those of a log-normal market: positive gross means and covariances above minus the product of the gross means"]


def boxed(rng, names, mu, S, name=None):
    if names is None:
        return mu, S
    ix = pd.Index(names, tupleize_cols=False)
    return pd.Series(mu, index=ix, name=name), pd.DataFrame(S, index=ix, columns=ix)


def kept(cx, m, C, mu, S, names, what):
    """Containers and labels survive; returns plain arrays."""
    if names is None:
        cx.check(isinstance(m, np.ndarray) and isinstance(C, np.ndarray), f"{what} keeps the container")
    else:
        cx.check(isinstance(m, pd.Series) and isinstance(C, pd.DataFrame) and m.index.equals(mu.index) and m.name == mu.name
                 and C.index.equals(S.index) and C.columns.equals(S.columns), f"{what} keeps the labels")
    return np.asarray(m, float), np.asarray(C, float)


def formula(mu, S):
    d = np.diag(S)
    g = np.exp(mu + d / 2)
    return np.expm1(mu + d / 2), np.outer(g, g) * np.expm1(S)


def quiet(rng, S):
    """Some assets (almost) without variance: cash, pegs."""
    d = np.ones(len(S))
    if rng.random() < .25:
        d[rng.random(len(S)) < .5] = float(rng.choice([0.0, 1e-6, 1e-4, 1e-3]))
    return S * np.outer(d, d), bool((d < 1).any())


@scenario(SCN, 8000, need=["round trip", "labelled", "quiet asset"])
def log_simple(cx):
    rng = cx.rng
    n, mu, S = gen.moments(rng, lo=1, hi=9, scale=float(rng.choice([.005, .02, .2, .6, 1.2])))
    S, q = quiet(rng, S)
    if q:
        cx.event("quiet asset")
    names = gen.labels(rng, n) if rng.random() < .6 else None
    m, C = boxed(rng, names, mu, S, "mean" if rng.random() < .5 else None)
    cx.note(mu=m, cov=C)
    cx.state(n, names is None, round(float(np.log10(max(np.trace(S), 1e-20))), 1))
    a, B = J.log2simple(m, C)
    ar, Br = kept(cx, a, B, m, C, names, "log2simple")
    wm, wC = formula(mu, S)
    cx.close(ar, wm, "log to simple mean is the lognormal mean", rtol=1e-9, atol=1e-12)
    cx.leq(np.abs(Br - wC), 1e-9 * np.abs(wC) + 1e-14 * (1 + np.outer(1 + wm, 1 + wm)), "log to simple covariance is the lognormal covariance", tol=0)
    # simulation-free cross-check of one pair by Gauss-Hermite quadrature
    if cx.index % 4 == 0 and S.max() < 1.0:
        x, w = np.polynomial.hermite_e.hermegauss(60)
        w = w / w.sum()
        e = (np.expm1(mu[0] + np.sqrt(S[0, 0]) * x)) @ w
        v = (np.expm1(mu[0] + np.sqrt(S[0, 0]) * x) - e) ** 2 @ w
        cx.close(ar[0], e, "simple mean equals the integral over the log distribution", rtol=1e-7, atol=1e-9)
        cx.close(Br[0, 0], v, "simple variance equals the integral over the log distribution", rtol=1e-6, atol=1e-10)
    b, D = J.simple2log(a, B)
    br, Dr = kept(cx, b, D, m, C, names, "simple2log")
    cx.leq(np.abs(br - mu), 1e-8 * (1 + np.abs(mu)), "simple to log inverts log to simple", tol=0)
    cx.leq(np.abs(Dr - S), 1e-7 * np.sqrt(np.outer(np.diag(S), np.diag(S))) + 1e-13, "simple to log inverts log to simple", tol=0)
    cx.event("round trip")
    if names is not None:
        cx.event("labelled")
        pa, pB = J.log2simple(mu, S)
        cx.close(pa, ar, "arrays and frames give the same numbers", rtol=0, atol=0)
        cx.close(pB, Br, "arrays and frames give the same numbers", rtol=0, atol=0)
    o = rng.permutation(n)
    pa, pB = J.log2simple(mu[o], S[np.ix_(o, o)])
    cx.close(pa, ar[o], "asset order does not matter", rtol=1e-12, atol=1e-15)
    cx.close(pB, Br[np.ix_(o, o)], "asset order does not matter", rtol=1e-9, atol=1e-14)


@scenario(SCN, 4000, need=["from simple", "quiet asset"])
def simple_log(cx):
    """Start from simple moments that are not produced by the forward map."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, lo=1, hi=7, scale=float(rng.choice([.01, .1, .3])))
    mu = np.clip(mu, -.8, None)
    S, q = quiet(rng, S)
    g = 1 + mu
    if (S / np.outer(g, g)).min() <= -0.999:
        cx.stop("not lognormal")
    names = gen.labels(rng, n) if rng.random() < .6 else None
    m, C = boxed(rng, names, mu, S)
    cx.note(mu=m, cov=C)
    cx.state(n, names is None)
    a, B = J.simple2log(m, C)
    ar, Br = kept(cx, a, B, m, C, names, "simple2log")
    v = np.log1p(np.diag(S) / g ** 2)
    cx.close(ar, np.log(g) - v / 2, "simple to log mean is the lognormal one", rtol=1e-9, atol=1e-12)
    cx.close(Br, np.log1p(S / np.outer(g, g)), "simple to log covariance is the lognormal one", rtol=1e-9, atol=1e-15)
    b, D = J.log2simple(a, B)
    br, Dr = kept(cx, b, D, m, C, names, "log2simple")
    cx.leq(np.abs(br - mu), 1e-9 * (1 + np.abs(mu)), "log to simple inverts simple to log", tol=0)
    cx.leq(np.abs(Dr - S), 1e-8 * np.sqrt(np.outer(np.diag(S), np.diag(S))) + 1e-14 * np.outer(g, g), "log to simple inverts simple to log", tol=0)
    cx.event("from simple")
    if q:
        cx.event("quiet asset")


@scenario(SCN, 4000, need=["composed"])
def horizon(cx):
    rng = cx.rng
    n, mu, S = gen.moments(rng, lo=1, hi=7)
    names = gen.labels(rng, n) if rng.random() < .6 else None
    m, C = boxed(rng, names, mu, S, "mean")
    h, k = (float(rng.choice([.5, 1, 4, 12, 52, 252, 1 / 252, 2.5])) for _ in range(2))
    cx.note(mu=m, cov=C, h=h, k=k)
    cx.state(n, names is None, h, k)
    a, B = J.project_mean_covariance(m, C, h)
    ar, Br = kept(cx, a, B, m, C, names, "horizon projection")
    cx.close(ar, mu * h, "mean scales linearly with the horizon", rtol=1e-13, atol=0)
    cx.close(Br, S * h, "covariance scales linearly with the horizon", rtol=1e-13, atol=0)
    c, D = J.project_mean_covariance(a, B, k)
    e, F = J.project_mean_covariance(m, C, h * k)
    cx.close(c, e, "horizons compose", rtol=1e-12, atol=0)
    cx.close(D, F, "horizons compose", rtol=1e-12, atol=0)
    cx.event("composed")


@scenario(SCN, 4000, need=["scenarios"])
def conventions(cx):
    rng = cx.rng
    n, T = int(rng.integers(1, 6)), int(rng.integers(1, 80))
    R = gen.panel(rng, T, n, scale=float(rng.choice([1e-6, .02, .3, 1.0])))
    R[rng.random(R.shape) < .05] = -0.999
    cx.note(R=R)
    cx.state(n, T)
    if rng.random() < .2:
        R = R[:, 0]
    L = J.convert_scenarios_simple_to_compound(pd.DataFrame(R) if R.ndim == 2 and rng.random() < .3 else R)
    cx.close(L, np.log1p(R), "simple to log scenarios are logarithms of gross returns", rtol=1e-9, atol=3e-16)
    cx.close(J.convert_scenarios_compound_to_simple(L), R, "scenario conversions invert each other", rtol=1e-9, atol=1e-15)
    X = rng.normal(0, 1, R.shape) * float(rng.choice([1e-5, .1, 2]))
    cx.close(J.convert_scenarios_compound_to_simple(X), np.expm1(X), "log to simple scenarios are exponentials less one", rtol=1e-9, atol=3e-16)
    cx.close(J.convert_scenarios_simple_to_compound(J.convert_scenarios_compound_to_simple(X)), X, "scenario conversions invert each other", rtol=1e-9, atol=3e-15)
    cx.event("scenarios")


@scenario(SCN, 3000, need=["log prices", "simple prices", "date column"])
def prices(cx):
    """Returns of a complete price history rebuild that history."""
    rng = cx.rng
    n, T = int(rng.integers(1, 6)), int(rng.integers(2, 60))
    names = [str(x) for x in gen.strlabels(rng, n)]
    P = np.exp(rng.normal(3, 1, n) + np.cumsum(rng.normal(0, float(rng.choice([.01, .3])), (T, n)), 0))
    if rng.random() < .1:
        P = np.round(P * 100 + 1)
    df = pd.DataFrame(P, columns=names)
    if rng.random() < .2:
        df = df.round(0).astype(int) + 1
        P = df.to_numpy(float)
    kw, cols = {}, names
    r = rng.random()
    idx = pd.date_range("2021-01-01", periods=T)
    if r < .4:
        df.index = idx
        if rng.random() < .5:
            df.index.name = kw["date_column"] = "Date"
    elif r < .7:
        df.insert(int(rng.integers(0, n + 1)), "when", idx.strftime("%Y-%m-%d") if rng.random() < .5 else idx)
        kw["date_column"] = "when"
        cx.event("date column")
    if rng.random() < .4:
        df.insert(int(rng.integers(0, df.shape[1] + 1)), "note", ["x"] * T)
    if rng.random() < .5:
        cols = [str(x) for x in rng.permutation(names)[: int(rng.integers(1, n + 1))]]
        kw["price_columns"] = cols
    mth = str(rng.choice(["log", "simple"]))
    if mth == "simple" or rng.random() < .5:
        kw["return_calculation_method"] = mth
    fill = str(rng.choice(["ffill", "bfill", "zero", "drop"]))
    if rng.random() < .7:
        kw["fill_na_method"] = fill
    cx.note(df=df, **kw)
    cx.state(n, T, sorted(kw), mth)
    R = pandas_to_numpy_returns(df, **kw)
    Q = P[:, [names.index(c) for c in cols]]
    cx.check(isinstance(R, np.ndarray) and R.shape == (T - 1, len(cols)), "one return row per step", shape=R.shape)
    g = np.exp(R) if mth == "log" or "return_calculation_method" not in kw else 1 + R
    cx.close(Q[0] * np.cumprod(g, 0), Q[1:], "returns reproduce the price history", rtol=1e-9, atol=0)
    cx.event(("log" if mth == "log" or "return_calculation_method" not in kw else "simple") + " prices")
    w = pv.PortfolioWrapper.from_prices(df[names]) if T > 2 else None
    if w is not None:
        cx.close(P[0] * np.cumprod(1 + w.dist.scenarios, 0), P[1:], "problem scenarios reproduce the price history", rtol=1e-9, atol=0)
    v = rng.normal(size=n)
    s = numpy_weights_to_pandas_series(v, names)
    cx.check(list(s.index) == names and np.array_equal(s.to_numpy(), v), "weight labelling keeps order and values")


@scenario(SCN, 1500, need=["ffill", "bfill", "zero", "drop", "left over"])
def gaps(cx):
    """Missing prices: a step with a price missing at either end has no return; the stated policy fills or drops exactly those."""
    rng = cx.rng
    n, T = int(rng.integers(1, 5)), int(rng.integers(3, 30))
    names = [str(x) for x in gen.strlabels(rng, n)]
    P = np.exp(rng.normal(3, 1, n) + np.cumsum(rng.normal(0, .1, (T, n)), 0))
    P[rng.random((T, n)) < float(rng.choice([.05, .2, .5]))] = np.nan
    if rng.random() < .3:
        P[int(rng.integers(T))] = np.nan  # a day nothing was quoted
    mth, fill = str(rng.choice(["log", "simple"])), str(rng.choice(["ffill", "bfill", "zero", "drop"]))
    cx.event(fill)
    cx.note(P=P, method=mth, fill=fill)
    cx.state(n, T, mth, fill)
    want = P[1:] / P[:-1]
    want = np.log(want) if mth == "log" else want - 1
    if fill == "drop":
        want = want[~np.isnan(want).any(1)]
    elif fill in ("ffill", "bfill"):
        rows = range(len(want)) if fill == "ffill" else range(len(want) - 1, -1, -1)
        for j in range(n):
            last = np.nan
            for t in rows:
                if np.isnan(want[t, j]):
                    want[t, j] = last
                last = want[t, j]
    if np.isnan(want).any() and fill != "zero":
        cx.event("left over")  # nothing to fill from
    want = np.where(np.isnan(want), 0.0, want)
    R = pandas_to_numpy_returns(pd.DataFrame(P, columns=names), return_calculation_method=mth, fill_na_method=fill)
    cx.check(R.shape == want.shape, f"{fill}: rows kept", got=R.shape, want=want.shape)
    cx.close(R, want, f"{fill}: returns over a gap", rtol=1e-9, atol=1e-12)


@scenario(SCN, 2500, need=["log moments", "log scenarios", "posterior"])
def problems(cx):
    """Portfolio problems stated in log returns hold the converted simple-return market."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, lo=2, hi=6, scale=float(rng.choice([.02, .2])))
    names = gen.labels(rng, n) if rng.random() < .6 else None
    m, C = boxed(rng, names, mu, S)
    cx.note(mu=m, cov=C)
    cx.state(n, names is None)
    wm, wC = formula(mu, S)
    w = PortfolioWrapper.from_moments(m, C, return_type="log")
    cx.close(w.dist.mu, wm, "log moments are converted", rtol=1e-7, atol=1e-10)
    cx.leq(np.abs(w.dist.cov - wC), 1e-7 * np.abs(wC) + 3e-9, "log moments are converted", tol=0)
    cx.event("log moments")
    R = gen.panel(rng, int(rng.integers(n + 3, 40)), n, scale=.05)
    X = pd.DataFrame(R, columns=pd.Index(names, tupleize_cols=False)) if names else R
    q = PortfolioWrapper.from_scenarios(X, return_type="log")
    cx.close(q.dist.scenarios, np.expm1(R), "log scenarios are converted", rtol=1e-10, atol=1e-15)
    cx.event("log scenarios")
    if names is not None:
        cx.check(list(w.dist.asset_names) == names and list(q.dist.asset_names) == names, "conversion keeps the labels")
    # a log posterior scaled to a horizon reports simple-return moments of the scaled market
    h = float(rng.choice([1.0, 4.0, 12.0, 1 / 12]))
    Sm = gen.cov(rng, n, scale=.02)
    post = RobustBayesPosterior(mu=m, sigma=C, s_mu=pd.DataFrame(Sm, index=C.index, columns=C.index) if names else Sm)
    pw = PortfolioWrapper.from_robust_posterior(post, annualization_factor=h)
    fr = use.solve(cx, lambda: pw.variance_frontier(3))
    W = fr.weights
    hm, hC = formula(mu * h, S * h)
    cx.close(fr.returns, W.T @ hm, "log posterior reports simple returns of its horizon", rtol=1e-6, atol=1e-9)
    cx.close(fr.risks, np.sqrt(np.einsum("ik,ij,jk->k", W, hC, W)), "log posterior reports simple risk of its horizon", rtol=1e-5, atol=1e-9)
    cx.event("posterior")


@scenario(SCN, 2000, need=["shuffled covariance", "unlabelled mean"])
def mixed_labels(cx):
    """Conversions of partly labelled or differently ordered moments agree, label by label, with the plain numbers."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, lo=2, hi=6, scale=float(rng.choice([.02, .2])))
    mu = np.clip(mu, -.5, None)
    names = gen.labels(rng, n, "str")
    ix = pd.Index(names, tupleize_cols=False)
    m, C = pd.Series(mu, index=ix), pd.DataFrame(S, index=ix, columns=ix)
    h = float(rng.choice([.5, 1, 12, 252]))
    g = 1 + mu
    d = np.diag(S)
    fwd, prj = formula(mu, S), (mu * h, S * h)
    fns = {"log2simple": (J.log2simple, fwd), "horizon projection": (lambda a, b: J.project_mean_covariance(a, b, h), prj)}
    if (S / np.outer(g, g)).min() > -0.999:
        fns["simple2log"] = (J.simple2log, (np.log(g) - np.log1p(d / g ** 2) / 2, np.log1p(S / np.outer(g, g))))
    o, q = rng.permutation(n), rng.permutation(n)
    kind = str(rng.choice(["shuffled covariance", "shuffled columns", "unlabelled mean", "unlabelled mean, shuffled columns", "unlabelled covariance"]))
    a, b = {"shuffled covariance": (m.iloc[q], C.iloc[o, o]), "shuffled columns": (m, C.iloc[:, o]), "unlabelled mean": (mu, C),
            "unlabelled mean, shuffled columns": (mu, C.iloc[:, o]), "unlabelled covariance": (m, S)}[kind]
    cx.note(mu=a, cov=b, kind=kind)
    cx.state(n, kind)
    for what, (f, (wm, wC)) in fns.items():
        x, Y = f(a, b)
        x = x.loc[names] if isinstance(x, pd.Series) else x
        Y = Y.loc[names, names] if isinstance(Y, pd.DataFrame) else Y
        cx.close(x, wm, f"{what} of partly labelled moments", rtol=1e-9, atol=1e-12, case=kind)
        cx.leq(np.abs(np.asarray(Y) - wC), 1e-9 * np.abs(wC) + 1e-13 * (1 + np.abs(wC).max()), f"{what} of partly labelled moments", tol=0, case=kind)
    cx.event(kind)


@scenario(SCN, 500, need=["raised:ValueError"])
def impossible(cx):
    """Numbers that no log-normal market has are rejected."""
    rng = cx.rng
    n, mu, S = gen.moments(rng, lo=2, hi=5)
    V = (ValueError,)
    bad = mu.copy()
    bad[int(rng.integers(n))] = float(rng.choice([-1.0, -1.5, -30]))
    cx.state(n)
    cx.raises(lambda: J.simple2log(bad, S), "a mean below total loss is rejected", types=V)
    D = np.eye(n) * 4.0
    D[0, 1] = D[1, 0] = -1.2 * (1 + 0.02) ** 2
    cx.raises(lambda: J.simple2log(np.full(n, .02), D), "covariances no log-normal has are rejected", types=V)
    R = gen.panel(rng, 20, n)
    R[int(rng.integers(20)), int(rng.integers(n))] = float(rng.choice([-1.0, -1.2]))
    cx.raises(lambda: J.convert_scenarios_simple_to_compound(R), "a return of total loss has no logarithm", types=V)
    df = pd.DataFrame(np.exp(rng.normal(size=(5, n))), columns=gen.strlabels(rng, n))
    cx.raises(lambda: pandas_to_numpy_returns(df, return_calculation_method="other"), "unknown methods are rejected", types=V)
    cx.raises(lambda: pandas_to_numpy_returns(df, fill_na_method="other"), "unknown methods are rejected", types=V)
    cx.raises(lambda: pandas_to_numpy_returns(df, price_columns=["nope"]), "unknown columns are rejected", types=V)
    cx.raises(lambda: pandas_to_numpy_returns(df, date_column="nope"), "unknown columns are rejected", types=V)
    cx.raises(lambda: numpy_weights_to_pandas_series(np.ones(n + 1), list(df.columns)), "mismatched labels are rejected", types=V)
