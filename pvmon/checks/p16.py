"""P16: Black-Litterman equals the conjugate Gaussian update."""
import numpy as np
import pandas as pd
from pyvallocation.moments import posterior_moments_black_litterman
from pyvallocation.views import BlackLittermanProcessor as BL

from .. import gen
from ..core import scenario

SCN = []
ASSUMPTIONS = ["confidences apply with omega='idzorek' (simplified closed form, documented); with omega=None view uncertainty is diag(P tau Sigma P')",
               "the reference posterior is computed in information form with 50-digit-free float64 and a relative tolerance of 1e-7"]


def world(rng):
    n, mu, S = gen.moments(rng, lo=1, hi=6, scale=float(rng.choice([0.2, 0.02, 0.002, 1.0])))
    frame = rng.random() < 0.6
    if frame:
        names = gen.labels(rng, n, str(rng.choice(["str", "str", "int"])))
    else:
        names = list(range(n))
    return n, mu, S, frame, names


def shuffled(rng, s):
    return s.iloc[rng.permutation(len(s))]


def prior(rng, n, mu, S, frame, names):
    """(keyword arguments, expected pi)."""
    d = float(rng.choice([1.0, 2.5, 0.3]))
    lab = frame and rng.random() < 0.7
    w = rng.dirichlet(np.ones(n)) * float(rng.choice([1.0, 1.0, 250.0]))
    if n > 1 and rng.random() < 0.2:
        w[0] = -0.3 * w[1]
    kind = str(rng.choice(["pi", "mkt", "mean", "pi+mkt", "mkt+mean"]))
    mk = lambda v: shuffled(rng, pd.Series(v, index=names)) if lab else (v if rng.random() < .6 else v.tolist())
    kw, pi = {"risk_aversion": d}, None
    other = mu + 1.0
    if kind.startswith("pi"):
        kw["pi"] = mk(mu)
        pi = mu
        if kind == "pi+mkt":
            kw["market_weights"] = mk(w)
    elif kind.startswith("mkt"):
        kw["market_weights"] = mk(w)
        pi = d * S @ (w / w.sum())
        if kind == "mkt+mean":
            kw["prior_mean"] = mk(other)
    else:
        kw["prior_mean"] = mk(mu)
        pi = mu
    return kw, pi, kind + ("L" if lab else "")


def views(rng, n, names, pi, S, frame):
    """(views argument, P, Q, keys)."""
    sd = np.sqrt(np.diag(S))
    if rng.random() < 0.2:
        q = pi + rng.normal(0, 1, n) * sd
        v = shuffled(rng, pd.Series(q, index=names)) if frame and rng.random() < .7 else (q if rng.random() < .5 else q.tolist())
        return v, np.eye(n), q, list(names), "vector"
    out, P, Q = {}, [], []
    perm = rng.permutation(n)
    basis = [((), int(i)) for i in perm]
    for _, i in basis[: int(rng.integers(1, n + 1))]:
        r = np.zeros(n)
        later = [int(j) for j in perm if list(perm).index(j) > list(perm).index(i)]
        if later and rng.random() < 0.4:
            j = int(rng.choice(later))
            k = (names[i], names[j])
            r[i], r[j] = 1, -1
        else:
            k = names[i]
            r[i] = 1
            if isinstance(k, int) and rng.random() < .2:
                k = str(k)
        q = float(r @ pi + rng.normal(0, 1) * np.sqrt(r @ S @ r))
        z = rng.random()
        out[k] = q if z < .7 else ([q] if z < .85 else (q,))
        P.append(r), Q.append(q)
    return out, np.array(P), np.array(Q), list(out), "dict"


def reference(S, pi, tau, P, Q, Om):
    """Kalman form evaluated with sequential scalar updates in a whitened basis (differs from the library's one-shot solve)."""
    C = tau * S
    m = pi.copy()
    ev, U = np.linalg.eigh(Om)
    Pw, Qw = U.T @ P, U.T @ Q
    for r, q, o in zip(Pw, Qw, ev):
        g = C @ r
        den = r @ g + o
        m = m + g * (q - r @ m) / den
        C = C - np.outer(g, g) / den
        C = 0.5 * (C + C.T)
    return m, S + C


def run(cx, frame, names, **kw):
    if cx.rng.random() < .35:  # the functional form is the same update
        kw.setdefault("omega", None)
        if isinstance(kw["omega"], str) and cx.rng.random() < .5:
            del kw["omega"]  # its default is Idzorek's
        m, C = posterior_moments_black_litterman(**kw)
        cx.event("functional form")
    else:
        m, C = BL(**kw).get_posterior()
    if frame:
        cx.check(isinstance(m, pd.Series) and list(m.index) == list(names), "posterior mean keeps the labels")
        cx.check(list(C.index) == list(names) and list(C.columns) == list(names), "posterior covariance keeps the labels")
    m, C = np.asarray(m), np.asarray(C)
    cx.close(C, C.T, "posterior covariance is symmetric", rtol=1e-12, atol=0)
    return m, C


@scenario(SCN, 8000, need=["vector", "dict", "idzorek", "matrix", "default", "functional form", "declared defaults"])
def posterior(cx):
    rng = cx.rng
    n, mu, S, frame, names = world(rng)
    kw, pi, pk = prior(rng, n, mu, S, frame, names)
    tau = float(rng.choice([0.05, 1.0, 0.01, 3.0]))
    kw["tau"] = tau
    if rng.random() < .25:  # the documented defaults: tau 5%, risk aversion one
        tau = 0.05
        del kw["tau"]
        if "mkt" not in pk or "pi" in pk:
            del kw["risk_aversion"]
        elif kw["risk_aversion"] == 1.0:
            del kw["risk_aversion"]
        cx.event("declared defaults")
    cov = pd.DataFrame(S, index=names, columns=names) if frame else S
    v, P, Q, keys, vk = views(rng, n, names, pi, S, frame)
    K = len(Q)
    ok = str(rng.choice(["default", "idzorek", "vector", "matrix"]))
    base = tau * S
    if ok == "idzorek":
        ut = rng.random() < 0.6
        kw["idzorek_use_tau"] = ut
        c = np.round(rng.uniform(0.02, 0.99, K), 3)
        z = rng.random()
        if z < .3:
            kw["view_confidences"] = c if rng.random() < .5 else c.tolist()
        elif z < .5:
            c = np.full(K, c[0])
            kw["view_confidences"] = float(c[0])
        elif z < .8:
            items = list(zip(keys, c.tolist()))
            kw["view_confidences"] = dict(items[i] for i in rng.permutation(K))
        else:
            c[0] = 1.0
            kw["view_confidences"] = {k: float(x) for k, x in list(zip(keys, c))[1:]}
            cx.event("missing confidence")
        kw["omega"] = "idzorek" if rng.random() < .7 else "IDZOREK"
        cc = np.clip(c, 1e-6, 1 - 1e-6)
        Om = np.diag((1 - cc) / cc * np.array([r @ ((base if ut else S) @ r) for r in P]))
    elif ok == "default":
        Om = np.diag([r @ base @ r for r in P])
        if rng.random() < .3:
            kw["omega"] = None
    elif ok == "vector":
        o = np.exp(rng.normal(0, 1, K)) * np.array([r @ base @ r for r in P])
        kw["omega"] = o if rng.random() < .5 else o.tolist()
        Om = np.diag(o)
    else:
        B = rng.normal(size=(K, K)) * np.sqrt([[r @ base @ r] for r in P]).reshape(K, 1)
        Om = B @ B.T + 1e-3 * np.diag([r @ base @ r for r in P])
        kw["omega"] = Om
    cx.event(vk), cx.event(ok)
    cx.note(S=cov, views=v, prior=pk, **kw)
    cx.state(n, pk, vk, ok, frame, tau)
    m, C = run(cx, frame, names, prior_cov=cov, mean_views=v, **kw)
    wm, wC = reference(S, pi, tau, P, Q, Om)
    sd = np.sqrt(np.diag(S))
    cx.leq(np.abs(m - wm), 1e-7 * sd * (1 + np.abs(wm / sd).max()), "posterior mean is the conjugate update", tol=0)
    cx.leq(np.abs(C - wC), 1e-8 * np.outer(sd, sd) * (1 + tau), "posterior covariance is the conjugate update", tol=0)
    ev = np.linalg.eigvalsh((C - S) / np.outer(sd, sd))
    cx.leq(-ev.min(), 1e-8, "posterior covariance adds estimation risk", tol=0)
    cx.leq(np.linalg.eigvalsh((C - S - base) / np.outer(sd, sd)).max(), 1e-8, "views never add estimation risk", tol=0)
    # view order is irrelevant
    if isinstance(v, dict) and K > 1 and ok in ("default", "idzorek") and not isinstance(kw.get("view_confidences"), (np.ndarray, list)):
        o = rng.permutation(K)
        m2, C2 = run(cx, frame, names, prior_cov=cov, mean_views={keys[i]: v[keys[i]] for i in o}, **kw)
        cx.leq(np.abs(m2 - m), 1e-8 * sd * (1 + np.abs(m / sd).max()), "view order does not matter", tol=0)


@scenario(SCN, 3000, need=["no view"])
def limits(cx):
    rng = cx.rng
    n, mu, S, frame, names = world(rng)
    kw, pi, pk = prior(rng, n, mu, S, frame, names)
    cov = pd.DataFrame(S, index=names, columns=names) if frame else S
    sd = np.sqrt(np.diag(S))
    m, C = run(cx, frame, names, prior_cov=cov, **kw, **({} if rng.random() < .5 else {"mean_views": {}}), omega=None if rng.random() < .5 else "idzorek")
    cx.close(m, pi, "prior mean kept without views", rtol=1e-12, atol=0)
    cx.close(C, S, "prior covariance kept without views", rtol=1e-12, atol=0)
    cx.event("no view")
    v, P, Q, keys, vk = views(rng, n, names, pi, S, frame)
    cx.note(S=cov, views=v, prior=pk, **kw)
    cx.state(n, pk, vk, frame)
    K = len(Q)
    m, C = run(cx, frame, names, prior_cov=cov, mean_views=v, view_confidences=1.0, omega="idzorek", **kw)
    # full confidence is capped at 1 - 1e-6
    cx.leq(np.abs(P @ m - Q), 1e-4 * np.abs(P @ pi - Q).max() * (1 + np.linalg.cond(P @ S @ P.T) ** .5) + 1e-9 * sd.max(), "full confidence imposes the view", tol=0)
    Z = run(cx, frame, names, prior_cov=cov, mean_views=v, omega=np.zeros(K), **kw)[0]
    cx.leq(np.abs(P @ Z - Q), 1e-7 * (np.abs(Q) + np.abs(P) @ np.abs(pi) + sd.max()), "certain views are imposed", tol=0)
    m, C = run(cx, frame, names, prior_cov=cov, mean_views=v, view_confidences=1e-9, omega="idzorek", **kw)
    cx.leq(np.abs(m - pi), 1e-3 * sd.max() + 1e-3 * np.abs(P @ pi - Q).max() * 2, "vanishing confidence keeps the prior mean", tol=0)
    # views equal to the prior move nothing
    w = {k: float(r @ pi) for k, r in zip(keys, P)}
    m, C = run(cx, frame, names, prior_cov=cov, mean_views=w, **kw)
    cx.leq(np.abs(m - pi), 1e-9 * (sd.max() + np.abs(pi).max()), "views equal to the prior keep its mean", tol=0)
    # with more confidence the posterior moves monotonically towards a single view
    k = int(rng.integers(K))
    prev = None
    for c in (0.05, 0.3, 0.7, 0.95):
        m, C = run(cx, frame, names, prior_cov=cov, mean_views={keys[k]: float(Q[k])}, view_confidences=c, omega="idzorek", **kw)
        got = float(P[k] @ m)
        want = float(P[k] @ pi) * (1 - c) + c * float(Q[k])
        cx.leq(abs(got - want), 1e-8 * (sd.max() + abs(Q[k]) + np.abs(pi).max()), "single view blends in proportion to its confidence", tol=0)
    # labels versus arrays
    if frame:
        m1, C1 = run(cx, True, names, prior_cov=cov, mean_views=v, **kw)
        o = rng.permutation(n)
        cs = cov.iloc[o, o]
        kk = {a: (b if not isinstance(b, (np.ndarray, list)) else pd.Series(np.asarray(b), index=names)) for a, b in kw.items()}
        vv = v if isinstance(v, (dict, pd.Series)) else pd.Series(np.asarray(v), index=names)
        m2, C2 = run(cx, True, [names[i] for i in o], prior_cov=cs, mean_views=vv, **kk)
        cx.leq(np.abs(m2 - m1[o]), 1e-8 * (sd.max() + np.abs(m1).max()), "asset order does not matter", tol=0)
        cx.leq(np.abs(C2 - C1[np.ix_(o, o)]), 1e-8 * np.abs(C1).max(), "asset order does not matter (covariance)", tol=0)


@scenario(SCN, 1500, need=["raised:ValueError"])
def malformed(cx):
    rng = cx.rng
    n, mu, S, frame, names = world(rng)
    cov = pd.DataFrame(S, index=names, columns=names) if frame else S
    a = names[int(rng.integers(n))]
    x = float(rng.choice([np.nan, np.inf, -np.inf]))
    i = int(rng.integers(n))
    bm = mu.copy()
    bm[i] = x
    bS = S.copy()
    bS[i, i] = x
    ok = dict(prior_cov=cov, pi=mu)
    cases = {
        "non-finite pi": dict(prior_cov=cov, pi=bm), "non-finite mean": dict(prior_cov=cov, prior_mean=bm),
        "non-finite weights": dict(prior_cov=cov, market_weights=bm), "non-finite covariance": dict(prior_cov=bS, pi=mu),
        "non-finite view": dict(ok, mean_views={a: x}), "non-finite omega": dict(ok, mean_views={a: 0.1}, omega=[x]),
        "NaN confidence": dict(ok, mean_views={a: .1}, omega="idzorek", view_confidences=np.nan),
        "no prior": dict(prior_cov=cov), "rectangular": dict(prior_cov=np.ones((n, n + 1)), pi=mu),
        "unknown label": dict(ok, mean_views={"nope": 0.1}), "unknown pair": dict(ok, mean_views={(a, "nope"): 0.1}),
        "length": dict(ok, mean_views=np.zeros(n + 1)), "prior length": dict(prior_cov=cov, pi=np.zeros(n + 1)),
        "weights length": dict(prior_cov=cov, market_weights=np.ones(n + 1)),
        "omega shape": dict(ok, mean_views={a: .1}, omega=np.ones((1, 2))), "omega length": dict(ok, mean_views={a: .1}, omega=[.1, .1]),
        "missing confidences": dict(ok, mean_views={a: .1}, omega="idzorek"),
        "confidence length": dict(ok, mean_views={a: .1}, omega="idzorek", view_confidences=[.5, .5]),
        "inequality": dict(ok, mean_views={a: (">=", 0.1)}), "risk aversion": dict(prior_cov=cov, market_weights=np.ones(n), risk_aversion=float(rng.choice([0, -1]))),
        "tau": dict(ok, mean_views={a: .1}, tau=float(rng.choice([0.0, -0.05, np.nan, np.inf]))),
        "cash-neutral weights": dict(prior_cov=cov, market_weights=np.zeros(n)),
    }
    k = list(cases)[cx.index % len(cases)]
    cx.note(**cases[k])
    cx.state(k, frame)
    cx.raises(lambda: BL(**cases[k]), "unusable inputs are rejected", types=(ValueError,), kind=k)
