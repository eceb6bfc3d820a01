"""Independent generators of small data sets (not the repo's own DGPs) used as scaffolds and concrete inputs."""
import numpy as np, pandas as pd

def did_panel(rng, n_units=8, n_pre=1, n_post=1, effect=1.0, balanced=True, treated=None, noise=1.0, cov=0):
    T = n_pre + n_post
    treated = treated if treated is not None else max(1, min(n_units - 1, int(rng.integers(1, n_units))))
    rows = []
    ue = rng.normal(size=n_units) * 2; te = rng.normal(size=T)
    for u in range(n_units):
        for t in range(T):
            d = int(u < treated); p = int(t >= n_pre)
            r = dict(unit=u, time=t, post=p, treated=d, y=ue[u] + te[t] + effect * d * p + noise * rng.normal())
            for k in range(cov): r[f"x{k}"] = rng.normal()
            rows.append(r)
    df = pd.DataFrame(rows)
    if not balanced:
        keep = rng.random(len(df)) < 0.8
        df = df[keep]
    return df

def staggered(rng, cohorts=((0, 4), (3, 3), (5, 2)), T=6, t0=1, effect=1.0, noise=1.0, het=True, cov=0, shuffle=False):
    rows = []; u = 0
    te = rng.normal(size=T)
    for g, n in cohorts:
        for _ in range(n):
            a = rng.normal() * 2; x = rng.normal(size=max(cov, 1))
            for k in range(T):
                t = t0 + k
                on = g != 0 and np.isfinite(g) and t >= g
                eff = effect * ((1 + 0.3 * (t - g) + 0.1 * g) if het and on else 1.0) if on else 0.0
                r = dict(unit=u, time=t, first_treat=g, y=a + te[k] + eff + noise * rng.normal() + (0.5 * x[0] * k if cov else 0.0), treated=int(on))
                for q in range(cov): r[f"x{q}"] = x[q]
                rows.append(r)
            u += 1
    df = pd.DataFrame(rows)
    if shuffle: df = df.sample(frac=1.0, random_state=int(rng.integers(1 << 30))).reset_index(drop=True)
    return df

def ddd(rng, sizes=None, effect=2.0, noise=1.0, cov=0):
    rows = []
    for g in (0, 1):
        for p in (0, 1):
            for t in (0, 1):
                n = int(sizes[g][p][t]) if sizes is not None else int(rng.integers(2, 7))
                for _ in range(n):
                    r = dict(group=g, partition=p, time=t, y=1 + 2 * g - p + 0.5 * t + g * p + 0.3 * g * t - 0.7 * p * t + effect * g * p * t + noise * rng.normal())
                    for q in range(cov): r[f"x{q}"] = rng.normal()
                    rows.append(r)
    df = pd.DataFrame(rows)
    return df.sample(frac=1.0, random_state=int(rng.integers(1 << 30))).reset_index(drop=True)

def block_panel(rng, n_control=5, n_treated=2, n_pre=4, n_post=2, effect=1.0, noise=0.5):
    rows = []
    T = n_pre + n_post; f = rng.normal(size=T); te = rng.normal(size=T)
    for u in range(n_control + n_treated):
        tr = int(u >= n_control); a, l = rng.normal(size=2)
        for t in range(T):
            rows.append(dict(unit=u, time=t, treated=tr, post=int(t >= n_pre), D=int(tr and t >= n_pre), y=a + te[t] + l * f[t] + effect * (tr and t >= n_pre) + noise * rng.normal()))
    return pd.DataFrame(rows)
