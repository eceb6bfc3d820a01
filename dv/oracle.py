"""Independent reference computations (plain numpy/scipy, no diff_diff) used as oracles of the concrete runs."""
import numpy as np, scipy.stats as st

def ols(X, y, mode="robust", cluster=None):
    """-> b, u, V (mode: robust HC1 | classical | cluster), X of full column rank"""
    X = np.asarray(X, float); y = np.asarray(y, float); n, k = X.shape
    A = np.linalg.inv(X.T @ X); b = np.linalg.lstsq(X, y, rcond=None)[0]; u = y - X @ b
    if cluster is not None:
        lab = {v: i for i, v in enumerate(dict.fromkeys(list(cluster)))}; c = np.array([lab[v] for v in cluster]); m = len(lab)
        S = np.zeros((m, k)); np.add.at(S, c, X * u[:, None])
        V = A @ (S.T @ S) @ A * (m / (m - 1)) * ((n - 1) / (n - k))
    elif mode == "robust": V = A @ ((X * (u ** 2)[:, None]).T @ X) @ A * n / (n - k)
    else: V = A * (u @ u) / (n - k)
    return b, u, V

def independent(X, tol=1e-9):
    """indices of a maximal independent set of columns, earliest first"""
    keep = []; Q = np.zeros((len(X), 0))
    for j in range(X.shape[1]):
        x = X[:, j]; r = x - Q @ (Q.T @ x); r = r - Q @ (Q.T @ r)
        if np.linalg.norm(r) > tol * max(np.linalg.norm(x), 1e-300): keep.append(j); Q = np.column_stack([Q, r / np.linalg.norm(r)])
    return keep

def inference(b, se, df, alpha):
    t = b / se; p = 2 * (st.t.sf(abs(t), df) if df else st.norm.sf(abs(t)))
    c = st.t.ppf(1 - alpha / 2, df) if df else st.norm.ppf(1 - alpha / 2)
    return t, p, (b - c * se, b + c * se)

def dummies(v, drop_first=True):
    u = sorted(set(v)); v = np.asarray(v)
    return np.column_stack([(v == x).astype(float) for x in u[(1 if drop_first else 0):]] + [np.zeros((len(v), 0))])

def double_demean(x, a, b):
    """two-way within residual by regression on both sets of dummies"""
    D = np.column_stack([dummies(a, False), dummies(b)]); return x - D @ np.linalg.lstsq(D, x, rcond=None)[0]
