"""Slow, obviously-correct reference models in float64. Nothing here imports riptide."""
import math
import numpy as np


# ------------------------------------------------------------------ FFA

_shift_cache = {}


def _round_half_up(a, b):
    """floor(a/b + 1/2) for non-negative integers"""
    return (2 * a + b) // (2 * b)


def ffa_shifts(m):
    """D[s, i] = left rotation of row i in output row s, from the recursive definition with exact rationals."""
    if m in _shift_cache:
        return _shift_cache[m]
    if m == 1:
        D = np.zeros((1, 1), dtype=np.int64)
    else:
        mh = m // 2
        mt = m - mh
        s = np.arange(m, dtype=np.int64)
        h = _round_half_up((mh - 1) * s, m - 1)
        t = _round_half_up((mt - 1) * s, m - 1)
        Dh, Dt = ffa_shifts(mh), ffa_shifts(mt)
        D = np.empty((m, m), dtype=np.int64)
        D[:, :mh] = Dh[h]
        D[:, mh:] = Dt[t] + (s - t)[:, None]
    if m <= 1200:
        if len(_shift_cache) > 400:
            _shift_cache.clear()
        _shift_cache[m] = D
    return D


def ffa(X):
    """FFA transform by the recursive definition (float64)."""
    X = np.asarray(X, dtype=np.float64)
    m, p = X.shape
    if m == 1:
        return X.copy()
    mh = m // 2
    mt = m - mh
    s = np.arange(m, dtype=np.int64)
    h = _round_half_up((mh - 1) * s, m - 1)
    t = _round_half_up((mt - 1) * s, m - 1)
    H, T = ffa(X[:mh]), ffa(X[mh:])
    idx = (np.arange(p)[None, :] + (s - t)[:, None]) % p
    return H[h] + T[t[:, None], idx]


def ffa_brute(X):
    """Same through the explicit shift table: sum of rotated rows."""
    m, p = X.shape
    D = ffa_shifts(m)
    out = np.empty((m, p))
    i = np.arange(m)[:, None]
    for s in range(m):
        out[s] = X[i, (np.arange(p)[None, :] + D[s][:, None]) % p].sum(axis=0)
    return out


# ------------------------------------------------------------------ downsampling

def downsampled_size(N, f):
    return int(math.floor(N / f))


def downsample(x, f):
    """Integral of the piecewise constant function x over [k f, (k+1) f). Returns (out, tol)."""
    x = np.asarray(x, dtype=np.float64)
    N = x.size
    n = downsampled_size(N, f)
    a = np.arange(n) * f
    b = np.minimum(a + f, N)
    ia = np.floor(a).astype(np.int64)
    ib = np.minimum(np.floor(b).astype(np.int64), N - 1)
    C = np.concatenate(([0.0], np.cumsum(x)))
    A = np.concatenate(([0.0], np.cumsum(np.abs(x))))
    out = (C[ib] + (b - ib) * x[ib]) - (C[ia] + (a - ia) * x[ia])
    mag = (A[np.minimum(ib + 1, N)] - A[ia])
    # float32 accumulation of f + 2 terms, float32 weights; float64 cancellation in the reference
    tol = 1.2e-7 * (f + 4) * mag + 1e-12 * (A[-1] + 1e-300) + 1e-30
    return out, tol


def downsample_small(x, f):
    """Direct sum, sample by sample (for short inputs)."""
    N = len(x)
    n = downsampled_size(N, f)
    out = np.zeros(n)
    for k in range(n):
        lo, hi = k * f, min(k * f + f, N)
        for i in range(int(math.floor(lo)), min(N, int(math.ceil(hi)))):
            out[k] += x[i] * max(0.0, min(hi, i + 1) - max(lo, i))
    return out


def mean_variance(N, f):
    """Mean variance of a sample of unit-variance noise downsampled by f, over all phases reached."""
    k = math.floor(f)
    r = f - k
    x = math.floor(N / f) * r
    if x > 1:
        return f - 1.0 / 3.0
    return (k - 1) + 1.0 - x + 2.0 / 3.0 * x * x


# ------------------------------------------------------------------ boxcar

def boxcar_snr(X, widths, std):
    """(snr, tol): best correlation with a zero-mean, unit-norm boxcar; X has shape (rows, b)."""
    X = np.atleast_2d(np.asarray(X, dtype=np.float64))
    rows, b = X.shape
    P = np.concatenate((np.zeros((rows, 1)), np.cumsum(np.concatenate((X, X), axis=1), axis=1)), axis=1)
    tot = P[:, b]
    amax = np.abs(P).max(axis=1)
    out = np.empty((rows, len(widths)))
    tol = np.empty((rows, len(widths)))
    for j, w in enumerate(widths):
        w = int(w)
        h = math.sqrt((b - w) / (b * w))          # height inside
        d = math.sqrt(w / (b * (b - w)))          # depth outside: h w = d (b - w)
        inside = P[:, w:w + b] - P[:, :b]
        best = inside.max(axis=1)
        out[:, j] = (h * best - d * (tot - best)) / std
        # prefix sums are stored as float32
        tol[:, j] = (8 * 6e-8 * (h + d) * amax + 4e-7 * ((h + d) * np.abs(best) + d * np.abs(tot))) / std + 1e-30
    return out, tol


# ------------------------------------------------------------------ periodogram

class Ambiguous(Exception):
    """The model cannot tell, because a count hinges on the last bit of a floating-point operation."""


def _counts(x, fn):
    """The possible values of fn(x) (floor or ceil) when x carries a relative error of 1e-13, in increasing order."""
    e = 1e-13 * max(1.0, abs(x))
    return sorted({int(fn(x)), int(fn(x - e)), int(fn(x + e))})


def grid(N, tsamp, pmin, pmax, bmin, bmax):
    """List of (f, n, bins, rows, lo, hi): the FFA transforms of a search, in order, with the least and largest
    number of trials to evaluate (they differ if the next trial period equals the limit to rounding)."""
    ds_ini = pmin / (tsamp * bmin)
    geo = (bmax + 1.0) / bmin
    num = _counts(math.log(pmax / pmin) / math.log(geo), math.ceil)
    out = []
    for k in range(num[-1]):
        f = ds_ini * geo ** k
        tau = f * tsamp
        pms = pmax / tau
        ns = _counts(N / f, math.floor) if k else [math.floor(N / f)]
        for b in range(bmin, min(bmax, ns[-1]) + 1):
            if b > pms * (1 + 1e-9):
                break
            if len({n // b for n in ns}) > 1:
                raise Ambiguous("number of rows")
            rows = ns[0] // b
            if rows < 2:
                continue
            y = max(0.0, b * (rows - 1.0) * (1.0 - b / min(pms, b + 1.0)))
            e = 1e-12 * b * rows
            lo, hi = min(rows, max(0, math.ceil(y - e))), min(rows, max(0, math.ceil(y + e)))
            out.append((f, int(math.floor(N / f)), b, rows, lo, hi))
    return out


def trial_period(tau, b, s, rows):
    return tau * b * b / (b - s / (rows - 1.0))


def match_grid(entries, tsamp, periods, foldbins, unique=False):
    """Lines the output trials up with grid(): [(entry, start, count)]; returns (list, None) or (None, complaint)."""
    def fits(e, i, cnt):
        f, n, b, rows, lo, hi = e
        if i + cnt > len(periods):
            return f"the trials stop at index {len(periods)}: {b} bins of {f * tsamp!r} s ({rows} rows) are missing or incomplete"
        want = trial_period(f * tsamp, b, np.arange(cnt), rows)
        got = periods[i:i + cnt]
        bad = np.flatnonzero(~(np.abs(got - want) <= 1e-11 * want) | (foldbins[i:i + cnt] != b))
        if bad.size:
            j = bad[0]
            return f"trial {i + j} has period {got[j]!r} and {foldbins[i + j]} bins, expected {want[j]!r} and {b} bins (row {j} of {rows}, {b} bins of {f * tsamp!r} s)"
        return None

    front, levels, complaint = {0: None}, [], None
    for e in entries:       # the set of positions reachable, as an optional trial may be in or out
        nxt = {}
        for i in front:
            for cnt in range(e[4], e[5] + 1):
                c = fits(e, i, cnt)
                if c is None:
                    if i + cnt in nxt and unique:
                        raise Ambiguous("two ways to line up")
                    nxt.setdefault(i + cnt, i)
                else:
                    complaint = c
        if not nxt:
            return None, complaint
        levels.append(nxt)
        front = nxt
    if len(periods) not in front:
        i = max(front)
        return None, f"{len(periods) - i} trials beyond the expected {i}, next one {periods[i]!r} with {foldbins[i]} bins"
    out, i = [], len(periods)
    for e, lv in zip(reversed(entries), reversed(levels)):
        out.append((e, lv[i], i - lv[i]))
        i = lv[i]
    return out[::-1], None


def width_trials(nbins, ducy_max, wtsp):
    wmax = max(1, int(math.floor(ducy_max * nbins)))
    out, w = [], 1
    while w <= wmax:
        out.append(w)
        w = max(int(math.floor(wtsp * w)), w + 1)
    return out


# ------------------------------------------------------------------ medians

def running_median(x, w):
    x = np.asarray(x)
    h = w // 2
    pad = np.concatenate((np.repeat(x[:1], h), x, np.repeat(x[-1:], h)))
    win = np.lib.stride_tricks.sliding_window_view(pad, w)
    out = np.empty(x.size, dtype=x.dtype)
    step = max(1, 4_000_000 // w)
    for i in range(0, x.size, step):
        out[i:i + step] = np.partition(win[i:i + step], h, axis=1)[:, h]
    return out


def fast_running_median(x32, w, minpts):
    """(rmed float64, exact): x32 is float32."""
    factor = int(max(1, w / minpts))
    if factor == 1:
        return running_median(x32, w).astype(np.float64), True
    n = x32.size // factor
    lo = x32[:n * factor].astype(np.float64).reshape(n, factor).mean(axis=1)
    med = running_median(lo, minpts)
    centres = np.arange(n) * factor + 0.5 * (factor - 1)
    i = np.arange(x32.size, dtype=float)
    return np.interp(i, centres, med), False


# ------------------------------------------------------------------ clustering

def friends(x, r):
    """Partition (set of frozensets of indices) by single linkage, O(n^2) union-find. x: list of exact numbers."""
    n = len(x)
    parent = list(range(n))

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i
    for i in range(n):
        for j in range(i):
            if abs(x[i] - x[j]) <= r:
                parent[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    return {frozenset(g) for g in groups.values()}
