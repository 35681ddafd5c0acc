"""Reference models: plain restatements of what pyg2p must compute.  Missing values are NaN.

A message is a dict as for fixtures.grib_message: values, short, end, start, step_type, date, time, level, pert.
"""
import math

import numpy as np


class Refused(Exception):
    """The request must be refused with an error."""


class NothingFound(Exception):
    """No message matches."""


class Undefined(Exception):
    """Outside the domain of the property: no expectation."""


# ---------------------------------------------------------------- aggregation
def value_at(vals, t):
    """Value of an accumulated field at hour t: message, or linear interpolation in time; zero at hour 0."""
    if t in vals:
        return vals[t]
    if t == 0:
        return np.zeros_like(next(iter(vals.values())))
    before = [s for s in vals if s < t]
    after = [s for s in vals if s > t]
    if not after:
        raise Undefined('hour %s after the last message' % t)
    n = min(after)
    if before:
        p, vp = max(before), vals[max(before)]
    else:
        p, vp = 0, np.zeros_like(vals[n])
    return vp + (vals[n] - vp) * ((t - p) / (n - p))


def accumulate(vals, start, end, step, unit, force_zero=False):
    if 0 < start < step:
        raise Undefined('start within the first interval')
    out = {}
    first = step if start == 0 else start
    for t in range(first, end + 1, step):
        a, b = value_at(vals, t - step), value_at(vals, t)
        if t - step == 0 and force_zero:
            a = np.zeros_like(b)
        out[(t - step, t)] = (b - a) * unit / step
    return out


def _next(vals, h):
    after = [s for s in vals if s >= h]
    if not after:
        raise Undefined('hour %s after the last message' % h)
    return vals[min(after)]


def average(vals, start, end, step, halfweights=False, step_type='instant'):
    if step_type == 'accum':
        raise Refused()
    if 0 < start < step:
        raise Undefined('start within the first interval')
    out = {}
    a = 0 if start == 0 else start - step
    while a + step <= end:
        b = a + step
        if halfweights:
            inside = [h for h in range(a, b + 1) if h in vals]
            if len(inside) < 2:
                raise Undefined('half weights need two messages')
            w = {h: (0.5 if h in (a, b) else 1.0) for h in inside}
            tot = sum(w.values())
            out[(a, b)] = sum(vals[h] * w[h] for h in inside) / tot
        else:
            out[(a, b)] = sum(_next(vals, h) for h in range(a + 1, b + 1)) / step
        a = b
    return out


def instantaneous(vals, start, end, step, step_type='instant', input_step=None):
    if step_type == 'accum':
        raise Refused()
    if step_type == 'avg':
        first = start + input_step
    else:
        first = start - step if start - step > 0 else start
    out = {}
    for t in range(first, end + 1, step):
        if t == 0 and 0 not in vals:
            out[(t, t)] = np.zeros_like(next(iter(vals.values())))
        else:
            out[(t, t)] = _next(vals, t).copy()
    return out


def aggregate(kind, vals, start, end, step, unit=24, force_zero=False, halfweights=False, step_type='instant', input_step=None):
    if kind == 'accumulation':
        return accumulate(vals, start, end, step, unit, force_zero)
    if kind == 'average':
        return average(vals, start, end, step, halfweights, step_type)
    return instantaneous(vals, start, end, step, step_type, input_step)


# ---------------------------------------------------------------- messages
def _start(m):
    if m.get('step_type', 'instant') == 'instant':
        return m['end']
    return m.get('start') or 0


def matches(m, req):
    if m.get('short', '2t') not in (req['short'], req['short'].upper(), req['short'] + 'var'):
        return False
    for k, d in (('level', 0), ('date', 20200101), ('time', 0), ('pert', None)):
        if req.get(k) is not None and m.get(k, d) != req[k]:
            return False
    return True


def series(messages, req, kind=None):
    """vals by end step, and (start, end, step_type, input_step) of the request, as documented.

    req: short, level, date, time, pert, tstart, tend, agg={kind, step, ...}
    """
    same = [m for m in messages if m.get('short', '2t') == req['short'] and
            (req.get('pert') is None or m.get('pert') == req['pert'])]
    if not same:
        raise NothingFound()
    ends = sorted(m['end'] for m in same)
    input_step = ends[1] - ends[0] if len(ends) > 1 else ends[0] - min(_start(m) for m in same)
    start = req.get('tstart') or 0
    end = max(ends) if req.get('tend') is None else req['tend']
    lo = start
    if req.get('agg') and input_step != 0:
        lo = max(0, start - req['agg']['step'])
    if lo == end:
        sel = [m for m in messages if matches(m, req) and _start(m) == lo and m['end'] == end]
    else:
        sel = [m for m in messages if matches(m, req) and _start(m) >= lo and m['end'] <= end]
        if not sel and lo > 0:
            # accumulated parameters start at 0; only an aggregation may look before the first step
            first = 0 if req.get('agg') else lo
            sel = [m for m in messages if matches(m, req) and first <= m['end'] <= end]
    if not sel:
        raise NothingFound()
    return sel, start, end, input_step


def steps_of(messages, req, step_type=None):
    """Expected output by (start, end) of every map, before interpolation."""
    sel, start, end, input_step = series(messages, req)
    fn = req.get('function')
    vals = {}
    for m in sel:
        v = np.array(m['values'], dtype=float).ravel()
        if fn:
            v = fn(v)
        vals[(_start(m), m['end'])] = v
    agg = req.get('agg')
    if agg:
        byend = {}
        for (s, e), v in vals.items():
            byend[e] = v
        if step_type is None:
            step_type = max(((m['end'], m.get('step_type', 'instant')) for m in sel), key=lambda a: a[0])[1]
        out = aggregate(agg['kind'], byend, start, end, agg['step'], agg.get('unit', 24), agg.get('force_zero', False),
                        agg.get('halfweights', False), step_type, input_step)
    else:
        out = vals
    if req.get('cut'):
        out = {k: np.where(v < 0, 0.0, v) for k, v in out.items()}
    return dict(sorted(out.items(), key=lambda kv: kv[0][1]))


# ---------------------------------------------------------------- geometry
def xyz(lat, lon):
    la, lo = np.radians(np.asarray(lat, float)), np.radians(np.asarray(lon, float))
    return np.stack((np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)), axis=-1)


def chord(lat1, lon1, lat2, lon2):
    """Matrix of chord distances on the unit sphere, targets x sources."""
    a, b = xyz(lat1, lon1).reshape(-1, 3), xyz(lat2, lon2).reshape(-1, 3)
    return np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(-1))


def same(a, b, rtol=1e-9, atol=1e-9):
    """None if equal (NaN = missing), else a description of the first difference."""
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        i = int(np.flatnonzero(na != nb)[0])
        return 'cell %d is %s, expected %s' % (i, 'missing' if na[i] else repr(a[i]), 'missing' if nb[i] else repr(b[i]))
    ok = na | (np.abs(np.where(na, 0, a) - np.where(nb, 0, b)) <= atol + rtol * np.abs(np.where(nb, 0, b)))
    if not ok.all():
        i = int(np.flatnonzero(~ok)[0])
        return 'cell %d is %r, expected %r' % (i, a[i], b[i])
    return None


def is_missing_kind(d):
    return d is not None and ('missing' in d)


def f32(x):
    return np.asarray(x, np.float32).astype(float)


def isclose(a, b, tol=1e-9):
    return math.isclose(a, b, rel_tol=tol, abs_tol=tol)
