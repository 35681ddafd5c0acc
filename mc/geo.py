"""Source grids and target positions used by the interpolation checks, and their spherical geometry."""
import numpy as np

from . import fixtures as fx


def sources():
    return {
        'area': fx.Grid(7, 6, 52, 10, 1, 1),
        'fine': fx.Grid(9, 8, 45.5, 7.25, 0.25, 0.25),
        'equator': fx.Grid(6, 7, 3, 30, 1, 1),
        'dateline': fx.Grid(8, 6, 12, 176, 1, 1),
        'greenwich': fx.Grid(8, 6, 50, -4, 1, 1),
        'south': fx.Grid(7, 6, -20, -70, 1, 1),
        'wide': fx.Grid(6, 8, 40, 100, 1.25, 1),
        'tall': fx.Grid(8, 5, 30, -100, 1, 1.25),
        'north': fx.Grid(6, 6, 75, 20, 1, 2),
        'arctic': fx.Grid(12, 20, 84, 10, 1, 1),
        'globe': fx.Grid(24, 13, 90, 0, 15, 15),
        'globe180': fx.Grid(24, 13, 90, -180, 15, 15),
        'globe_nopole': fx.Grid(24, 12, 82.5, 7.5, 15, 15),
        'reduced': fx.ReducedGrid([12, 16, 20, 24, 28, 32, 32, 28, 24, 20, 16, 12]),
        'reduced2': fx.ReducedGrid([8, 12, 18, 25, 30, 36, 40, 40, 36, 30, 25, 18, 12, 8]),
    }


def is_global(g):
    return not isinstance(g, fx.Grid) or g.ni * g.dlon >= 359.9


def row_lats(g):
    return g.rows if isinstance(g, fx.ReducedGrid) else g.lat0 - g.dlat * np.arange(g.nj)


def spacing(g):
    if isinstance(g, fx.ReducedGrid):
        d = float(np.max(np.abs(np.diff(g.rows))))
        return d, 360.0 / max(g.pl)
    return g.dlat, g.dlon


def bounds(g):
    r = row_lats(g)
    if is_global(g):
        return float(r.min()), float(r.max()), 0.0, 360.0
    return float(r.min()), float(r.max()), g.lon0, g.lon0 + g.dlon * (g.ni - 1)


def xyz(lat, lon):
    la, lo = np.radians(np.asarray(lat, float)), np.radians(np.asarray(lon, float))
    return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], axis=-1)


def angles(g, lat, lon):
    """Great-circle distances (degrees) of each target (flat) to each source point."""
    s = xyz(*g.coords())
    t = xyz(np.ravel(lat), np.ravel(lon))
    chord = np.sqrt(np.maximum(0, ((t[:, None, :] - s[None, :, :]) ** 2).sum(axis=2)))
    return np.degrees(2 * np.arcsin(np.minimum(1, chord / 2)))


def normal(lon, conv):
    lon = np.asarray(lon, float)
    return lon % 360 if conv == '360' else (lon + 180) % 360 - 180


def lattice(g, parts, margin):
    """Regular lattice of target positions: `parts` per source spacing, reaching `margin` spacings beyond the grid (not for the globe's
    longitudes).  Returns 2d lats, lons (lons increasing, not normalised)."""
    lo, hi, w, e = bounds(g)
    dla, dlo = spacing(g)
    la = np.arange(hi + margin * dla, lo - margin * dla - 1e-9, -dla / parts)
    la = la[(la <= 90) & (la >= -90)]
    if is_global(g):
        lons = np.arange(0, 360 - 1e-9, dlo / parts)
    else:
        lons = np.arange(w - margin * dlo, e + margin * dlo + 1e-9, dlo / parts)
    return np.repeat(la[:, None], len(lons), axis=1), np.repeat(lons[None, :], len(la), axis=0)


def inside(g, lat, lon, tol=1e-6):
    """Within the hull of the grid."""
    lo, hi, w, e = bounds(g)
    ok = (lat >= lo - tol) & (lat <= hi + tol)
    if not is_global(g):
        x = (lon - w) % 360
        ok &= (x <= e - w + tol) | (x >= 360 - tol)
    return ok


def resolution(g):
    """Largest distance of a source point to its nearest neighbour: the covered area reaches at most a little more than this beyond the points."""
    s = xyz(*g.coords())
    d = np.sqrt(np.maximum(0, ((s[:, None, :] - s[None, :, :]) ** 2).sum(axis=2)))
    np.fill_diagonal(d, 9)
    return float(np.degrees(2 * np.arcsin(d.min(axis=1).max() / 2)))


def shuffled(a):
    """The same positions in any arrangement in the map, as with projected coordinates."""
    n = a.size
    k = next(k for k in (7, 11, 13, 17, 19) if n % k)
    return a.ravel()[(np.arange(n) * k) % n].reshape(a.shape)
