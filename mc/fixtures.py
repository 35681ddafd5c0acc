"""Builders of the inputs pyg2p consumes: GRIB files, PCRaster/netCDF maps, JSON commands, user folder.

Everything is written inside a scratch directory.  Nothing here imports pyg2p.
"""
import json
import os

import eccodes as ec
import numpy as np
from osgeo import gdal
from netCDF4 import Dataset

gdal.UseExceptions()
PCR_MV = -3.4028234663852886e+38


class Grid:
    """A regular lat/lon GRIB grid, scanned from the north-west corner."""

    def __init__(self, ni, nj, lat0, lon0, dlat=1.0, dlon=1.0):
        self.ni, self.nj, self.lat0, self.lon0, self.dlat, self.dlon = ni, nj, lat0, lon0, dlat, dlon

    @property
    def n(self):
        return self.ni * self.nj

    def coords(self):
        lats = np.repeat(self.lat0 - self.dlat * np.arange(self.nj), self.ni)
        lons = np.tile(self.lon0 + self.dlon * np.arange(self.ni), self.nj)
        return lats, lons

    def key(self):
        return (self.ni, self.nj, self.lat0, self.lon0, self.dlat, self.dlon)

    sample = 'regular_ll'

    def describe(self, h):
        ec.codes_set(h, 'Ni', self.ni)
        ec.codes_set(h, 'Nj', self.nj)
        ec.codes_set(h, 'latitudeOfFirstGridPointInDegrees', self.lat0)
        ec.codes_set(h, 'longitudeOfFirstGridPointInDegrees', norm_lon(self.lon0))
        ec.codes_set(h, 'latitudeOfLastGridPointInDegrees', self.lat0 - self.dlat * (self.nj - 1))
        ec.codes_set(h, 'longitudeOfLastGridPointInDegrees', norm_lon(self.lon0 + self.dlon * (self.ni - 1)))
        ec.codes_set(h, 'iDirectionIncrementInDegrees', self.dlon)
        ec.codes_set(h, 'jDirectionIncrementInDegrees', self.dlat)


class ReducedGrid:
    """Global reduced Gaussian grid: rows of different length."""
    sample = 'reduced_gg'

    def __init__(self, pl):
        assert len(pl) % 2 == 0
        self.pl = list(pl)
        x, _ = np.polynomial.legendre.leggauss(len(pl))
        self.rows = np.degrees(np.arcsin(x))[::-1]

    @property
    def n(self):
        return sum(self.pl)

    def coords(self):
        lats = np.repeat(self.rows, self.pl)
        lons = np.concatenate([np.arange(k) * 360. / k for k in self.pl])
        return lats, lons

    def key(self):
        return ('rgg',) + tuple(self.pl)

    def describe(self, h):
        ec.codes_set(h, 'N', len(self.pl) // 2)
        ec.codes_set(h, 'Nj', len(self.pl))
        ec.codes_set_array(h, 'pl', self.pl)
        ec.codes_set(h, 'latitudeOfFirstGridPointInDegrees', float(self.rows[0]))
        ec.codes_set(h, 'latitudeOfLastGridPointInDegrees', float(self.rows[-1]))
        ec.codes_set(h, 'longitudeOfFirstGridPointInDegrees', 0)
        ec.codes_set(h, 'longitudeOfLastGridPointInDegrees', 360 - 360. / max(self.pl))


class GaussGrid(Grid):
    """Global regular Gaussian grid."""
    sample = 'regular_gg'

    def __init__(self, n, lon0=0):
        self.rows = np.degrees(np.arcsin(np.polynomial.legendre.leggauss(2 * n)[0]))[::-1]
        Grid.__init__(self, 4 * n, 2 * n, float(self.rows[0]), lon0, 180. / (2 * n), 90. / n)

    def coords(self):
        return np.repeat(self.rows, self.ni), np.tile(self.lon0 + self.dlon * np.arange(self.ni), self.nj)

    def describe(self, h):
        ec.codes_set(h, 'N', self.nj // 2)
        ec.codes_set(h, 'Ni', self.ni)
        ec.codes_set(h, 'Nj', self.nj)
        ec.codes_set(h, 'latitudeOfFirstGridPointInDegrees', float(self.rows[0]))
        ec.codes_set(h, 'longitudeOfFirstGridPointInDegrees', norm_lon(self.lon0))
        ec.codes_set(h, 'latitudeOfLastGridPointInDegrees', float(self.rows[-1]))
        ec.codes_set(h, 'longitudeOfLastGridPointInDegrees', norm_lon(self.lon0 + self.dlon * (self.ni - 1)))
        ec.codes_set(h, 'iDirectionIncrementInDegrees', self.dlon)


def norm_lon(x):
    return x % 360.0


MISSING = 9999.0


def grib_message(grid, values, short='2t', end=0, start=None, step_type='instant', date=20200101, time=0,
                 level=0, level_type=None, pert=None, edition=1, mv=MISSING, bits=24, step_units=None, bitmap=None):
    sample = '%s_sfc_grib%d' % (grid.sample, edition)
    h = ec.codes_grib_new_from_samples(sample)
    if level_type == 'pl':
        ec.codes_release(h)
        h = ec.codes_grib_new_from_samples('%s_pl_grib%d' % (grid.sample, edition))
    try:
        if pert is not None:
            if edition == 1:
                ec.codes_set(h, 'setLocalDefinition', 1)
                ec.codes_set(h, 'localDefinitionNumber', 1)
                ec.codes_set(h, 'type', 'pf')
                ec.codes_set(h, 'stream', 'enfo')
                ec.codes_set(h, 'numberOfForecastsInEnsemble', 51)
                ec.codes_set(h, 'perturbationNumber', pert)
            else:
                ec.codes_set(h, 'productDefinitionTemplateNumber', 1 if step_type == 'instant' else 11)
                ec.codes_set(h, 'perturbationNumber', pert)
        grid.describe(h)
        ec.codes_set(h, 'dataDate', date)
        ec.codes_set(h, 'dataTime', time)
        if step_type != 'instant' and edition == 2 and pert is None:
            ec.codes_set(h, 'productDefinitionTemplateNumber', 8)
        ec.codes_set(h, 'shortName', short)
        if step_units is not None:
            ec.codes_set(h, 'stepUnits', step_units)
        ec.codes_set(h, 'stepType', step_type)
        if step_type == 'instant':
            ec.codes_set(h, 'step', end)
        else:
            ec.codes_set(h, 'stepRange', '%d-%d' % (0 if start is None else start, end))
        if level_type == 'pl':
            ec.codes_set(h, 'level', level)
        vals = np.array(values, dtype=float).ravel().copy()
        miss = np.isnan(vals)
        ec.codes_set(h, 'bitsPerValue', bits)
        ec.codes_set(h, 'missingValue', mv)
        ec.codes_set(h, 'bitmapPresent', int(miss.any()) if bitmap is None else int(bitmap))
        vals[miss] = mv
        ec.codes_set_values(h, vals)
        return ec.codes_get_message(h)
    finally:
        ec.codes_release(h)


def write_grib(path, messages):
    """messages: list of bytes or of keyword dicts for grib_message."""
    with open(path, 'wb') as f:
        for m in messages:
            f.write(m if isinstance(m, bytes) else grib_message(**m))
    return path


def read_grib(path):
    """Independent decoding with eccodes: list of (keys, values with NaN for missing)."""
    out = []
    with open(path, 'rb') as f:
        while True:
            h = ec.codes_grib_new_from_file(f)
            if h is None:
                break
            v = ec.codes_get_values(h)
            if ec.codes_get(h, 'bitmapPresent'):
                v = np.where(ec.codes_get_array(h, 'bitmap', int) == 0, np.nan, v)
            out.append((dict(start=ec.codes_get(h, 'startStep'), end=ec.codes_get(h, 'endStep')), v))
            ec.codes_release(h)
    return out


def write_pcr(path, data, x0, y0, cell, mv=PCR_MV, mask=None, kind='scalar'):
    """data: 2d array; x0,y0 = upper left CORNER."""
    data = np.array(data, dtype=np.float32 if kind == 'scalar' else np.uint8)
    if mask is not None:
        data = data.copy()
        data[np.asarray(mask)] = mv
    mem = gdal.GetDriverByName('MEM').Create('', data.shape[1], data.shape[0], 1,
                                             gdal.GDT_Float32 if kind == 'scalar' else gdal.GDT_Byte)
    mem.SetGeoTransform((x0, cell, 0, y0, 0, -cell))
    b = mem.GetRasterBand(1)
    b.SetNoDataValue(mv)
    b.WriteArray(data)
    ds = gdal.GetDriverByName('PCRaster').CreateCopy(
        path, mem, options=['PCRASTER_VALUESCALE=%s' % ('VS_SCALAR' if kind == 'scalar' else 'VS_BOOLEAN')])
    ds = None  # noqa
    mem = None  # noqa
    for ext in ('.aux.xml',):
        if os.path.exists(path + ext):
            os.unlink(path + ext)
    return path


def read_pcr(path):
    """(array with NaN for missing, nodata)"""
    ds = gdal.Open(path)
    b = ds.GetRasterBand(1)
    mv = b.GetNoDataValue()
    a = b.ReadAsArray().astype(np.float64)
    gt = ds.GetGeoTransform()
    a[a == np.float64(mv)] = np.nan
    a[a <= -1e38] = np.nan
    del b
    del ds
    return a, gt


class Target:
    """Target area: latitude/longitude/clone maps written as PCRaster maps."""

    def __init__(self, d, name, lats, lons, cell=1.0, clone_mask=None, coord_mask=None):
        lats = np.asarray(lats, dtype=float)
        lons = np.asarray(lons, dtype=float)
        self.shape = lats.shape
        self.cell = cell
        os.makedirs(d, exist_ok=True)
        x0, y0 = float(lons.min()) - cell / 2, float(lats.max()) + cell / 2
        self.origin = (x0, y0)
        self.lat_map = write_pcr(os.path.join(d, name + '_lat.map'), lats, x0, y0, cell, mask=coord_mask)
        self.lon_map = write_pcr(os.path.join(d, name + '_lon.map'), lons, x0, y0, cell, mask=coord_mask)
        self.clone = write_pcr(os.path.join(d, name + '_clone.map'), np.ones(self.shape), x0, y0, cell,
                               mask=clone_mask)
        self.lats = lats.astype(np.float32).astype(float)
        self.lons = lons.astype(np.float32).astype(float)
        self.clone_mask = np.zeros(self.shape, bool) if clone_mask is None else np.asarray(clone_mask)
        self.coord_mask = np.zeros(self.shape, bool) if coord_mask is None else np.asarray(coord_mask)

    @classmethod
    def regular(cls, d, name, nrows, ncols, lat0, lon0, cell=1.0, **kw):
        lats = np.repeat((lat0 - cell * np.arange(nrows))[:, None], ncols, axis=1)
        lons = np.repeat((lon0 + cell * np.arange(ncols))[None, :], nrows, axis=0)
        return cls(d, name, lats, lons, cell, **kw)


def write_nc_template(path, lats, lons, name='tmpl', data=None, fill=None, latname='lat', lonname='lon', dtype='f8'):
    nf = Dataset(path, 'w', format='NETCDF4_CLASSIC')
    nf.createDimension(lonname, len(lons))
    nf.createDimension(latname, len(lats))
    v = nf.createVariable(lonname, 'f8', (lonname,))
    v[:] = lons
    v = nf.createVariable(latname, 'f8', (latname,))
    v[:] = lats
    v = nf.createVariable(name, dtype, (latname, lonname), fill_value=fill)
    v[:] = np.ones((len(lats), len(lons))) if data is None else data
    nf.close()
    return path


PARAMETERS = {
    '2t': {'@shortName': '2t', '@description': '2 metre temperature', '@unit': 'K', 'Conversion': [
        {'@id': 'k2c', '@target': '', '@function': 'x=x-273.15', '@unit': 'C', '@cutOffNegative': 'False'},
        {'@id': 'cut', '@target': '', '@function': 'x=x-4', '@unit': 'C', '@cutOffNegative': 'True'},
        {'@id': 'id', '@target': '', '@function': 'x=x', '@unit': 'K', '@cutOffNegative': 'False'}]},
    'tp': {'@shortName': 'tp', '@description': 'Total precipitation', '@unit': 'm', 'Conversion': [
        {'@id': 'm2mm', '@function': 'x=x*1000', '@unit': 'mm', '@cutOffNegative': 'True'},
        {'@id': 'm2mm_nocut', '@function': 'x=x*1000', '@unit': 'mm', '@cutOffNegative': 'False'}]},
    't': {'@shortName': 't', '@description': 'Temperature', '@unit': 'K', 'Conversion': {
        '@id': 'k2c', '@function': 'x=x-273.15', '@unit': 'C', '@cutOffNegative': 'False'}},
    'z': {'@shortName': 'z', '@description': 'Geopotential', '@unit': 'm**2/s**2', 'Conversion': {
        '@id': 'id', '@function': 'x=x', '@unit': 'm', '@cutOffNegative': 'False'}},
}


def write_json(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1)
    return path


def make_home(home, intertables=None, geopotentials=None, extra=None, parameters=PARAMETERS):
    d = os.path.join(home, '.pyg2p')
    os.makedirs(d, exist_ok=True)
    if parameters is not None:
        write_json(os.path.join(d, 'parameters.json'), parameters)
    lines = []
    if intertables:
        os.makedirs(intertables, exist_ok=True)
        lines.append('INTERTABLES=%s' % intertables)
    if geopotentials:
        os.makedirs(geopotentials, exist_ok=True)
        lines.append('GEOPOTENTIALS=%s' % geopotentials)
    for k, v in (extra or {}).items():
        lines.append('%s=%s' % (k, v))
    with open(os.path.join(d, 'paths.conf'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return d


def command_json(path, target, short='2t', mode='nearest', aggregation=None, conversion=None, correction=None,
                 param=None, outmaps=None, interp=None, name='test'):
    p = {'@shortName': short}
    if conversion:
        p['@applyConversion'] = conversion
    if correction:
        p.update({'@correctionFormula': correction['formula'], '@gem': correction['gem'],
                  '@demMap': correction['dem']})
    p.update(param or {})
    o = {'@cloneMap': target.clone, '@unitTime': '24'}
    o.update(outmaps or {})
    i = {'@latMap': target.lat_map, '@lonMap': target.lon_map, '@mode': mode}
    i.update(interp or {})
    o['Interpolation'] = i
    ex = {'@name': name, 'Parameter': p, 'OutMaps': o}
    if aggregation:
        ex['Aggregation'] = aggregation
    return write_json(path, {'Execution': ex})
