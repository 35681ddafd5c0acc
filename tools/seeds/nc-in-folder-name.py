PROPERTY = 'C30'
NEEDS = 'a PCRaster elevation map in a folder (or with a name) that contains ".nc" before its end'
BREAKS = 'a map is taken for netCDF when ".nc" is anywhere in its path'
EDITS = [('main/interpolation/latlong.py', "        if self._dem_map.endswith('.nc'):", "        if '.nc' in self._dem_map:")]
DEMO = '''
import shutil
dem = fx.write_pcr(ROOT + '/dem.map', np.arange(20.).reshape(4, 5) * 10, *TARGET.origin, 1.)
z = fx.write_grib(ROOT + '/z.grib', [dict(grid=GRID, values=np.arange(30.) * 98, short='z', end=0)])
from pyg2p.main import pyg2p_exe
expect(pyg2p_exe(['-g', z]) == 0)
f = grib([dict(grid=GRID, values=np.arange(30.) + 270, end=0)])
os.makedirs(ROOT + '/efas.nc.maps')
other = shutil.copy(dem, ROOT + '/efas.nc.maps/dem.map')
r = [run(f, TARGET, fresh=True, correction={'formula': 'p+gem-dem*0.01', 'gem': 'z*0.001', 'dem': d}) for d in (dem, other)]
expect(r[0][0] == 0 and r[1][0] == 0, r)
expect(all(np.array_equal(r[0][1][k], r[1][1][k], equal_nan=True) for k in r[0][1]), r)
'''
