PROPERTY = 'C12'
NEEDS = 'two netCDF target maps of the same latitudes and origin whose longitudes end elsewhere'
BREAKS = 'the identifier of a netCDF target has its latitudes twice, so that targets of different longitudes share one table'
EDITS = [('main/readers/netcdf.py', '{self.lon_min:.2f}_{self.lon_max:.2f}', '{self.lat_min:.2f}_{self.lat_max:.2f}')]
DEMO = '''
T = fx.Target.regular(ROOT + '/target3', 'u', 4, 4, 49.25, .25, .5)
v = np.arange(30.) % 6 * 100
f = grib([dict(grid=GRID, values=v, end=0)])


def target(name, step):
    T.lat_map = T.lon_map = fx.write_nc_template(ROOT + '/' + name, 49.25 - .5 * np.arange(4), .25 + step * np.arange(4), fill=-9999.)
    return T


c, a = run(f, target('a.nc', .5), fresh=True)
expect(c == 0, c)
c, b = run(f, target('b.nc', .9), fresh=True)
expect(c == 0, c)
for n in os.listdir(TABLES):
    os.unlink(TABLES + '/' + n)
open(CONF + '/intertables.json', 'w').write('{}')
c, r = run(f, target('b.nc', .9), fresh=True)
expect(c == 0, c)
expect(all(np.array_equal(b[k], r[k]) for k in r), b, r)
'''
