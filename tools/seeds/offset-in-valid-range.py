PROPERTY = 'C20'
NEEDS = 'netCDF output with a valid minimum, a scale factor other than 1 and an offset other than 0'
BREAKS = 'the packed valid minimum is wrong when both scale factor and offset are given, so readers mask valid values'
EDITS = [('main/writers/netcdf.py', "            values_nc.valid_min = (np.float64(varargs.get('valid_min', None)) - np.float64(varargs.get('offset', '0.0'))) / np.float64(varargs.get('scale_factor', '1.0'))",
          "            values_nc.valid_min = np.float64(varargs.get('valid_min', None)) / np.float64(varargs.get('scale_factor', '1.0')) - np.float64(varargs.get('offset', '0.0'))")]
DEMO = '''
f = grib([dict(grid=GRID, values=np.arange(30.) + 270, end=0)])
c, m = run(f, TARGET, fmt='netcdf', args=['-S', '0.1', '-O', '20', '-vm', '260', '-vf', 'i4'])
expect(c == 0, c)
a = [x for n, x in m.items() if n.endswith('.nc')][0]
expect(not np.isnan(a).any(), a)
'''
