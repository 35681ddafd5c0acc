PROPERTY = 'C11'
NEEDS = 'an inverse distance table created from a field with missing points, later used with a field without them'
BREAKS = 'points missing in the field from which the table is created are left out of the table for ever'
EDITS = [('main/interpolation/__init__.py', """            _, weights, indexes = scipy_interpolation.interpolate(lonefas, latefas)            
""", """            _, weights, indexes = scipy_interpolation.interpolate(lonefas, latefas)
            if isinstance(v, ma.core.MaskedArray) and nnear > 1:
                weights = np.where(np.append(ma.getmaskarray(v), True)[indexes], np.nan, weights)
""")]
DEMO = '''
v = np.arange(30.)
v[[7, 15]] = np.nan
f = grib([dict(grid=GRID, values=v, end=0)])
c, m = run(f, TARGET, mode='invdist')
expect(c == 0, c)
f2 = grib([dict(grid=GRID, values=np.arange(30.), end=0)])
c, m = run(f2, TARGET, mode='invdist', create=False)
expect(c == 0 and not np.isnan(list(m.values())[0]).any(), c, m)
'''
