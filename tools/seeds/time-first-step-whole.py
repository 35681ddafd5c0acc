PROPERTY = 'C21'
NEEDS = 'output step units coarser than the steps, with the first step a whole number of units and later ones not'
BREAKS = 'whether the time axis needs fractions is decided from the first step, so later steps are truncated'
EDITS = [('main/writers/netcdf.py', "                        if np.any(np.mod(time_values, 1) != 0):", "                        if np.mod(time_values[0], 1) != 0:")]
DEMO = '''
f = grib([dict(grid=GRID, values=np.full(30, 1. + k), end=k) for k in (24, 30, 36)])
c, m = run(f, TARGET, fmt='netcdf', args=['-U', 'D'])
expect(c == 0 and np.allclose(m['time'], [1, 1.25, 1.5]), c, m.get('time'))
'''
