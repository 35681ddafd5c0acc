PROPERTY = 'C29'
NEEDS = 'log level DEBUG and an instantaneous aggregation with a message at an output step'
BREAKS = 'the median of the field is logged at level DEBUG, sorting the field in place'
EDITS = [('main/manipulation/aggregator.py', """                        self._log(f'out[{key}] = grib[{iter_}]')
""", """                        v_ord[iter_].sort()
                        self._log(f'out[{key}] = grib[{iter_}] (median {v_ord[iter_][v_ord[iter_].size // 2]})')
""")]
DEMO = '''
f = grib([dict(grid=GRID, values=100 - np.arange(30.), end=s) for s in (6, 12)])
kw = dict(aggregation={'@type': 'instantaneous', '@step': '6'}, fresh=True)
a = run(f, TARGET, args=['-s', 6, '-e', 12], **kw)
b = run(f, TARGET, args=['-s', 6, '-e', 12, '-l', 'DEBUG'], **kw)
expect(a[0] == b[0] == 0 and sorted(a[1]) == sorted(b[1]), a, b)
expect(all(np.array_equal(a[1][k], b[1][k], equal_nan=True) for k in a[1]), a, b)
'''
