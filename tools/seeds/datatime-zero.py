PROPERTY = 'C07'
NEEDS = 'a file with the same steps at data times 0 and 12, of which 0 is requested'
BREAKS = 'data time 0 is taken as not given and the messages of another data time are read'
EDITS = [('main/context.py', "        if self._vars['parameter.dataTime'] is not None:\n            reader_args", "        if self._vars['parameter.dataTime']:\n            reader_args")]
DEMO = '''
f = grib([dict(grid=GRID, values=np.full(30, 1. + t + k), end=k, time=t) for t in (0, 1200) for k in (0, 6)])
c, m = run(f, TARGET, args=['-T', 0])
expect(c == 0 and len(m) == 2, c, list(m))
a = [float(np.nanmean(x)) for x in m.values()]
expect(a == [1, 7], a)
'''
