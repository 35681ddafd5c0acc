PROPERTY = 'C17'
NEEDS = 'a valid minimum 0 as number in the command file, without the command line option'
BREAKS = 'the valid minimum 0 of the command file is taken as not given'
EDITS = [('main/context.py', "self._vars['outMaps.validMin'] = exec_conf['OutMaps'].get('@validMin')", "self._vars['outMaps.validMin'] = exec_conf['OutMaps'].get('@validMin') or None")]
DEMO = """
f = grib([dict(grid=GRID, values=np.arange(30.) - 15, end=0)])
c, m = run(f, TARGET, fmt='netcdf', outmaps={'@validMin': 0})
expect(c == 0, c)
a = [x for n, x in m.items() if n.endswith('.nc')][0]
expect(not (a < 0).any(), a)
"""
