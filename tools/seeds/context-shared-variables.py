PROPERTY = 'C24'
NEEDS = 'two executions in one process, the first one with an aggregation and the second one without'
BREAKS = 'execution variables are shared by all contexts of the process, so settings of an earlier execution survive in a later one'
EDITS = [('main/context.py', "    default_values = {'interpolation.mode'", "    _vars = {}\n    default_values = {'interpolation.mode'"),
         ('main/context.py', "        self.to_add_geopotential = False\n", "        self.to_add_geopotential = False\n"),
         ('main/context.py', "        self._vars = {}\n\n    def _define_exec_params", "\n    def _define_exec_params")]
EDITS = [EDITS[0], EDITS[2]]
DEMO = '''
f = grib([dict(grid=GRID, values=np.full(30, 1. + k), end=k) for k in (0, 6, 12)])
c, m = run(f, TARGET, fmt='netcdf', aggregation={'@step': 6, '@type': 'instantaneous'})
expect(c == 0, c)
c, m = run(f, TARGET, fmt='netcdf')
expect(c == 0 and '2t_None.nc' in m, c, list(m))
'''
