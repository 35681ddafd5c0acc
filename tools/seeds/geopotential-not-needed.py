PROPERTY = 'C19'
NEEDS = 'a correction for a grid without geopotential'
BREAKS = 'an execution without its geopotential ends with status zero and no map'
EDITS = [('main/__init__.py', "from ..exceptions import ApplicationException, NO_MESSAGES", "from ..exceptions import ApplicationException, NO_MESSAGES, NO_GEOPOTENTIAL"),
         ('main/__init__.py', "        if not err.code == NO_MESSAGES:", "        if err.code not in (NO_MESSAGES, NO_GEOPOTENTIAL):")]
DEMO = '''
dem = fx.write_pcr(ROOT + '/dem.map', np.full((4, 5), 100.), -0.5, 49.5, 1.)
f = grib([dict(grid=GRID, values=np.arange(30.) + 270, end=0)])
c, m = run(f, TARGET, correction={'formula': 'p+gem*0.0065-dem*0.0065', 'gem': 'z*0.102', 'dem': ROOT + '/dem.map'})
expect(c == 1 and not m, c, list(m))
'''
