PROPERTY = 'C26'
NEEDS = 'a user variable whose value contains #'
BREAKS = 'the value of a user variable is cut at #'
EDITS = [('main/config.py', "                line = line.strip()\n                if line and not", "                line = line.split(self.comment_char)[0].strip()\n                if line and not")]
DEMO = '''
T = fx.Target.regular(ROOT + '/maps#2', 't', 4, 5, 49, 0)
open(CONF + '/x.conf', 'w').write('MAPS=' + ROOT + '/maps#2\\n')
f = grib([dict(grid=GRID, values=np.arange(30.), end=0)])
c, m = run(f, T, interp={'@latMap': '{MAPS}/t_lat.map', '@lonMap': '{MAPS}/t_lon.map'}, fresh=True)
expect(c == 0 and len(m) == 1, c)
'''
