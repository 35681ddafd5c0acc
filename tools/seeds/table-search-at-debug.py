PROPERTY = 'C29'
NEEDS = 'log level DEBUG and a registered table whose file is in the global folder, not in the one of the user'
BREAKS = 'at level DEBUG a registered table that is not in the folder of the user is not searched elsewhere, nor created again'
EDITS = [('main/interpolation/__init__.py', """        if not tbl_fullpath or not (pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')):
            # (there""", """        elif not tbl_fullpath or not (pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')):
            # (there""")]
DEMO = '''
import shutil
f = grib([dict(grid=GRID, values=np.arange(30.), end=0)])
c, m = run(f, TARGET, fresh=True)
expect(c == 0, c)
# the tables and their registry become global
os.makedirs(ROOT + '/configuration/global')
os.makedirs(ROOT + '/global')
fx.write_json(ROOT + '/configuration/global/global_conf.json', {'intertables': ROOT + '/global', 'geopotentials': GEO})
shutil.move(CONF + '/intertables.json', ROOT + '/configuration/global/intertables.json')
for n in os.listdir(TABLES):
    shutil.move(TABLES + '/' + n, ROOT + '/global')
res = [run(f, TARGET, fresh=True, create=False, args=['-l', level]) for level in ('ERROR', 'DEBUG')]
expect(res[0][0] == 0 and len(res[0][1]) == 1, res)
expect(res[1][0] == 0 and len(res[1][1]) == 1, res)
'''
