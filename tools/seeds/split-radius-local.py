PROPERTY = 'C10'
NEEDS = 'adw interpolation in splits over a target whose rows are at different distances from the source points'
BREAKS = 'the reference radius of the angular distance weighting of a split computation is the one of the first row and not that of the whole target'
EDITS = [('main/interpolation/scipy_interpolation_lib.py', "                ref_radius=np.mean(distances[:, 6])\n", "                ref_radius=np.mean(distances[:lonefas.shape[1], 6])\n")]
DEMO = '''
import shutil
G = fx.Grid(7, 6, 52, 0)
T = fx.Target.regular(ROOT + '/t2', 't', 6, 5, 54, 1.3, cell=1.1)
f = grib([dict(grid=G, values=np.arange(G.n) ** 2 * 1., end=0)])
c, m = run(f, T, mode='adw')
shutil.rmtree(TABLES)
os.makedirs(TABLES)
fx.write_json(CONF + '/intertables.json', {})
c2, m2 = run(f, T, mode='adw', interp={'@num_of_splits': 3}, fresh=True)
expect(c == 0 and c2 == 0, c, c2)
a, b = list(m.values())[0], list(m2.values())[0]
expect(np.allclose(a, b, equal_nan=True), a - b)
'''
