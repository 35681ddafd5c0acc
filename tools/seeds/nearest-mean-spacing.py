PROPERTY = 'C08'
NEEDS = 'a source grid spanning many latitudes (rows near the pole are close to each other) and target cells half way between two points near the equator'
BREAKS = 'the distance above which a cell is taken as outside the grid comes from the mean spacing of the grid: cells inside it are left missing'
EDITS = [('main/interpolation/scipy_interpolation_lib.py', "            self.min_upper_bound = np.max(distances) + np.max(distances) * 4 / self.geodetic_info.get('Nj')",
          "            self.min_upper_bound = np.mean(distances) + np.max(distances) * 4 / self.geodetic_info.get('Nj')")]
DEMO = """
G = fx.Grid(4, 60, 82, 0, dlat=1.4, dlon=1.)
T = fx.Target.regular(ROOT + '/t2', 't', 4, 3, 1.5, 0.5, cell=1.)
f = grib([dict(grid=G, values=np.arange(G.n) + 1., end=0)])
c, m = run(f, T, mode='nearest')
expect(c == 0 and len(m) == 1, c)
a = list(m.values())[0]
expect(not np.isnan(a[0]).any(), a)
"""
