PROPERTY = 'C09'
NEEDS = 'inverse distance interpolation with a target cell a few kilometres from a source point'
BREAKS = 'a cell near a source point takes the value of that point instead of the weighted one'
EDITS = [('main/interpolation/scipy_interpolation_lib.py', """        if (adw_type is None):
            dist_leq_1e_10 = distances[:, 0] <= 1e-10
""", """        if (adw_type is None):
            dist_leq_1e_10 = distances[:, 0] <= 0.02 * self.min_upper_bound
""")]
DEMO = '''
G = fx.Grid(6, 5, 52, 0, dlat=1.0, dlon=1.0)
T = fx.Target.regular(ROOT + '/t2', 't', 1, 1, 50.02, 2.01, cell=1.0)
v = np.zeros(G.n)
v[2 * 6 + 2] = 1000
f = grib([dict(grid=G, values=v, end=0)])
c, m = run(f, T, mode='invdist')
expect(c == 0 and len(m) == 1, c)
a = float(list(m.values())[0][0, 0])
expect(900 < a < 999.7, a)
'''
