PROPERTY = 'C06'
NEEDS = 'netCDF output with correction of data at two spatial resolutions'
BREAKS = 'the corrector is looked up once, so steps of the second resolution are corrected with the geopotential of the first grid'
EDITS = [('main/writers/__init__.py', """        geodetic_info = messages.grid_details
        grid_id = messages.grid_id
        time_values = []
        out_values = []
""", """        geodetic_info = messages.grid_details
        grid_id = messages.grid_id
        corrector = Corrector.get_instance(self.ctx, grid_id) if self.ctx.must_do_correction else None
        time_values = []
        out_values = []
"""), ('main/writers/__init__.py', """            if self.ctx.must_do_correction:
                corrector = Corrector.get_instance(self.ctx, grid_id)
                out_v = corrector.correct(out_v)
            out_v[out_v""", """            if corrector:
                out_v = corrector.correct(out_v)
            out_v[out_v""")]
DEMO = '''
G2 = fx.Grid(7, 6, 50.5, -0.5)
dem = fx.write_pcr(ROOT + '/dem.map', np.full(TARGET.shape, 100.), 0, 0, 1.0)
g1 = grib([dict(grid=GRID, values=np.full(GRID.n, 980.665), short='z', end=0)], 'geo1.grib')
g2 = grib([dict(grid=G2, values=np.full(G2.n, 9806.65), short='z', end=0)], 'geo2.grib')
from pyg2p.main import pyg2p_exe
for g in (g1, g2):
    expect(pyg2p_exe(['-g', g]) == 0, g)
f = grib([dict(grid=GRID, values=np.full(GRID.n, 280.), end=k) for k in (0, 6)] + [dict(grid=G2, values=np.full(G2.n, 290.), end=k) for k in (12, 18)])
cor = {'formula': 'p+gem-dem*0.0065', 'gem': '(z/9.80665)*0.0065', 'dem': dem}
c, m = run(f, TARGET, fmt='netcdf', correction=cor)
expect(c == 0, c)
a = [x for n, x in m.items() if n.endswith('.nc')][0]
a = [float(np.nanmean(x)) for x in a]
expect(np.allclose(a, [280, 280, 295.85, 295.85], atol=1e-3), a)
'''
