PROPERTY = 'C23'
NEEDS = 'the API with a scipy interpolation method and data at two spatial resolutions'
BREAKS = 'the grid identifier is not switched in the API when the resolution changes, so the table of the first grid is used or stored for the second one'
EDITS = [('main/api.py', "                geodetic_info = self.messages.grid_details.get_2nd_resolution()\n                grid_id = self.messages.grid2_id\n",
          "                geodetic_info = self.messages.grid_details.get_2nd_resolution()\n")]
DEMO = '''
from pyg2p.main.api import Pyg2pApi, ApiContext
G2 = fx.Grid(7, 6, 50.5, -0.5)
f = grib([dict(grid=GRID, values=np.arange(GRID.n) * 1., end=0), dict(grid=G2, values=np.arange(G2.n) * 10., end=6)])
c, m = run(f, TARGET, mode='nearest')
expect(c == 0 and len(m) == 2, c)
d = {'loggerLevel': 'ERROR', 'inputFile': f, 'createIntertable': True, 'interpolationParallel': False,
     'OutMaps': {'cloneMap': TARGET.clone, 'unitTime': 24, 'Interpolation': {'latMap': TARGET.lat_map, 'lonMap': TARGET.lon_map, 'mode': 'nearest'}},
     'Parameter': {'shortName': '2t'}}
v = Pyg2pApi(ApiContext(d)).execute()
for a, b in zip(v.values(), m.values()):
    expect(np.allclose(a, b), a, b)
'''
