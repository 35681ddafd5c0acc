PROPERTY = 'C15'
NEEDS = 'a geopotential file present both in the user folder and in the global one with different content'
BREAKS = 'the global folder is searched before the folder of the user'
EDITS = [('main/config.py', "        for folder in (additional, self.data_path, self.global_data_path):", "        for folder in (additional, self.global_data_path, self.data_path):")]
DEMO = '''
from pyg2p.main.config import Configuration, GlobalConf
g = grib([dict(grid=GRID, values=np.arange(30.), short='z', end=0)], 'src/geo.grib')
c = Configuration()
c.add_geopotential(g)
os.makedirs(ROOT + '/global')
open(ROOT + '/global/geo.grib', 'w').write('other')
c.geopotentials.global_data_path = ROOT + '/global'
grid = [k for k, n in c.geopotentials.vars.items() if n == 'geo.grib'][0]
expect(os.path.normpath(c.geopotentials.get_filepath(grid)) == GEO + '/geo.grib', c.geopotentials.get_filepath(grid))
'''
