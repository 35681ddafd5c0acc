PROPERTY = 'C13'
NEEDS = 'a crash or write failure in the middle of the copy of a geopotential, and the command repeated'
BREAKS = 'a file left truncated by the interrupted copy is not copied again and is registered as the geopotential'
EDITS = [('util/files.py', "        to_dir = os.path.join(to_dir, filename(file_) + '.backup')\n    sh.copy(file_, to_dir)",
          "        to_dir = os.path.join(to_dir, filename(file_) + '.backup')\n    if not exists(os.path.join(to_dir, filename(file_))):\n        sh.copy(file_, to_dir)")]
DEMO = '''
import subprocess
g = grib([dict(grid=GRID, values=np.arange(30.), short='z', end=0)], 'src/geo.grib')
# the copy is interrupted after the first bytes
open(GEO + '/geo.grib', 'wb').write(open(g, 'rb').read()[:40])
from pyg2p.main import pyg2p_exe
expect(pyg2p_exe(['-g', g]) == 0)
expect(open(GEO + '/geo.grib', 'rb').read() == open(g, 'rb').read(), os.path.getsize(GEO + '/geo.grib'))
'''
