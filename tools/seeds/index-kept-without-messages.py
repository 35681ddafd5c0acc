PROPERTY = 'C27'
NEEDS = 'an execution that selects no messages from its input'
BREAKS = 'the index of a file from which no message was selected is not released'
EDITS = [('main/readers/grib.py', "        self._log(f'Closing gribs messages from {self._grib_file}')\n", "        self._log(f'Closing gribs messages from {self._grib_file}')\n        if not self._selected_grbs:\n            return\n")]
DEMO = '''
import gribapi.gribapi as ga
import eccodes
n = {'new': 0, 'del': 0}
lib = ga.lib
class P:
    def __getattr__(self, k):
        f = getattr(lib, k)
        if k == 'grib_index_new_from_file':
            n['new'] += 1
        if k == 'grib_index_delete':
            n['del'] += 1
        return f
ga.lib = P()
f = grib([dict(grid=GRID, values=np.arange(30.), end=0)])
c, m = run(f, TARGET, short='tp')
c, m = run(f, TARGET)
expect(n['new'] > 0 and n['new'] == n['del'], n)
'''
