PROPERTY = 'C22'
NEEDS = 'an extension step other than 1 and a first map number other than the extension step'
BREAKS = 'the first map does not get the first number'
EDITS = [('main/writers/__init__.py', "        map_number = self.ctx.get('outMaps.fmap') + (i_map - 1) * self.ctx.get('outMaps.ext')",
          "        map_number = self.ctx.get('outMaps.fmap') + i_map * self.ctx.get('outMaps.ext') - 1")]
DEMO = '''
f = grib([dict(grid=GRID, values=np.full(30, 1. + k), end=k) for k in (0, 6, 12)])
c, m = run(f, TARGET, args=['-f', 3, '-x', 4, '-n', 't'])
expect(c == 0 and sorted(m) == ['t0000000.003', 't0000000.007', 't0000000.011'], c, sorted(m))
'''
