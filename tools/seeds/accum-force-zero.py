PROPERTY = 'C02'
NEEDS = 'accumulation with forceZeroArray and a start whose first interval begins after hour 0 (start > step)'
BREAKS = 'the zero array is forced at the first interval of the period even when it begins after hour 0, so that map holds the whole accumulation since hour 0'
EDITS = [('main/manipulation/aggregator.py', "            if iter_ - self._aggregation_step == 0 and self._force_zero:",
          "            if iter_ == self._start and self._force_zero:")]
DEMO = '''
f = grib([dict(grid=GRID, values=np.arange(30) * (k + 1.0), short='tp', start=0, end=6 * k, step_type='accum') for k in range(0, 5)])
c, m = run(f, TARGET, short='tp', aggregation={'@step': 6, '@type': 'accumulation', '@forceZeroArray': True}, outmaps={'@unitTime': 6}, args=['-s', 12, '-e', 24])
expect(c == 0 and len(m) == 3, c, list(m))
a = list(m.values())
# every interval accumulates the same amount
expect(np.allclose(a[0], a[1]) and np.allclose(a[1], a[2]), a)
'''
