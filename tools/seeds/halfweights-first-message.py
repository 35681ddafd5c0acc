PROPERTY = 'C03'
NEEDS = 'average with half weights whose first window begins before the first message'
BREAKS = 'the first message of the data weighs half even when it is inside the window and not at its end'
EDITS = [('main/manipulation/aggregator.py', "if iterator_avg==iter_from or iterator_avg==(iter_to-1):",
          "if iterator_avg in (iter_from, iter_to - 1, v_ord_keys[0]):")]
DEMO = '''
f = grib([dict(grid=GRID, values=np.full(30, float(k * k)), end=k) for k in (6, 12, 18, 24)])
c, m = run(f, TARGET, aggregation={'@step': 24, '@type': 'average', '@halfweights': True}, args=['-s', 24, '-e', 24])
expect(c == 0 and len(m) == 1, c, list(m))
a = np.nanmean(list(m.values())[0])
# 24 is at the end of the window: half weight. 6, 12, 18 are inside
expect(abs(a - (36 + 144 + 324 + 576 / 2) / 3.5) < 1e-3, a)
'''
