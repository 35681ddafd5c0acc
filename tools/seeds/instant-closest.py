PROPERTY = 'C04'
NEEDS = 'instantaneous aggregation at a step without a message whose previous message is nearer than the next one'
BREAKS = 'the nearest message in time is taken instead of the next one'
EDITS = [('main/manipulation/aggregator.py', """                        ind_next_ = bisect.bisect_right(v_ord_keys, iter_)
                        next_ = list(v_ord_keys)[ind_next_]
""", """                        next_ = min(v_ord_keys, key=lambda k_: (abs(k_ - iter_), -k_))
""")]
DEMO = '''
f = grib([dict(grid=GRID, values=np.full(30, 1. + k), end=k) for k in (0, 6, 12, 24, 36)])
c, m = run(f, TARGET, aggregation={'@step': 5, '@type': 'instantaneous'}, args=['-s', 5, '-e', 24])
expect(c == 0, c)
a = [float(np.nanmean(x)) for x in m.values()]
want = {5: 7, 10: 13, 15: 25, 20: 25}
expect(a == [want[k] for k in (5, 10, 15, 20)], a)
'''
