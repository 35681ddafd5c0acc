PROPERTY = 'C03'
NEEDS = 'an average without half weights whose windows do not end on a message, so that the next message of the last hours of a window lies beyond it'
BREAKS = 'hours whose next message is beyond the window are left out of the mean instead of taking that message'
EDITS = [('main/manipulation/aggregator.py', """                            v_ma = v_ord[next_]
                            sum_counter += 1
                            print(""", """                            if next_ >= iter_to and sum_counter:
                                continue
                            v_ma = v_ord[next_]
                            sum_counter += 1
                            print(""")]
DEMO = '''
f = grib([dict(grid=GRID, values=np.full(30, 10. * k), end=6 * k) for k in range(0, 5)])
c, m = run(f, TARGET, aggregation={'@step': 8, '@type': 'average', '@halfweights': False}, args=['-s', 0, '-e', 24])
expect(c == 0 and len(m) == 3, c, list(m))
a = list(m.values())
# hours 1-6 take the message of 6, 7 and 8 that of 12; hours 9-12 that of 12, 13-16 that of 18
expect(np.allclose(a[0], (6 * 10 + 2 * 20) / 8) and np.allclose(a[1], (4 * 20 + 4 * 30) / 8), a)
'''
