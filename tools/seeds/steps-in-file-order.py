PROPERTY = 'C28'
NEEDS = 'values averaged over steps, in a file whose messages are not in the order of their steps'
BREAKS = 'the step of the input is the difference between the first two messages of the file'
EDITS = [('main/readers/grib.py', "        ord_end_steps = sorted(end_steps)\n", "        ord_end_steps = end_steps\n")]
DEMO = '''
def msg(k):
    return dict(grid=GRID, values=np.full(30, k * k * 1.), start=k - 6, end=k, step_type='avg')
out = []
for steps in ((6, 12, 18, 24), (24, 6, 12, 18)):
    try:
        out.append(run(grib([msg(k) for k in steps]), TARGET, aggregation={'@step': 6, '@type': 'instantaneous'}, outmaps={'@unitTime': 6}))
    except Exception as e:
        out.append((repr(e), {}))
(c, m), (d, n) = out
expect(c == d and list(m) == list(n) and all(np.array_equal(m[k], n[k], equal_nan=True) for k in m), c, d, m, n)
'''
