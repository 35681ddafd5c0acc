PROPERTY = 'C01'
NEEDS = 'accumulation over an hour without a message whose earlier neighbouring message alone has missing values'
BREAKS = 'the message interpolated in time is masked by the later message only, so cells missing in the earlier one get a number made from the missing-value code'
EDITS = [('main/manipulation/aggregator.py', "                v_ord[iter_] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)",
          "                v_ord[iter_] = ma.masked_where(ma.getmaskarray(v_nts_ma), v_out, copy=False)")]
DEMO = '''
def v(k):
    a = np.arange(30.) + 10 * k
    if k == 12:
        a[::2] = np.nan
    return a
# hour 18 has no message: it is interpolated between those of hours 12 and 24
f = grib([dict(grid=GRID, values=v(k), short='tp', start=0, end=k, step_type='accum') for k in (6, 12, 24, 30)])
c, m = run(f, TARGET, short='tp', aggregation={'@step': 6, '@type': 'accumulation'}, outmaps={'@unitTime': 6}, args=['-s', 18, '-e', 30])
expect(c == 0 and len(m) >= 2, c, list(m))
for n, a in m.items():
    print(n, a)
    expect(not (np.abs(np.nan_to_num(a)) > 1e4).any(), n, a)
a = list(m.values())[-2]
expect(np.isnan(a).any(), a)
'''
