PROPERTY = 'C02'
NEEDS = 'a unit of time that is longer than the aggregation step and not a multiple of it'
BREAKS = 'the number of steps in the unit of time is taken as a whole number'
EDITS = [('main/manipulation/aggregator.py', "            out_value = ne.evaluate('(v_iter_ma-v_iter_1_ma)*_unit_time/_aggr_step')",
          "            _ratio = _unit_time / _aggr_step if _unit_time < _aggr_step else _unit_time // _aggr_step\n            out_value = ne.evaluate('(v_iter_ma-v_iter_1_ma)*_ratio')")]
DEMO = '''
f = grib([dict(grid=GRID, values=np.full(30, k * 3.), short='tp', start=0, end=k, step_type='accum') for k in (9, 18, 27)])
c, m = run(f, TARGET, short='tp', aggregation={'@step': 9, '@type': 'accumulation'}, outmaps={'@unitTime': 24})
expect(c == 0 and len(m) == 3, c, list(m))
for n, a in m.items():
    expect(np.allclose(a, 27 * 24 / 9.), n, a)
'''
