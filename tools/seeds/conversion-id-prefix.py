PROPERTY = 'C05'
NEEDS = 'a parameter with two conversions, the id of the first one beginning with the id of the second one, that is requested'
BREAKS = 'the first conversion whose id begins with the requested one is applied'
EDITS = [('main/config.py', "                if conversion['@id'] == id_:", "                if conversion['@id'].startswith(id_):")]
DEMO = '''
import json
p = json.load(open(CONF + '/parameters.json'))
p['2t'] = {'@description': 'd', '@shortName': '2t', '@unit': 'K', 'Conversion': [
    {'@id': 'k2c_tenth', '@function': 'x=(x-273.15)*10', '@unit': 'C/10', '@cutOffNegative': False},
    {'@id': 'k2c', '@function': 'x=x-273.15', '@unit': 'C', '@cutOffNegative': False}]}
json.dump(p, open(CONF + '/parameters.json', 'w'))
f = grib([dict(grid=GRID, values=np.full(30, 283.15), end=0)])
c, m = run(f, TARGET, conversion='k2c', fresh=True)
expect(c == 0 and len(m) == 1, c, list(m))
a = np.nanmean(list(m.values())[0])
expect(abs(a - 10) < 1e-3, a)
'''
