PROPERTY = 'C25'
NEEDS = 'a conversion and a second input file'
BREAKS = 'the conversion is applied before the messages of the second file are read, so they are not converted'
EDITS = [('main/controller.py', """        messages = self.grib_reader.select_messages(**grib_select_cmd)

        if self.ctx.is_2_input_files:
""", """        messages = self.grib_reader.select_messages(**grib_select_cmd)
        # Conversion
        if self.ctx.must_do_conversion:
            converter = Converter(func=self.ctx.get('parameter.conversionFunction'),
                                  cut_off=self.ctx.get('parameter.cutoffnegative'))
            messages.apply_conversion(converter)

        if self.ctx.is_2_input_files:
"""), ('main/controller.py', """        # Conversion
        if self.ctx.must_do_conversion:
            converter = Converter(func=self.ctx.get('parameter.conversionFunction'),
                                  cut_off=self.ctx.get('parameter.cutoffnegative'))
            messages.apply_conversion(converter)

        values = messages""", """        values = messages""")]
EDITS = EDITS[::-1]
DEMO = '''
G2 = fx.Grid(7, 6, 50.5, -0.5)
f = grib([dict(grid=GRID, values=np.full(GRID.n, 283.15), end=0)])
f2 = grib([dict(grid=G2, values=np.full(G2.n, 283.15), end=6)], 'in2.grib')
import json
p = json.load(open(CONF + '/parameters.json'))
p['2t'] = {'@description': 'd', '@shortName': '2t', '@unit': 'K', 'Conversion': [{'@id': 'k2c', '@function': 'x=x-273.15', '@unit': 'C', '@cutOffNegative': False}]}
json.dump(p, open(CONF + '/parameters.json', 'w'))
c, m = run(f, TARGET, conversion='k2c', fresh=True, args=['-I', f2])
expect(c == 0 and len(m) == 2, c)
a = [float(np.nanmean(x)) for x in m.values()]
expect(np.allclose(a, 10, atol=1e-3), a)
'''
