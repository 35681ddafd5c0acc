PROPERTY = 'C18'
NEEDS = 'a builder method for an option that was given before, in the command string or by another call'
BREAKS = 'builder calls do not override options that are already in the command'
EDITS = [('main/api.py', "def _a(opt, self, param=''):\n    self._d[opt] = param\n    return self", "def _a(opt, self, param=''):\n    self._d.setdefault(opt, param)\n    return self")]
DEMO = '''
from pyg2p.main.api import command
c = command('pyg2p.py -c c.json -s 6').with_tstart('12').with_tend('24').with_tend('48')
s = str(c)
expect('-s 12' in s and '-e 48' in s, s)
'''
