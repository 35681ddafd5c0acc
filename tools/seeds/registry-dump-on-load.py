PROPERTY = 'C14'
NEEDS = 'a registry without description (of an earlier version, or edited) and another process that registers a table between the reading of the registry and the end of the start of this one'
BREAKS = 'the registry read at the start is written back without holding its lock: what another process registered in the meanwhile is lost'
EDITS = [('main/config.py', "        self.user_vars = self._load()\n        self.vars.update(self.user_vars)\n",
          "        self.user_vars = loaded = self._load()\n        if 'description' not in loaded:\n            # written by a previous version\n            self.user_vars = dict(loaded, description=self.description)\n            self.dump()\n        self.vars.update(self.user_vars)\n")]
DEMO = '''
import json
f = grib([dict(grid=GRID, values=np.arange(30.) + 270, end=0)])
c, m = run(f, TARGET, fresh=True)
expect(c == 0)
reg = CONF + '/intertables.json'
d = json.load(open(reg))
d.pop('description', None)
json.dump(d, open(reg, 'w'))
U = fx.Target.regular(ROOT + '/target2', 'u', 3, 4, 48.5, 0.5)
from pyg2p.main import config
load = config.BaseConfiguration._load
state = []

def slow_load(self, config_file=None):
    r = load(self, config_file)
    if isinstance(self, config.IntertablesConfiguration) and not config_file and not state:
        # another process goes on here
        state.append(1)
        state.append(run(f, U, fresh=True, out='other'))
        fx.command_json(ROOT + '/cmd.json', TARGET)
    return r
config.BaseConfiguration._load = slow_load
c, m = run(f, TARGET)
expect(c == 0 and len(m) == 1 and state[1][0] == 0, c, state)
n = len([x for x in json.load(open(reg)).values() if isinstance(x, dict)])
expect(n == 2, 'tables registered:', n)
c, m = run(f, U, create=False, fresh=True)
expect(c == 0 and len(m) == 1, c)
'''
