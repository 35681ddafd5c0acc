PROPERTY = 'C16'
NEEDS = 'a download repeated after an interruption that left a temporary file'
BREAKS = 'existing files are recognised by the beginning of their name, so the temporary file left by an interrupted transfer is taken as the complete file'
EDITS = [('main/config.py', "            local_filename = os.path.join(local_path, f)\n            if file_util.exists(local_filename):",
          "            local_filename = os.path.join(local_path, f)\n            if any(name.startswith(f) for name in os.listdir(local_path)):")]
DEMO = '''
class Client:
    data = {'a.npy': b'aaaa', 'b.npy': b'bbbb'}
    fail = True
    def __init__(self, *a): pass
    def cwd(self, d): pass
    def nlst(self): return sorted(self.data)
    def quit(self): pass
    close = quit
    def retrbinary(self, cmd, callback, *a, **k):
        d = self.data[cmd.split()[1]]
        callback(d[:2])
        if Client.fail and 'b.npy' in cmd:
            raise OSError('connection lost')
        callback(d[2:])
from pyg2p.main import config
config.FTP = Client
try:
    config.Configuration().download_data('intertables')
except OSError:
    pass
Client.fail = False
config.Configuration().download_data('intertables')
for n, d in Client.data.items():
    expect(os.path.exists(TABLES + '/' + n) and open(TABLES + '/' + n, 'rb').read() == d, n, os.listdir(TABLES))
'''
