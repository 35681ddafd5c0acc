"""A small FTP server on the loopback interface whose connections can be lost, refused or cut at any command and at any block of a transfer."""
import socket
import threading

BLOCK = 1000


class Server:
    """files: {folder: {name: bytes}}; fault: None or (kind, n): at the n-th event (command received, block about to be sent), 'drop' the
    connections, 'refuse' the command (4xx/5xx; a block: cut the transfer and tell so)."""

    def __init__(self, files):
        self.files = files
        self.fault = None
        self.events = 0
        self.retrieved = []
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.data = socket.socket()
        self.data.bind(('127.0.0.1', 0))
        self.data.listen(16)
        self.reset()
        threading.Thread(target=self.serve, daemon=True).start()

    def reset(self, fault=None):
        self.fault, self.events, self.retrieved, self.trace = fault, 0, [], []

    def event(self, what):
        """None, 'drop' or 'refuse' for this event"""
        n = self.events
        self.events += 1
        self.trace.append(what)
        if self.fault and self.fault[1] == n:
            return self.fault[0]
        return None

    def serve(self):
        while True:
            c, _ = self.sock.accept()
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            threading.Thread(target=self.one, args=(c,), daemon=True).start()

    def one(self, c):
        try:
            self.session(c)
        except OSError:
            pass
        finally:
            c.close()

    def session(self, c):
        def say(x):
            c.sendall((x + '\r\n').encode())

        r = self.event('connect')
        if r == 'drop':
            return
        if r == 'refuse':
            return say('421 too many users')
        say('220 ready')
        buf, cwd, data = b'', '/', self.data
        while True:
            while b'\r\n' not in buf:
                d = c.recv(4096)
                if not d:
                    return
                buf += d
            line, buf = buf.split(b'\r\n', 1)
            cmd, _, arg = line.decode('utf-8').partition(' ')
            cmd = cmd.upper()
            r = self.event(cmd)
            if r == 'drop':
                return
            if r == 'refuse':
                say({'USER': '530 no', 'PASS': '530 login incorrect', 'CWD': '550 no such folder', 'NLST': '450 not now', 'RETR': '550 not available', 'QUIT': '500 ?'}.get(cmd, '451 local error'))
                continue
            if cmd == 'USER':
                say('331 password')
            elif cmd == 'PASS':
                say('230 welcome')
            elif cmd == 'CWD':
                cwd = (arg if arg.startswith('/') else cwd.rstrip('/') + '/' + arg).rstrip('/') or '/'
                say('250 ok' if cwd in self.files else '550 no such folder')
            elif cmd == 'TYPE':
                say('200 ok')
            elif cmd in ('PASV', 'EPSV'):
                # (one port for all transfers: many ports would be exhausted) connections of transfers that did not take place
                data.setblocking(False)
                try:
                    while True:
                        data.accept()[0].close()
                except BlockingIOError:
                    pass
                data.setblocking(True)
                p = data.getsockname()[1]
                say('227 entering (127,0,0,1,%d,%d)' % (p >> 8, p & 255) if cmd == 'PASV' else '229 entering (|||%d|)' % p)
            elif cmd == 'SIZE':
                f = self.files.get(cwd, {})
                say('213 %d' % len(f[arg]) if arg in f else '550 no such file')
            elif cmd in ('NLST', 'LIST', 'RETR'):
                f = self.files.get(cwd, {})
                if cmd == 'RETR':
                    if f.get(arg) is None:
                        say('550 not a plain file')
                        continue
                    content = f[arg]
                    self.retrieved.append(arg)
                else:
                    content = ''.join(n + '\r\n' for n in f).encode()
                say('150 here it comes')
                d, _ = data.accept()
                lost = None
                for i in range(0, len(content), BLOCK):
                    lost = self.event('block')
                    if lost:
                        break
                    d.sendall(content[i:i + BLOCK])
                else:
                    lost = self.event('end')
                d.close()
                if lost == 'drop':
                    return
                say('426 connection closed, transfer aborted' if lost else '226 done')
            elif cmd == 'QUIT':
                say('221 bye')
                return
            else:
                say('502 not implemented')
