"""Small scripted SMTP and FTP servers on the loopback, in threads."""
import os
import socket
import threading


class Line:
    """A line protocol connection."""

    def __init__(self, conn):
        self.conn = conn
        conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.f = conn.makefile('rb')

    def say(self, text):
        self.conn.sendall(text.encode('utf-8') + b'\r\n')

    def hear(self):
        line = self.f.readline()
        if not line:
            raise EOFError
        return line.decode('utf-8', 'replace').rstrip('\r\n')

    def close(self):
        # sends FIN also while the makefile object is open
        try:
            self.conn.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.f.close()
        self.conn.close()


class Server:
    threads = False

    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.port = self.sock.getsockname()[1]
        self.sock.listen(20)
        self.error = None
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            conn, _ = self.sock.accept()
            if self.threads:
                threading.Thread(target=self.serve, args=(conn,),
                                 daemon=True).start()
            else:
                self.serve(conn)

    def serve(self, conn):
        c = Line(conn)
        try:
            self.session(c)
        except (EOFError, OSError):
            pass
        except Exception as e:
            self.error = e
        c.close()


def dead_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    return s            # bound but not listening: connections are refused


class Smtp(Server):
    """behaviour: ok greet dropgreet helo sender all some datacmd data
    dropdata dropquit badquit; refuse: addresses refused by 'some'."""

    def __init__(self, behaviour, refuse=()):
        self.behaviour = behaviour
        self.refuse = set(refuse)
        self.accepted = []         # (sender, recipients, data)
        self.offered = []
        super().__init__()

    def accepts(self, address):
        if self.behaviour in ('ok', 'dropquit', 'badquit'):
            return True
        return self.behaviour == 'some' and address not in self.refuse

    def session(self, c):
        b = self.behaviour
        if b == 'dropgreet':
            return
        c.say('554 no' if b == 'greet' else '220 loop ESMTP')
        frm, rcpt = None, []
        while True:
            line = c.hear()
            cmd = line.upper()
            if cmd.startswith(('HELO', 'EHLO')):
                c.say('501 no' if b == 'helo' else '250 loop')
            elif cmd.startswith('MAIL FROM:'):
                frm, rcpt = line[10:].split('>')[0].strip(' <'), []
                c.say('550 no' if b == 'sender' else
                      '503 hello first' if b == 'helo' else '250 ok')
            elif cmd.startswith('RCPT TO:'):
                a = line[8:].split('>')[0].strip(' <')
                self.offered.append(a)
                if b == 'all' or (b == 'some' and a in self.refuse):
                    c.say('550 no such user')
                else:
                    rcpt.append(a)
                    c.say('250 ok')
            elif cmd == 'DATA':
                if b == 'datacmd' or not rcpt:
                    c.say('554 no')
                    continue
                c.say('354 go')
                data = []
                while True:
                    ln = c.f.readline()
                    if not ln:
                        raise EOFError
                    if ln == b'.\r\n':
                        break
                    data.append(ln[1:] if ln.startswith(b'.') else ln)
                if b == 'dropdata':
                    return
                if b == 'data':
                    c.say('552 too much')
                    continue
                self.accepted.append((frm, rcpt, b''.join(data)))
                c.say('250 accepted')
                rcpt = []
                if b == 'dropquit':
                    return
            elif cmd == 'RSET':
                frm, rcpt = None, []
                c.say('250 ok')
            elif cmd == 'QUIT':
                c.say('421 no' if b == 'badquit' else '221 bye')
                return
            else:
                c.say('500 what')


def norm(cwd, arg):
    out = [] if arg.startswith('/') else [p for p in cwd.split('/') if p]
    for p in arg.split('/'):
        if p == '..':
            del out[-1:]
        elif p not in ('', '.'):
            out.append(p)
    return '/' + '/'.join(out)


class Ftp(Server):
    """An FTP server with its files in memory.

    fault: [kind, k, n]: greet login mkd, or at the k-th STOR: stor (refused),
    drop (connection lost after n bytes), full (error after n bytes), rename.
    renamed: (path, contents) in the order final names appeared.
    hook: called with each command before it is carried out.
    """
    hook = None

    def __init__(self, dirs=('/',), files=None, fault=None):
        self.dirs = set(dirs) | {'/'}
        self.files = dict(files or {})
        self.fault = fault or ['', 0, 0]
        self.struck = False
        self.stors = 0
        self.logins = []
        self.direct = []           # final names written other than by rename
        self.lock = threading.Lock()
        super().__init__()

    def strike(self, kind, k=None):
        if self.fault[0] == kind and (k is None or k == self.fault[1]):
            self.struck = True
            return True
        return False

    def session(self, c):
        if self.strike('greet'):
            c.say('421 too many users')
            return
        c.say('220 loop FTP')
        cwd, user, data, rnfr, ok = '/', None, None, None, False
        while True:
            cmd, _, arg = c.hear().partition(' ')
            cmd = cmd.upper()
            path = norm(cwd, arg)
            if self.hook:
                self.hook(cmd)
            if cmd == 'USER':
                user = arg
                c.say('331 password')
            elif cmd == 'PASS':
                self.logins.append((user, arg))
                if self.strike('login'):
                    c.say('530 no')
                else:
                    ok = True
                    c.say('230 hello')
            elif cmd == 'QUIT':
                c.say('221 bye')
                return
            elif not ok:
                c.say('530 log in')
            elif cmd == 'TYPE':
                c.say('200 ok')
            elif cmd == 'PWD':
                c.say('257 "%s"' % cwd)
            elif cmd == 'CWD':
                if path in self.dirs:
                    cwd = path
                    c.say('250 ok')
                else:
                    c.say('550 no such directory')
            elif cmd == 'MKD':
                up = norm(path, '..')
                if self.strike('mkd') or up not in self.dirs or \
                        path in self.dirs or path in self.files:
                    c.say('550 cannot')
                else:
                    self.dirs.add(path)
                    c.say('257 "%s"' % path)
            elif cmd in ('PASV', 'EPSV'):
                data = socket.socket()
                data.bind(('127.0.0.1', 0))
                data.listen(1)
                p = data.getsockname()[1]
                if cmd == 'EPSV':
                    c.say('229 ok (|||%d|)' % p)
                else:
                    c.say('227 ok (127,0,0,1,%d,%d)' % (p >> 8, p & 255))
            elif cmd == 'STOR':
                k = self.stors
                self.stors += 1
                if self.strike('stor', k) or path in self.dirs or \
                        norm(path, '..') not in self.dirs or not arg:
                    c.say('553 cannot')
                    continue
                c.say('150 go')
                conn, _ = data.accept()
                data.close()
                self.files[path] = b''
                stop = self.fault[0] in ('drop', 'full') and \
                    k == self.fault[1]
                while True:
                    b = conn.recv(65536)
                    if stop:
                        b = b[:max(0, self.fault[2] - len(self.files[path]))]
                    if not b:
                        break
                    self.files[path] += b
                    if self.hook:
                        self.hook('DATA')
                if self.strike('drop', k):
                    conn.close()
                    return
                if self.strike('full', k):
                    while conn.recv(65536):
                        pass
                    conn.close()
                    c.say('452 disk full')
                    continue
                conn.close()
                self.direct.append(path)
                c.say('226 done')
            elif cmd == 'RNFR':
                rnfr = path
                c.say('350 go' if path in self.files else '550 no such file')
            elif cmd == 'RNTO':
                if self.strike('rename', self.stors - 1) or \
                        rnfr not in self.files or path in self.dirs or \
                        norm(path, '..') not in self.dirs:
                    c.say('553 cannot')
                else:
                    self.files[path] = self.files.pop(rnfr)
                    c.say('250 ok')
            elif cmd == 'DELE':
                if path in self.files:
                    del self.files[path]
                    c.say('250 ok')
                else:
                    c.say('550 no such file')
            elif cmd in ('NLST', 'LIST', 'SIZE', 'MDTM', 'FEAT', 'OPTS'):
                c.say('502 not implemented')
            else:
                c.say('500 what')
