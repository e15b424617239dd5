"""A real SSH server (paramiko) on the loopback that runs its commands with
sh in a scratch directory.  Start it only inside vp.jail."""
import os
import resource
import socket
import subprocess
import threading

import paramiko

HOST_KEY = paramiko.ECDSAKey.generate()
USER_KEY = paramiko.ECDSAKey.generate()


_handle = paramiko.Channel._handle_request


def _request(chan, m):
    # start the command after the request has been answered
    _handle(chan, m)
    start = chan.__dict__.pop('vp_start', None)
    if start:
        start.start()


paramiko.Transport._channel_handler_table = dict(
    paramiko.Transport._channel_handler_table)
for _k, _f in paramiko.Transport._channel_handler_table.items():
    if _f is _handle:
        paramiko.Transport._channel_handler_table[_k] = _request


class Iface(paramiko.ServerInterface):
    def __init__(self, srv):
        self.srv = srv

    def get_allowed_auths(self, username):
        return 'publickey'

    def check_auth_publickey(self, username, key):
        self.srv.logins.append(username)
        if username == self.srv.user and key == USER_KEY:
            return paramiko.AUTH_SUCCESSFUL
        return paramiko.AUTH_FAILED

    def check_channel_request(self, kind, chanid):
        return paramiko.OPEN_SUCCEEDED

    def check_channel_exec_request(self, channel, command):
        channel.vp_start = threading.Thread(
            target=self.srv.run, args=(channel, command), daemon=True)
        return True


class Sshd:
    """fault: [kind, k, n] strikes the k-th command (kinds close, drop, fail)
    or every command (limit: file size limit of n bytes; cutin, cutout: the
    connection is lost after n bytes to or from the command).
    hook: called with each command before it is run."""
    hook = None

    def __init__(self, cwd, home, user='nobody', fault=None):
        self.cwd, self.home, self.user = cwd, home, user
        self.fault = fault or ['', 0, 0]
        self.struck = False
        self.logins, self.commands = [], []
        self.transports = []
        self.lock = threading.Lock()
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.port = self.sock.getsockname()[1]
        self.sock.listen(20)
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            conn, _ = self.sock.accept()
            conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            tr = paramiko.Transport(conn)
            tr.add_server_key(HOST_KEY)
            self.transports.append(tr)
            try:
                tr.start_server(server=Iface(self))
            except (paramiko.SSHException, EOFError):
                pass

    def limit(self):
        if self.fault[0] == 'limit':
            n = self.fault[2]
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))

    def run(self, chan, command):
        with self.lock:
            k = len(self.commands)
            self.commands.append(command)
        if self.hook:
            self.hook(command)
        kind = self.fault[0]
        if k == self.fault[1] and kind in ('close', 'drop', 'fail'):
            self.struck = True
            if kind == 'drop':
                for tr in self.transports:
                    tr.close()
                return
            if kind == 'fail':
                chan.sendall_stderr(b'sh: cannot fork\n')
                chan.send_exit_status(1)
            chan.close()
            return
        p = subprocess.Popen([b'/bin/sh', b'-c', command], cwd=self.cwd,
                             env={'HOME': self.home, 'PATH': '/usr/bin:/bin',
                                  'LC_ALL': 'C.UTF-8'},
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, preexec_fn=self.limit
                             if kind == 'limit' else None)

        count = {}

        def cut(what, b):
            # lose the connection after n bytes in one direction
            count[what] = count.get(what, 0) + len(b)
            if kind == what and count[what] > self.fault[2]:
                self.struck = True
                for tr in self.transports:
                    tr.close()
                raise OSError

        def feed():
            try:
                while True:
                    b = chan.recv(65536)
                    if not b:
                        break
                    cut('cutin', b)
                    p.stdin.write(b)
                    p.stdin.flush()
            except OSError:
                pass
            try:
                p.stdin.close()
            except OSError:
                pass

        def pump(f, send):
            try:
                while True:
                    b = os.read(f.fileno(), 65536)
                    if not b:
                        break
                    if f is p.stdout and kind == 'cutout':
                        n = self.fault[2] - count.get('cutout', 0)
                        if 0 < n < len(b):
                            # the client may fail as soon as it reads this
                            self.struck = True
                            send(b[:n])
                        cut('cutout', b)
                    send(b)
            except OSError:
                pass

        threading.Thread(target=feed, daemon=True).start()
        err = threading.Thread(target=pump, args=(p.stderr,
                                                  chan.sendall_stderr))
        err.start()
        pump(p.stdout, chan.sendall)
        err.join()
        rc = p.wait()
        try:
            chan.send_exit_status(rc if rc >= 0 else 128 - rc)
            chan.close()
        except (OSError, EOFError, paramiko.SSHException):
            pass


def client(d, port):
    """Write the user's key and known_hosts below HOME; return the key file
    and point paramiko's default port to the server."""
    ssh = os.path.join(d, '.ssh')
    os.makedirs(ssh, exist_ok=True)
    key = os.path.join(d, 'key file')
    USER_KEY.write_private_key_file(key)
    with open(os.path.join(ssh, 'known_hosts'), 'w') as f:
        f.write('[127.0.0.1]:%d %s %s\n' % (port, HOST_KEY.get_name(),
                                           HOST_KEY.get_base64()))
    os.environ.pop('SSH_AUTH_SOCK', None)
    orig = paramiko.SSHClient.connect

    def connect(self, hostname, *a, **kw):
        kw['port'] = port
        if 'sock' not in kw:
            kw['sock'] = socket.create_connection((hostname, port))
            kw['sock'].setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return orig(self, hostname, *a, **kw)
    paramiko.SSHClient.connect = connect
    return key


class Scripted(Sshd):
    """Answers the first command with play(chan, command), which returns the
    exit status, or None to close the channel without one."""

    def __init__(self, play, *a, **kw):
        self.play = play
        super().__init__(*a, **kw)

    def run(self, chan, command):
        self.commands.append(command)
        try:
            rc = self.play(chan, command)
            if rc is not None:
                chan.send_exit_status(rc)
            chan.close()
        except (OSError, EOFError, paramiko.SSHException):
            try:
                chan.close()
            except (OSError, EOFError, paramiko.SSHException):
                pass
