"""Simulated process lifetimes, HTTP server, directory order, operator, clock.

A *lifetime* is a forked child that runs one piece of the package from start to
return, exception or death.  Everything it can observe from outside comes from
the scenario: bytes of HTTP responses, failures of disk calls, order of
directory listings, answers of the operator, passage of time."""
import builtins
import io
import json
import os
import random
import signal
import socket
import ssl
import sys
import time
import urllib.parse

from dst.core import Shim, Violation, where

CRASH = 77


class Net:
    """Published files plus a plan of what goes wrong with the k-th request."""

    def __init__(self, files, plan, style, report, limit=400):
        self.files, self.report, self.limit = files, report, limit
        self.plan = {int(k): v for k, v in plan.items()}
        self.seg = style.get('segment', 0)
        self.coding = style.get('coding', 'length')
        self.latency = style.get('latency', 0.01)
        self.range_ok = style.get('range', True)
        self.now, self.count = 0.0, 0

    def connect(self, address, timeout=None, *a, **k):
        idx = self.count
        self.count += 1
        if self.count > self.limit:
            self.report({'storm': self.count})
            os._exit(CRASH + 1)
        fault = self.plan.get(idx)
        self.now += self.latency
        kind = fault and fault['kind']
        if kind in ('dns', 'refuse', 'conn_timeout', 'sigint_connect'):
            self.report({'fault': kind, 'request': idx})
            self.now += 30.0 if kind == 'conn_timeout' else 0
            if kind == 'dns':
                raise socket.gaierror(-3, 'Temporary failure in name resolution')
            if kind == 'refuse':
                raise ConnectionRefusedError(111, 'Connection refused')
            if kind == 'conn_timeout':
                raise TimeoutError(110, 'Connection timed out')
            raise KeyboardInterrupt
        return FakeSock(self, idx, fault)

    def respond(self, sock, head):
        line, *rest = head.split('\r\n')
        method, target, _ = line.split(' ', 2)
        hdr = {}
        for h in rest:
            if ':' in h:
                a, b = h.split(':', 1)
                hdr[a.strip().lower()] = b.strip()
        path = urllib.parse.urlsplit(target).path
        self.report({'req': path, 'i': sock.idx, 'method': method})
        fault = sock.fault or {}
        kind = fault.get('kind')
        if kind == 'http':
            self.report({'fault': 'http_error', 'request': sock.idx})
            body = b'<html><body>error</body></html>'
            return (f'HTTP/1.1 {fault["code"]} Err\r\nContent-Type: text/html\r\n'
                    f'Content-Length: {len(body)}\r\nConnection: close\r\n\r\n').encode() + body
        if path not in self.files:
            return b'HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n'
        body, status, extra = self.files[path], '200 OK', ''
        rng = hdr.get('range', '')
        if self.range_ok and rng.startswith('bytes=') and rng[6:].rstrip().endswith('-'):
            start = int(rng[6:].split('-')[0])
            if start >= len(body):
                return (f'HTTP/1.1 416 Range\r\nContent-Range: bytes */{len(body)}\r\n'
                        'Content-Length: 0\r\nConnection: close\r\n\r\n').encode()
            extra = f'Content-Range: bytes {start}-{len(body) - 1}/{len(body)}\r\n'
            body, status = body[start:], '206 Partial Content'
        h = f'HTTP/1.1 {status}\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n{extra}'
        if method == 'HEAD':
            return (h + f'Content-Length: {len(body)}\r\n\r\n').encode()
        if self.coding == 'chunked' and status.startswith('200'):
            out, step = b'', max(1, len(body) // 3)
            for i in range(0, len(body), step):
                part = body[i:i + step]
                out += b'%x\r\n' % len(part) + part + b'\r\n'
            return (h + 'Transfer-Encoding: chunked\r\n\r\n').encode() + out + b'0\r\n\r\n'
        return (h + f'Content-Length: {len(body)}\r\n\r\n').encode() + body


class FakeSock:
    def __init__(self, net, idx, fault):
        self.net, self.idx, self.fault = net, idx, fault
        self.inb, self.out, self.pos, self.cut = b'', b'', 0, None
        self.timeout = None
        self.closed = False

    # what http.client and friends use
    def sendall(self, data, *a):
        self.inb += bytes(data)
        if b'\r\n\r\n' in self.inb and not self.out:
            head = self.inb.split(b'\r\n\r\n')[0].decode('latin-1')
            self.out = self.net.respond(self, head)
            f = self.fault or {}
            if f.get('kind') in ('reset', 'eof', 'stall', 'sigint', 'kill'):
                hl = self.out.index(b'\r\n\r\n') + 4
                span = len(self.out) - hl
                if f.get('part') == 'head':
                    self.cut = int(f['frac'] * hl)
                else:
                    self.cut = hl + min(span, int(f['frac'] * span))
                if self.cut >= len(self.out):
                    self.cut = len(self.out) - 1 if span or hl else 0

    def send(self, data, *a):
        self.sendall(data)
        return len(data)

    def recv_into(self, buf, *a):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        want = len(buf)
        end = len(self.out) if self.cut is None else self.cut
        n = min(want, end - self.pos)
        if self.net.seg:
            n = min(n, self.net.seg)
        if n <= 0:
            if self.cut is None or want == 0:
                return 0
            return self._break()
        self.net.now += self.net.latency / 10
        buf[:n] = self.out[self.pos:self.pos + n]
        self.pos += n
        return n

    def _break(self):
        kind = self.fault['kind']
        if kind == 'eof' and self.fault.get('part') == 'head':
            kind = 'reset'
        self.net.report({'fault': 'net_' + kind, 'request': self.idx, 'at': self.pos})
        if kind == 'eof':
            return 0
        if kind == 'reset':
            raise ConnectionResetError(104, 'Connection reset by peer')
        if kind == 'stall':
            if self.timeout:
                self.net.now += self.timeout
                raise TimeoutError('timed out')
            self.net.now += 3600          # nobody times out: the operator gives up
            raise KeyboardInterrupt
        if kind == 'sigint':
            raise KeyboardInterrupt
        os._exit(CRASH)

    def recv(self, n, *a):
        b = bytearray(n)
        k = self.recv_into(memoryview(b))
        return bytes(b[:k])

    def makefile(self, mode='r', buffering=None, **k):
        return io.BufferedReader(_Raw(self), buffer_size=buffering if buffering and buffering > 1 else 8192)

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        return ('198.51.100.1', 443)

    def fileno(self):
        return -1

    def shutdown(self, *a):
        pass

    def close(self):
        pass                 # the response keeps reading from its makefile


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        return self.sock.recv_into(memoryview(b))


def _install(net, listing_seed, answers, report):
    if net is not None:
        socket.create_connection = net.connect
        socket.getaddrinfo = lambda h, p, *a, **k: [(2, 1, 6, '', ('198.51.100.1', p))]
        ssl.SSLContext.wrap_socket = lambda self, sock, *a, **k: sock

        ssl._create_default_https_context = ssl._create_unverified_context

        def lost(*a, **k):
            report({'escape': 'raw socket'})
            raise OSError('no network')
        socket.socket.connect = lost
        time.sleep = lambda s: setattr(net, 'now', net.now + max(0, s))
    if listing_seed is not None:
        rng = random.Random(listing_seed)
        listdir, scandir = os.listdir, os.scandir

        def shuffled(path='.'):
            out = sorted(listdir(path))
            rng.shuffle(out)
            return out

        class Scan(list):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

            def __next__(self):
                if not self:
                    raise StopIteration
                return self.pop(0)

            def __iter__(self):
                return self

            def close(self):
                pass

        def scan(path='.'):
            with scandir(path) as it:
                out = sorted(it, key=lambda e: e.name)
            rng.shuffle(out)
            return Scan(out)
        os.listdir, os.scandir = shuffled, scan
    queue = list(answers or [])

    def ask(prompt=''):
        report({'prompt': str(prompt)[:60]})
        if not queue:
            raise EOFError('EOF when reading a line')
        return queue.pop(0)
    builtins.input = ask


def _watch(owner, name, shim, closes):
    """Note during which disk operations PyTables was flushing or closing."""
    real = getattr(owner, name)

    def wrapped(self, *a, **k):
        first = shim.lib.iof_ops()
        try:
            return real(self, *a, **k)
        finally:
            closes.append([first, shim.lib.iof_ops()])
    setattr(owner, name, wrapped)


def lifetime(fn, prefix, disk=None, net=None, listing_seed=None, answers=None, timeout=40):
    """Run fn in one simulated process lifetime.

    disk: {'kind','at','len'}; net: (files, plan, style).
    Returns {'end': 'ok'|'exc'|'dead', 'exc', 'msg', 'events', 'disk', 'sim'}."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)

            def report(o):
                os.write(w, json.dumps(o).encode() + b'\n')
            shim = Shim()
            simnet = Net(net[0], net[1], net[2], report) if net else None
            _install(simnet, listing_seed, answers, report)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            signal.alarm(timeout)
            kind = disk and disk['kind']
            res = {}
            closes, dels = [], []
            if 'tables' in sys.modules:
                T = sys.modules['tables']
                for owner, name in ((T.file.File, 'close'), (T.file.File, 'flush'), (T.table.Table, 'flush'),
                                    (T.leaf.Leaf, 'flush'), (T.node.Node, '_f_close'), (T.leaf.Leaf, '_f_close'),
                                    (T.table.Table, '_f_close'), (T.group.Group, '_f_close')):
                    _watch(owner, name, shim, closes)
                # what Python runs by itself when the last name of a node is gone; it drops every exception there
                _watch(T.node.Node, '__del__', shim, dels)
            shim.arm(prefix, kind, disk['at'] if disk else -1, disk.get('len', 1) if disk else 1)
            try:
                fn()
                res['end'] = 'ok'
            except SystemExit as e:
                res['end'] = 'exc' if e.code not in (None, 0) else 'ok'
                res['exc'], res['msg'], res['where'] = 'SystemExit', str(e.code), ''
            except BaseException as e:
                res = {'end': 'exc', 'exc': type(e).__name__, 'where': where(e),
                       'isa': [c.__name__ for c in type(e).__mro__]}
                try:
                    res['msg'] = str(e)[:300]
                except Exception:
                    res['msg'] = '?'
                e.__traceback__ = None
                del e
            rep = shim.report()
            # buffered data of files nobody closed reaches the disk at exit
            import gc
            sys.exc_info()
            gc.collect()
            try:
                sys.modules['tables'].file._open_files.close_all()
            except Exception:
                pass
            shim.disarm()
            res['disk'], res['close'], res['del'] = rep, closes, dels
            res['sim'] = simnet.now if simnet else 0.0
            report(res)
            os._exit(0)
        except BaseException as e:
            os.write(2, repr(e).encode())
            os._exit(99)
    os.close(w)
    data = bytearray()
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, st = os.waitpid(pid, 0)
    rows = [json.loads(x) for x in bytes(data).split(b'\n') if x]
    end = rows[-1] if rows and 'end' in rows[-1] else None
    events = [x for x in rows if 'end' not in x]
    if end is None:
        code = os.waitstatus_to_exitcode(st)
        if code == CRASH + 1:
            raise Violation('request-storm', 'a run never stops asking the server')
        if code != CRASH:
            raise RuntimeError(f'lifetime ended with status {code}; events {events[-3:]}')
        end = {'end': 'dead', 'disk': None, 'sim': 0.0}
    end['events'] = events
    end['prefix'] = ''
    return end
