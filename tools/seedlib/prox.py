"""Runs the built amqpprox on loopback for a demonstration, with scripted peers."""
import os, select, shutil, socket, struct, subprocess, sys, tempfile, threading, time

BIN = os.path.join(os.getcwd(), "_build", "bin", "amqpprox")
HEADER = b"AMQP\x00\x00\x09\x01"

def sstr(s): s = s.encode() if isinstance(s, str) else s; return bytes([len(s)]) + s
def lstr(s): s = s.encode() if isinstance(s, str) else s; return struct.pack(">I", len(s)) + s
def table(fields): return lstr(b"".join(sstr(k) + v for k, v in fields))
def vS(s): return b"S" + lstr(s)
def vF(fields): return b"F" + table(fields)
def frame(t, ch, p): return struct.pack(">BHI", t, ch, len(p)) + p + b"\xce"
def method(c, m, args=b"", ch=0): return frame(1, ch, struct.pack(">HH", c, m) + args)
START, STARTOK, TUNE, TUNEOK, OPEN, OPENOK, CLOSE, CLOSEOK = 10, 11, 30, 31, 40, 41, 50, 51
def start(): return method(10, START, b"\x00\x09" + table([("product", vS("demo"))]) + lstr("PLAIN") + lstr("en_US"))
def startok(props=(), mech="PLAIN", resp=b"\0u\0p", locale="en_US"):
    return method(10, STARTOK, table(list(props)) + sstr(mech) + lstr(resp) + sstr(locale))
def tune(a=2047, b=131072, c=60): return method(10, TUNE, struct.pack(">HIH", a, b, c))
def tuneok(a=2047, b=131072, c=60): return method(10, TUNEOK, struct.pack(">HIH", a, b, c))
def open_(v): return method(10, OPEN, sstr(v) + sstr("") + b"\0")
def openok(): return method(10, OPENOK, sstr(""))
def close(code=200, text="bye", c=0, m=0): return method(10, CLOSE, struct.pack(">H", code) + sstr(text) + struct.pack(">HH", c, m))
def closeok(): return method(10, CLOSEOK)
def body(data, ch=1): return frame(3, ch, data)

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

class Peer:
    """A connected socket with helpers; every byte ever received is in .got"""
    def __init__(self, s):
        self.s = s; self.buf = b""; self.got = b""; self.eof = False
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    def send(self, b): self.s.sendall(b)
    def slow(self, b, step=1, gap=0.002):
        for i in range(0, len(b), step):
            self.s.sendall(b[i:i + step]); time.sleep(gap)
    def fill(self, timeout):
        r, _, _ = select.select([self.s], [], [], timeout)
        if not r: return False
        try: d = self.s.recv(65536)
        except OSError: d = b""
        if not d: self.eof = True; return False
        self.buf += d; self.got += d
        return True
    def read(self, n, timeout=5):
        end = time.time() + timeout
        while len(self.buf) < n and time.time() < end and not self.eof:
            self.fill(max(0, end - time.time()))
        d, self.buf = self.buf[:n], self.buf[n:]
        return d
    def drain(self, timeout=0.5):
        end = time.time() + timeout
        while time.time() < end and not self.eof: self.fill(max(0, end - time.time()))
        d, self.buf = self.buf, b""
        return d
    def frame(self, timeout=5):
        """-> (type, channel, payload) or None"""
        h = self.read(7, timeout)
        if len(h) < 7: self.buf = h + self.buf; return None
        t, ch, n = struct.unpack(">BHI", h)
        p = self.read(n + 1, timeout)
        if len(p) < n + 1: self.buf = h + p + self.buf; return None
        return t, ch, p[:-1]
    def method(self, timeout=5):
        f = self.frame(timeout)
        if f is None: return None
        if f[0] != 1: return ("frame", f)
        return struct.unpack(">HH", f[2][:4]) + (f[2][4:],)
    def expect(self, m, timeout=5):
        f = self.method(timeout)
        if f is None or f[:2] != (10, m): raise AssertionError("expected method %s, got %r" % (m, f))
        return f[2]
    def closed(self, timeout=3):
        end = time.time() + timeout
        while time.time() < end and not self.eof: self.fill(max(0, end - time.time()))
        return self.eof
    def close(self): self.s.close()
    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); self.s.close()

class Listener:
    def __init__(self, host="127.0.0.1"):
        self.s = socket.socket(); self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind((host, 0)); self.s.listen(50); self.port = self.s.getsockname()[1]
    def accept(self, timeout=5):
        self.s.settimeout(timeout)
        try: c, _ = self.s.accept()
        except socket.timeout: return None
        c.settimeout(None)
        return Peer(c)
    def close(self): self.s.close()

class Prox:
    def __init__(self, *args):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        self.ctlp = os.path.join(self.dir, "ctl")
        self.p = subprocess.Popen([BIN, "--logDirectory", os.path.join(self.dir, "logs"), "--controlSocket", self.ctlp,
                                   "--cleanupIntervalMs", "200"] + list(args), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.dir)
        for _ in range(200):
            try: self.ctl("HELP"); break
            except OSError: time.sleep(0.05)
        else: raise AssertionError("proxy did not start")
    def ctl(self, line, timeout=5):
        s = socket.socket(socket.AF_UNIX); s.settimeout(timeout); s.connect(self.ctlp)
        s.sendall(line.encode() + b"\n"); out = b""
        try:
            while True:
                d = s.recv(65536)
                if not d: break
                out += d
        except socket.timeout: pass
        s.close()
        return out.decode(errors="replace")
    def alive(self): return self.p.poll() is None
    def listen(self):
        self.port = free_port(); self.ctl("LISTEN START %d" % self.port)
        for _ in range(100):
            try: socket.create_connection(("127.0.0.1", self.port), 1).close(); break
            except OSError: time.sleep(0.02)
        return self.port
    def backend(self, name, port, extra="", dc="dc1"): return self.ctl("BACKEND ADD %s %s 127.0.0.1 %d %s" % (name, dc, port, extra))
    def connect(self, **kw): return Peer(socket.create_connection(("127.0.0.1", self.port), 5))
    def client(self, vhost="/", props=(), resp=b"\0u\0p"):
        """Client side of the handshake up to and including Open."""
        c = self.connect(); c.send(HEADER); c.expect(START); c.send(startok(props, resp=resp)); c.expect(TUNE)
        c.send(tuneok() + open_(vhost))
        return c
    def stop(self):
        self.p.kill(); self.p.wait(); shutil.rmtree(self.dir, ignore_errors=True)
    def __enter__(self): return self
    def __exit__(self, *a): self.stop()

def broker_handshake(b, finish=True):
    """Broker side. Returns the arguments of StartOk, TuneOk and Open."""
    h = b.read(8)
    if h != HEADER: raise AssertionError("expected header, got %r" % h)
    b.send(start()); s = b.expect(STARTOK); b.send(tune()); t = b.expect(TUNEOK); o = b.expect(OPEN)
    if finish: b.send(openok())
    return s, t, o

def pair(px, lst, vhost="/", props=(), resp=b"\0u\0p"):
    """An open session: (client, broker)"""
    c = px.client(vhost, props, resp); b = lst.accept()
    if b is None: raise AssertionError("no backend connection")
    broker_handshake(b); c.expect(OPENOK)
    return c, b

def main(f):
    import traceback
    try: r = f()
    except Exception:
        traceback.print_exc(); sys.exit(1)
    if r: print("FAIL:", r); sys.exit(1)
    print("ok"); sys.exit(0)
