"""A minimal client of qemu-user's gdb stub: run a program instruction by instruction."""
import os, socket, subprocess, time

class Rsp:
    def __init__(self, exe, sock, argv=("qemu-riscv64",)):
        if os.path.exists(sock): os.unlink(sock)
        self.p = subprocess.Popen([*argv, "-g", sock, exe], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.s = socket.socket(socket.AF_UNIX)
        for _ in range(400):
            try:
                self.s.connect(sock)
                break
            except OSError: time.sleep(.02)
        else: raise RuntimeError("qemu's gdb stub does not answer")
        self.s.settimeout(60)
        self.buf = b""
        self.cmd("qSupported:swbreak+")
        self.cmd("?")
    ack = True
    def _packet(self):
        while True:
            i = self.buf.find(b"$")
            j = self.buf.find(b"#", i + 1) if i >= 0 else -1
            if i >= 0 and j >= 0 and len(self.buf) >= j + 3:
                d, self.buf = self.buf[i+1:j], self.buf[j+3:]
                if self.ack: self.s.sendall(b"+")
                return d.decode()
            c = self.s.recv(65536)
            if not c: raise EOFError("qemu ended")
            self.buf += c
    def cmd(self, s):
        b = s.encode()
        self.s.sendall(b"$" + b + b"#%02x" % (sum(b) & 255))
        return self._packet()
    def step(self): return self.cmd("s")
    def cont(self): return self.cmd("c")
    def brk(self, a): return self.cmd("Z0,%x,4" % a)
    def unbrk(self, a): return self.cmd("z0,%x,4" % a)
    def read(self, a, n): return bytes.fromhex(self.cmd("m%x,%x" % (a, n)))
    def write(self, a, b): return self.cmd("M%x,%x:%s" % (a, len(b), b.hex()))
    def pc(self): return int.from_bytes(bytes.fromhex(self.cmd("p20")), "little")
    def close(self):
        try: self.s.close()
        except OSError: pass
        self.p.kill(); self.p.wait()
