"""Calling the real code: shared objects built from /repo's current tree, buffers with canaries."""
import ctypes, os
from . import build

CANARY = 64


class Buf:
    def __init__(self, ct, vals):
        self.ct = ct; self.n = len(vals); self.z = ctypes.sizeof(ct)
        self.raw = (ctypes.c_ubyte * (2 * CANARY + self.n * self.z))()
        for i in range(CANARY): self.raw[i] = 0xA5; self.raw[CANARY + self.n * self.z + i] = 0xA5
        self.arr = (ct * self.n).from_buffer(self.raw, CANARY)
        for i, v in enumerate(vals): self.arr[i] = v
        self.p = ctypes.c_void_p(ctypes.addressof(self.raw) + CANARY)

    def get(self): return list(self.arr)

    def broken(self):
        return any(self.raw[i] != 0xA5 or self.raw[CANARY + self.n * self.z + i] != 0xA5 for i in range(CANARY))


class Lib:
    def __init__(self, path):
        self.dll = ctypes.CDLL(path, mode=os.RTLD_LAZY | os.RTLD_LOCAL)
        try: self.omp = ctypes.CDLL('libgomp.so.1')
        except OSError: self.omp = None

    def threads(self, n):
        if self.omp: self.omp.omp_set_num_threads(n)

    def __getattr__(self, n): return getattr(self.dll, n)


def load(name): return Lib(os.path.join(build.workdir(), name + '.so'))
