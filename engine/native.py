"""Native execution of the harness (ctypes) for replaying counterexamples."""
import ctypes as C
from task import ConcX

SIGS = [
    ('e_m1', C.c_uint32, [C.c_uint16]), ('e_mreq', C.c_uint32, [C.c_uint16]), ('e_io', C.c_uint32, [C.c_uint16]),
    ('e_irqack', C.c_uint32, [C.c_uint16]), ('e_nomreq', None, [C.c_uint16, C.c_uint8]),
    ('e_wait', None, [C.c_uint16, C.c_uint16]), ('e_now', C.c_uint32, []), ('e_past', C.c_bool, [C.c_uint32]),
    ('e_rdop', C.c_uint8, [C.c_uint16, C.c_uint16, C.c_uint32]), ('e_rd', C.c_uint8, [C.c_uint16, C.c_uint32]),
    ('e_rd16', C.c_uint16, [C.c_uint16, C.c_uint32]), ('e_peek', C.c_uint8, [C.c_uint16]),
    ('e_wr', None, [C.c_uint16, C.c_uint8, C.c_uint32]), ('e_in', C.c_uint32, [C.c_uint16, C.c_uint32]),
    ('e_out', C.c_uint32, [C.c_uint16, C.c_uint8, C.c_uint32]), ('e_isirq', C.c_bool, [C.c_uint32]),
    ('e_irqdata', C.c_uint32, [C.c_uint16, C.c_uint32]), ('e_reti', C.c_uint16, [C.c_uint16, C.c_uint32]),
    ('e_dbg', None, [C.c_uint16, C.c_uint32, C.c_uint32, C.c_uint8, C.c_void_p, C.c_uint32]),
    ('e_dbgarg', None, [C.c_uint8, C.c_uint8, C.c_uint8, C.c_uint32, C.c_uint32]),
]
RET = {}


def load(path):
    lib = C.CDLL(path)
    lib._keep = []
    lib._cur = None
    cx = ConcX(lambda p, n: list(C.string_at(p, n)) if n else [])

    def mk(name, res, at):
        ft = C.CFUNCTYPE(res, *at)

        def f(*a):
            try:
                r = getattr(lib._cur, name)(cx, *a)
                if res is None:
                    return None
                return bool(r) if res is C.c_bool else int(r)
            except Exception:
                import traceback, os
                traceback.print_exc()
                os._exit(77)
        return ft(f)
    for i, (n, r, a) in enumerate(SIGS):
        fn = mk(n, r, a)
        lib._keep.append(fn)
        lib.zh_set_cb(C.c_uint32(i), C.cast(fn, C.c_void_p))
    lib._cx = cx
    return lib


class NatCtx:
    native = True

    def __init__(self, lib, env):
        self.lib, self.env, self.X = lib, env, lib._cx
        self._bufs = []

    def call(self, name, *args, ret=None):
        self.lib._cur = self.env
        f = getattr(self.lib, name)
        f.restype = C.c_uint64
        f.argtypes = [C.c_uint64] * len(args)
        r = f(*[int(a) for a in args])
        # the return type is not known here: callers mask
        return r

    def alloc(self, n, init=None):
        b = C.create_string_buffer(max(n, 1) + 16)
        a = C.addressof(b)
        off = -a % 16
        self._bufs.append(b)
        if init is not None:
            for i, v in enumerate(init):
                b[off + i] = bytes([int(v)])
        return a + off

    def load(self, p, n):
        return int.from_bytes(C.string_at(p, n), 'little')

    def store(self, p, v, n):
        C.memmove(p, int(v).to_bytes(n, 'little'), n)
