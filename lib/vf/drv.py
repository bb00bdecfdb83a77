"""Driver-side helpers: this runs inside the process that loads the extension under test."""
import atexit, ctypes, gc, hashlib, importlib, json, os, random, struct, sys, time

OUT = open(os.environ['VF_OUT'], 'a') if os.environ.get('VF_OUT') else sys.stdout
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
FLAVOUR = os.environ.get('VF_FLAVOUR', 'plain')

counters = {}
distinct_set = set()
evaluations = 0
_nviol = {}


def _w(obj):
    OUT.write(json.dumps(obj, default=repr) + '\n')
    OUT.flush()


def op(x):
    """note the operation that is about to run, so that a crash can be attributed"""
    _w({'op': x})


def violation(mech, msg, replay=None):
    _nviol[mech] = _nviol.get(mech, 0) + 1
    if _nviol[mech] <= 5:
        _w({'violation': {'mech': mech, 'msg': msg, 'replay': replay}})


def count(name, n=1):
    counters[name] = counters.get(name, 0) + n


def ev(n=1):
    global evaluations
    evaluations += n


def distinct(key):
    if not isinstance(key, str):
        key = json.dumps(key, sort_keys=True, default=repr)
    distinct_set.add(hashlib.md5(key.encode('utf-8', 'surrogatepass')).hexdigest())


_ns = [0]


def sample(s):
    _ns[0] += 1
    if _ns[0] <= 4:
        _w({'sample': s})


def done():
    _w({'summary': {'evaluations': evaluations, 'counters': counters, 'distinct': sorted(distinct_set)}})


class CSide(object):
    """the C++ half of an extension module, seen through ctypes"""
    def __init__(self, mod_or_path):
        path = mod_or_path if isinstance(mod_or_path, str) else mod_or_path.__file__
        self.lib = L = ctypes.PyDLL(path)
        L.vf_take_log.restype = ctypes.c_char_p
        L.vf_badmsg.restype = ctypes.c_char_p
        L.vf_push.argtypes = [ctypes.c_char_p]
        L.vf_push.restype = None
        for n in ('vf_live', 'vf_made'):
            getattr(L, n).argtypes = [ctypes.c_char_p]
            getattr(L, n).restype = ctypes.c_long
        for n in ('vf_queue_len', 'vf_live_total', 'vf_bad', 'vf_events', 'vf_heap'):
            getattr(L, n).restype = ctypes.c_long

    def log(self):
        return self.lib.vf_take_log().decode('utf-8', 'replace').split('\n')[:-1]

    def push(self, enc):
        self.lib.vf_push(enc.encode())

    def qlen(self):
        return self.lib.vf_queue_len()

    def qclear(self):
        self.lib.vf_queue_clear()

    def live(self, tag):
        return self.lib.vf_live(tag.encode())

    def made(self, tag):
        return self.lib.vf_made(tag.encode())

    def live_total(self):
        return self.lib.vf_live_total()

    def bad(self):
        n = self.lib.vf_bad()
        return n, self.lib.vf_badmsg().decode('utf-8', 'replace')

    def events(self):
        return self.lib.vf_events()

    def heap(self):
        return self.lib.vf_heap()


def growth(fn, n=200, heap=None, rounds=4, warm=30):
    """bytes/blocks per iteration that fn leaves behind: (python blocks, C heap bytes, refs), smallest over the rounds.
    A real leak grows in every round; caches and free lists do not."""
    for _ in range(warm):
        fn()
    gc.collect()
    best = None
    for _ in range(rounds):
        b0 = sys.getallocatedblocks()
        h0 = heap() if heap else 0
        for _i in range(n):
            fn()
        gc.collect()
        b1 = sys.getallocatedblocks()
        h1 = heap() if heap else 0
        cur = ((b1 - b0) / n, (h1 - h0) / n)
        best = cur if best is None else (min(best[0], cur[0]), min(best[1], cur[1]))
    return best


def quiet_hook(t=None, v=None, tb=None):
    """a sys.excepthook that stays silent for errors printed in the middle of a call, not for the driver's own end"""
    try:
        sys._getframe(1)
    except ValueError:
        sys.__excepthook__(t, v, tb)
