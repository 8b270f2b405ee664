# A stand-in for the python interpreter: behaves as POLICY says, keeps the log, and runs the
# script against recording stand-ins of the plotting modules.
import os, signal, sys, time, types
def note(name, text):
    fd = os.open(os.path.join(DIR, name), os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    os.write(fd, (text + "\n").encode())
    os.close(fd)
def bye(code=0):
    note("log", "bye")
    os._exit(code)
note("log", "start")
if POLICY == "early":
    os._exit(0)
if POLICY == "half":
    os.read(0, 10)
    os._exit(0)
if POLICY == "deaf":
    os.close(0)
    time.sleep(0.4)
    bye()
if POLICY == "halfdeaf":
    os.read(0, 10)
    os.close(0)
    time.sleep(0.6)
    bye()
if POLICY == "slow":
    time.sleep(0.4)
if POLICY == "sleepy":
    time.sleep(3)
if POLICY == "noisy":
    for fd in (1, 2):
        for _ in range(300):
            try:
                os.write(fd, b"chatter " * 500)
            except OSError:
                pass
src = b""
while True:
    b = os.read(0, 97 if POLICY == "trickle" else 1 << 16)
    if POLICY == "trickle":
        time.sleep(0.005)
    if not b:
        break
    src += b
note("log", "eof")
if POLICY == "killed":
    os.kill(os.getpid(), signal.SIGKILL)

class Arr(list):
    def max(self): return max(self) if self and all(v == v for v in self) else float("nan")
    def min(self): return min(self)
    def __truediv__(self, k):
        return Arr(v / k if k else float("nan") for v in self)
    def __mul__(self, k): return Arr(v * k for v in self)
    @property
    def size(self): return len(self)
def correlate(a, b, mode="full", method="auto"):
    if POLICY == "huge":
        return Arr([1.0])
    a, b = list(map(float, a)), list(map(float, b))
    n, m = len(a), len(b)
    full = Arr(sum(a[i] * b[i - k] for i in range(max(0, k), min(n, m + k))) for k in range(-(m - 1), n))
    if mode == "full":
        return full
    if mode == "same":
        return Arr(full[(m - 1) // 2:(m - 1) // 2 + n])
    return Arr(full[m - 1:n])
class Rec:
    def __init__(self, name="", **kw):
        self.__dict__["_n"] = name
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Rec(k)
    def __setattr__(self, k, v): pass
    def __getitem__(self, k): return Rec("item")
    def __iter__(self): return iter([Rec("a"), Rec("b")])
    def __call__(self, *a, **kw):
        if self._n == "plot":
            a = [x for x in a if not isinstance(x, str)]
            note("plots", ";".join(" ".join(float(v).hex() if False else repr(float(v)) for v in x) for x in a))
        if self._n == "show":
            note("plots", "show")
        return Rec("called")
def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m
class Any(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Rec(k)
for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.gridspec"):
    sys.modules[n] = Any(n)
    sys.modules[n].__path__ = []
sys.modules["matplotlib"].pyplot = sys.modules["matplotlib.pyplot"]
sys.modules["matplotlib"].gridspec = sys.modules["matplotlib.gridspec"]
sig = mod("scipy.signal", correlate=correlate)
mod("scipy", signal=sig, __path__=[])
try:
    exec(compile(src, "script", "exec"), {"__name__": "__main__"})
except BaseException as e:
    note("err", repr(e))
time.sleep(PATIENCE if POLICY == "window" else 0.15)
bye(3 if POLICY == "fails" else 0)
