"""The Python package (extra/python/src/neo) on top of the real module table, which the harness serves over a pipe.

usage: py28.py <package dir> <group> <tier>   (requests on fd 3, answers on fd 4)

Every call of the enumeration goes through the package's own functions; `neo._neo` forwards it to the compiled
bindings.  The last line written is "DONE <states> <calls>" or "FAIL <text>".
"""
import itertools
import os
import sys
import types

sys.dont_write_bytecode = True
import numpy as np

REQ, ANS = os.fdopen(3, "w"), os.fdopen(4, "r")
calls = 0
states = 0

NAMES = {"complex64": "c8", "complex128": "c16", "float32": "f4", "float64": "f8", "int64": "i8", "int32": "i4"}
BACK = {v: np.dtype(k) for k, v in NAMES.items()}


class Enum:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __repr__(self):
        return "<%s.%s>" % (self.kind, self.name)


def encode(a):
    if a is None:
        return "N"
    if isinstance(a, Enum):
        return "E %s %s" % (a.kind, a.name)
    if isinstance(a, (bool, np.bool_)):
        a = int(a)
    if isinstance(a, (int, np.integer)) and not isinstance(a, np.ndarray):
        return "I %d" % int(a)
    if isinstance(a, float) and not isinstance(a, np.floating):
        return "D %s" % a.hex()
    if not isinstance(a, (np.ndarray, np.generic, list, tuple)):
        raise TypeError("incompatible function arguments")
    a = np.asarray(a)
    if a.dtype.name not in NAMES:
        a = a.astype(np.complex128 if a.dtype.kind == "c" else np.int64 if a.dtype.kind in "iub" else np.float64)
    c = np.ascontiguousarray(a).reshape(a.shape)
    return "A %s %d %s %s" % (NAMES[a.dtype.name], a.ndim, " ".join(map(str, a.shape)), c.tobytes().hex() or "-")


def forward(name):
    def call(*args):
        global calls
        calls += 1
        lines = [encode(a) for a in args]
        REQ.write("CALL %s %d\n%s" % (name, len(lines), "".join(x + "\n" for x in lines)))
        REQ.flush()
        head = ANS.readline().rstrip("\n").split(" ")
        if head[0] == "X":
            raise (TypeError if head[1] == "T" else RuntimeError)(" ".join(head[2:]))
        dt, ndim = BACK[head[1]], int(head[2])
        shape = tuple(int(v) for v in head[3:3 + ndim])
        raw = bytes.fromhex("" if head[-1] == "-" else head[-1])
        out = np.frombuffer(raw, dtype=dt).reshape(shape).copy()
        return out if ndim else out.item()  # vectorised functions return numbers for numbers

    call.__name__ = name
    return call


def bridge():
    m = types.ModuleType("neo._neo", "the compiled module")
    m.__version__ = "dev"
    REQ.write("LIST\n")
    REQ.flush()
    for w in ANS.readline().split():
        if "." in w:
            kind, name = w.split(".")
            if not hasattr(m, kind):
                setattr(m, kind, types.SimpleNamespace())
            setattr(getattr(m, kind), name, Enum(kind, name))
        else:
            setattr(m, w, forward(w))
    return m


class Fail(Exception):
    pass


def need(ok, fmt, *a):
    if not ok:
        raise Fail(fmt % a if a else fmt)


L = np.longdouble
CL = np.clongdouble


def dft(z, sign):
    n = len(z)
    k = np.arange(n)
    t = (np.outer(k, k) % n).astype(L) * (L(2) * L("3.14159265358979323846264338327950288") / L(n))
    return (np.cos(t) + 1j * sign * np.sin(t)).astype(CL) @ np.asarray(z, dtype=CL)


def eps(dt):
    return float(np.finfo(dt).eps)


def raises(f):
    try:
        f()
    except Fail:
        raise
    except Exception:
        return True
    return False


def untouched(arrays, before, what):
    for a, b in zip(arrays, before):
        if isinstance(a, np.ndarray):
            need(a.tobytes() == b, "%s changed its input", what)


def views(values, dtype):
    """the same values in different layouts"""
    x = np.array(values).astype(dtype)
    yield x
    if len(x) > 1:
        gap = np.zeros(2 * len(x), dtype=dtype)
        gap[::2] = x
        yield gap[::2]
        yield x[::-1].copy()[::-1]


def dense(n, salt, kind):
    re = [((i * 7 + salt * 5 + 3) % 17 - 8) / 8 for i in range(n)]
    if kind == "i":
        return [int(v * 8) for v in re]
    if kind == "c":
        return [complex(r, ((i * 11 + salt * 3 + 5) % 19 - 9) / 8) for i, r in enumerate(re)]
    # a mantissa that single precision cannot hold
    return [r * (1 + 2.0 ** -30) if r else 2.0 ** -3 for r in re]


def transforms(neo, inverse, thorough):
    global states
    f = neo.fft.ifft if inverse else neo.fft.fft
    name = "ifft" if inverse else "fft"
    lens = list(range(0, 10)) + [16, 17] + ([31, 32, 64] if thorough else [])
    for n in lens:
        for dtype in ("complex64", "complex128", "float32", "float64", "int64", "int32", "list"):
            kind = "f" if dtype == "list" else np.dtype(dtype).kind
            vals = dense(n, n + inverse, kind)
            forms = [vals] if dtype == "list" else list(views(vals, dtype))
            for size in [None, 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 32]:
                for norm in (None, "backward", "ortho", "forward"):
                    kw = [("kw", {**({} if size is None else {"n": size}), **({} if norm is None else {"norm": norm})})]
                    if norm is not None:
                        kw.append(("pos", (size, norm)))
                    elif size is not None:
                        kw.append(("pos", (size,)))
                    for x in forms:
                        before = [x.tobytes() if isinstance(x, np.ndarray) else b""]
                        N = n if size is None else size
                        what = "%s(%s[%d], n=%s, norm=%s)" % (name, dtype, n, size, norm)
                        for how, extra in kw:
                            run = (lambda: f(x, **extra)) if how == "kw" else (lambda: f(x, *extra))
                            if N == 0 or N & (N - 1):
                                need(raises(run), "%s was accepted", what)
                                continue
                            y = run()
                            states += 1
                            untouched([x], before, what)
                            need(y.shape == (N,), "%s has shape %s", what, y.shape)
                            ok = ("complex64",) if dtype == "complex64" else ("complex64", "complex128") if dtype == "float32" else ("complex128",)
                            need(y.dtype.name in ok, "%s has dtype %s", what, y.dtype)
                            z = np.zeros(N, dtype=CL)
                            m = min(n, N)
                            z[:m] = np.asarray(x)[:m]
                            w = dft(z, 1 if inverse else -1)
                            nm = norm or "backward"
                            unit = 1 / np.sqrt(L(N)) if nm == "ortho" else 1 / L(N) if (nm == "backward") == bool(inverse) else L(1)
                            tol = eps(y.dtype) * 64 * float(np.sqrt(np.sum(np.abs(z) ** 2)) * unit) + 1e-300
                            d = np.abs(y.astype(CL) - w * unit)
                            need(np.all(d <= tol), "%s = %s, expected %s", what, y, w * unit)
                if thorough or n < 5:
                    need(raises(lambda: f(forms[0], size, "nonsense")), "%s accepted an unknown norm", name)
    for shape in ((2, 2), (1, 4), (2, 2, 2)):
        need(raises(lambda: f(np.zeros(shape, dtype=complex))), "%s accepted a %d-D array", name, len(shape))


def convolutions(neo, thorough):
    global states
    top = 9 if thorough else 6
    dts = ("float32", "float64", "int64", "list")
    for a, b in list(itertools.product(range(1, top), repeat=2)) + [(33, 7), (7, 33), (64, 64), (1, 40)]:
        for da, db in itertools.product(dts, dts):
            va, vb = dense(a, 1, "i" if da == "int64" else "f"), dense(b, 2, "i" if db == "int64" else "f")
            xs = [va] if da == "list" else list(views(va, da))
            hs = [vb] if db == "list" else list(views(vb, db))
            for x, h in itertools.product(xs, hs):
                before = [v.tobytes() if isinstance(v, np.ndarray) else b"" for v in (x, h)]
                for method in (None, "auto", "direct", "fft"):
                    for how in range(3):
                        what = "convolve(%s[%d], %s[%d], method=%s)" % (da, a, db, b, method)
                        if how == 0:
                            y = neo.convolve(x, h) if method is None else neo.convolve(x, h, method=method)
                        elif how == 1:
                            y = neo.convolve(x, h, "full") if method is None else neo.convolve(x, h, "full", method)
                        else:
                            y = neo.convolve(in1=x, in2=h, mode="full") if method is None else neo.convolve(in1=x, in2=h, method=method, mode="full")
                        states += 1
                        untouched([x, h], before, what)
                        need(y.shape == (a + b - 1,), "%s has shape %s", what, y.shape)
                        single = da == "float32" and db == "float32"
                        need(y.dtype.name == ("float32" if single else "float64"), "%s has dtype %s", what, y.dtype)
                        xl, hl = np.asarray(x).astype(L), np.asarray(h).astype(L)
                        w = np.zeros(a + b - 1, dtype=L)
                        for i in range(a):
                            w[i:i + b] += xl[i] * hl
                        tol = eps(y.dtype) * 100 * float(np.sqrt(np.sum(xl * xl) * np.sum(hl * hl))) + 1e-300
                        need(np.all(np.abs(y.astype(L) - w) <= tol), "%s = %s, expected %s", what, y, w)
                    for mode in ("valid", "same", "nonsense"):
                        kw = {} if method is None else {"method": method}
                        need(raises(lambda: neo.convolve(x, h, mode=mode, **kw)), "convolve accepted mode %s (method %s)", mode, method)
    for method in ("auto", "direct", "fft"):
        for bad in (np.zeros((2, 2)), np.zeros((1, 4))):
            need(raises(lambda: neo.convolve(bad, np.ones(2), method=method)), "convolve accepted a 2-D array")
            need(raises(lambda: neo.convolve(np.ones(2), bad, method=method)), "convolve accepted a 2-D array")


def elementwise(neo, thorough):
    global states

    def db(x):
        x = np.asarray(x).astype(L)
        with np.errstate(divide="ignore", invalid="ignore"):
            return np.maximum(L(-144), np.where(x > 0, 20 * np.log10(np.where(x > 0, x, 1)), L(-144)))

    def aw(f):
        f2 = np.asarray(f).astype(L) ** 2
        c = [L(v) ** 2 for v in ("12194.217", "20.598997", "107.65265", "737.86223")]
        return 2 + 20 * (np.log10(c[0]) + 2 * np.log10(f2) - np.log10(f2 + c[0]) - np.log10(f2 + c[1]) - np.log10(f2 + c[2]) / 2 - np.log10(f2 + c[3]) / 2)

    fns = [
        ("amplitude_to_db", [(), ("accurate",)], db, 16, None, True),
        ("amplitude_to_db", [("estimate",)], db, 0, 1e-3, True),
        ("a_weighting", [()], aw, 3000, None, False),
        ("fast_log2", [()], lambda x: np.log2(np.asarray(x).astype(L)), 0, 1e-3, False),
        ("fast_log10", [()], lambda x: np.log10(np.asarray(x).astype(L)), 0, 1e-3, False),
    ]
    values = [0.125 * (1 + (i * 37) % 101) * (40 if i % 3 == 0 else 1) for i in range(17)]
    for name, extras, model, ulps, rough, zero in fns:
        f = getattr(neo, name)
        for extra in extras:
            forms = []
            for n in (0, 1, 2, 3, 5, 17):
                for dt in ("float32", "float64"):
                    forms += list(views(values[:n], dt))
                forms.append(list(values[:n]))
                forms.append(np.array([int(v * 8) + 1 for v in values[:n]], dtype=np.int64))
            forms += [np.array(values[:6]).reshape(2, 3), np.array(values[:8], dtype=np.float32).reshape(2, 2, 2), 0.5, 3, 1000.0]
            if zero:
                forms += [[0.0, -1.0, 1e-9, 1.0], 0.0]
            for x in forms:
                variants = [lambda: f(x, *extra)] + ([lambda: f(x, precision=extra[0])] if extra else [])
                for run in variants:
                    before = [x.tobytes() if isinstance(x, np.ndarray) else b""]
                    what = "%s(%r%s)" % (name, x, "".join(", %s" % e for e in extra))
                    y = run()
                    states += 1
                    untouched([x], before, what)
                    need(np.shape(y) == np.shape(x), "%s has shape %s", what, np.shape(y))
                    if np.size(x) == 0:
                        continue
                    w = model(x)
                    single = isinstance(x, np.ndarray) and x.dtype == np.float32
                    tol = rough * (1 + np.abs(w)) if rough else eps(np.float32 if single else np.float64) * ulps * (1 + np.abs(w))
                    need(np.all(np.abs(np.asarray(y).astype(L) - w) <= tol), "%s = %r, expected %r", what, y, w)
    need(states > 0, "nothing was called")


def frequencies(neo, thorough):
    global states
    for n in range(0, 41):
        for d in (None, 1.0, 0.5, 1.0 / 44100.0, 3.0, 2):
            forms = [lambda: neo.fft.rfftfreq(n)] if d is None else [lambda: neo.fft.rfftfreq(n, d), lambda: neo.fft.rfftfreq(n, d=d), lambda: neo.fft.rfftfreq(n=n, d=d)]
            for run in forms:
                y = run()
                states += 1
                w = np.arange(n).astype(L) / (L(max(n, 1)) * L(1 if d is None else d))
                need(y.shape == (n,) and y.dtype == np.float64, "rfftfreq(%d, %s) is a %s of shape %s", n, d, y.dtype, y.shape)
                need(np.all(np.abs(y - w) <= eps(np.float64) * 8 * np.abs(w)), "rfftfreq(%d, %s) = %s, expected %s", n, d, y, w)


def histories(neo, thorough):
    """results are fresh arrays that do not depend on earlier calls, even if earlier arguments and results were changed"""
    global states
    c = np.array(dense(8, 1, "c"))
    r, q = np.array(dense(7, 1, "f")), np.array(dense(3, 2, "f"))
    ops = []
    for size in (None, 4, 16):
        for norm in ("backward", "ortho", "forward"):
            ops.append(lambda x, s=size, m=norm: neo.fft.fft(x, s, m))
            ops.append(lambda x, s=size, m=norm: neo.fft.ifft(x, n=s, norm=m))
    base = [(o, c) for o in ops]
    base += [(lambda x, m=m: neo.convolve(x, q.copy(), method=m), r) for m in ("auto", "direct", "fft")]
    base += [(lambda x: neo.convolve(q.copy(), x, method="fft"), r)]
    base += [(lambda x, p=p: neo.amplitude_to_db(x, p), np.abs(r)) for p in ("accurate", "estimate")]
    base += [(lambda x: neo.a_weighting(x), np.abs(r) * 1000 + 1), (lambda x: neo.fft.rfftfreq(9, 0.25), r)]
    first = [o(x.copy()) for o, x in base]
    keep = [f.copy() for f in first]
    for i, (o1, x1) in enumerate(base):
        for j, (o2, x2) in enumerate(base):
            a = x1.copy()
            y = o1(a)
            y *= 0          # the caller owns the result
            a[:] = 7        # ... and its argument
            z = o2(x2.copy())
            states += 1
            need(z.dtype == keep[j].dtype and z.tobytes() == keep[j].tobytes(), "call %d gives another result after call %d", j, i)
            # the same argument object, refilled
            a[:] = x1
            need(o1(a).tobytes() == keep[i].tobytes(), "call %d does not see that its argument changed", i)
    for f, k in zip(first, keep):
        need(f.tobytes() == k.tobytes(), "a returned array changed later")


def names(neo, thorough):
    global states
    for mod in (neo, neo.fft):
        for n in mod.__all__:
            need(hasattr(mod, n), "%s.%s is missing", mod.__name__, n)
            states += 1
    for n in ("a_weighting", "fast_log2", "fast_log10", "amplitude_to_db", "convolve", "fft"):
        need(hasattr(neo, n), "neo.%s is missing", n)
    for n in ("fft", "ifft", "rfftfreq"):
        need(hasattr(neo.fft, n), "neo.fft.%s is missing", n)


def main():
    pkg, group, tier = sys.argv[1:4]
    sys.path.insert(0, pkg)
    sys.modules["neo._neo"] = bridge()
    import neo
    import neo.fft
    groups = {
        "fft": lambda t: transforms(neo, 0, t), "ifft": lambda t: transforms(neo, 1, t), "convolve": lambda t: convolutions(neo, t),
        "elementwise": lambda t: elementwise(neo, t), "frequencies": lambda t: frequencies(neo, t),
        "histories": lambda t: histories(neo, t), "names": lambda t: names(neo, t),
    }
    groups[group](tier == "thorough")
    return "DONE %d %d" % (states, calls)


try:
    last = main()
except Fail as e:
    last = "FAIL " + " ".join(str(e).split())
except Exception as e:
    last = "FAIL %s: %s" % (type(e).__name__, " ".join(str(e).split()))
REQ.write(last + "\n")
REQ.flush()
