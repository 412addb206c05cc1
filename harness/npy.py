"""P28: Python bindings. Generated calls of the NumPy functions and of the ctypes functions
against the scalar fast functions. Runs under the Python that has NumPy and Hypothesis.

A case is a JSON object: which function, shape, layout and type of every argument, where the result goes.
  npy.py --gen DIR --scripts DIR --sut SO --seed N --examples N --journal FILE --out FILE
  npy.py --gen DIR --scripts DIR --sut SO --replay FILE      exit 1 if the case fails"""
import argparse, ctypes, json, os, sys

P = argparse.ArgumentParser()
for a in ("gen", "scripts", "sut", "journal", "out", "replay"):
    P.add_argument("--" + a, default="")
P.add_argument("--seed", type=int, default=1)
P.add_argument("--examples", type=int, default=200)
A = P.parse_args()
sys.dont_write_bytecode = True
os.chdir(A.gen)                     # the ctypes modules look for the library in the current directory
sys.path[:0] = [A.gen, A.scripts]

import numpy as np

UNARY = ["asin", "atan", "cos", "exp", "identity", "inv", "isqrt", "log", "sin", "sqrt"]
FN = {f: (1, 1) for f in UNARY}
FN.update(sincos=(1, 2), atan2=(2, 1), div=(2, 1), fma=(3, 1), fmac=(3, 1))


# ------------------------------------------------------------------ reference
class SutFn(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char_p), ("prec", ctypes.c_int), ("nin", ctypes.c_int), ("nout", ctypes.c_int),
                ("scal", ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t)), ("arr", ctypes.c_void_p)]


class SutTable(ctypes.Structure):
    _fields_ = [("n", ctypes.c_int), ("fn", ctypes.POINTER(SutFn))]


lib = ctypes.CDLL(A.sut)
lib.sut_table.restype = ctypes.POINTER(SutTable)
tab = lib.sut_table().contents
SUT = {tab.fn[i].name.decode(): tab.fn[i] for i in range(tab.n)}
libm = ctypes.CDLL("libm.so.6")


def reference(fn, dt, args):
    """results of the scalar function on flat contiguous arguments of type dt: a list of candidates per output"""
    with np.errstate(all="ignore"):
        if fn == "identity":
            return [[args[0].copy()]]
        if fn == "sqrt":
            return [[np.sqrt(args[0])]]
        if fn == "div":
            return [[args[0] / args[1]]]
        if fn in ("fma", "fmac"):
            f, c = (libm.fmaf, ctypes.c_float) if dt == np.float32 else (libm.fma, ctypes.c_double)
            f.restype, f.argtypes = c, [c] * 3
            once = np.array([f(float(a), float(b), float(d)) for a, b, d in zip(*args)], dtype=dt)
            return [[once]] if fn == "fmac" else [[args[0] * args[1] + args[2], once]]
    s = SUT["fast_" + fn + ("f" if dt == np.float32 else "")]
    n = args[0].size
    o = [np.empty(n, dt), np.empty(n, dt)]
    s.scal(args[0].ctypes.data, args[-1].ctypes.data, o[0].ctypes.data, o[1].ctypes.data, n)
    return [[x] for x in o[:s.nout]]


def bits(a):
    return a.view(np.uint32 if a.dtype == np.float32 else np.uint64)


def agree(got, cands):
    """mask of the elements which agree with one of the candidates bit by bit (NaNs agree with each other)"""
    r = np.zeros(got.size, bool)
    for c in cands:
        r |= (bits(got) == bits(c)) | (np.isnan(got) & np.isnan(c))
    return r


# ------------------------------------------------------------------ arrays from a case
def numbers(rng, n, dt):
    dt = np.dtype(dt)
    if dt.kind in "iu":
        return rng.integers(0 if dt.kind == "u" else -100, 100, n).astype(dt)
    if dt.kind == "b":
        return rng.integers(0, 2, n).astype(bool)
    k = rng.integers(0, 5, n)
    raw = rng.integers(0, 2**64, n, dtype=np.uint64)
    any_ = raw.view(np.float64) if dt.itemsize == 8 else (raw & 0xffffffff).astype(np.uint32).view(np.float32).astype(np.float64)
    sp = rng.choice([0., -0., np.inf, -np.inf, np.nan, 1., -1., 5e-324, 1e-40, 700., 89., 1e-300], n)
    with np.errstate(all="ignore"):
        return np.where(k == 0, any_, np.where(k == 1, rng.uniform(-1, 1, n), np.where(k == 2, rng.uniform(0, 40, n), np.where(k == 3, rng.uniform(-700, 700, n), sp)))).astype(dt)


def layout(shape, lay, dt, rng):
    """(base, view): a view of the given shape into a larger contiguous array"""
    nd = len(shape)
    perm = sorted(range(nd), key=lambda i: (lay["perm"][i], i))
    base_shape, sl = [], []
    for ax in perm:
        st, off = lay["step"][ax], lay["off"][ax]
        ln = off + shape[ax] * abs(st) + lay["pad"]
        base_shape.append(ln)
        if st > 0:
            sl.append(slice(off, off + shape[ax] * st, st))
        else:
            hi = off + shape[ax] * -st - 1
            sl.append(slice(hi, hi - shape[ax] * -st if hi - shape[ax] * -st >= 0 else None, st) if shape[ax] else slice(0, 0))
    base = numbers(rng, int(np.prod(base_shape)), dt).reshape(base_shape)
    v = base[tuple(sl)] if nd else base
    if v.shape != tuple(shape[ax] for ax in perm):
        raise AssertionError((v.shape, shape, perm))
    return base, v.transpose([perm.index(i) for i in range(nd)])


def argument(case, a, rng):
    """array given to the function, of a shape which broadcasts to the shape of the case"""
    shape, dt = list(case["shape"]), np.dtype(a["dtype"])
    if a["swap"]:
        dt = dt.newbyteorder()
    if a["kind"] == "list":
        x = numbers(rng, int(np.prod(shape)), dt.newbyteorder("=")).reshape(shape)
        return None, x
    full = list(shape)
    for i in range(len(shape)):
        if a["bcast"][i] == 1:
            full[i] = 1                       # length one: broadcast by NumPy
    base, v = layout(full, a, dt, rng)
    for i in range(len(shape)):
        if a["bcast"][i] == 2 and full[i]:    # stride zero made by the caller
            idx = [slice(None)] * len(shape)
            idx[i] = slice(0, 1)
            v = np.broadcast_to(v[tuple(idx)], full)
    if a["drop"] and case["shape"]:
        v = v[(0,) * min(a["drop"], v.ndim)] if all(full[:a["drop"]]) else v
    return base, v


def what(case):
    return "vdt_%s%s" % (case["fn"], "" if case["api"] == "ufunc" else " (ctypes)")


class Fail(Exception):
    pass


def run(case):
    rng = np.random.default_rng(case["seed"])
    with np.errstate(all="ignore"):
        (ufunc if case["api"] == "ufunc" else through_ctypes)(case, rng)


def compare(case, outs, shape, dt, args, mask=None, old=None):
    flat = [np.ascontiguousarray(np.broadcast_to(x, shape).astype(dt)).reshape(-1) for x in args]
    ref = reference(case["fn"], dt, flat)
    if len(outs) != len(ref):
        raise Fail("%d results instead of %d" % (len(outs), len(ref)))
    for k, (o, r) in enumerate(zip(outs, ref)):
        o = np.asarray(o)
        if o.shape != tuple(shape):
            raise Fail("result %d has shape %s instead of %s" % (k + 1, o.shape, tuple(shape)))
        if o.dtype != dt:
            raise Fail("result %d has type %s instead of %s" % (k + 1, o.dtype, dt))
        f = np.ascontiguousarray(o).reshape(-1)
        ok = agree(f, r)
        if mask is not None:
            m = np.broadcast_to(mask, shape).reshape(-1)
            ok = np.where(m, ok, bits(f) == bits(np.ascontiguousarray(old[k]).reshape(-1)))
        if not ok.all():
            i = int(np.argmin(ok))
            raise Fail("element %s of result %d is %r, expected %r for arguments %s" % (tuple(int(z) for z in np.unravel_index(i, shape)) if len(shape) else "()", k + 1, float(f[i]), float(r[0][i]), [float(x[i]) for x in flat]))


def ufunc(case, rng):
    import vdtnpfun
    name = "vdt_" + case["fn"]
    if not hasattr(vdtnpfun, name):
        raise Fail("the module has no function %s" % name)
    f = getattr(vdtnpfun, name)
    nin, nout = FN[case["fn"]]
    if (f.nin, f.nout) != (nin, nout):
        raise Fail("takes %d arguments and returns %d" % (f.nin, f.nout))
    made = [argument(case, a, rng) for a in case["args"][:nin]]
    args = [v for _, v in made]
    if case["method"] != "call" and nin == 2:
        return methods(case, f, args)
    single = all(np.can_cast(x.dtype, np.float32, "safe") for x in args)
    dt = np.dtype(np.float32 if single else np.float64)
    shape = np.broadcast_shapes(*[x.shape for x in args])
    copies = [x.copy() for x in args]
    bases = [b.copy() if b is not None else None for b, _ in made]
    kw, outb, alias = {}, [], None
    o = case["out"]
    if o["kind"] == "inplace":
        for i, x in enumerate(args):
            if x.shape == shape and x.dtype == dt and x.dtype.isnative and x.flags.writeable and made[i][0] is not None and not any(s == 0 for s in x.strides):
                alias = i
                break
    if alias is not None:
        extra = [layout(list(shape), o["lay"], dt, rng)[1] for _ in range(nout - 1)]
        kw["out"] = tuple([args[alias]] + extra)
    elif o["kind"] in ("array", "overlap"):
        outs = []
        for k in range(nout):
            b, v = layout(list(shape), o["lay"], dt, rng)
            outb.append((b, v))
            outs.append(v)
        if o["kind"] == "overlap" and shape and nin >= 1 and args[0].shape == shape:
            # the result goes to the memory of the first argument, displaced by some elements
            n = int(np.prod(shape))
            mem = numbers(rng, n + 16, dt)
            a0 = mem[o["shift"]:o["shift"] + n].reshape(shape)
            args[0] = a0
            copies[0] = a0.copy()
            outs[0] = mem[8:8 + n].reshape(shape)
            outb, bases[0], alias = [], None, 0
            single = all(np.can_cast(x.dtype, np.float32, "safe") for x in args)
            if np.dtype(np.float32 if single else np.float64) != dt:
                return
        kw["out"] = tuple(outs)
    mask, old = None, None
    if case["where"] and "out" in kw and shape:
        mask = np.random.default_rng(case["seed"] + 1).integers(0, 2, shape).astype(bool)
        old = [x.copy() for x in kw["out"]]
        kw["where"] = mask
    keep = [b.copy() for b, _ in outb]
    res = f(*args, **kw)
    res = res if isinstance(res, tuple) else (res,)
    if "out" in kw and not all(r is w for r, w in zip(res, kw["out"])):
        raise Fail("the result is not the array given as out")
    compare(case, res, shape, dt, copies, mask, old)
    for (b, v), before in zip(outb, keep):
        after = b.copy()
        b[...] = 1
        v[...] = 0
        beside = b != 0
        if not np.array_equal(bits(after)[beside], bits(before)[beside]):
            raise Fail("memory beside the output array was written")
    for i, (b, c) in enumerate(zip([b for b, _ in made], bases)):
        if c is not None and i != alias and b.tobytes() != c.tobytes():
            raise Fail("argument %d was changed" % (i + 1))


def methods(case, f, args):
    dt = np.dtype(case["args"][0]["dtype"])
    if dt not in (np.float32, np.float64):
        dt = np.dtype(np.float64)
    x, y = np.ascontiguousarray(args[0]).astype(dt).reshape(-1)[:40], np.ascontiguousarray(args[1]).astype(dt).reshape(-1)[:40]
    if case["method"] == "outer":
        r = f.outer(x[::2], y)
        compare(case, (r,), (x[::2].size, y.size), dt, [np.broadcast_to(x[::2][:, None], (x[::2].size, y.size)), np.broadcast_to(y, (x[::2].size, y.size))])
        return
    # along an axis of the first argument as it lies in memory
    x = args[0].astype(dt, copy=False)
    if not x.ndim or not x.size or x.size > 30000:
        return
    ax = case["axis"] % x.ndim
    m = np.moveaxis(x, ax, 0)
    acc = [np.ascontiguousarray(m[0]).reshape(-1)]
    for e in m[1:]:
        acc.append(reference(case["fn"], dt, [acc[-1], np.ascontiguousarray(e).reshape(-1)])[0][0])
    if case["method"] == "accumulate":
        got, want = np.moveaxis(np.asarray(f.accumulate(x, axis=ax)), ax, 0), np.array(acc, dt).reshape(m.shape)
    else:
        got, want = np.asarray(f.reduce(x, axis=ax)), acc[-1].reshape(m.shape[1:])
    if got.dtype != dt or got.shape != want.shape:
        raise Fail("%s along axis %d gives %s of shape %s instead of %s of shape %s" % (case["method"], ax, got.dtype, got.shape, dt, want.shape))
    g, w = np.ascontiguousarray(got).reshape(-1), want.reshape(-1)
    ok = agree(g, [w])
    if not ok.all():
        i = int(np.argmin(ok))
        raise Fail("%s along axis %d of shape %s gives %r at element %d instead of %r" % (case["method"], ax, x.shape, float(g[i]), i, float(w[i])))


def through_ctypes(case, rng):
    import vdt_ctypes
    single = case["single"]
    name = "vdt_" + case["fn"] + ("f" if single else "")
    if not hasattr(vdt_ctypes, name):
        raise Fail("the module has no function %s" % name)
    nin, nout = FN[case["fn"]]
    dt = np.dtype(np.float32 if single else np.float64)
    made = []
    for a in case["args"][:nin]:
        a = dict(a, bcast=[0 if b == 1 else b for b in a["bcast"]], drop=0)
        made.append(argument(case, a, rng))
    copies = [v.copy() for _, v in made]
    bases = [None if b is None else b.copy() for b, _ in made]
    res = getattr(vdt_ctypes, name)(*[v.tolist() if b is None and v.size else v for b, v in made])
    res = res if isinstance(res, tuple) else (res,)
    compare(case, res, tuple(case["shape"]), dt, copies)
    for i, ((b, _), c) in enumerate(zip(made, bases)):
        if c is not None and b.tobytes() != c.tobytes():
            raise Fail("argument %d was changed" % (i + 1))


def judge(case):
    try:
        run(case)
    except Fail as e:
        return "%s: %s" % (what(case), e)
    except ImportError as e:
        return "%s: %s" % (what(case), e)
    except AssertionError:
        raise
    except Exception as e:
        return "%s: %s: %s" % (what(case), type(e).__name__, e)
    return None


if A.replay:
    case = json.loads([l for l in open(A.replay) if not l.startswith("#")][0])
    w = judge(case)
    print(w or "ok")
    sys.stdout.flush()
    os._exit(1 if w else 0)

# ------------------------------------------------------------------ generation
from hypothesis import given, settings, seed, strategies as st, HealthCheck, Phase

dims = st.one_of(st.integers(0, 4), st.integers(0, 40), st.sampled_from([7, 8, 9, 15, 16, 17, 31, 33]))
shapes = st.one_of(st.lists(dims, min_size=1, max_size=1), st.lists(st.integers(0, 9), min_size=0, max_size=3), st.lists(st.sampled_from([1, 2, 3, 500, 1025, 9000]), min_size=1, max_size=1),
                   st.sampled_from([[9001], [20000], [3, 5000], [9001], [20000], [3, 5000], [33000], [70000], [2, 66000], [140000]]))     # beyond the buffer of NumPy
dtypes = st.sampled_from(["f8", "f4"] * 6 + ["f2", "i1", "u1", "i2", "i4", "i8", "u2", "?"])


def lays(nd):
    return dict(perm=st.lists(st.integers(0, 3), min_size=nd, max_size=nd), step=st.lists(st.sampled_from([1, 1, 1, 2, 3, -1, -2]), min_size=nd, max_size=nd), off=st.lists(st.integers(0, 2), min_size=nd, max_size=nd), pad=st.integers(0, 2))


@st.composite
def cases(draw):
    shape = draw(shapes)
    nd = len(shape)
    fn = draw(st.sampled_from(sorted(FN)))
    same = draw(st.booleans())
    d0 = draw(dtypes)
    args = [draw(st.fixed_dictionaries(dict(lays(nd), dtype=st.just(d0) if same else dtypes, swap=st.sampled_from([False] * 9 + [True]), kind=st.sampled_from(["array"] * 4 + ["list"]), bcast=st.lists(st.sampled_from([0, 0, 0, 0, 1, 2]), min_size=nd, max_size=nd), drop=st.sampled_from([0, 0, 0, 0, 0, 1, 2])))) for _ in range(3)]
    c = dict(api=draw(st.sampled_from(["ufunc", "ufunc", "ufunc", "ctypes"])), fn=fn, shape=shape, args=args, seed=draw(st.integers(0, 10**6)), axis=draw(st.integers(0, 2)), single=draw(st.booleans()), where=draw(st.sampled_from([False] * 4 + [True])), method=draw(st.sampled_from(["call"] * 8 + ["outer", "accumulate", "reduce"])),
             out=dict(kind=draw(st.sampled_from(["none", "none", "array", "array", "inplace", "overlap"])), lay=draw(st.fixed_dictionaries(lays(nd))), shift=draw(st.integers(0, 16))))
    return c


stat = dict(n=0, nt=set(), samples=[], fail=None, per={})


def nontrivial(c):
    n = int(np.prod(c["shape"]))
    plain = all(all(s == 1 for s in a["step"]) and not any(a["bcast"]) and not a["drop"] and not a["swap"] for a in c["args"][:FN[c["fn"]][0]])
    return n >= 4 and (not plain or c["out"]["kind"] != "none" or len(c["shape"]) > 1)


def one(c):
    text = json.dumps(c, sort_keys=True)
    with open(A.journal, "w") as j:
        j.write(text + "\n")
    if stat["fail"] is None:
        stat["n"] += 1
        k = c["api"] + " " + (c["method"] if c["api"] == "ufunc" and FN[c["fn"]][0] == 2 else "call")
        stat["per"][k] = stat["per"].get(k, 0) + 1
        if nontrivial(c):
            stat["nt"].add(hash(text))
        if stat["n"] % 97 == 11 and len(stat["samples"]) < 4:
            stat["samples"].append(text[:400])
    w = judge(c)
    if w:
        stat["fail"] = (w, text)
        raise AssertionError(w)


def search():
    """in batches: Hypothesis remembers all examples of a search"""
    for b in range(0, A.examples, 3000):
        test = given(cases())(one)
        test = settings(max_examples=min(3000, A.examples - b), database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)(test)
        seed(A.seed + 1000003 * b)(test)()


try:
    search()
except Exception:                   # Hypothesis wraps failures which depend on what the memory held before
    if stat["fail"] is None:
        raise
json.dump(dict(evaluations=stat["n"], distinct_nontrivial=len(stat["nt"]), samples=stat["samples"], per_task=stat["per"], fail=stat["fail"]), open(A.out, "w"))
os.remove(A.journal)
sys.stdout.flush()
os._exit(0)
