#!/usr/bin/env python3-vt
"""Equivalence checking of a CBMC formula by rewriting and SMT sweeping.

usage: sweep.py FILE.smt2 [seconds]

Reads the bit-vector formula CBMC wrote (--smt2 --outfile).  Every defined
symbol becomes a node of a hash-consed, normalised graph.  Nodes that agree on
random vectors are candidates only; they are merged after z3 has shown them
equal for all values (of a cut of their cones, hence of the inputs).  The
formula is unsatisfiable (all assertions hold) when one of its asserted
conjuncts normalises to false.  Anything else prints 'unknown': no verdict.
"""
import sys, re, time, random
import z3
sys.setrecursionlimit(1000000)
K = 24                          # random vectors
rnd = random.Random(20240607)
T0 = time.time()
LIMIT = float(sys.argv[2]) if len(sys.argv) > 2 else 300.0
stats = dict(nodes=0, merges=0, queries=0, solver_s=0.0, refuted=0, unknown=0)

def mask(w): return (1 << w) - 1

class N(object):
    __slots__ = ("op", "a", "w", "id", "sim", "rep", "lin")
    # op: const(a=int) var(a=name) extract(a=(hi,lo,x)) concat(a=tuple hi..lo)
    #     xor/and/or(a=tuple) add(a=((coef,x),...,const)) mul table(a=(contents,x))
    #     ite eq ult slt and generic shifts

table = {}
sigs = {}
counter = [0]

def mk(op, a, w, lin=None):
    if op == "table": k = (op, id(intern_tab(a[0])), a[1].id, w)
    elif op == "add": k = (op, frozenset((x.id, c) for x, c in lin[0].items()), lin[1], w)
    else: k = key(op, a, w)
    n = table.get(k)
    if n is not None:
        return find(n)
    n = N(); n.op = op; n.a = a; n.w = w; counter[0] += 1; n.id = counter[0]; n.rep = None; n.lin = lin
    n.sim = simulate(n)
    table[k] = n
    stats["nodes"] += 1
    if op in ("add", "mul", "xor", "and", "or", "ite", "eq", "table", "ult", "slt", "shl", "lshr", "ashr", "udiv", "urem"):
        r = merge(n)
        if r is not None:
            n.rep = r
            return r
    return n

tabs = {}
def intern_tab(t):
    return tabs.setdefault(t, t)

def key(op, a, w):
    if op == "const": return (op, a, w)
    if op == "var": return (op, a, w)
    if op == "extract": return (op, a[0], a[1], a[2].id, w)
    if op == "rot": return (op, a[0].id, a[1], w)
    return (op, tuple(x.id for x in a), w)

def find(n):
    while n.rep is not None:
        n = n.rep
    return n

def sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def simulate(n):
    op, a, w = n.op, n.a, n.w
    m = mask(w)
    if op == "const": return (a,) * K
    if op == "var":
        sp = [0, m, 1]
        return tuple(sp + [rnd.getrandbits(w) for _ in range(K - 3)])
    if op == "extract":
        hi, lo, x = a
        return tuple((v >> lo) & m for v in x.sim)
    if op == "concat":
        r = [0] * K
        for x in a:
            xw = x.w; s = x.sim
            r = [(r[i] << xw) | s[i] for i in range(K)]
        return tuple(r)
    if op == "xor":
        r = list(a[0].sim)
        for x in a[1:]:
            s = x.sim
            r = [r[i] ^ s[i] for i in range(K)]
        return tuple(r)
    if op == "and":
        r = list(a[0].sim)
        for x in a[1:]:
            s = x.sim
            r = [r[i] & s[i] for i in range(K)]
        return tuple(r)
    if op == "or":
        r = list(a[0].sim)
        for x in a[1:]:
            s = x.sim
            r = [r[i] | s[i] for i in range(K)]
        return tuple(r)
    if op == "add":
        r = [a[1]] * K
        for c, x in a[0]:
            s = x.sim
            r = [r[i] + c * s[i] for i in range(K)]
        return tuple(v & m for v in r)
    if op == "box": return a[0].sim
    if op == "rot":
        k = a[1]                # rotate right
        return tuple((v >> k) | ((v << (w - k)) & m) for v in a[0].sim)
    if op == "mul":
        s, t = a[0].sim, a[1].sim
        return tuple((s[i] * t[i]) & m for i in range(K))
    if op == "table":
        t = a[0]
        return tuple(t[v] for v in a[1].sim)
    if op == "ite":
        c, s, t = a[0].sim, a[1].sim, a[2].sim
        return tuple(s[i] if c[i] else t[i] for i in range(K))
    if op == "eq":
        s, t = a[0].sim, a[1].sim
        return tuple(int(s[i] == t[i]) for i in range(K))
    if op == "ult":
        s, t = a[0].sim, a[1].sim
        return tuple(int(s[i] < t[i]) for i in range(K))
    if op == "slt":
        s, t = a[0].sim, a[1].sim; xw = a[0].w
        return tuple(int(sg(s[i], xw) < sg(t[i], xw)) for i in range(K))
    s, t = a[0].sim, a[1].sim
    if op == "shl": return tuple((s[i] << t[i]) & m if t[i] < w else 0 for i in range(K))
    if op == "lshr": return tuple(s[i] >> t[i] if t[i] < w else 0 for i in range(K))
    if op == "ashr": return tuple((sg(s[i], w) >> min(t[i], w)) & m for i in range(K))
    if op == "udiv": return tuple(s[i] // t[i] if t[i] else m for i in range(K))
    if op == "urem": return tuple(s[i] % t[i] if t[i] else s[i] for i in range(K))
    raise Exception(op)

# ---- merging ---------------------------------------------------------------
def merge(n):
    s = (n.w, n.sim)
    lst = sigs.get(s)
    first = n.sim[0]
    if n.w > 1 or n.op == "eq":
        if all(v == first for v in n.sim) and not (n.w == 1 and n.op != "eq"):
            c = const(first, n.w)
            if prove(n, c):
                stats["merges"] += 1
                return c
    if lst is None:
        if n.w >= 3:
            sigs[s] = [n]
        return None
    for r in lst[:3]:
        r = find(r)
        if r is n: continue
        if prove(n, r):
            stats["merges"] += 1
            return r
    lst.append(n)
    return None

def kids(n):
    op, a = n.op, n.a
    if op in ("const", "var"): return ()
    if op == "extract": return (a[2],)
    if op == "add": return tuple(x for c, x in a[0])
    if op == "table": return (a[1],)
    if op == "rot": return (a[0],)
    return a

def zvar(n): return z3.BitVec("n%d" % n.id, n.w)
ztabs = {}
def ztable(t, w, x):
    # balanced selection on the index bits
    bits = (len(t) - 1).bit_length()
    memo = {}
    def go(lo, size, b):
        sub = t[lo:lo + size]
        r = memo.get(sub)
        if r is not None: return r
        if size == 1 or all(v == sub[0] for v in sub):
            r = z3.BitVecVal(sub[0], w)
        else:
            h = size // 2
            r = z3.If(z3.Extract(b - 1, b - 1, x) == 1, go(lo + h, h, b - 1), go(lo, h, b - 1))
        memo[sub] = r
        return r
    return go(0, len(t), bits)

def build(n, cut, memo):
    r = memo.get(n.id)
    if r is not None: return r
    op, a, w = n.op, n.a, n.w
    if op == "const": r = z3.BitVecVal(a, w)
    elif op == "var" or n.id in cut: r = zvar(n)
    else:
        b = [build(find(x), cut, memo) for x in kids(n)]
        if op == "extract": r = z3.Extract(a[0], a[1], b[0])
        elif op == "concat": r = z3.Concat(*b) if len(b) > 1 else b[0]
        elif op == "xor":
            r = b[0]
            for x in b[1:]: r = r ^ x
        elif op == "and":
            r = b[0]
            for x in b[1:]: r = r & x
        elif op == "or":
            r = b[0]
            for x in b[1:]: r = r | x
        elif op == "add":
            r = z3.BitVecVal(a[1], w)
            for (c, _), x in zip(a[0], b):
                r = r + (x if c == 1 else z3.BitVecVal(c, w) * x)
        elif op == "box": r = b[0]
        elif op == "rot": r = z3.RotateRight(b[0], a[1])
        elif op == "mul": r = b[0] * b[1]
        elif op == "table": r = ztable(a[0], w, b[0])
        elif op == "ite": r = z3.If(b[0] == 1, b[1], b[2])
        elif op == "eq": r = z3.If(b[0] == b[1], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op == "ult": r = z3.If(z3.ULT(b[0], b[1]), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op == "slt": r = z3.If(b[0] < b[1], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op == "shl": r = b[0] << b[1]
        elif op == "lshr": r = z3.LShR(b[0], b[1])
        elif op == "ashr": r = b[0] >> b[1]
        elif op == "udiv": r = z3.UDiv(b[0], b[1])
        elif op == "urem": r = z3.URem(b[0], b[1])
        else: raise Exception(op)
    memo[n.id] = r
    return r

def cone_cut(n, r, limit):
    """expand the youngest nodes first until limit; what is left is cut"""
    import heapq
    heap = []; seen = set()
    def push(x):
        x = find(x)
        if x.id not in seen and x.op not in ("const",):
            seen.add(x.id); heapq.heappush(heap, (-x.id, x))
    for x in (n, r):
        seen.add(x.id)
        for y in kids(x): push(y)
    cnt = 0
    cut = set(); more = False
    while heap:
        _, x = heapq.heappop(heap)
        if x.op == "var":
            continue
        if cnt >= limit:
            cut.add(x.id); more = True
            continue
        cnt += 1
        for y in kids(x): push(y)
    return cut, more

def tables(n, r):
    """both are the same Boolean function, bit by bit, of at most 12 words"""
    full = mask(n.w); inner = {}; leaves = {}
    def put(x):
        x = find(x)
        if x.id not in inner and x.op != "const": leaves[x.id] = x
    for x in (n, r):
        if x.op in ("xor", "and", "or"): inner[x.id] = x
    for x in list(inner.values()):
        for y in kids(x):
            if find(y).op == "const" and find(y).a not in (0, full): return False
            put(y)
    if r.id not in inner and r.op != "const": leaves[r.id] = r
    for step in range(80):
        if len(leaves) <= 12:
            k = len(leaves); size = 1 << k; ones = (1 << size) - 1
            val = {}
            for j, i in enumerate(sorted(leaves)):
                b = ((1 << (1 << j)) - 1) << (1 << j); wd = 2 << j
                while wd < size: b |= b << wd; wd *= 2
                val[i] = b
            for i in sorted(inner):
                x = inner[i]; v = None
                for y in x.a:
                    y = find(y)
                    u = (ones if y.a else 0) if y.op == "const" else val[y.id]
                    v = u if v is None else v ^ u if x.op == "xor" else v & u if x.op == "and" else v | u
                val[i] = v
            rv = (ones if r.a else 0) if r.op == "const" else val[r.id]
            if val.get(n.id) == rv: return True
        c = [i for i, x in leaves.items() if x.op in ("xor", "and", "or") and
             all(find(y).op != "const" or find(y).a in (0, full) for y in x.a)]
        if not c or len(leaves) > 24: return False
        x = leaves.pop(max(c)); inner[x.id] = x
        for y in x.a: put(y)
    return False

failed = {}
def prove(n, r):
    if time.time() - T0 > LIMIT: return False
    if n.op in ("xor", "and", "or") and n.w > 1 and (r.op != "const" or r.a in (0, mask(n.w))):
        t = time.time()
        ok = tables(n, r)
        stats["solver_s"] += time.time() - t
        if ok:
            stats["queries"] += 1
            return True
    fk = (n.w, n.op, r.op)
    if failed.get(fk, 0) > (8 if "table" in fk else 60): return False
    t = time.time()
    ok = False
    for limit, tmo in ((6, 300), (30, 1000), (120, 3000), (500, 8000)):
        cut, more = cone_cut(n, r, limit)
        memo = {}
        # the nodes themselves are never cut
        s = z3.SolverFor("QF_BV")
        s.set("timeout", tmo)
        s.add(build(n, cut - {n.id, r.id}, memo) != build(r, cut - {n.id, r.id}, memo))
        stats["queries"] += 1
        res = s.check()
        if res == z3.unsat: ok = True; break
        if res == z3.unknown: stats["unknown"] += 1; break
        if not more: stats["refuted"] += 1; break
    stats["solver_s"] += time.time() - t
    if not ok: failed[fk] = failed.get(fk, 0) + 1
    elif failed.get(fk): failed[fk] = max(0, failed[fk] - 5)
    return ok

# ---- constructors ------------------------------------------------------------
def const(v, w): return mk("const", v & mask(w), w)

xmemo = {}
def extract(x, hi, lo):
    x = find(x)
    if hi - lo + 1 == x.w: return x
    k = (x.id, hi, lo)
    r = xmemo.get(k)
    if r is None: r = xmemo[k] = extract1(x, hi, lo)
    return find(r)

def extract1(x, hi, lo):
    w = hi - lo + 1
    op = x.op
    if op == "const": return const(x.a >> lo, w)
    if op == "extract": return extract(x.a[2], hi + x.a[1], lo + x.a[1])
    if op == "concat":
        parts = []; pos = 0
        for p in reversed(x.a):
            a, b = max(lo, pos), min(hi, pos + p.w - 1)
            if a <= b: parts.append(extract(p, b - pos, a - pos))
            pos += p.w
        return concat(parts[::-1])
    if op == "box" and lo % 8 == 0 and w % 8 == 0: return extract(x.a[0], hi, lo)
    if op == "rot" and (x.a[1] % 8 == 0 or x.w < 32):
        y, k = x.a
        if hi + k < x.w: return extract(y, hi + k, lo + k)
        if lo + k >= x.w: return extract(y, hi + k - x.w, lo + k - x.w)
        return concat([extract(y, hi + k - x.w, 0), extract(y, x.w - 1, lo + k)])
    if op in ("xor", "and", "or") and any(y.op == "table" for y in x.a):
        return bitwise(op, [extract(y, hi, lo) for y in x.a], w)
    if op == "ite": return ite(x.a[0], extract(x.a[1], hi, lo), extract(x.a[2], hi, lo))
    if op == "table":
        m = mask(w)
        return mktable(tuple((v >> lo) & m for v in x.a[0]), x.a[1], w)
    if lo == 0 and op == "add" and ((x.w == 64 and w == 32) or all(narrow(y, w) for c, y in x.a[0])):
        return add([(c, extract(y, hi, 0)) for c, y in x.a[0]], x.a[1], w)
    if lo == 0 and op == "mul" and w in (8, 16, 32):
        return mul(extract(x.a[0], hi, 0), extract(x.a[1], hi, 0))
    return mk("extract", (hi, lo, x), w)

def narrow(y, w):
    return y.op == "concat" and y.a[0].op == "const" and y.w - y.a[0].w <= w

def concat(parts):
    out = []
    for p in parts:
        p = find(p)
        for q in (p.a if p.op == "concat" else (p,)):
            q = find(q)
            if out:
                l = out[-1]
                if l.op == "const" and q.op == "const":
                    out[-1] = const((l.a << q.w) | q.a, l.w + q.w); continue
                if q.op == "extract" and l.op == "extract" and q.a[2] is l.a[2] and l.a[1] == q.a[0] + 1:
                    out[-1] = extract(q.a[2], l.a[0], q.a[1]); continue
                if l.op == "table" and q.op == "table" and l.a[1] is q.a[1]:
                    out[-1] = mktable(tuple((u << q.w) | v for u, v in zip(l.a[0], q.a[0])), l.a[1], l.w + q.w); continue
                if l.op == "ite" and q.op == "ite" and l.a[0] is q.a[0]:
                    out[-1] = ite(l.a[0], concat([l.a[1], q.a[1]]), concat([l.a[2], q.a[2]])); continue
                b = base2(l, q)
                if b is not None and (l.op == "table" or q.op == "table"):
                    fl, fq = func(l, b), func(q, b)
                    out[-1] = mktable(tuple((u << q.w) | v for u, v in zip(fl, fq)), b, l.w + q.w); continue
            out.append(q)
    if len(out) == 1: return out[0]
    if len(out) == 2:
        h, l = out
        if h.op == "extract" and l.op == "extract" and h.a[2] is l.a[2] and h.a[1] == 0 and l.a[1] == h.a[0] + 1 \
           and l.a[0] == l.a[2].w - 1:
            return rot(l.a[2], l.a[1])
    w = sum(p.w for p in out)
    if w >= 32 and all(p.op in ("xor", "extract") for p in out):
        r = whole(out, w)
        if r is not None: return r
    return mk("concat", tuple(out), w)

def whole(out, w):
    """pieces of a sum of whole words, put together again"""
    pos = w; ws = None; c = 0
    for p in out:
        pos -= p.w
        cur = []
        for y in (p.a if p.op == "xor" else (p,)):
            if y.op == "const": c |= y.a << pos
            elif y.op == "extract" and y.a[2].w == w and y.a[1] == pos: cur.append(y.a[2])
            else: return None
        cur.sort(key=lambda x: x.id)
        if ws is None: ws = cur
        elif [x.id for x in ws] != [x.id for x in cur]: return None
    if not ws: return None
    return bitwise("xor", ws + [const(c, w)], w)

def rot(x, k):
    x = find(x)
    if x.op == "box" and k % 8 == 0: x = find(x.a[0])
    if x.op == "concat": return concat([extract(x, k - 1, 0), extract(x, x.w - 1, k)]) if k else x
    if x.op == "rot": x, k = x.a[0], (k + x.a[1]) % x.w
    if k == 0: return x
    return mk("rot", (x, k), x.w)

MAXB = 8
FLAT = 6
def bases(x):
    """possible single bases (width <= 8) of x, or None for a constant"""
    if x.op == "const": return None
    if x.op == "table": return (x.a[1],)
    if x.op == "extract" and x.a[2].w <= MAXB: return (x.a[2],)
    if x.w <= MAXB: return (x,)
    return ()

def base2(x, y):
    bx, by = bases(x), bases(y)
    if bx is None: return by[0] if by else None
    if by is None: return bx[0] if bx else None
    for b in bx:
        if b in by: return b
    return None

def func(x, b):
    n = 1 << b.w
    if x is b: return tuple(range(n))
    if x.op == "const": return (x.a,) * n
    if x.op == "table": return x.a[0]
    hi, lo, _ = x.a
    m = mask(x.w)
    return tuple((v >> lo) & m for v in range(n))

def single(args):
    """common base of all non-constant args (>= 1 of them a real function)"""
    b = None; nonc = 0
    for x in args:
        c = bases(x)
        if c is None: continue
        if not c: return None
        nonc += 1
        if b is None: b = c[0]
        elif c[0] is not b: return None
    return b

lin = {}
def affine(t):
    r = lin.get(t)
    if r is None:
        n = len(t); z = t[0]; r = True
        for i in range(1, n):
            l = i & -i
            if i != l and (t[i] ^ z) != (t[i ^ l] ^ z) ^ (t[l] ^ z): r = False; break
        lin[t] = r
    return r

def mktable(t, x, w):
    x = find(x)
    if all(v == t[0] for v in t): return const(t[0], w)
    if x.op == "const": return const(t[x.a], w)
    n = len(t)
    assert n == 1 << x.w
    # plain projection?
    for lo in range(0, x.w - w + 1):
        m = mask(w)
        if all(t[v] == (v >> lo) & m for v in (1, n - 1, n // 2)) and all(t[v] == (v >> lo) & m for v in range(n)):
            return extract(x, lo + w - 1, lo)
    if x.op == "table": return mktable(tuple(t[v] for v in x.a[0]), x.a[1], w)
    if x.op == "ite" and (x.a[1].op == "const" or x.a[2].op == "const"):
        return ite(x.a[0], mktable(t, x.a[1], w), mktable(t, x.a[2], w))
    if x.op == "extract" and x.a[2].w <= MAXB:
        b = x.a[2]
        return mktable(tuple(t[v] for v in func(x, b)), b, w)
    if x.op == "concat":
        # leading or trailing constants: shrink the index
        b = single(x.a)
        if b is not None and any(p.op == "table" or p.op == "extract" for p in x.a):
            f = [0] * (1 << b.w)
            for p in x.a:
                g = func(p, b)
                f = [(u << p.w) | v for u, v in zip(f, g)]
            return mktable(tuple(t[v] for v in f), b, w)
        if x.a[0].op == "const":
            c = x.a[0]; rest = concat(x.a[1:])
            return mktable(tuple(t[(c.a << rest.w) | v] for v in range(1 << rest.w)), rest, w)
    if x.op == "xor" and affine(t):
        z = t[0]
        return bitwise("xor", [mktable(t, y, w) for y in x.a] + ([const(z, w)] if len(x.a) % 2 == 0 else []), w)
    if x.op == "xor" and x.a[-1].op == "const":
        c = x.a[-1].a
        y = bitwise("xor", list(x.a[:-1]), x.w)
        return mktable(tuple(t[v ^ c] for v in range(n)), y, w)
    return mk("table", (intern_tab(t), x), w)

def slices(args, w):
    cuts = {0, w}
    for x in args:
        if x.op == "concat":
            pos = 0
            for p in reversed(x.a):
                pos += p.w; cuts.add(pos)
    return cuts

def const_cuts(v, w, cuts, op):
    """split at runs of zeros/ones of a constant operand"""
    prev = v & 1; c = set()
    for i in range(1, w):
        b = (v >> i) & 1
        if b != prev: c.add(i); prev = b
    # ragged masks of wide words would shred them into bits
    if w <= 32 or all(i % 8 == 0 for i in c): cuts |= c

def support(x):
    """bits of a concat that are not constant zero"""
    pos = 0; bits = 0
    for p in reversed(x.a):
        if p.op == "const": bits |= p.a << pos
        else: bits |= mask(p.w) << pos
        pos += p.w
    return bits

def bitwise(op, args, w):
    flat = []
    for x in args:
        x = find(x)
        # sums of many terms stay what they are, or linear layers would
        # grow without bound over the rounds
        if x.op == op and (w <= 8 or len(x.a) <= FLAT or all(y.op in ("table", "const") for y in x.a)): flat.extend(find(y) for y in x.a)
        else: flat.append(x)
    m = mask(w)
    c = m if op == "and" else 0
    rest = []
    for x in flat:
        if x.op == "const":
            c = c & x.a if op == "and" else (c | x.a if op == "or" else c ^ x.a)
        else: rest.append(x)
    if not rest: return const(c, w)
    if op == "and" and c == 0: return const(0, w)
    if op == "or" and c == m: return const(m, w)
    if op != "and" and len(rest) > 2:
        # words assembled from disjoint parts (shifts of a rotation, bytes) first
        i = 0; n0 = len(rest)
        while i < len(rest):
            if rest[i].op == "concat":
                u = support(rest[i])
                for j in range(i + 1, len(rest)):
                    if rest[j].op == "concat" and not u & support(rest[j]):
                        y = bitwise("or", [rest[i], rest[j]], w)
                        rest = rest[:i] + rest[i + 1:j] + rest[j + 1:] + [y]
                        i = -1
                        break
            i += 1
        if len(rest) < n0:
            return bitwise(op, rest + [const(c, w)], w)
    if op == "xor" and w == 32 and any(x.op != "concat" for x in rest):
        # a shifted word among whole words is a unit
        rest = [mk("box", (x,), w) if x.op == "concat" and len(x.a) == 2 and any(p.op == "const" and p.a == 0 and p.w % 8 for p in x.a)
                else x for x in rest]
    cuts = slices(rest, w)
    if op != "xor" and c not in (0, m): const_cuts(c, w, cuts, op)
    if len(cuts) > 2:
        cs = sorted(cuts)
        parts = []
        for lo, hi in zip(cs, cs[1:]):
            sub = [extract(x, hi - 1, lo) for x in rest]
            cc = (c >> lo) & mask(hi - lo)
            parts.append(bitwise(op, sub + [const(cc, hi - lo)], hi - lo))
        return concat(parts[::-1])
    if op == "xor":
        cnt = {}
        for x in rest: cnt[x] = cnt.get(x, 0) ^ 1
        rest = [x for x, k in cnt.items() if k]
        # combine functions of the same base
        groups = {}
        for x in rest:
            b = bases(x)
            if b: groups.setdefault(b[0], []).append(x)
        for b, l in groups.items():
            if len(l) > 1 and all(y.op != "xor" for y in l):
                f = [0] * (1 << b.w)
                for y in l: f = [u ^ v for u, v in zip(f, func(y, b))]
                rest = [x for x in rest if x not in l]
                y = mktable(tuple(f), b, w)
                if y.op == "const": c ^= y.a
                elif y.op == "xor": return bitwise("xor", rest + [y, const(c, w)], w)
                else: rest.append(y)
    else:
        rest = list(dict.fromkeys(rest))
        # x & ~x, x | ~x
        for x in rest:
            if x.op == "xor" and x.a[-1].op == "const" and x.a[-1].a == m:
                y = bitwise("xor", list(x.a[:-1]), w)
                if y in rest: return const(0 if op == "and" else m, w)
    unit = m if op == "and" else 0
    if not rest: return const(c, w)
    full = rest + ([] if c == unit else [const(c, w)])
    if len(full) == 1: return full[0]
    b = single(full)
    if b is not None and not (len(rest) == 1 and op == "xor" and rest[0] is b):
        f = func(full[0], b)
        for y in full[1:]:
            g = func(y, b)
            f = [u & v if op == "and" else (u | v if op == "or" else u ^ v) for u, v in zip(f, g)]
        return mktable(tuple(f), b, w)
    rest.sort(key=lambda x: x.id)
    if c != unit: rest.append(const(c, w))
    return mk(op, tuple(rest), w)

def neg(x): return bitwise("xor", [x, const(mask(x.w), x.w)], x.w)

def add(terms, c, w):
    """sum of coefficient * node; hashed by its full linear form, kept shallow"""
    m = mask(w); d = {}; sh = {}; c0 = c
    for k, x in terms:
        x = find(x)
        if x.op == "const": c += k * x.a; c0 += k * x.a; continue
        if x.op == "xor" and len(x.a) == 2 and x.a[1].op == "const" and x.a[1].a == m:
            k = -k; c += k; c0 += k; x = x.a[0]
        sh[x] = (sh.get(x, 0) + k) & m
        if x.op == "add":
            c += k * x.lin[1]
            for y, kk in x.lin[0].items():
                y = find(y); d[y] = (d.get(y, 0) + k * kk) & m
        else: d[x] = (d.get(x, 0) + k) & m
    c &= m; c0 &= m
    d = {x: k for x, k in d.items() if k}
    if not d: return const(c, w)
    l = [(k, x) for x, k in sh.items() if k]
    if len(d) <= len(l): l = [(k, x) for x, k in d.items()]; c0 = c
    if len(d) == 1 and c == 0:
        x, k = next(iter(d.items()))
        if k == 1: return x
    b = single([x for k, x in l])
    if b is not None and w <= 64:
        f = [c0] * (1 << b.w)
        for k, x in l: f = [(u + k * v) & m for u, v in zip(f, func(x, b))]
        return mktable(tuple(f), b, w)
    if len(l) == 1 and c0 == 0:
        k = l[0][0]
        if k & (k - 1) == 0:
            s = k.bit_length() - 1
            return concat([extract(l[0][1], w - 1 - s, 0), const(0, s)]) if s else l[0][1]
    # disjoint bits: addition is or
    if c0 == 0 and all(k == 1 and x.op == "concat" for k, x in l):
        used = 0; ok = True
        for k, x in l:
            bits = support(x)
            if used & bits: ok = False; break
            used |= bits
        if ok: return bitwise("or", [x for k, x in l], w)
    l.sort(key=lambda t: t[1].id)
    return mk("add", (tuple(l), c0), w, (d, c))

def mul(x, y):
    x, y = find(x), find(y)
    w = x.w
    if y.op == "const": x, y = y, x
    if x.op == "const":
        return add([(x.a, y)], 0, w)
    b = single([x, y])
    if b is not None:
        f, g = func(x, b), func(y, b)
        return mktable(tuple((u * v) & mask(w) for u, v in zip(f, g)), b, w)
    if x.id > y.id: x, y = y, x
    return mk("mul", (x, y), w)

def eq(x, y):
    x, y = find(x), find(y)
    if x is y: return const(1, 1)
    if x.op == "const" and y.op == "const": return const(int(x.a == y.a), 1)
    if x.w == 1:
        return neg(bitwise("xor", [x, y], 1))
    b = single([x, y])
    if b is not None:
        f, g = func(x, b), func(y, b)
        return mktable(tuple(int(u == v) for u, v in zip(f, g)), b, 1)
    d = bitwise("xor", [x, y], x.w)
    if d.op == "const": return const(int(d.a == 0), 1)
    if x.op == "concat" or y.op == "concat":
        cs = sorted(slices([x, y], x.w)); r = []
        for lo, hi in zip(cs, cs[1:]):
            e = eq(extract(x, hi - 1, lo), extract(y, hi - 1, lo))
            if e.op == "const" and e.a == 0: return e
            r.append(e)
        return bitwise("and", r, 1)
    if x.op == "ite" and y.op == "const" and x.a[1].op == "const" and x.a[2].op == "const":
        return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if y.op == "ite" and x.op == "const": return eq(y, x)
    if x.id > y.id: x, y = y, x
    return mk("eq", (x, y), 1)

def ite(c, x, y):
    c, x, y = find(c), find(x), find(y)
    if c.op == "const": return x if c.a else y
    if x is y: return x
    if c.op == "xor" and c.a[-1].op == "const" and len(c.a) == 2:
        return ite(c.a[0], y, x)
    w = x.w
    if w == 1 and x.op == "const" and y.op == "const":
        return c if x.a else neg(c)
    b = single([c, x, y])
    if b is not None:
        fc, f, g = func(c, b), func(x, b), func(y, b)
        return mktable(tuple(u if k else v for k, u, v in zip(fc, f, g)), b, w)
    if x.op == "ite" and x.a[0] is c: return ite(c, x.a[1], y)
    if y.op == "ite" and y.a[0] is c: return ite(c, x, y.a[2])
    return mk("ite", (c, x, y), w)

def shift(op, x, y):
    x, y = find(x), find(y)
    w = x.w
    if y.op == "const":
        s = min(y.a, w)
        if s == 0: return x
        # a 64-bit word put together from pieces is rotated as a unit
        if w == 64 and s % 8 and x.op == "concat": x = mk("box", (x,), w)
        if op == "shl":
            return const(0, w) if s >= w else concat([extract(x, w - 1 - s, 0), const(0, s)])
        if op == "lshr":
            return const(0, w) if s >= w else concat([const(0, s), extract(x, w - 1, s)])
        t = extract(x, w - 1, w - 1)
        if s >= w: s = w - 1
        return concat([t] * s + [extract(x, w - 1, s)])
    # variable amount: mux over its bits
    bits = max(1, (w - 1).bit_length())
    if w == 1 << bits:
        big = extract(y, y.w - 1, bits) if y.w > bits else None
        r = x
        for i in range(bits):
            r = ite(extract(y, i, i), shift(op, r, const(1 << i, w)), r)
        if big is not None:
            over = const(0, w) if op != "ashr" else shift(op, x, const(w, w))
            r = ite(eq(big, const(0, big.w)), r, over)
        return r
    return mk(op, (x, y), w)

def bounds(x, d=0):
    """unsigned interval containing x"""
    x = find(x); m = mask(x.w)
    if x.op == "const": return x.a, x.a
    if x.op == "table": return min(x.a[0]), max(x.a[0])
    if d < 12:
        if x.op == "concat":
            lo = hi = 0
            for p in x.a:
                l, h = bounds(p, d + 1)
                lo = (lo << p.w) | l; hi = (hi << p.w) | h
            return lo, hi
        if x.op == "add":
            lo = hi = x.a[1]
            for c, y in x.a[0]:
                l, h = bounds(y, d + 1)
                if c >> (x.w - 1): c -= 1 << x.w; l, h = h, l
                lo += c * l; hi += c * h
            if lo >= 0 and hi <= m: return lo, hi
            if hi < 0 and lo >= -(m + 1): return lo + m + 1, hi + m + 1
        if x.op == "ite":
            a, b = bounds(x.a[1], d + 1), bounds(x.a[2], d + 1)
            return min(a[0], b[0]), max(a[1], b[1])
        if x.op == "and": return 0, min(bounds(y, d + 1)[1] for y in x.a)
    return 0, m

def cmp(op, x, y):
    x, y = find(x), find(y)
    if x is y: return const(0, 1)
    (a, b), (c, e) = bounds(x), bounds(y)
    if op == "slt":
        t = 1 << (x.w - 1)
        if b < t and e < t or a >= t and c >= t: pass
        elif b < t and c >= t: return const(0, 1)
        elif a >= t and e < t: return const(1, 1)
        else: a, b, c, e = 0, 2 * t, 0, 2 * t
    if b < c: return const(1, 1)
    if a >= e: return const(0, 1)
    if x.op == "const" and y.op == "const":
        return const(int(x.a < y.a if op == "ult" else sg(x.a, x.w) < sg(y.a, x.w)), 1)
    b = single([x, y])
    if b is not None:
        f, g = func(x, b), func(y, b)
        return mktable(tuple(int(u < v if op == "ult" else sg(u, x.w) < sg(v, x.w)) for u, v in zip(f, g)), b, 1)
    return mk(op, (x, y), 1)

# ---- reading CBMC's file -----------------------------------------------------
tok = re.compile(r'\s+|;[^\n]*|([()])|(\|[^|]*\|)|("(?:[^"]|"")*")|([^\s()|;"]+)')
def parse(text):
    stack = [[]]
    for m in tok.finditer(text):
        g = m.lastindex
        if g is None: continue
        t = m.group(g)
        if t == "(" and g == 1: stack.append([])
        elif t == ")" and g == 1:
            l = stack.pop(); stack[-1].append(l)
            if len(stack) == 1: yield stack[0].pop()
        else: stack[-1].append(t)

class Unsup(Exception): pass
sorts = {}; defs = {}; done = {}; arrays = {}
def sort_w(s):
    if s == "Bool": return 1
    if isinstance(s, list) and s[:2] == ["_", "BitVec"]: return int(s[2])
    return None

def sym(s, env):
    if env and s in env: return env[s]
    if s in done: return done[s]
    if s == "true": return const(1, 1)
    if s == "false": return const(0, 1)
    if s in defs:
        r = ev(defs[s], None); done[s] = r
        return r
    w = sort_w(sorts.get(s))
    if w is None: raise Unsup("symbol " + s)
    r = mk("var", s, w); done[s] = r
    return r

class Arr(object):
    """array value: default element, constant-index contents, or symbolic base"""
    __slots__ = ("name", "d", "default", "w")
    def __init__(self, name, d, default, w): self.name = name; self.d = d; self.default = default; self.w = w

def arr(e, env):
    if isinstance(e, str):
        if env and e in env: return env[e]
        if e in done: return done[e]
        if e in defs:
            r = arr(defs[e], None); done[e] = r
            return r
        s = sorts.get(e)
        if not (isinstance(s, list) and s[0] == "Array"): raise Unsup("array " + e)
        r = Arr(e, dict((k, ev(v, None)) for k, v in arrays.get(e, {}).items()), None, sort_w(s[2]))
        done[e] = r
        return r
    if e[0] == "store":
        a = arr(e[1], env); i = ev(e[2], env); v = ev(e[3], env)
        if i.op != "const": raise Unsup("store")
        d = dict(a.d); d[i.a] = v
        return Arr(a.name, d, a.default, a.w)
    if e[0] == "let":
        return arr(e[2], lets(e[1], env))
    if isinstance(e[0], list) and e[0][0] == "as":
        v = ev(e[1], env)
        return Arr(None, {}, v, v.w)
    if e[0] == "ite":
        c = ev(e[1], env)
        if c.op == "const": return arr(e[2] if c.a else e[3], env)
        a, b = arr(e[2], env), arr(e[3], env)
        if a.default is not None or b.default is not None or set(a.d) == set(b.d):
            d = {}
            for k in set(a.d) | set(b.d):
                x, y = a.d.get(k, a.default), b.d.get(k, b.default)
                if x is None or y is None: raise Unsup("ite array")
                d[k] = ite(c, x, y)
            return Arr(None, d, None, a.w)
    raise Unsup("array " + str(e)[:80])

def select(a, i):
    if i.op == "const":
        v = a.d.get(i.a, a.default)
        if v is None:
            v = mk("var", "%s[%d]" % (a.name, i.a), a.w); a.d[i.a] = v
        return find(v)
    if not a.d: raise Unsup("symbolic select")
    n = max(a.d) + 1
    # drop constant leading part of the index
    lowbits = 0
    x = i
    if x.op == "concat" and x.a[0].op == "const" and x.a[0].a == 0:
        x = concat(x.a[1:])
    b = bases(x)
    size = 1 << x.w if x.w <= 12 else None
    def val(k):
        return a.d.get(k, a.default)
    if b and b[0].w <= MAXB:
        f = func(x, b[0])
        vals = [val(v) for v in f]
        if all(v is not None and v.op == "const" for v in vals):
            return mktable(tuple(v.a for v in vals), b[0], a.w)
    if size is not None and size <= 4096:
        vals = [val(v) for v in range(size)]
        if any(v is None for v in vals):
            # out of range elements do not matter: the bounds check is separate
            vals = [v if v is not None else mk("var", "%s[%d]" % (a.name, k), a.w) for k, v in enumerate(vals)]
        def go(lo, sz, bit):
            if sz == 1: return vals[lo]
            h = sz // 2
            return ite(extract(x, bit - 1, bit - 1), go(lo + h, h, bit - 1), go(lo, h, bit - 1))
        return go(0, size, x.w)
    raise Unsup("select index")

def lets(bs, env):
    env2 = dict(env or {})
    for n, e in bs:
        try: env2[n] = ev(e, env)
        except Unsup: env2[n] = arr(e, env)
    return env2

def ev(e, env):
    if isinstance(e, str):
        if e[0] == "#":
            return const(int(e[2:], 2), len(e) - 2) if e[1] == "b" else const(int(e[2:], 16), 4 * (len(e) - 2))
        return sym(e, env)
    h = e[0]
    if h == "_" and e[1].startswith("bv"): return const(int(e[1][2:]), int(e[2]))
    if h == "let": return ev(e[2], lets(e[1], env))
    if isinstance(h, list):
        if h[0] == "_":
            x = ev(e[1], env)
            if h[1] == "extract": return extract(x, int(h[2]), int(h[3]))
            if h[1] == "zero_extend": return concat([const(0, int(h[2])), x]) if int(h[2]) else x
            if h[1] == "sign_extend":
                k = int(h[2])
                return concat([extract(x, x.w - 1, x.w - 1)] * k + [x]) if k else x
            if h[1] == "rotate_left":
                k = int(h[2]) % x.w
                return concat([extract(x, x.w - 1 - k, 0), extract(x, x.w - 1, x.w - k)]) if k else x
            if h[1] == "rotate_right":
                k = int(h[2]) % x.w
                return concat([extract(x, k - 1, 0), extract(x, x.w - 1, k)]) if k else x
            if h[1] == "repeat": return concat([x] * int(h[2]))
        raise Unsup(str(h))
    if h == "select": return select(arr(e[1], env), ev(e[2], env))
    if h == "ite":
        c = ev(e[1], env)
        if c.op == "const": return ev(e[2] if c.a else e[3], env)
        return ite(c, ev(e[2], env), ev(e[3], env))
    if h == "=>":
        a = ev(e[1], env)
        if a.op == "const" and a.a == 0: return const(1, 1)
        return bitwise("or", [neg(a), ev(e[2], env)], 1)
    if h in ("and", "or"):
        l = []
        for x in e[1:]:
            v = ev(x, env)
            if v.op == "const" and v.a == (0 if h == "and" else 1): return v
            l.append(v)
        return bitwise(h, l, 1)
    a = [ev(x, env) for x in e[1:]]
    w = a[0].w
    if h in ("not", "bvnot"): return neg(a[0])
    if h == "xor": return bitwise("xor", a, 1)
    if h == "=": return eq(a[0], a[1])
    if h == "distinct": return neg(eq(a[0], a[1]))
    if h == "bvxor": return bitwise("xor", a, w)
    if h == "bvand": return bitwise("and", a, w)
    if h == "bvor": return bitwise("or", a, w)
    if h == "bvadd": return add([(1, x) for x in a], 0, w)
    if h == "bvsub": return add([(1, a[0])] + [(-1, x) for x in a[1:]], 0, w)
    if h == "bvneg": return add([(-1, a[0])], 0, w)
    if h == "bvmul":
        r = a[0]
        for x in a[1:]: r = mul(r, x)
        return r
    if h == "concat": return concat(a)
    if h == "bvshl": return shift("shl", *a)
    if h == "bvlshr": return shift("lshr", *a)
    if h == "bvashr": return shift("ashr", *a)
    if h == "bvult": return cmp("ult", a[0], a[1])
    if h == "bvugt": return cmp("ult", a[1], a[0])
    if h == "bvuge": return neg(cmp("ult", a[0], a[1]))
    if h == "bvule": return neg(cmp("ult", a[1], a[0]))
    if h == "bvslt": return cmp("slt", a[0], a[1])
    if h == "bvsgt": return cmp("slt", a[1], a[0])
    if h == "bvsge": return neg(cmp("slt", a[0], a[1]))
    if h == "bvsle": return neg(cmp("slt", a[1], a[0]))
    if h in ("bvsdiv", "bvsrem") and all(bounds(x)[1] < 1 << (w - 1) for x in a): h = "bvu" + h[3:]
    if h in ("bvudiv", "bvurem"):
        if a[0].op == "const" and a[1].op == "const" and a[1].a:
            return const(a[0].a // a[1].a if h == "bvudiv" else a[0].a % a[1].a, w)
        if a[1].op == "const" and a[1].a and a[1].a & (a[1].a - 1) == 0:
            s = a[1].a.bit_length() - 1
            if h == "bvudiv": return shift("lshr", a[0], const(s, w))
            return concat([const(0, w - s), extract(a[0], s - 1, 0)]) if s else const(0, w)
        b = single(a)
        if b is not None and a[1].op == "const" and a[1].a:
            f = func(a[0], b)
            return mktable(tuple(u // a[1].a if h == "bvudiv" else u % a[1].a for u in f), b, w)
        return mk(h[2:], tuple(a), w)
    raise Unsup(h)

def main():
    text = open(sys.argv[1]).read()
    goals = []; ios = []
    for c in parse(text):
        if c[0] == "declare-fun":
            sorts[c[1]] = c[3]
        elif c[0] == "define-fun" and c[2] == []:
            sorts[c[1]] = c[3]; defs[c[1]] = c[4]
        elif c[0] == "assert":
            e = c[1]
            if isinstance(e, list) and e[0] == "=" and isinstance(e[1], str) and e[1] in sorts and e[1] not in defs:
                defs[e[1]] = e[2]; goals.append((e[1], None))
            elif isinstance(e, list) and e[0] == "=" and isinstance(e[1], list) and e[1][0] == "select" and isinstance(e[1][1], str) \
                 and isinstance(e[1][2], list) and e[1][2][0] == "_":
                arrays.setdefault(e[1][1], {})[int(e[1][2][1][2:])] = e[2]
            elif isinstance(e, list) and e[0] == "=" and isinstance(e[2], str) and e[2].startswith("|symex::") and e[2] in sorts and e[2] not in defs:
                defs[e[2]] = e[1]
                if e[2].startswith("|symex::io::"): ios.append(e[2])
            else: goals.append((None, e))
        elif c[0] == "check-sat": break
    verdict = "unknown"; open_goals = []; sat = [True] * K; whole = True
    for name, e in goals:
        if e is None:
            # evaluated in order, so that the graph grows from the inputs up
            try: sym(name, None) if sort_w(sorts[name]) else None
            except Unsup as x: pass
    for name, e in goals:
        if e is None: continue
        if time.time() - T0 > LIMIT: whole = False; break
        try: v = ev(e, None)
        except Unsup as x:
            open_goals.append("unsupported " + str(x)[:100]); whole = False; continue
        if v.op == "const" and v.a == 0: verdict = "unsat"; break
        if v.op != "const":
            open_goals.append(describe(v))
            sat = [p and bool(q) for p, q in zip(sat, v.sim)]
    print("VERDICT %s nodes=%d merges=%d queries=%d solver=%.1f wall=%.1f refuted=%d unknown=%d" % (verdict, stats["nodes"], stats["merges"], stats["queries"], stats["solver_s"], time.time() - T0, stats["refuted"], stats["unknown"]))
    if verdict != "unsat":
        for g in open_goals[-3:]: print("  open:", g)
        # a random vector that satisfies every conjunct is a counterexample
        if whole and open_goals and any(sat) and time.time() - T0 <= LIMIT:
            i = sat.index(True)
            try: print("CEX " + " ".join(str(sym(s, None).sim[i]) for s in ios))
            except Unsup: pass

def describe(v, d=0):
    v = find(v)
    if d > 3 or v.op == "var": return "%s#%d:%d" % (v.op if v.op != "var" else v.a, v.id, v.w)
    if v.op == "const": return "%x:%d" % (v.a, v.w)
    return "(%s:%d %s)" % (v.op, v.w, " ".join(describe(x, d + 1) for x in kids(v)[:5]))

if __name__ == "__main__":
    main()
