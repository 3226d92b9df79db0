"""The instances (harness entry + parameters) of every property, per tier."""
import random
ES = list(range(2, 17))
def W(e): return 2 if e <= 2 else 4 if e <= 4 else 8 if e <= 8 else 16
def PER(e): return 64 // W(e)
def irr(e):  # number of irreducible polynomials
    mu = {1: 1, 2: -1, 3: -1, 4: 0, 5: -1, 6: 1, 7: -1, 8: 0, 9: 0, 10: 1, 11: -1, 12: 0, 13: -1, 14: 1, 15: 1, 16: 0}
    return sum(mu[d] * 2 ** (e // d) for d in range(1, e + 1) if e % d == 0) // e
def K(e, s): return (s * 7919) % irr(e)  # the s-th choice of a minimal polynomial; 0 is the first of the table
def pk(xs, tier, nq, off=0):
    """a spread subset in the quick tier"""
    if tier != "quick" or len(xs) <= nq: return list(xs)
    return [xs[(off + i * len(xs) // nq) % len(xs)] for i in range(nq)]
REG = {}
def reg(p):
    def d(f): REG[p] = f; return f
    return d
ENL = {"P07": ("rowop",), "P08": ("perm", "colswap"), "P09": ("add", "copy", "setui", "cmpz", "iszero"), "P10": ("glue", "submat"), "P11": ("conv",), "P12": ("scal",), "P28": ("rnd",), "P29": ("print",)}
def enlarge(prop, tier, I, r):
    """a fixed draw of the instances again with more rows and (up to a dozen words) more columns"""
    g = random.Random(prop); xs = [i for i in r if i.entry in ENL[prop] and i.params[0] >= 2]; out = []
    for i in (g.choice(xs) for _ in range(160 if tier == "quick" else 1500)):
        p = list(i.params); e, rep = p[0], p[2]; per = 64 if rep else PER(e)
        if i.entry == "rowop" and (p[8] if len(p) > 8 else 0) < 0: p[8] = g.randint(0, p[5] - 1)
        if i.entry == "colswap" and (p[8] < 0 or p[9] < 0): p[8], p[9] = g.randint(0, p[5] - 1), g.randint(0, p[5] - 1)
        if i.entry == "submat" and min(p[8:12]) < 0: continue
        m, n = p[4] + g.choice([0, 0, 1, 2, 5, 9]), p[5] + g.choice([per * g.randint(0, 10), g.randint(1, 6 * per), per - 1])
        if m * n > 6000 or i.entry == "print" and m * n > 600: continue
        if i.entry == "rowop" and p[7] > 2: m = min(m, 4)
        if i.entry == "perm": p[9] = min(p[9], 1)
        if i.entry == "rnd" and m * n > 60: p[7] = 1
        p[4], p[5] = m, n
        if len(p) > 6 and p[6] == 0 and i.entry not in ("setui", "iszero") and m * n * e > 300: p[6] = 7 if m * n * e < 12000 else 8
        out.append(I(i.h, i.entry, *p, **i.opt))
    return out
def get(prop, tier, I):
    s = REG[prop](tier, I); s["instances"] = list(s["instances"])
    if prop in ENL: s["instances"] += enlarge(prop, tier, I, [x for x in s["instances"] if x]); s["bounds"] += "; a draw of larger shapes (up to 16 rows, a dozen words per row)"
    return s

# representative degrees: one per slot width plus full slots
EQ = list(range(2, 17))
def cols(e, rep, tier):
    p = 64 if rep else PER(e)
    q = [1, p - 1, p, p + 1, 2 * p + p // 2]
    if tier == "quick": return q
    return sorted(set(q + [2, p // 2, 2 * p - 1, 2 * p, 2 * p + 1, 3 * p - 1, 3 * p, 4 * p + 1, 5 * p - 1]))

@reg("P06")
def p06(tier, I):
    r = []; Q = tier == "quick"
    for e in (EQ if Q else ES):
        for rep in (0, 1):
            ns = cols(e, rep, tier)
            for x, n in enumerate(pk(ns, tier, 3, e)):
                r.append(I("elem", "rdwr", e, K(e, x), rep, 0, 2 if Q else 3, n, 0))
            r.append(I("elem", "rdwr", e, K(e, 1), rep, 1, 2, PER(e) + 1 if not rep else 5, 0))
            r.append(I("elem", "rdwr", e, K(e, 2), rep, 3, 2, 3, 0))
    return dict(instances=r, bounds="degrees 2..16; up to 3 rows, columns up to 5 words per row; every position; contents, value and addend symbolic; windows at word-aligned offsets")
ROWN = {2: [1, 31, 32, 33, 63, 65, 97], 4: [1, 15, 16, 17, 33, 47, 49], 8: [1, 7, 8, 9, 17, 31, 33, 41], 16: [1, 3, 4, 5, 9, 19, 21, 29, 37, 41]}
@reg("P07")
def p07(tier, I):
    r = []; Q = tier == "quick"
    for e in (EQ if Q else ES):
        ns = ROWN[W(e)]
        for op in (0, 1, 2):
            for t, n in enumerate(ns):
                if Q and (t + op + e) % 2 and n not in (ns[-1],): continue
                fill = 0 if n <= 9 or e <= 4 else 7
                r.append(I("elem", "rowop", e, K(e, t), 0, 0, 2, n, fill, op, -1, -1, t % 2))
        # residue sweep of the last word
        for n in (range(1, 2 * PER(e) + 1) if not Q else range(1 + e % 2, 2 * PER(e) + 1, max(1, PER(e) // 4))):
            for op in (0, 2): r.append(I("elem", "rowop", e, K(e, n), 0, n % 4 if n % 4 != 2 else 0, 2, n, 0 if n < 9 or e < 9 else 7, op, (n * 5) % n if n else 0, -1, 0))
        for op in (0, 1, 4):
            for rep in (0, 1) if op == 4 else (0,):
                for n in (3, PER(e) + 1): r.append(I("elem", "rowop", e, K(e, 6), rep, [0, 1, 3][(op + n) % 3], 2, n, 0, op, -1 if n < 9 else n - 2, -1 if n < 9 else 3 % 2 ** e, 2))
        for v in (0, 1): r.append(I("elem", "rowop", e, 0, 0, 1, 2, PER(e) + 2, 0, 0, -1, v, 0)); r.append(I("elem", "rowop", e, 0, 0, 3, 2, PER(e) + 2, 0, 2, -1, v, 0))
        for op in (3, 4, 5):
            for rep in (0, 1):
                for n in pk(cols(e, rep, "quick"), tier, 2, e + op): r.append(I("elem", "rowop", e, K(e, 1), rep, [0, 1, 3][(op + n) % 3], 3, n, 0, op, 0, 0, 0))
        for n in (1, 17, 64, 65): r.append(I("elem", "rowop", e, K(e, 2), 1, 0 if n != 17 else 1, 2, n, 0 if n < 20 and e < 9 else 7, 2, -1 if n < 20 else 0, -1, 0))
    return dict(instances=r, bounds="degrees 2..16; 2-3 rows; up to 10 words per row with every residue of the last word up to 2 words; every start column; symbolic scalar (and 0, 1) and contents (part concrete on the widest rows)")
@reg("P08")
def p08(tier, I):
    r = []; Q = tier == "quick"
    for e in (EQ if Q else ES):
        for rep in (0, 1):
            p = 64 if rep else PER(e)
            r.append(I("elem", "colswap", e, K(e, 1), rep, 0, 2, 6, 0, 0, -1, -1))
            r.append(I("elem", "colswap", e, K(e, 1), rep, 1, 3, 3, 0, 1, -1, -1))
            for c, d in ((0, p), (p - 1, p), (1, 2 * p - 1), (p + 1, 2 * p), (2 * p, p - 1)):
                for op in (0, 1): r.append(I("elem", "colswap", e, 0, rep, [0, 1, 3][(c + op) % 3], 3, 2 * p + 1, 0, op, c, d))
        for side in (0, 1):
            for tr in (0, 1):
                r.append(I("elem", "perm", e, 0, 0, 0, 4, 4, 0, side, tr, 3))
                r.append(I("elem", "perm", e, 0, 0, 1, 3, 5, 0, side, tr, 2))
                r.append(I("elem", "perm", e, 0, 0, 0, 2 if side else 5, PER(e) + 2 if side else 3, 0, side, tr, 1))
                if not Q or e in (2, 3, 8, 16): r.append(I("elem", "perm", e, 0, 0, 0, 2 if side else 9, 70 if side else 2, 0, side, tr, 1))
    return dict(instances=r, bounds="degrees 2..16; up to 9 rows, 129 columns; all pairs of columns up to 6 and pairs across word boundaries; permutations of length up to 70 with up to 3 freely chosen transpositions, contents symbolic")
@reg("P09")
def p09(tier, I):
    r = []; Q = tier == "quick"
    for e in (EQ if Q else ES):
        for rep in (0, 1):
            ns = cols(e, rep, tier)
            for x, n in enumerate(ns):
                for al in range(5):
                    if Q and (x + al + e) % 2: continue
                    r.append(I("elem", "add", e, K(e, x), rep, [0, 0, 1, 3, 2][(x + al) % 5], 2 + x % 2, n, 0, al))
                for g in (0, 1, 2):
                    if Q and (x + g) % 2: continue
                    r.append(I("elem", "copy", e, K(e, x), rep, [0, 1, 3][(x + g) % 3], 2, n, 0, g))
                if not Q or x % 2 == e % 2: r.append(I("elem", "setui", e, K(e, x), rep, [0, 1, 3][x % 3], 3, min(n, 20), 0, -1))
                r.append(I("elem", "cmpz", e, K(e, x), rep, 0, 2, min(n, 70), 1, 1, *([] if not Q else [5])) if n * e > 6 else I("elem", "cmpz", e, 0, rep, 0, 2, n, 0, 0))
                if not Q or x % 2: r.append(I("elem", "iszero", e, K(e, x), rep, 0, 3, min(n, 70), *([] if not Q else [0, 0, 5])))
            r.append(I("elem", "setui", e, 0, rep, 0, 4, 4, 0, 0)); r.append(I("elem", "setui", e, 0, rep, 0, 7, 3, 0, -1)); r.append(I("elem", "setui", e, 0, rep, 1, 3, 7, 0, 1))
            for how in (2, 3): r.append(I("elem", "cmpz", e, 0, rep, 0, 2, 3, 4, how))
            r.append(I("elem", "cmpz", e, 0, rep, 0, 1, 1, 0, 0)); r.append(I("elem", "cmpz", e, 0, rep, 0, 2, 2, 1, 1)); r.append(I("elem", "iszero", e, 0, rep, 3, 2, 3))
    return dict(instances=r, bounds="degrees 2..16; up to 7 rows, up to 5 words per row; contents and constants symbolic; all alias patterns; windows")
@reg("P10")
def p10(tier, I):
    r = []; Q = tier == "quick"
    for e in (EQ if Q else ES):
        for rep in (0, 1):
            p = 64 if rep else PER(e)
            for op in (0, 1):
                for g in (0, 1):
                    for n, k in ((1, 1), (3, 2), (p - 1, 2), (p, 3), (p + 1, p - 1)):
                        if Q and (n + k + g + e) % 2: continue
                        r.append(I("elem", "glue", e, 0, rep, 0, 2, n, 0 if n < 20 else 7, op, g, k))
                    r.append(I("elem", "glue", e, 0, rep, 3, 2, 3, 0, op, g, 2))
                for g, win in ((0, 1), (2, 0), (2, 1), (4, 1), (3, 2), (1, 1)):
                    for n, k in ((1, 2), (p - 1, 3), (p, 1), (p + 2, p)):
                        if Q and (n + g + win + e) % 2: continue
                        r.append(I("elem", "glue", e, 0, rep, win, 2, n, 0 if n < 20 else 7, op, g, k))
                r += [I("elem", "glue", e, 0, rep, 0, 0, 3, 0, op, g, 2) for g in (0, 1)]
            for g in (0, 1, 2, 4):
                r.append(I("elem", "submat", e, 0, rep, g % 3, 3, 3, 0, g, -1, -1, -1, -1))
                for lc, hc in ((0, p), (1, p + 1), (p - 1, p + 1), (p, 2 * p), (3, 2 * p + 2), (p + 1, 2 * p + 2)):
                    if Q and (lc + hc + g + e) % 2: continue
                    r.append(I("elem", "submat", e, 0, rep, 0, 3, 2 * p + 2, 0 if not rep else 7, g, -1, lc, -1, hc))
            for n in (3, p + 2): r.append(I("elem", "window", e, 0, rep, 0, 3, n, 0 if n < 20 else 7, 0, -1, 0, -1, -1 if n < 30 else n))
            r.append(I("elem", "window", e, 0, rep, 0, 2, 2 * p + 2, 7, 0, 0, 0, -1, 2 * p + 1))
    return dict(instances=r, bounds="degrees 2..16; up to 5 rows, 2-3 words per row; all row ranges, all column ranges of small matrices and ranges across word boundaries")
@reg("P11")
def p11(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        p = PER(e)
        ns = sorted(set([1, p - 1, p, p + 1, 3 * p, 63, 64, 65, 64 + p, 127, 128, 129])) if not Q else sorted(set([1, p - 1 if p > 2 else 3, p + 1, 63 - e % 2, 64, 65, 64 + p + e % 3, 129]))
        if not Q: ns = sorted(set(ns + list(range(1, 2 * p + 2)) + list(range(60, 72)) + [191, 192, 193, 257]))
        for x, n in enumerate(ns):
            for d in (0, 1):
                for g in (0, 1):
                    if Q and (x + g + d) % 2: continue
                    win = [0, 0, 1, 3, 2][(x + e + g) % 5]
                    r.append(I("elem", "conv", e, 0, 0, win, 2, n, 0, d, g, [0, 1, 0, 3, 2][(x + e) % 5]))
    return dict(instances=r, bounds="degrees 2..16; 2 rows, up to 129 columns (thorough 257) covering every residue class; contents symbolic; fresh and dirty destinations, windows on both sides")
@reg("P12")
def p12(tier, I):
    r = []; Q = tier == "quick"
    for e in (EQ if Q else ES):
        p = PER(e)
        for x, n in enumerate([1, p - 1, p, p + 1, 2 * p + 1] + ([] if Q else [3 * p - 1, 4 * p + 1])):
            for d in (0, 1, 2): r.append(I("elem", "scal", e, K(e, x), 0, [0, 1, 3][(x + d) % 3], 2, n, 0 if n < 12 or e < 5 else 3, 0, d, -1, 1))
        for x, n in enumerate([1, 3, 63, 64, 65]):
            for op, d in ((0, 0), (0, 1), (1, 1)): r.append(I("elem", "scal", e, K(e, x), 1, [0, 1, 3][(x + d) % 3], 2, n, 0 if n < 4 else 7, op, d, -1, 0 if n < 4 else 1))
        for v in (0, 1): r.append(I("elem", "scal", e, 0, 0, 0, 3, p + 1, 0, 0, v, v, 1)); r.append(I("elem", "scal", e, 0, 1, 0, 3, 5, 0, v, 1, v, 0))
        if e <= 8:
            for v, d, m in ((3, 1, 512), (2, 0, 256)) if Q else ((3, 1, 512), (2, 0, 256), (1, 1, 64), (0, 1, 128), (1 << (e - 1), 2, 300), (3, 0, 1)):
                n = (1 << 17) // m + (1 if d else 0) * (p // 2 + 1)
                r.append(I("elem", "scal", e, 0, 0, 0, m, n, 8, 0, d, v, 6, time=60))
    return dict(instances=r, bounds="degrees 2..16; up to 4 words per row, scalar symbolic; matrices above 2^17 elements with a concrete scalar and symbolic elements scattered over concrete contents")
@reg("P28")
def p28(tier, I):
    r = []; Q = tier == "quick"
    for e in (EQ if Q else ES):
        for rep in (0, 1):
            p = 64 if rep else PER(e)
            r.append(I("elem", "rnd", e, 0, rep, 0, 2, 3, 0, 0)); r.append(I("elem", "rnd", e, 0, rep, 0, 2, p - 1, 0, 1)); r.append(I("elem", "rnd", e, 0, rep, 0, 2, p + 1, 0, 1))
            r.append(I("elem", "rnd", e, 0, rep, 1, 2, 3, 0, 0)); r.append(I("elem", "rnd", e, 0, rep, 0, 2, 2 * p, 0, 1)); r.append(I("elem", "rnd", e, 0, rep, 3, 3, p + 3, 0, 1))
    return dict(instances=r, bounds="degrees 2..16; up to 3 rows, 2 words per row; every value returned by random()/m4ri_random_word() symbolic")
@reg("P29")
def p29(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        for rep in (0, 1):
            r.append(I("elem", "print", e, 0, rep, 0, 2, 3, 0)); r.append(I("elem", "print", e, 0, rep, 1, 3, 2, 0)); r.append(I("elem", "print", e, 0, rep, 0, 1, 1, 0))
            r.append(I("elem", "print", e, 0, rep, 0, 2, 65 if rep else PER(e) + 1, 0))
    return dict(instances=r, bounds="degrees 2..16; up to 3 rows and 65 columns, contents symbolic; the text written to standard output compared character by character")
# ------------------------------------------------------------------ products
def MUL(I, e, k, rep, win, m, l, fA, alg, n, fB, acc=0, dst=0, cut=0, alias=0, fC=0, **o):
    return I("mul", "mul", e, k, rep, win, m, l, fA, alg, n, fB, acc, dst, cut, alias, fC, **o)
import random
def rmul(I, seed, algs, N, reps=(0,), es=None, big=6000):
    """N drawn instances (fixed seed) of the multiplication harness; algs: (algorithm, accumulate, destination required)"""
    g = random.Random(seed); r = []
    for i in range(N):
        e = (es or ES)[i % len(es or ES)]; rep = g.choice(reps); al, acc, dreq = g.choice([a for a in algs if len(a) < 4 or a[3] == rep][0:] or algs)[:3]
        p = 64 if rep else PER(e)
        def dim(small):
            return g.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11] if small else [p - 1, p, p + 1, 2 * p - 1, 2 * p, 2 * p + 1, 3 * p, 4 * p + 3, 5 * p - 1, g.randint(1, 6 * p)])
        while True:
            m, l, n = dim(g.random() < .7), dim(g.random() < .7), dim(g.random() < .5)
            if 0 < m * l * n * e <= big * 3 and min(m, l, n) > 0: break
        v = m * l * n * (e if e < 9 else 2 * e)
        if v <= 150: fA, fB = 0, 0
        elif m * l * e <= 400 and v < 4000: fA, fB = g.choice([(0, 1), (3, 1), (0, 2)])
        elif l * n * e <= 400 and v < 4000: fA, fB = g.choice([(1, 0), (1, 3), (2, 0)])
        else: fA, fB = g.choice([(7, 1), (5, 1), (1, 7), (1, 5)])
        dst = g.choice([0, 1, 2, 3, 4, 1]) if not (acc or dreq) else g.choice([1, 2, 3, 4])
        r.append(MUL(I, e, K(e, g.randint(0, 50)), rep, g.choice([0, 0, 1, 2, 3]), m, l, fA, al, n, fB, acc, dst, 0, time=60))
    for i in range(N // 6): # coefficients that vanish everywhere
        e = (es or ES)[i % len(es or ES)]; rep = g.choice(reps); al, acc, dreq = g.choice([a for a in algs if len(a) < 4 or a[3] == rep][0:] or algs)[:3]; p = 64 if rep else PER(e)
        m, l, n = g.randint(1, 5), g.randint(1, 5), g.choice([1, 2, 3, 5, p, p + 1]); dst = g.choice([1, 2, 3, 4]) if acc or dreq else g.choice([0, 1, 2, 4])
        f = [g.choice([40, 56]) + g.randint(0, e - 1), g.choice([1, 40 + g.randint(0, e - 1), 56 + g.randint(0, e - 1)])]
        if i % 2: f.reverse()
        r.append(MUL(I, e, K(e, g.randint(0, 50)), rep, g.choice([0, 0, 1, 2, 3]), m, l, f[0], al, n, f[1] if f[0] == 1 or e < 5 else 1 if i % 3 else 6, acc, dst, time=60))
    for i in range(N // 6): # one operand zero but for a single column
        e = (es or ES)[i % len(es or ES)]; rep = g.choice(reps); al, acc, dreq = g.choice([a for a in algs if len(a) < 4 or a[3] == rep][0:] or algs)[:3]; p = 64 if rep else PER(e)
        w = g.choice([p - 1, p, p + 1, 2 * p, 2 * p + 1, 2 * p - 1, 3 * p]); f = g.choice([15, 15, 16, 18]); x = g.choice([1, 2, 3]); y = g.choice([1, 2, 3]); dst = g.choice([1, 2, 3, 4]) if acc or dreq else g.choice([0, 1, 2, 4])
        m, l, n, fA, fB = (x, y, w, 1, f) if i % 3 else (x, w, y, f, 1)
        r.append(MUL(I, e, K(e, g.randint(0, 50)), rep, g.choice([0, 0, 1, 2, 3]), m, l, fA, al, n, fB, acc, dst, 0, 0, 9 if m * n * e < 300 and (acc or i % 2) else 0, time=60))
    return r
@reg("P13")
def p13(tier, I):
    r = []; Q = tier == "quick"
    for e in (EQ if Q else ES):
        p = PER(e)
        sh = [(1, 1, 1), (2, 3, 2), (3, 2, p + 1), (2, p + 1, 3), (p + 1, 2, p)] + ([] if Q else [(5, 4, 2 * p + 1), (4, 5, p - 1), (2, 2 * p + 1, 2)])
        for x, (m, l, n) in enumerate(sh):
            big = m * l * n > 40
            for al in (1, 2):
                for acc in (0, 1):
                    if Q and x > 1 and (x + al + acc + e) % 2: continue
                    d = [0, 1, 2, 1, 4][(x + acc + al + e) % 5]
                    r.append(MUL(I, e, K(e, x), 0, [0, 0, 1, 3, 2][(x + al + e) % 5], m, l, 7 if big and e > 8 else 0, al, n, [0, 1][big], acc, d))
        # table path: enough rows that several rows share one table; concrete rows of B make the table large and exact
        rows = min(2 ** e + 3, 40 if Q else 300)
        for acc in (0, 1): r.append(MUL(I, e, 0, 0, 0, rows, 2, 0 if e < 9 else 3, 2, p + 1, 1, acc, 1))
        r.append(MUL(I, e, K(e, 3), 0, 0, 3, 2, 0, 2, 3, 0, 0, 0, fC=9)); r.append(MUL(I, e, K(e, 3), 0, 0, 2, 2, 0, 1, 3, 0, 1, 1, fC=9))
        r.append(MUL(I, e, 0, 0, 0, 3, 3, 0 if e < 9 else 7, 1 + e % 2, 3, 1, 0, 1, alias=1))
        for f in (4, 6): r.append(MUL(I, e, 0, 0, 0, 3, 3, f, 2, p + 1, 0, 1, 1))
    for e in ES: # the functions behind
        for al in (11, 12, 13):
            for x, (m, l, n) in enumerate([(3, 2, PER(e) + 1), (e + 1, 9, 3)]): r.append(MUL(I, e, K(e, al), 0, [0, 3, 1][(e + al + x) % 3], m, l, 0 if e < 5 and not x else 3 if e < 6 else 5, al, n, 1, 1, [1, 4, 2][(e + al + x) % 3]))
    for e in ES: # eight tables at a time
        p = PER(e)
        for x, (l, n) in enumerate([(8, 3), (11, p + 1)] + ([] if Q else [(16, 2 * p + 1), (25, p - 1)])):
            for acc in (0, 1):
                r.append(MUL(I, e, K(e, x), 0, [0, 1, 2, 3][(x + e + acc) % 4], e + 1 + x, l, 0 if e < 4 else 3 if e < 6 else 5, 2, n, 1 if (x + acc) % 2 or e > 6 else 7, acc, [1, 4, 0, 2, 3][(e + x + acc) % 5] if not acc else [1, 2, 3, 4][(e + x) % 4]))
    r += rmul(I, 13, [(1, 0, 0), (1, 1, 1), (2, 0, 0), (2, 1, 1), (2, 0, 0), (2, 1, 1), (11, 1, 1), (13, 1, 1)], 500 if Q else 4000)
    # a (much) smaller level 3 cache, so that the rows are treated in several giant steps
    for e, m in [(2, 70), (3, 131), (5, 260)] + ([] if Q else [(2, 64), (4, 128), (4, 190), (8, 259), (9, 515), (16, 513)]):
        for acc in (0, 1): r.append(MUL(I, e, 0, 0, 0, m, 9, 10, 2, 3, 1, acc, 1, l2=64, time=100))
    if not Q:
        for e in ES: r += [MUL(I, e, 0, 0, 0, 64, 5, 7, 2, 2 * PER(e) + 3, 1, a, 1) for a in (0, 1)]
    return dict(instances=r, bounds="degrees 2..16, several minimal polynomials; up to 40 (thorough 300) rows, inner dimension up to 1 (thorough 2) words, giant steps over up to 260 (thorough 515) rows with the library configured for a small cache, fresh/dirty/window destinations; both operands symbolic for small shapes, one operand concrete on the larger")
CUT = {2: 48, 4: 24, 8: 12, 16: 6}
@reg("P14")
def p14(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        w = W(e); c = CUT[w]; p = PER(e); b = max((4 * c + 2) // 3, 8)
        for x, (dm, dl, dn) in enumerate([(0, 0, 0), (1, 0, 1), (0, 1, 0), (1, 1, 2), (1, 0, 0), (3, 2, 1)]):
            for acc in (0, 1):
                if Q and e not in EQ and (x + acc + e) % 3: continue
                f = (0, 1) if (x + acc) % 2 else (1, 0)
                if x % 3 == 1: f = (7, 7)
                if w == 16 and f != (7, 7): f = (7, 1) if f[0] == 0 else (1, 7)
                d = [0, 1, 3, 1, 2, 4][(x + acc) % 6]
                r.append(MUL(I, e, K(e, x), 0, [0, 0, 3, 1, 0, 2][(x + acc) % 6], b + dm, b + dl, f[0], 3, b + dn, f[1], acc, d, c))
        # below the cutoff: falls through to the base case
        r.append(MUL(I, e, 0, 0, 0, 3, 2, 0, 3, 4, 1, e % 2, 1, c)); r.append(MUL(I, e, 0, 0, 0, 2, 3, 1, 3, 2, 0, 1 - e % 2, 0, 0))
        if e % 2: r.append(MUL(I, e, 0, 0, 0, b, 2, 7, 3, b, 1, 1, 1, c)); r.append(MUL(I, e, 0, 0, 0, 2, b, 7, 3, b, 1, 0, 1, c))
        r.append(MUL(I, e, 0, 0, 0, b, b, 7, 3, b, 1, e % 2, 1, c, alias=1, time=40))
    for e in ((9, 13, 16) if Q else (9, 10, 11, 12, 13, 14, 15, 16)):
        for acc in (0, 1): r.append(MUL(I, e, 0, 0, 0, 8 + (e + acc) % 2, 8, 0, 3, 8 + acc, 0, acc, acc, 6))
    # two levels of recursion
    deep = [(2, 130, 131, 129, 48), (4, 65, 66, 67, 24), (8, 34, 35, 33, 12), (16, 17, 16, 18, 6)]
    for e, m, l, n, c in deep:
        if Q: r.append(MUL(I, e, 0, 0, 0, m, l, 7 if e < 16 else 5, 3, n, 1 if e == 16 else 7, e % 8 // 4, 1, c, time=60))
        else: r += [MUL(I, e, 0, 0, w, m, l, 7, 3, n, 1, a, 1, c, time=300) for a in (0, 1) for w in (0, 3)]
    # the functions behind, with old values in the destination, two levels with remainders on both
    for e, m, l, n, c in [(2, 193, 192, 195, 48), (4, 97, 96, 99, 24), (3, 48, 47, 49, 24), (8, 49, 48, 50, 12), (16, 25, 24, 26, 6), (7, 17, 16, 18, 12), (2, 65, 65, 66, 48), (11, 9, 8, 11, 6), (13, 13, 12, 14, 6)]:
        for acc in (0, 1): r.append(MUL(I, e, K(e, c), 0, 0, m, l, 7, 10, n, 1, acc, 1, c, time=60)); r.append(MUL(I, e, K(e, 3), 0, 3, m, l, 1, 10, n, 7, acc, 4, c, time=60)) if e != 16 or not Q else None
    if not Q:
        for e in ES:
            c = CUT[W(e)]; b = (4 * c + 2) // 3
            for x in range(8): r.append(MUL(I, e, K(e, x), 0, 0, b + x, b + (x * 3) % 5, 7, 3, b + (x * 5) % 7, 1, x % 2, 1 + x % 3, c)); r.append(MUL(I, e, K(e, x), 0, 0, b + x, b + 7 - x, 1, 3, b + x // 2, 7, x % 2, 1, c))
            for cc in (c + 1, 2 * c, 3 * c): r.append(MUL(I, e, 0, 0, 0, 4 * cc // 3 + 2, 4 * cc // 3 + 3, 7, 3, 4 * cc // 3 + 2, 1, cc % 2, 1, cc))
    return dict(instances=r, bounds="degrees 2..16; the smallest cutoffs that recurse, one and two levels of recursion, all parities of the dimensions, up to 130 rows/columns; one operand symbolic (wholly or on 1/16 of the positions), the other concrete, both symbolic for 8x8 over the large fields", outside="both operands fully symbolic for degrees up to 8 at recursing sizes")
@reg("P15")
def p15(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        p = PER(e)
        sh = [(1, 1, 1), (2, 2, 2), (2, 1, 65), (1, 65, 2), (65, 2, 1), (3, 2, p + 1)]
        for x, (m, l, n) in enumerate(sh):
            for rep, al, acc in ((1, 4, 0), (1, 4, 1), (1, 6, 1), (1, 7, 1), (0, 4, 0), (0, 4, 1)):
                if Q and x > 1 and (x + acc + al + rep + e) % 3: continue
                big = m * l * n > 12
                d = [1, 2, 0, 4, 3][(x + acc + e) % 5]
                if rep == 1 and acc and d == 0: d = 1
                if rep == 0 and acc and d == 0: d = 1
                if rep and l == 65 and d == 3: d = 1
                r.append(MUL(I, e, K(e, x), rep, [0, 0, 1, 3, 2][(x + al + e) % 5], m, l, 7 if big and m * l > 20 else 0, al, n, 0 if not big else [1, 7][e % 2] if l * n > 20 else 0, acc, d))
        r.append(MUL(I, e, 0, 1, 0, 2, 2, 0 if e < 9 else 7, 4, 2, 1, e % 2, 1, alias=1)); r.append(MUL(I, e, 0, 0, 0, 2, 2, 0 if e < 9 else 7, 4, 2, 1, 1 - e % 2, 1, alias=1))
        r.append(MUL(I, e, K(e, 5), 1, 0, 2, 2, 0, 4, 2, 0, 1, 1, fC=9))
    if not Q:
        for e in ES: r += [MUL(I, e, K(e, 9), 1, 0, 9, 10, 7, al, 70, 1, 1, 1) for al in (4, 6, 7)] + [MUL(I, e, K(e, 2), rep, 0, 3, 3, 0, 4, 3, 0, a, 1) for rep in (0, 1) for a in (0, 1)]
    r += rmul(I, 15, [(4, 0, 0, 0), (4, 1, 1, 0), (14, 1, 1, 0), (4, 0, 0, 1), (4, 1, 1, 1), (6, 1, 1, 1), (7, 1, 1, 1)], 400 if Q else 3000, reps=(0, 1, 1))
    return dict(instances=r, bounds="every degree 2..16, several minimal polynomials; shapes up to 65 rows/columns/inner dimension; both operands symbolic for small shapes")
@reg("P16")
def p16(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        for x, (m, l, n) in enumerate([(1, 1, 1), (2, 2, 2), (1, 2, 65), (2, 65, 1), (65, 1, 2)]):
            for rep, al, acc in ((1, 5, 0), (1, 5, 1), (1, 8, 0), (1, 9, 1), (1, 9, 0), (1, 8, 1), (0, 5, 0), (0, 5, 1)):
                if Q and x > 0 and (x + acc + al + rep + e) % 4: continue
                big = m * l * n > 12; d = [1, 2, 0, 4, 3][(x + acc + e) % 5]
                if acc and d == 0: d = 1
                if l == 65 and d == 3: d = 1
                r.append(MUL(I, e, K(e, x), rep, [0, 0, 1, 3, 2][(x + al + e) % 5], m, l, 7 if big and m * l > 20 else 0, al, n, 0 if l * n < 20 else 1, acc, d))
        r.append(MUL(I, e, K(e, 5), 1, 0, 2, 2, 0, 5, 2, 0, 1, 1, fC=9)); r.append(MUL(I, e, 0, 1, 0, 2, 2, 7, 8, 2, 1, 0, 1, alias=1))
    L = range(1, 17)
    for f in L:
        for g in L:
            if Q and f != g and (f * 5 + g * 3) % 7 > 1: continue
            for dj in (0, 1):
                if Q and (f + g + dj) % 2 and f != g: continue
                r.append(I("mul", "blmap", 0, 0, f, g, dj, 0, 1, 1, 1, 0, 0, 0, (f + g) % 2))
    for f in (range(2, 17, 3) if Q else L):
        for ch in (1, 2, 4, 3):
            for dj in (0, 1):
                if Q and (f + ch + dj) % 2: continue
                for g in ([f] if Q else [f, max(1, f - 1), max(1, f - 5)]):
                    if ch in (2, 4) and f + g - 1 > 16: continue
                    if ch == 1 and f == 16 and g == 16: pass
                    r.append(I("mul", "blmap", 0, 0, f, g, dj, ch, 1, 1, 1, f % 3, 2, 1, f % 2, time=60))
    for e in ES:
        for ch in (0, 3):
            r.append(I("mul", "blmap", e, K(e, ch + 1), e, e, (e + ch) % 2, ch, 2, 1, 2, 1, 2, 1, 1))
    r += rmul(I, 16, [(5, 0, 0, 0), (5, 1, 1, 0), (15, 1, 1, 0), (5, 0, 0, 1), (5, 1, 1, 1), (8, 0, 0, 1), (8, 1, 1, 1), (9, 0, 0, 1), (9, 1, 1, 1)], 300 if Q else 3000, reps=(0, 1, 1))
    return dict(instances=r, bounds="every degree 2..16; bilinear maps for polynomials of 1..16 coefficients (quick: a third of the pairs), moduli chosen by the library and by hand, matrix and straight-line evaluation; matrices up to 65 rows/columns")
@reg("P17")
def p17(tier, I):
    r = []; Q = tier == "quick"
    for me in (0, 4):
        for a in range(1, 17):
            for b in range(1, 17):
                m, l, n = [(1, 1, 1), (2, 1, 2), (1, 2, 1)][(a + b) % 3]
                r.append(I("mul", "polymul", a, b, me, m, l, n, [3, 0, 2, 1][(a + 2 * b) % 4], (a + b) % 3 if me == 0 and (a + 2 * b) % 4 != 1 else 0))
    for a in range(1, 17):
        r.append(I("mul", "polymul", a, a, 1, 1 + a % 2, 1, 2 - a % 2, [3, 0, 2, 1][a % 4], 0)); r.append(I("mul", "polymul", a, a, 1, 2, 2, 1, 3, 0)) 
        r.append(I("mul", "polymul", a, a, 5, 1, 1 + a % 2, 1, 3, 0)) if a <= 16 else 0
        r.append(I("mul", "polymul", a, a, 1, 1, 1, 65 if a < 6 else 1, 2, 0))
        for b in range(1, 17):
            if a != b and a + b <= (20 if Q else 32): r.append(I("mul", "polymul", a, b, 5, 1, 1, 1, 3, 0))
        for me, b in [(me, b) for me in (2, 3) for b in range(1, 17) if not Q or (a + b + me) % 2]: r.append(I("mul", "polymul", a, b, me, 1, 1, 2, [1, 3, 2][(a + b + me) % 3], 0))
    for d in range(1, 17):
        for dc, off in ((d, 0), (d + 3, 0), (d + 4, 2), (d + 2, 2)): r.append(I("mul", "polyadd", d, dc, 2, 2 if d % 2 else 65, off))
        for nd in (1, d, d + 1, d + 7, max(1, d - 1)): r.append(I("mul", "polydepth", d, nd, 1 + d % 2, 3))
    for e in ES:
        for nd in sorted({e, min(16, e + 1), 16}): r.append(I("mul", "slicedepth", e, K(e, nd), nd, 1 + e % 2, 3 if nd % 2 else 65))
    return dict(instances=r, bounds="polynomials of 1..16 coefficients , matrices up to 2x65; all coefficients symbolic")
@reg("P18")
def p18(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        p = PER(e)
        for rep in (0, 1):
            q = 64 if rep else p
            for x, (m, l, n) in enumerate([(1, 1, 1), (2, 2, 2), (3, 2, q + 1), (2, q + 1, 2), (q + 1, 1, 3)]):
                for acc in (0, 1):
                    for al in ((0, 6) if not rep else (0,)):
                        if Q and x > 1 and (x + acc + al + e + rep) % 2: continue
                        big = m * l * n > 30; d = [0, 1, 2, 1, 4][(x + acc + al + e) % 5]
                        if (acc and rep or al == 6) and d == 0: d = 1
                        if x == 3 and rep and d == 2: d = 1
                        r.append(MUL(I, e, K(e, x), rep, [0, 0, 1, 3, 2][(x + al + e) % 5], m, l, 7 if big and e > 4 else 0, al, n, 0 if not big or (e < 5 and not rep) else 1, acc, d))
            r.append(MUL(I, e, 0, rep, 0, 2, 2, 0 if e < 5 else 7, 0, 2, 0, e % 2, 1, alias=1)); r.append(MUL(I, e, K(e, 5), rep, 0, 2, 2, 0, 0, 2, 0, 1, 1, fC=9))
    # sizes at which the dispatch changes: beyond the table threshold in rows and beyond the Strassen cutoff in columns
    for e, m, l, n in ([(2, 6, 3, 5), (3, 12, 3, 5), (4, 20, 2, 3), (5, 40, 1, 3)] if Q else [(e, 2 ** e + 3, 2, 3) for e in range(2, 10)]):
        for acc in (0, 1): r.append(MUL(I, e, 0, 0, 0, m, l, 0 if e < 5 else 3, 0, n, 1, acc, 1))
    # 512 and more in every dimension: sparse operands, so that the size does not matter
    for e, m, l, n in ([(2, 512, 512, 512), (3, 513, 515, 512), (4, 512, 512, 511), (2, 600, 511, 513)] if Q else [(e, 512 + e % 3, 512 + e % 5, 512 + e % 2) for e in ES] + [(4, 511, 512, 512), (8, 512, 511, 512)]):
        for acc in (0, 1):
            for al in (0, 6):
                if not Q or al == 0 or e == 2: r.append(MUL(I, e, 0, 0, 0, m, l, 11, al, n, 12, acc, 1, fC=13 if acc or al == 0 else 4, time=200))
    r += rmul(I, 18, [(0, 0, 0), (0, 1, 1), (6, 1, 1, 0), (0, 0, 0, 1), (0, 1, 1, 1)], 400 if Q else 3000, reps=(0, 1))
    for e in ES: # no rows
        for rep in (0, 1):
            for acc in (0, 1): r.append(MUL(I, e, 0, rep, 0, 0, 3, 0, [0, 0, 4, 5][(e + acc) % 4], 4 + 61 * (e % 2), 0, acc, 1 if acc else e % 2))
    return dict(instances=r, bounds="every degree 2..16; shapes up to 65, and sparse matrices of 511..600 rows and columns (dispatch to Karatsuba), fresh, dirty and window destinations, squaring through one object, all of A, B (small shapes) and C symbolic")
# ------------------------------------------------------------------ fields
@reg("P01")
def p01(tier, I):
    r = []
    for e in reversed(ES):
        n = irr(e); step = {16: 24, 15: 40, 14: 60}.get(e, 60)
        r += [I("field", "fmul", e, k, step, time=200, noval=k > 0) for k in range(0, n, step)]
    return dict(instances=r, bounds="both operands symbolic; every one of the 8207 fields the library can be asked for (all irreducible polynomials of degree 2..16)")
@reg("P02")
def p02(tier, I):
    r = []; Q = tier == "quick"
    for e in reversed(ES):
        if e <= 6:
            for x in range(min(irr(e), 9)): r.append(I("field", "finv", e, x, 0, 0, 0, x % 2))
        else:
            full = (4 if e <= 8 else 2 if e <= 12 else 1) if Q else 12 if e <= 12 else 4
            for x in range(full): r += [I("field", "finv", e, K(e, x), 3, h, min(128, 2 ** (e - 3) - h), x % 2, time=400, noval=h > 0) for h in range(0, 2 ** (e - 3), 128)]
            for x in range(full, full + (12 if Q else 60)): r.append(I("field", "finv", e, K(e, x), 3, (7919 * x * e) % 2 ** (e - 3), 4, x % 2, time=200, noval=True))
    for db in range(5):
        for da in range(5): r.append(I("field", "xinv", db, da, max(da, db, 1), 0, 0))
    for db in list(range(3, 18)) + [20, 25, 31]:
        for k, da in enumerate(sorted({db - 1, db, min(31, db + 4), 16, db // 2})):
            for x in range(2 if Q else 12):
                n = max(1, 2 ** max(0, da - 3)); r.append(I("field", "xinv", db, da, max(da, db) + (x & 1), min(3, da), 5 * x + k, (7919 * (x + 1) * (da + 3)) % n, min(n, 24), noval=x > 0))
    return dict(instances=r, bounds="every non-zero element of at least one field of every degree 2..16 (several for the smaller degrees), by symbolic low bits and a fork on the upper bits; slices of the elements of a dozen further fields per degree; inverses modulo composite polynomials: all pairs of degree up to 4, slices up to degree 31", outside="most elements of the other fields of degree 7 and larger")
@reg("P03")
def p03(tier, I):
    r = []; Q = tier == "quick"
    r += [I("field", "xmul", d) for d in range(1, 33)]; r += [I("field", "xdeg", n) for n in ((1, 2, 17, 64) if Q else range(1, 65))]
    for a in range(1, 18):
        for b in range(1, 18):
            if Q and (a + 3 * b) % 5: continue
            r.append(I("field", "xdiv", a, b, 0, 0))
    for s, (a, b) in enumerate([(64, 17), (64, 40), (64, 3), (64, 64), (64, 1), (33, 17), (48, 33), (31, 17)] * (1 if Q else 5)): r.append(I("field", "xdiv", a, b, 1, s)); r.append(I("field", "xdiv", a, min(b, 24), 2, s, time=60))
    return dict(instances=r, bounds="products of every length 1..32; degree of every 64-bit word; division with dividend and divisor of up to 17 symbolic coefficients each; 64-bit dividends by concrete divisors and concrete 64-bit dividends by symbolic divisors of up to 24 coefficients")
@reg("P04")
def p04(tier, I):
    r = [I("field", "irrtab", n, i) for n in range(1, 17) for i in range(0 if n == 1 else 1, max(1, n // 2 + 1))]
    return dict(instances=r, bounds="every entry of every degree 1..16; all factor pairs (a, b) of each pair of degrees symbolic; completeness by distinctness and the number of irreducible polynomials")
@reg("P05")
def p05(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        for x in range(1 if Q else 3):
            if e <= 8: r.append(I("field", "t16", e, K(e, x), -1, time=100, noval=True))
        m = (1 << e) - 1
        for x, v in enumerate([0, 1, 2, m, 1 << (e - 1), (7919 * e) & m, (104729 + 31 * e) & m] + ([] if Q else [(k * 7919 + 13) & m for k in range(40)])): r.append(I("field", "t16", e, K(e, x), v))
    return dict(instances=r, bounds="scalar symbolic for degrees up to 8 with every 16-bit word of packed elements; for larger degrees concrete scalars with all packed elements symbolic")
NM = ["--nomerge"]
def shapes(r_, m, n): return [x for x in r_ if 0 <= x <= min(m, n)]
@reg("P19")
def p19(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        p = PER(e)
        for t, (n, c, win, reuse) in enumerate([(1, 0, 0, 0), (p, -1, 0, 0), (p + 1, -1, 1, 1), (2 * p + 1, p, 3, 1), (2 * p + 3, p - 1, 2, 2), (3 * p, 2 * p + 1, 0, 1), (11 * p, 9 * p, 0, 1), (12 * p - 1, 10 * p + 2, 0, 2), *((h * p + 3, h * p + (h > 1), h % 3, 3) for h in range(1, 10 if e < 9 else 1)), *(((e % 9 + 1) * p + 2, (e % 9 + 1) * p, 0, 3),) * (e > 8)]):
            if e > 10 and Q and (t % 4 != e % 4): continue
            if e > 8 and c == -1: c = p // 2
            r.append(I("ech", "njt", e, K(e, t), 0, win, 3, n, 0 if n <= 3 * p else 3, c, reuse, time=100, noval=e > 12))
        for k in range(1, 7):
            for t, (c, n) in enumerate([(0, p + 2), (p - 1, 2 * p + 1), (p - k if p > k else 1, 2 * p), (p + 1, 3 * p - 1)]):
                if c + k > n or (e > 10 and Q and (k + t) % 3): continue
                sym = e <= 5 if k < 4 else e <= 4
                r.append(I("ech", "prow", e, K(e, k + t), 0, [0, 1, 3][(k + t) % 3], 4, n, 3 if sym else 1, k, c, [0, 1, 0, 2][t], [4, 3, 0, 4][t], 1 if sym else 7, time=100, noval=e > 12))
    return dict(instances=r, bounds="every degree; rows of up to 12 words with symbolic entries, every start column on short rows; for degrees above 8 the multiples by every power of x and every 97th scalar; all six row processing functions, looked-up entries symbolic for degrees up to 4 or 5 and concrete above")
def echfam(e, p, Q, t):
    """(m, n, F, rank, seed, kw): structured inputs"""
    o = []
    o += [(3, 5, 1, 2, 2, {}), (2, p + 1, 1, 2, 1, {}), (5, 4, 1, 3, 6, {}), (6, p + 3, 1, 4, 3, {}), (4, 2 * p + 1, 1, 4, 0, {}), (1, p, 1, 1, 2, {}), (p + 2 if e > 2 else 9, 3, 1, 2, 5, {}), (4, 6, 3, 4, 2, {}), (3, 3, 4, 3, 7, {}), (4, 4, 1, 0, 0, {})]
    o += [(9, p + 2, 1, 8, 6, {}), (13, 14, 1, 12, 2, {}), (8, 12, 6, 8, 6, {}), (7, 9, 2, 5, 4, {})]
    if e > 12 and p == 64: o = [(m, n, 2 if F == 1 and n >= 64 else F, *x) for m, n, F, *x in o]
    return o
def slim(e, F): return 2 if F == 1 and e > 12 else F
def smallsym(e):
    """fully symbolic small matrices: (m, n)"""
    return {2: [(1, 3), (2, 2), (3, 1), (2, 3)], 3: [(1, 2), (2, 1), (2, 2)], 4: [(1, 2), (2, 1)], 5: [(1, 1), (1, 2)]}.get(e, [(1, 1)] if e <= 8 else [])
def addsym(r, I, ent, e, rep, alg, par, t, Q):
    for x, (m, n) in enumerate(smallsym(e)):
        if Q and (x + t) % 2 and len(smallsym(e)) > 2: continue
        r.append(I("ech", ent, e, K(e, t), rep, 0, m, n, 0, alg, par, 0, 0, args=NM, time=120))
    if e <= (6 if Q else 8):
        for s, (m, n, rk) in enumerate([(3, 4, 2), (4, 3, 3), (2, 6, 2), (3, 3, 3)]):
            if not Q or (s + t + e) % 4 == 0: r.append(I("ech", ent, e, K(e, s), rep, 0, m, n, 5, alg, par, rk, s + 4 * (t % 2), args=NM, time=120))
def scaled(I, r, seed, N):
    """a draw of the structured instances with a matrix over GF(2) times a constant instead"""
    g = random.Random(seed); xs = [i for i in r if i.params[6] in (1, 2, 3) and i.params[4] > 1]; out = []
    for i in g.sample(xs, min(N, len(xs))): p = list(i.params); p[6] = 8; out.append(I(i.h, i.entry, *p, **i.opt))
    return out
@reg("P20")
def p20(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        p = PER(e)
        for alg in (0, 1, 2, 3, 4, 5):
            rep = 1 if alg >= 4 else 0
            for full in (0, 1):
                for t, (m, n, F, rk, seed, kw) in enumerate(echfam(e, 64 if rep else p, Q, alg)):
                    if Q and (t + alg * 3 + e + full) % 3: continue
                    if alg == 5 and t % 4: continue
                    if F == 3 and full and e > 3: F = 1
                    r.append(I("ech", "ech", e, K(e, t), rep, [0, 1, 0, 3, 0, 2][(t + alg + e) % 6], m, n, F, alg, full, rk, seed + 4 * (t % 2 ^ full), noval=e > 10, time=60, **kw))
                if alg < 5: addsym(r, I, "ech", e, rep, alg, full, alg + full, Q)
        # recursion of the asymptotically fast variants at small sizes
        for alg in (2, 3, 4):
            rep = 1 if alg >= 4 else 0
            for full in (0, 1):
                for t, (m, n, F, rk, seed) in enumerate([(20, 70, 1, 12, 2), (20, 129, 2, 18, 6), (9, 200, 2, 9, 0), (40, 66, 2, 10, 1), (70, 70, 2, 66, 6), (12, 65, 1, 5, 3), (66, 140, 2, 64, 2), (24, 192, 2, 20, 5), (5, 400, 2, 4, 6)]):
                    if Q and (t + alg + full + e) % 3: continue
                    if e > 10 and m > 40: continue
                    r.append(I("ech", "ech", e, K(e, t), rep, [0, 1, 0, 3][(t + alg) % 4], m, n, slim(e, F), alg, full, rk, seed, l2=64, time=100, noval=True))
    r += scaled(I, r, 20, 160 if Q else 1280)
    return dict(instances=r, bounds="every degree, all variants, full and triangular; (a) every matrix of up to 2x3 (degree 2), 2x2 (3), 1x2/2x1 (4) and small concrete matrices with two symbolic entries; (b) matrices up to 13x14, 6x3 words and rank 0..12 of prescribed pivot columns with all other entries of the echelon form symbolic; (c) up to 70x400 with the library configured for a 64 byte cache, so that PLE recursion happens", outside="pivots that depend on symbolic data at large sizes; sizes above 400")
@reg("P21")
def p21(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        p = PER(e)
        for alg in (0, 1, 2, 3, 4, 5):
            rep = alg in (3, 5)
            for t, (m, n, F, rk, seed, kw) in enumerate(echfam(e, 64 if rep else p, Q, alg)):
                if Q and (t + alg + e) % 2: continue
                r.append(I("ech", "ple", e, K(e, t), int(rep), [0, 1, 0, 3, 0, 2][(t + alg + e) % 6], m, n, F, alg, [0, 1, 64][t % 3], rk, seed + 4 * (t % 2), noval=e > 10, time=60, **kw))
            if alg < 4: addsym(r, I, "ple", e, int(rep), alg, 1, alg, Q)
        for alg in (2, 3):
            for t, (m, n, F, rk, seed, cut) in enumerate([(20, 70, 1, 12, 2, 1), (20, 129, 2, 18, 6, 64), (9, 200, 2, 9, 0, 1), (40, 66, 2, 10, 1, 16), (70, 70, 2, 66, 6, 1), (12, 65, 1, 5, 3, 1), (66, 140, 2, 64, 2, 1000), (24, 192, 2, 20, 5, 1), (5, 400, 2, 4, 6, 1), (3, 65, 1, 3, 1, 1), (4, 130, 1, 0, 0, 1), (2, 129, 1, 1, 1, 1)]):
                if Q and (t + alg + e) % 2: continue
                if e > 10 and m > 40: continue
                r.append(I("ech", "ple", e, K(e, t), int(alg == 3), [0, 1, 0, 3][(t + alg) % 4], m, n, slim(e, F), alg, cut, rk, seed, time=100, noval=True))
    r += scaled(I, r, 21, 160 if Q else 1280)
    return dict(instances=r, bounds="as P20: every 1x1..2x3 matrix of small fields, structured matrices up to 13x14 with symbolic non-pivot entries, recursion with cutoffs 1..1000 up to 70x400", outside="pivots that depend on symbolic data at large sizes")
@reg("P22")
def p22(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        for alg in (6, 7):
            for t, (m, n, F, rk, seed, kw) in enumerate(echfam(e, 64, Q, alg)):
                if Q and (t + alg + e) % 2: continue
                r.append(I("ech", "ple", e, K(e, t), 1, [0, 1, 0, 3, 0, 2][(t + alg + e) % 6], m, n, F, alg, [0, 1, 64][t % 3], rk, seed + 4 * (t % 2), noval=e > 10, time=60, **kw))
        addsym(r, I, "ple", e, 1, 6, 1, e, Q)
        for t, (m, n, F, rk, seed, cut) in enumerate([(20, 70, 1, 12, 2, 1), (20, 129, 2, 18, 6, 64), (9, 200, 2, 9, 0, 1), (40, 66, 2, 10, 1, 16), (70, 70, 2, 66, 6, 1), (12, 65, 1, 5, 3, 1), (66, 140, 2, 64, 2, 1000), (24, 192, 2, 20, 5, 1), (5, 400, 2, 4, 6, 1), (3, 65, 1, 3, 1, 1), (4, 130, 1, 0, 0, 1), (2, 129, 1, 1, 1, 1)]):
            if Q and (t + e) % 2: continue
            if e > 10 and m > 40: continue
            r.append(I("ech", "ple", e, K(e, t), 1, [0, 1, 0, 3][t % 4], m, n, slim(e, F), 6, cut, rk, seed, time=100, noval=True))
    r += scaled(I, r, 22, 90 if Q else 720)
    return dict(instances=r, bounds="as P21", outside="pivots that depend on symbolic data at large sizes")
@reg("P23")
def p23(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        p = PER(e)
        for rep in (0, 1):
            q = 64 if rep else p
            for up in (0, 1):
                for alg in (0, 1, 2, 3):
                    for t, (n, nb, fT, fB, dg) in enumerate([(1, 3, 0, 0, 1), (2, 2, 0, 0, 0), (3, q + 1, 1, 0, 0), (4, 3, 7, 0, 0), (5, 2 * q - 1, 1, 0, 0), (3, 3, 0, 1, 0), (9, 4, 2, 0, 0), (2, 1, 0, 1, 1), (14, q, 1, 7, 0), (0, 3, 1, 0, 0)]):
                        if Q and (t + alg + up + rep + e) % 3: continue
                        if dg and e > (4 if alg else 5): dg = 0
                        if fT in (0, 7) and e > 8 and alg: fT = 1
                        if n > 4 and e > 12 and Q and t % 2: continue
                        r.append(I("ech", "trsm", e, K(e, t), rep, [0, 1, 2, 3][(t + e + alg) % 4], n, nb, up, alg, [2, 1, 0, 512][t % 4] if n > 64 else 64, fT, fB, dg, [0, 1, 0, 3][(t + alg + up) % 4], t % 2, args=NM if dg else [], time=60, noval=e > 10))
                # more unknowns than a word has bits, or than the field has elements
                for alg in (0, 1, 3):
                    for t, (n, nb) in enumerate([(66, 3), (q + 3, q + 1), (2 * q, 2), (35, 5)]):
                        if Q and (t + alg + up + e) % 4: continue
                        if n * n * (e if e < 9 else 3 * e) > 70 * 70 * 16 or e > 10 and n > 40 and Q: continue
                        r.append(I("ech", "trsm", e, K(e, t + 5), rep, [0, 1, 2, 3][(t + up) % 4], n, nb, up, alg, 64, 1 + t % 2, 7, 0, [0, 1, 0, 3][(t + e) % 4], (t + alg) % 2, time=60, noval=True))
                # recursion
                for t, (n, nb, cut, fB) in enumerate([(70, 5, 3, 7), (65, 3, 2, 0), (129, 2, 1, 7), (130, 70, 64, 8), (20, 30, 8, 7), (64, 9, 8, 7), (3, 4, 1, 0), (33, 40, 32, 8), (200, 4, 2, 8)]):
                    if Q and (t + up + rep + e) % 3: continue
                    if e > 10 and n > 70: continue
                    if e > 10 and n == 65: fB = 7
                    r.append(I("ech", "trsm", e, K(e, t), rep, [0, 3, 1, 2][(t + e) % 4], n, nb, up, 2, cut, 2, fB, 0, [0, 0, 1, 3][(t + rep) % 4], t % 2, time=100, noval=True))
    # recursion with coefficients that vanish everywhere
    g = random.Random(23)
    for i in range(90 if Q else 600):
        e = ES[i % 15]; n, nb, cut = g.choice([(70, 5, 3), (65, 3, 2), (129, 2, 1), (130, 70, 64), (20, 30, 8), (64, 9, 8), (33, 40, 32), (100, 4, 2)])
        if e > 8: n, nb, cut = g.choice([(66, 4, 3), (65, 3, 2)])
        c, up = g.randint(0, e - 1), g.randint(0, 1); fT, fB, dg = g.choice([(96, 56 + c, 2), (96, 56 + c, 2), (80 + c, 40 + c, 2), (80 + c, 40, 0), (2, 56 + c, 0), (80, 7, 2)])
        r.append(I("ech", "trsm", e, K(e, i), i // 15 % 2, [0, 3, 1, 2][i % 4], n, nb, up, 2, cut, fT, fB, dg, [0, 0, 1, 3][i % 4], i % 2, time=100, noval=True))
    # beyond the default cutoff (512 unknowns and columns), sparse triangles
    for e in ES:
        for rep in (0, 1):
            for up in (0, 1):
                if Q and (e + rep + up) % 2 or e > 12: continue
                if e < 9 or not Q: r.append(I("ech", "trsm", e, K(e, 3), rep, 0, 513 + e % 7, 513 + e % 3, up, 3, 0, 14, 8, 0, 0, up, time=200, noval=True))
                r.append(I("ech", "trsm", e, K(e, 4), rep, [0, 3][e % 2], 260 + e, 130, up, 2, 100, 14, 8, 0, [0, 1][e % 2], 1 - up, time=100, noval=True))
    return dict(instances=r, bounds="every degree, both triangles, all algorithms; systems up to 14x14 with symbolic right hand sides (and symbolic triangles up to 4x4), diagonals symbolic for small fields; recursion with cutoffs 1..64 up to 200 unknowns and 70 columns; beyond the default cutoff (up to 519 unknowns, 515 columns) with sparse triangles", outside="symbolic triangles above 4x4")
@reg("P24")
def p24(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        p = PER(e)
        for t, (n, F, seed) in enumerate([(1, 4, 0), (2, 3, 2), (3, 3, 4), (4, 3, 5), (3, 4, 4), (5, 4, 6), (p + 1, 4, 4), (p, 4, 0), (2 * p + 1 if e > 2 else 40, 4, 6), (7, 4, 4), (13, 4, 4)]):
            if F == 3 and n > (4 if e == 2 else 3 if e <= 6 else 2 if e <= 8 else 1): F = 4
            r.append(I("ech", "inv", e, K(e, t), 0, [0, 1, 2, 3][t % 4], n, 0, F, (t + e) % 2, seed, [0, 3, 1, 2][(t + e) % 4], time=60, noval=e > 10))
        for t, n in enumerate([1, 2, 3, 5, p + 1]): r.append(I("ech", "inv", e, K(e, t), 0, [0, 1, 2, 3][t % 4], n, 0, 4 if t % 2 or e > 8 or n > 3 else 3, t % 2, t + e, [0, 3, 1, 2][(t + e) % 4], 1, time=60, noval=e > 10))
        for x, n in enumerate([1, 2] if e == 2 else [1] if e <= 6 else []): r.append(I("ech", "inv", e, K(e, x), 0, 0, n, 0, 0, x, 0, 0, args=NM, time=100))
        if e <= (5 if Q else 8):
            for n in (2, 3, 4): r.append(I("ech", "inv", e, K(e, n), 0, 0, n, 0, 5, n % 2, 4 + n, 0, args=NM, time=100))
    return dict(instances=r, bounds="every degree; every invertible 1x1 matrix (2x2 for degree 2); concrete lower times symbolic unit upper triangular matrices up to 4x4; concrete matrices with two symbolic entries up to 4x4; concrete matrices up to 40x40 (no symbolic input)", outside="larger symbolic matrices")
MATP = "P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P28 P29".split()
def everything(tier, I, props): return [(q, i) for q in props for i in REG[q](tier, I)["instances"]]
def thin(xs, n, off):
    """about n of them, every (property, entry, algorithm-ish parameters) class first"""
    if n >= len(xs): return [i for q, i in xs]
    cl = {}
    for q, i in xs:
        p = i.params; e = p[0] if p else 0; par = p[4:9] if i.h != "ech" else [p[2], p[7], p[8]] if len(p) > 8 else p[2:]
        cl.setdefault((i.entry, PER(e) if 2 <= e <= 16 else 0, tuple(par[-2:]), p[3] if len(p) > 3 else 0), []).append(i)
    o = []; k = 0
    ks = list(cl.values())
    while len(o) < n and ks:
        for j, c in enumerate(ks):
            if c and len(o) < n: o.append(c.pop((off * 31 + j * 17 + k) % len(c)))
        ks = [c for c in ks if c]; k += 1
    return o
@reg("P25")
def p25(tier, I):
    xs = [x for x in everything(tier, I, ["P01", "P02", "P05"] + MATP) if x[1].entry not in ("xmul", "xdeg", "xdiv", "irrtab")]
    r = []
    for i in thin(xs, 2500 if tier == "quick" else 10 ** 9, 1):
        o = dict(i.opt); o["args"] = [a for a in o.get("args", [])] + ["--memonly"]; o["noval"] = True
        r.append(I(i.h, "leak_" + i.entry, *i.params, **o))
    for f in range(1, 17):
        for g in range(1, 17):
            for ch in (0, 2): r.append(I("mul", "leak_blmap", 0, 0, f, g, (f + g) % 2, ch, 1, 1, 1, 0, 0, 0, 0, args=["--memonly"], noval=True)) if ch == 0 or f + g <= 17 else None
    return dict(instances=r, bounds="a selection of the instances of P01, P02, P05-P24, P28 and P29 (thorough: all of them), run for memory safety, dependence on uninitialised memory, unexpected aborts and for heap objects left behind", outside="stack variables are checked for uninitialised reads only through their effect on results and branches")
@reg("P26")
def p26(tier, I):
    xs = [x for x in everything(tier, I, MATP) if x[1].h in ("elem", "ech", "mul") and not x[1].entry.startswith(("poly", "blmap", "iszero", "cmpz", "print"))]
    r = []
    for i in thin(xs, 2500 if tier == "quick" else 10 ** 9, 2): r.append(I(i.h, i.entry, *(i.params + [0] * (15 - len(i.params)) + [1]), **i.opt))
    return dict(instances=r, bounds="a selection of the instances of P06-P24 (thorough: all of them), checking only that element slots hold field elements, that padding is zero and that nothing outside a window changed")
@reg("P27")
def p27(tier, I):
    r = []; Q = tier == "quick"
    for e in ES:
        for rep in (0, 1):
            for op in range(10):
                if rep and op in (1, 3, 4, 5): continue
                for acc in ((0, 1) if 2 <= op <= 7 else (0,)):
                    for have in (0, 1, 2, 4):
                        if not have and (acc and (rep or op >= 6) or op == 1): continue
                        if Q and (e + op + have + acc) % 3: continue
                        m, l, n = [(2, 3, 2), (1, PER(e) + 1 if have == 1 else 5, 3), (3, 2, PER(e) if have == 1 and not rep else 4)][(e + op) % 3]
                        r.append(I("die", "reject", e, K(e, op), rep, [0, 1, 3][(e + have) % 3], m, l, 0, op, n, acc, have, *((3, 1) if op < 8 and e < 6 else (1, 1) if op < 8 and (e + have) % 2 else (3, 0)), time=100))
                    if op < 8 and not (Q and (e + op + acc) % 2): r.append(I("die", "rejecth", e, K(e, op), rep, 0, 2, 3, 0, op, 2, acc, 1)); r.append(I("die", "rejecth", e, K(e, op), rep, 0, 2, 3, 0, op, 2, acc, 0)) if not acc and op != 1 else None
    return dict(instances=[i for i in r if i], bounds="addition, copy, all multiplications with and without accumulation, concatenation and stacking; headers claiming any dimensions below 2^30 that do not fit (all symbolic at once) must be rejected; actual matrices with every dimension off by -1, 0, 1 and operands over the same field, another field of the same degree, or one of another degree, with every destination kind", outside="concat and stack do not check fields; operations whose arguments are only checked by assert()")
