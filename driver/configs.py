"""Which harness runs, with which bounds, decide which property."""
LEVEL = "model_checking"
ASSUMPTIONS = ["bounded: only the listed configurations (dimensions, degree bounds, shifts, primes, aliasing patterns); sizes above them are outside",
    "inputs not symbolic in a configuration (args sym=..., rnd/rpoly data) are fixed pseudo-random values",
    "NTL itself is modelled: field operations by exact arithmetic on terms over GF(p), zz_pX arithmetic by NTL's schoolbook definitions; its internal FFT is an exact evaluation model",
    "library randomness (NTL random_zz_p) is concrete and seeded by VERIF_SEED",
    "violations are reported only after the solver's model reproduced them on the real build"]
BOUNDS = {}
_C = {}
def C(prop, harness, tier="quick", generic=False, **kw):
    o = {k: kw.pop(k) for k in ("paths", "time", "rlimit", "pathtime") if k in kw}
    _C.setdefault(prop, []).append(dict(harness=harness, args=kw, tier=tier, generic=generic, **o))
def get(prop, tier):
    return [c for c in _C.get(prop, []) if tier == "thorough" or c["tier"] == "quick"]

h = "h_multiply"
ALLMUL = "multiply naive waksman transform dense dense2 fft fft1 fft2 fft3 fftll fftd geom op trunc lfft lfftm lgeom ldense lget".split()
for case in ALLMUL:
    C("P01", h, case=case, p=0, m=2, n=2, k=2, la=2, lb=2)
    C("P01", h, case=case, p=0, m=2, n=3, k=1, la=3, lb=2)
    C("P01", h, case=case, p=0, m=1, n=1, k=1, la=4, lb=3)
    C("P01", h, case=case, p=0, m=2, n=1, k=2, la=3, lb=3, sym=8); C("P01", h, case=case, p=0, m=1, n=3, k=2, la=1, lb=4, sym=8)
    for al in (1, 2): C("P01", h, case=case, p=0, m=2, n=2, k=2, la=3, lb=2, sym=6, alias=al) if case not in ("lget", "lfft", "lfftm", "lgeom", "ldense", "op") or al == 2 else None
    for (m, n, k, la, lb) in ((3, 9, 10, 3, 3), (17, 2, 17, 2, 3), (9, 8, 3, 5, 9), (2, 17, 2, 6, 4), (10, 10, 10, 3, 3), (3, 3, 3, 20, 17), (5, 4, 6, 9, 12), (2, 2, 2, 40, 40)): C("P01", h, case=case, p=0, m=m, n=n, k=k, la=la, lb=lb, sym=4, every=29, lead=1) if case not in ("transform",) or max(la, lb) <= 6 else None
    if case in ("multiply", "naive", "waksman", "op", "dense", "dense2", "geom", "trunc", "lget", "lgeom", "ldense"):
        for p in (268435399, 1125899906842597):
            for (m, n, k, la, lb) in ((2, 2, 2, 2, 3), (2, 2, 3, 9, 7), (3, 2, 2, 2, 12), (4, 4, 4, 5, 5), (4, 5, 5, 16, 14), (11, 10, 10, 3, 5)): C("P01", h, case=case, p=p, m=m, n=n, k=k, la=la, lb=lb, sym=4, every=23, lead=1)
for case in ("matvec", "vecmat"):
    for (m, n, la, lb) in ((2, 2, 2, 2), (3, 1, 2, 2), (1, 3, 3, 1)): C("P01", h, case=case, p=0, m=m, n=n, k=1 if case == "matvec" else 2, la=la, lb=lb, sym=8)
for case in ("tnaive", "tkar", "tmont", "tkar4"):
    la = dict(tnaive=3, tkar=2, tmont=3, tkar4=4)[case]
    for p in (0, 7, 2):
        for (m, n, k, sy) in ((1, 1, 1, 8), (2, 2, 2, 6), (2, 3, 1, 6), (1, 2, 3, 6)): C("P01", h, case=case, p=p, m=m, n=n, k=k, la=la, lb=la, sym=sy)
        for al in (1, 2): C("P01", h, case=case, p=p, m=2, n=2, k=2, la=la, lb=la, sym=5, alias=al)
for p in (2, 3, 5, 7):
    for case in ("multiply", "op", "trunc", "waksman", "naive", "transform"):
        for (m, n, k, la, lb) in ((1, 2, 1, 2, 2), (2, 2, 2, 2, 3), (2, 2, 2, 5, 4), (3, 4, 5, 3, 3)): C("P01", h, case=case, p=p, m=m, n=n, k=k, la=la, lb=lb, sym=5)
h3 = [(1, 1, 1, 3, 2), (2, 2, 2, 8, 6), (2, 3, 1, 4, 9), (5, 4, 5, 12, 7), (2, 2, 2, 1, 3)]
for p in (2, 3, 5, 11):
    for case in ("3primes", "l3primes", "multiply", "lget"):
        for (m, n, k, la, lb) in h3: C("P23", h, case=case, p=p, m=m, n=n, k=k, la=la, lb=lb, sym=2 if p > 3 else 3, every=5)
        for al in (1, 2): C("P23", h, case=case, p=p, m=2, n=2, k=2, la=5, lb=5, sym=2, every=5, alias=al) if case in ("3primes", "multiply") else None
for p in (17, 257, 97): # FFT primes with few roots of unity
    for case in ("multiply", "lget", "op", "trunc", "3primes", "l3primes"):
        for (m, n, k, la, lb) in h3 + [(5, 5, 5, 20, 20)]: C("P23", h, case=case, p=p, fft=1, m=m, n=n, k=k, la=la, lb=lb, sym=2, every=5, paths=40)
for p in (101, 65537, 268435399, 1125899906842597, 1152921504606830593, 1152921504606844417, 576460752303415297):
    for case in ("3primes", "l3primes", "multiply"):
        for (m, n, k, la, lb) in h3 + [(3, 3, 3, 300, 280), (12, 11, 10, 60, 70)]: C("P23", h, case=case, p=p, m=m, n=n, k=k, la=la, lb=lb, sym=2, every=5, lead=1, paths=8)

# integer mode: residues modulo the several primes, reconstruction and reduction followed over the integers
MULTI = (65537, 1073741827, 268435399, 939524129, 1125899906842597, 576460752303423433, 855683929200394243, 887197696062447019, 1152921504606846883, 0)
for p in MULTI[::2] + (0,):
    for case in ("3primes", "l3primes", "multiply"):
        for (m, n, k, la, lb) in ((1, 1, 1, 1, 1), (1, 2, 1, 2, 2), (2, 2, 1, 3, 2), (1, 1, 2, 1, 4), (2, 3, 2, 2, 5)):
            for ph in ((0, 1) if case == "3primes" else (1,)): C("P23", h, case=case, p=p, m=m, n=n, k=k, la=la, lb=lb, uni=1, multi=1, sym=2, every=3, phase=ph, paths=60)
            if case == "3primes": C("P23", h, case=case, p=p, m=m, n=n, k=k, la=la, lb=lb, uni=1, multi=1, sym=4, every=2, phase=1, stale=1, paths=60)
# three primes: the number of primes used must bound every coefficient; moduli just above a threshold for n*min(la,lb) terms, all residues largest
for (N, ps) in ((1, (939524087, 939524129)), (2, (664343879,)), (4, (469762067,)), (6, (383559139,)), (10, (297103613,)), (20, (210083981,)), (1, (887197696062447019,)), (2, (627343507138837823,)), (4, (443598848031223579,)), (6, (362196942720971977,)), (20, (198383435787682931,))):
    for p in ps:
        for (m, n, k, la, lb) in [(1, n, 1, la, N // n) for n in (1, 2, 5) if N % n == 0 for la in (N // n, N // n + 3, 40)] + [(2, n, 2, N // n, lb) for n in (1, 2) if N % n == 0 for lb in (N // n + 1, 60)]:
            for case in ("3primes", "l3primes"): C("P23", h, case=case, p=p, m=m, n=n, k=k, la=la, lb=lb, sym=1, every=7, phase=3, fill=1, paths=3)
# delayed reductions: inner dimensions around the slice length 255, largest residues; FFT primes of 30, 50, 58 and 60 bits
P58, P50, P60 = 288230376131788801, 1125899865948161, 1152921504577486849
for case in ("fftll", "lfft", "fftd", "fft2", "dense", "dense2", "naive", "fft", "lfftm"):
    for n in (254, 255, 256, 257, 509, 510, 511, 512, 766):
        for (p, ff) in ((0, 0), (P60, 1), (P58, 1), (998244353, 1)):
            if case in ("fftll", "lfft") or n in (255, 256, 511): C("P01", h, case=case, p=p, fft=ff, m=1, n=n, k=1, la=1, lb=1, sym=2, every=n // 2, fill=1, paths=40)
    C("P01", h, case=case, p=P60, fft=1, m=1, n=513, k=2, la=2, lb=1, sym=2, every=500, fill=1, paths=40)
for case in ("fft", "fftll", "fftd", "fft1", "fft2", "fft3", "lfft", "lfftm", "lget", "multiply"):
    for p in (998244353, P50, P58):
        for (m, n, k, la, lb) in ((2, 2, 2, 3, 2), (4, 4, 4, 3, 4), (2, 8, 8, 4, 3), (9, 9, 9, 4, 5), (9, 9, 9, 40, 35)): C("P01", h, case=case, p=p, fft=1, m=m, n=n, k=k, la=la, lb=lb, sym=3, every=17, lead=1, paths=40)
for case in ("fft", "lget"): # branches of the dispatchers
    for p in (0, 998244353):
        for (m, n, k, la, lb) in ((1, 2, 2, 230, 220), (5, 5, 5, 120, 110), (4, 4, 4, 100, 90), (8, 8, 8, 70, 70), (16, 2, 17, 60, 60), (17, 17, 15, 45, 30), (20, 20, 20, 4, 5), (25, 25, 25, 3, 2), (26, 25, 25, 3, 3), (26, 25, 25, 40, 30)):
            C("P01", h, case=case, p=p, fft=1 if p else 0, m=m, n=n, k=k, la=la, lb=lb, sym=2, every=m * n, lead=1, paths=20)

h = "h_polyk"
for al in (0, 1, 2):
    C("P03", h, case="invtruncmul", p=0, len=3, la=3, d=4, alias=al)
    C("P03", h, case="invtruncmul", p=7, len=3, la=2, d=3, alias=al)
C("P03", h, case="invtruncmul", p=0, len=70, la=70, d=70, sym=3, every=31)
# Newton iteration (precision above the crossover, 150 or 700)
for (p, ln, la, d) in ((0, 200, 200, 200), (0, 160, 161, 151), (0, 300, 300, 256), (0, 300, 300, 257), (0, 300, 300, 258), (0, 10, 200, 256), (0, 200, 10, 256), (0, 10, 200, 161), (0, 10, 10, 255), (0, 10, 10, 256), (0, 10, 10, 257), (0, 1, 10, 300), (0, 60, 50, 161), (0, 130, 3, 160), (0, 129, 3, 160), (0, 128, 3, 160), (0, 400, 2, 384), (101, 160, 161, 151), (101, 10, 200, 192), (1125899906842597, 720, 710, 705), (1125899906842597, 10, 710, 768)):
    C("P03", h, case="invtruncmul", p=p, len=ln, la=la, d=d, sym=2 if ln > 1 else 1, every=max(1, ln // 2), paths=8); C("P03", h, case="invtruncmul", p=p, len=ln, la=la, d=d, sym=0, uni=1)
    if la > 20: C("P03", h, case="invtruncmul", p=p, len=ln, la=la, d=d, sym=2, every=7, phase=ln + la - 12, paths=8, uni=1)
    for sd in (2, 3, 4): C("P03", h, case="invtruncmul", p=p, len=ln, la=la, d=d, sym=1, phase=ln // 2, seed=sd, alias=sd % 3, paths=4)
C("P03", h, case="invtruncmul", p=0, len=3, la=3, d=0, sym=4); C("P03", h, case="invtruncmul", p=0, len=0, la=3, d=200, sym=2)
for c in ("shift_dac", "shift_large", "shift_get", "shift"):
    for ln in (1, 2, 3, 4, 5, 6, 9, 17):
        C("P03", h, case=c, p=0, len=ln)
        C("P03", h, case=c, p=101, len=ln, alias=1)
for c in ("shift_dac", "shift_get", "shift"):
    for ln in (1, 2, 3, 4, 5, 6): C("P03", h, case=c, p=3, len=ln); C("P03", h, case=c, p=2, len=ln)
for al in range(5):
    for (ln, lb, d) in ((3, 3, 0), (3, 2, 1), (2, 3, 3), (3, 1, 5), (4, 2, 2)): C("P03", h, case="addls", p=5, len=ln, lb=lb, d=d, alias=al)
for al in (0, 1, 2):
    for (dA, dB) in ((0, 0), (1, 0), (0, 1), (2, 2), (3, 1), (1, 4), (5, 5), (7, 3)):
        C("P02", h, case="mid", p=0, dA=dA, dB=dB, alias=al); C("P02", h, case="midfft", p=0, dA=dA, dB=dB, alias=al); C("P02", h, case="mid", p=5, dA=dA, dB=dB, alias=al); C("P02", h, case="midfft", p=7, dA=dA, dB=dB, alias=al)
for p in (0, 268435399, 1125899906842597): 
    for (dA, dB) in ((30, 30), (200, 3), (3, 200), (300, 10), (20, 300), (127, 127), (150, 150)): C("P02", h, case="mid", p=p, dA=dA, dB=dB, sym=5, every=7, lead=1)
for p in (0, 101, 1125899906842597): # uneven sizes above the Karatsuba threshold
    for (dA, dB) in ((16, 16), (16, 17), (17, 16), (15, 40), (40, 15), (17, 34), (34, 17), (18, 70), (70, 18), (33, 34), (35, 20), (20, 35), (66, 65), (31, 63), (63, 31), (64, 33)):
        C("P02", h, case="mid", p=p, dA=dA, dB=dB, sym=5, every=7, lead=1); C("P02", h, case="mid", p=p, dA=dA, dB=dB, la=dA // 2, lc=dA + dB - 3, sym=4, every=5, lead=1)
for p in (189812507, 379625047, 2147483647, P60):
    for (dA, dB) in ((0, 3), (7, 7), (14, 14), (15, 14), (15, 15), (15, 40), (16, 16), (31, 15), (40, 14), (33, 40), (31, 31), (32, 31), (31, 32), (70, 33), (33, 90), (130, 3), (300, 3), (600, 7), (1100, 0), (290, 149), (280, 142), (1100, 100)): C("P02", h, case="mid", p=p, dA=dA, dB=dB, sym=3, every=4, fill=1)
for (la, lc) in ((0, 4), (3, 0), (0, 0), (1, 4), (3, 1)): C("P02", h, case="mid", p=0, dA=2, dB=2, la=la, lc=lc, alias=1); C("P02", h, case="midfft", p=0, dA=2, dB=2, la=la, lc=lc, alias=2)
for ln in (1, 2, 3, 5, 8): C("P03", h, case="vinv", p=0, len=ln); C("P03", h, case="vinvnaive", p=0, len=ln); C("P03", h, case="vinv", p=5, len=ln, alias=1); C("P03", h, case="vinverr", p=5, len=ln)
C("P03", h, case="precomp", p=0, len=4)
for p in (2, 3, 5, 7, 13, 31): C("P03", h, case="order", p=p); C("P03", h, case="elorder", p=p, maxord=min(4, p - 1))
for ln in (1, 2, 3): C("P03", h, case="constmat", p=5, len=ln)
for ln in (1, 2, 3): C("P03", h, case="ismonic", p=5, len=ln)
h = "h_crt"
for op in ("eval", "interp", "round", "teval", "tinterp", "matrix", "tmatrix", "vector", "tvector", "points"):
    for n in (1, 2, 3, 4, 7):
        ld = 1 if n > 3 or op in ("matrix", "tmatrix", "vector") else 0
        C("P04", h, case="general", op=op, n=n, p=0, lead=ld)
        C("P04", h, case="geom", op=op, n=n, p=0, lead=ld); C("P04", h, case="geoms", op=op, n=n, p=0, lead=ld)
        C("P04", h, case="geoms", op=op, n=n, p=0, usefft=1, lead=ld); C("P04", h, case="geoms", op=op, n=n, p=0, usefft=0, prep=n - 1, lead=ld)
        C("P04", h, case="getgeneral", op=op, n=n, p=101, lead=ld); C("P04", h, case="getgeom", op=op, n=n, p=101, lead=ld)
    for n in (1, 2, 4, 8): C("P04", h, case="fft", op=op, n=n, p=0, lead=1 if n > 2 else 0)
for n in (2, 3): C("P04", h, case="general", op="eval", n=n, p=0, sympts=1); C("P04", h, case="general", op="interp", n=n, p=0, sympts=1); C("P04", h, case="general", op="teval", n=n, p=0, sympts=1)
for w, d in ((0, 1), (0, 2), (0, 5), (1, 2), (2, 3), (3, 4)):
    for la in (0, 1, d): C("P05", h, case="transform", which=w, d=d, la=la, p=0, lead=1); C("P05", h, case="transform", op="matrix", which=w, d=d, la=la, p=0, lead=1)
for n in (1, 2, 3, 5):
    for dm in (1, 2, 3):
        for op in ("multimod", "combine"): C("P05", h, case="crt", op=op, n=n, dm=dm, p=0, lead=1); C("P05", h, case="crt", op=op, n=n, dm=dm, p=101, lead=1, mixed=1)
for ln in (0, 1, 5, 12): C("P05", h, case="crt", op="multimod", n=3, dm=2, p=0, len=ln)
# sizes around the switches between algorithms, partial outputs, prepared degrees, reused and aliased outputs
for op in ("eval", "interp", "round", "teval", "tinterp"):
    for n in (5, 8, 16, 17, 33, 40, 70):
        sy = dict(sym=4, every=max(1, n // 4), lead=1, syms=0) if n > 5 else dict(lead=1, syms=0)
        C("P04", h, case="general", op=op, n=n, p=0, stale=1, **sy); C("P04", h, case="geoms", op=op, n=n, p=0, stale=1, **sy)
        C("P04", h, case="geoms", op=op, n=n, p=1125899906842597, usefft=0, **sy); C("P04", h, case="geoms", op=op, n=n, p=268435399, usefft=1, **sy); C("P04", h, case="getgeom", op=op, n=n, p=0, **sy)
        C("P04", h, case="fft", op=op, n=n, get=1, p=0, stale=1, **sy)
        C("P04", h, case="general", op=op, n=n, sub=2, p=101 if n < 20 else 65537, **sy)
    C("P04", h, case="geoms", op=op, n=7, p=17, fft=1, lead=1, syms=0, sym=4) # no FFT of this length modulo 17
    C("P04", h, case="geoms", op=op, n=7, p=97, fft=1, lead=1, syms=0, sym=4); C("P04", h, case="geoms", op=op, n=3, p=17, fft=1, usefft=1, lead=1, sym=4)
    if op in ("eval", "round", "tinterp"):
        for n in (3, 4, 6):
            for ln in (0, 1, 2, n - 1): 
                for case in ("general", "geoms"): C("P04", h, case=case, op=op, n=n, len=ln, p=0, syms=0); C("P04", h, case=case, op=op, n=n, len=ln, p=0, usefft=1, prep=max(0, ln - 1), prep2=min(n - 1, ln), syms=0)
                C("P04", h, case="fft", op=op, n=n, get=1, len=ln, p=0)
for n in (1, 2, 3, 4, 6, 16):
    for os in range(0, n + 1):
        if os > 4 and os < n - 1: continue
        for kw in (dict(case="general"), dict(case="geoms", syms=0), dict(case="geoms", syms=0, usefft=1), dict(case="geoms", syms=0, usefft=1, prep=max(0, os - 1)), dict(case="geoms", syms=0, usefft=1, prep=max(0, os - 2), prep2=min(n - 1, os)), dict(case="geoms", syms=0, usefft=0), dict(case="fft", get=1)):
            C("P04", h, op="teval", n=n, os=os, p=0, sym=5, every=max(1, n // 5), **kw)
            if n <= 4: C("P04", h, op="tmatrix", n=n, os=os, p=0, sym=5, s=1, t=2, **kw)
for n in (1, 2, 3, 5, 16, 33):
    for f in (0, 1, 2): C("P04", h, case="geoms", op="mulvec", n=n, usefft=f, p=0, sym=4, every=max(1, n // 4), syms=1 if n < 4 else 0); C("P04", h, case="geom", op="mulvec", n=n, usefft=f, p=0, sym=4, every=max(1, n // 4), alias=1)
    for nb in (0, 1, 2, n - 1, n, n + 1, 2 * n, 2 * n + 1, 3 * n + 2):
        if nb >= 0: C("P04", h, case="geoms", op="evalnb", n=n, nb=nb, p=0, sym=4, every=max(1, n // 4), syms=0, stale=1); C("P04", h, case="geoms", op="evalnb", n=n, nb=nb, len=max(1, n // 2), p=0, sym=4, usefft=1, syms=0)
for n in (1, 2, 3, 6): C("P04", h, case="geoms", op="toolarge", n=n, p=0, sym=0)
for (n, s, t) in ((3, 1, 3), (3, 3, 1), (5, 2, 3), (16, 1, 2)):
    for op in ("matrix", "tmatrix", "vector", "tvector"):
        for case in ("general", "geoms", "fft"): C("P04", h, case=case, op=op, n=n, s=s, t=t, get=1, syms=0, p=0, sym=5, every=max(1, n * s * t // 5), lead=1)
for w, d in ((0, 1), (0, 2), (0, 5), (1, 2), (2, 3), (3, 4)):
    for s in (0, 1, 2): C("P05", h, case="transform", op="vector", which=w, d=d, la=d, s=s, p=0, lead=1); C("P05", h, case="transform", op="vector", which=w, d=d, la=max(0, d - 1), lb=1, s=s, p=5, sym=4)
    for p in (2, 3): C("P05", h, case="transform", which=w, d=d, la=d, p=p, sym=6); C("P05", h, case="transform", op="matrix", which=w, d=d, la=d, p=p, sym=5)
for n in (6, 7, 9):
    for op in ("multimod", "combine"): C("P05", h, case="crt", op=op, n=n, dm=2, p=0, lead=1, sym=4, every=3, mixed=1); C("P05", h, case="crt", op=op, n=n, dm=1, p=65537, lead=1, sym=4, every=2)
for n in (2, 3): C("P05", h, case="crt", op="combine", n=n, dm=1, sympts=1, p=0); C("P05", h, case="crt", op="multimod", n=n, dm=1, sympts=1, p=0, len=4)
h = "h_forms"
for case in "degree pivots degmat lmat reduced wpopov owpopov popov get is".split():
    for col in (0, 1):
        for sh in (-1, 0, 1, 2, 3, 4):
            C("P06", h, case=case, col=col, shift=sh, m=2, n=2, len=2, p=0)
            C("P06", h, case=case, col=col, shift=sh, m=1, n=3, len=2, p=3); C("P06", h, case=case, col=col, shift=sh, m=3, n=1, len=2, p=3)
for col in (0, 1):
    for e in (1, -1): C("P06", h, case="badshift", col=col, m=2, n=3, len=2, p=5, sym=0, extra=e)
for sh in range(7): C("P06", h, case="amplitude", shift=sh, m=1, n=4, p=5, len=1, sym=0)
# larger matrices: in each form up to a few coefficients at the permitted degrees; random ones with repeated degrees
for col in (0, 1):
    for mk in (1, 2, 3, 4):
        for (m, n) in ((4, 4), (3, 6), (6, 7), (18, 18), (2, 20)):
            mm, nn = (n, m) if col else (m, n)
            for sh in (-1, 0, 3, 5, 7):
                for case in ("is", "get"): C("P06", h, case=case, col=col, shift=sh, m=mm, n=nn, len=3, mk=mk, p=0 if m != 4 else 3, sym=2, tweaks=2 if m < 18 else 1, seed=sh + m, paths=200)
    for (m, n) in ((18, 17), (1, 20), (20, 1), (5, 7)):
        for sh in (-1, 3, 7):
            for case in "degree pivots degmat lmat reduced wpopov owpopov popov".split():
                C("P06", h, case=case, col=col, shift=sh, m=m, n=n, len=3, p=0, sym=3, every=max(1, 3 * m * n // 3), phase=5)
h = "h_arith"
for case in "add sub addc cadd subc csub neg scal polmul".split():
    for al in (0, 1, 2):
        if al == 2 and case not in ("add", "sub"): continue
        C("P07", h, case=case, m=1, n=2, len=2, p=5, alias=al, paths=1500)
    for op in (1, 2, 3): C("P07", h, case=case, m=1, n=2, len=2, p=0, op=op, lead=1)
for d in (1, 2, 3):
    for al in (0, 1): C("P07", h, case="addls", m=1, n=2, len=3, lb=2, d=d, p=5, alias=al); C("P07", h, case="addls", m=1, n=2, len=2, lb=3, d=d, p=5, alias=al)
for op in "add sub addc cadd subc csub neg scal polmul addls trunc ls rs mirror deg".split():
    for al in (0, 1):
        if op == "mirror" and al: continue
        C("P07", h, case="vec", op=op, n=2, len=2, p=5, alias=al, paths=1500)
    C("P07", h, case="vec", op=op, n=2, len=3, p=0, alias=2 if op in ("add", "sub") else 0, paths=1500)
for case in ("mulc", "cmul"):
    for al in (0, 1):
        for (m, n, u) in ((2, 2, 2), (1, 2, 3), (2, 1, 1)): C("P07", h, case=case, m=m, n=n, u=u, len=2, p=5, alias=al)
    C("P07", h, case=case, m=2, n=2, u=2, len=2, p=0, op=1); 
C("P07", h, case="mulc", m=2, n=2, u=2, len=2, p=0, op=2)
for op in "trunc truncrow trunccol ls rs lsrow rsrow lscol rscol reverse reverse0 rowrev colrev transpose clear clearsub ident setcoeff preds getcoeff eval conv convc".split():
    for d in (0, 1, 3):
        for al in (0, 1): C("P07", h, case="util", op=op, m=2, n=2, len=2, d=d, x=d % 2, p=5, alias=al)
        C("P07", h, case="util", op=op, m=1, n=2, len=3, d=d, x=0, p=0); C("P07", h, case="util", op=op, m=2, n=1, len=1, d=d, x=0, p=3, alias=1)
    for d in (-1, -2): 
        if op in ("ls", "rs", "lsrow", "rsrow", "lscol", "rscol", "reverse", "rowrev", "colrev"): C("P07", h, case="util", op=op, m=2, n=2, len=3, d=d, x=1, p=5)
for op in "add sub addc cadd subc csub neg scal polmul trunc ls rs mirror".split(): C("P07", h, case="vec", op=op, n=3, len=2, p=0, forms=1, sym=8); C("P07", h, case="vec", op=op, n=2, len=2, d=2, p=5, forms=1, sym=8)
for op in "trunc truncrow trunccol ls rs lsrow rsrow lscol rscol reverse reverse0 rowrev colrev transpose".split():
    for (m, n, al) in ((2, 3, 1), (3, 2, 1), (3, 3, 1), (2, 3, 0)): C("P07", h, case="util", op=op, m=m, n=n, len=2, d=1, x=1, p=0, sym=8, alias=al, forms=1)
# operands of different lengths, larger matrices
for (m, n, ln, lb) in ((2, 2, 5, 1), (1, 2, 1, 5), (2, 1, 0, 3), (2, 2, 3, 0), (3, 4, 40, 70), (7, 9, 4, 6)):
    ev = max(1, m * n * (ln + lb) // 6)
    for case in "add sub addc cadd subc csub neg scal polmul addls".split():
        for al in (0, 1, 2): C("P07", h, case=case, m=m, n=n, len=ln, lb=lb, p=0, sym=5, every=ev, phase=al, alias=al if al < 2 or case in ("add", "sub") else 0, d=3 * al + 1)
    for op in "add sub addc cadd subc csub neg scal polmul addls trunc ls rs mirror deg".split():
        for al in (0, 1): C("P07", h, case="vec", op=op, n=n + 3, len=ln, lb=lb, p=0, sym=5, every=max(1, n * (ln + lb) // 5), alias=0 if op == "mirror" else al, forms=1, d=3 + ln * al)
for (m, n, ln) in ((7, 9, 4), (3, 2, 50), (17, 1, 3)):
    for op in "trunc truncrow trunccol ls rs lsrow rsrow lscol rscol reverse reverse0 rowrev colrev transpose clear clearsub ident setcoeff preds getcoeff eval conv convc".split():
        for d in (1, ln - 1, ln, ln + 2): C("P07", h, case="util", op=op, m=m if op != "clearsub" else 3, n=n if op != "clearsub" else 4, len=ln, d=d, x=min(m, n) - 1, p=0, sym=4, every=max(1, m * n * ln // 4), phase=d % 3, alias=d % 2)
    for case in ("mulc", "cmul"):
        for u in (1, 5): C("P07", h, case=case, m=m, n=n, u=u, len=ln, p=0, sym=4, every=max(1, m * n * ln // 4), alias=u % 2)
for (m, n) in ((2, 2), (2, 3), (3, 1)):
    C("P07", h, case="bad", m=m, n=n, len=2, p=101, sym=2)
    for ln in (0, 1, 3):
        for st in (0, 1): C("P07", h, case="random", m=m, n=n, len=ln, p=0, sym=0, stale=st); C("P07", h, case="random", m=m, n=n, len=ln, p=5, sym=0, draws=6, drawat=7 * st, stale=st)
h = "h_mmid"
for op in "auto naive fftll fftd fftm fftm1 fftm2 fftm3 fft fftnew dense".split():
    for (dA, dB) in ((0, 0), (1, 1), (2, 1), (1, 3), (3, 2)):
        C("P02", h, op=op, m=1, n=2, k=1, dA=dA, dB=dB, p=0, lead=1, stale=1)
        C("P02", h, op=op, m=2, n=1, k=2, dA=dA, dB=dB, p=0, sym=6)
    C("P02", h, op=op, m=1, n=1, k=1, dA=1, dB=1, p=0); 
    C("P02", h, op=op, m=1, n=1, k=1, dA=2, dB=2, p=0)
    C("P02", h, op=op, m=2, n=2, k=2, dA=2, dB=3, la=2, lc=5, p=0, sym=6); 
    if op in ("auto", "naive"): C("P02", h, op=op, m=2, n=2, k=2, dA=2, dB=3, la=2, lc=8, p=0, sym=6); C("P02", h, op=op, m=2, n=2, k=2, dA=2, dB=2, la=5, lc=3, p=0, sym=6)
    C("P02", h, op=op, m=2, n=2, k=2, dA=1, dB=2, p=0, sym=6, alias=1); C("P02", h, op=op, m=2, n=2, k=2, dA=1, dB=2, p=0, sym=6, alias=2)
    for (m, n, k, dA, dB) in ((3, 9, 10, 2, 2), (17, 2, 17, 1, 2), (9, 8, 3, 3, 9), (2, 17, 2, 5, 4), (10, 10, 10, 2, 2)): C("P02", h, op=op, m=m, n=n, k=k, dA=dA, dB=dB, p=0, sym=4, every=29, lead=1)
for op in ("fftll", "fftd", "fftm", "fftm1", "dense", "naive", "auto"):
    for n in (254, 255, 256, 257, 510, 511, 512, 766):
        for (p, ff) in ((0, 0), (P60, 1), (P58, 1), (998244353, 1)):
            if op == "fftll" or n in (255, 256, 511): C("P02", h, op=op, p=p, fft=ff, m=1, n=n, k=1, dA=0, dB=0, sym=2, every=n // 2, fill=1, paths=40)
    C("P02", h, op=op, p=P60, fft=1, m=1, n=513, k=2, dA=1, dB=0, sym=2, every=500, fill=1, paths=40)
for op in ("fft", "fftll", "fftd", "fftm", "fftm1", "fftm2", "fftm3", "auto"):
    for p in (998244353, P50, P58):
        for (m, n, k, dA, dB) in ((2, 2, 2, 2, 1), (4, 4, 4, 2, 3), (2, 8, 8, 3, 2), (9, 9, 9, 3, 4), (9, 9, 9, 35, 30)): C("P02", h, op=op, p=p, fft=1, m=m, n=n, k=k, dA=dA, dB=dB, sym=3, every=17, lead=1, paths=40)
for op in ("fft", "auto"):
    for p in (0, 998244353):
        for (m, n, k, dA, dB) in ((1, 2, 2, 230, 220), (5, 5, 5, 120, 110), (4, 4, 4, 100, 90), (8, 8, 8, 70, 70), (16, 2, 17, 60, 60), (17, 17, 15, 45, 30), (20, 20, 20, 4, 5), (25, 25, 25, 3, 2), (26, 25, 25, 3, 3)):
            C("P02", h, op=op, p=p, fft=1 if p else 0, m=m, n=n, k=k, dA=dA, dB=dB, sym=2, every=m * n, lead=1, paths=20)
for p in (0, 268435399, 1125899906842597):
    for (n, dA, dB) in ((2, 30, 30), (2, 90, 90), (2, 180, 5), (2, 5, 180), (1, 300, 20)):
        C("P02", h, op="auto", m=n, n=n, k=n, dA=dA, dB=dB, p=p, sym=3, every=37, lead=1)
        for al in (0, 1, 2): C("P02", h, op="auto", m=n, n=n, k=n, dA=dA, dB=dB, la=max(1, dA - 3), lc=dA + dB - 2, p=p, sym=3, every=37, lead=1, alias=al)
        C("P02", h, op="auto", m=n, n=n, k=n, dA=dA, dB=dB, la=dA + 5, lc=dA + dB + 9, p=p, sym=3, every=37, lead=1)
        C("P02", h, op="auto", m=n, n=n, k=n, dA=dA, dB=dB, la=0, p=p, sym=3, every=37, lead=1)
for (p, n, dA, dB) in ((0, 3, 30, 30), (0, 3, 8, 26), (0, 4, 2, 2), (0, 4, 5, 1), (0, 4, 0, 3), (0, 6, 3, 4), (268435399, 3, 30, 30), (268435399, 4, 6, 5), (268435399, 5, 3, 9), (268435399, 2, 5, 210), (1125899906842597, 8, 26, 3), (1125899906842597, 10, 6, 5), (1125899906842597, 9, 3, 27), (13, 5, 6, 4), (7, 4, 3, 8)):
    sy = dict(sym=3, every=37, lead=1)
    for al in (0, 1, 2): C("P02", h, op="auto", m=n, n=n, k=n, dA=dA, dB=dB, p=p, alias=al, **sy)
    C("P02", h, op="auto", m=n, n=n, k=n, dA=dA, dB=dB, p=p, la=max(0, dA - 1), lc=dA + dB - 1, stale=1, **sy)
    C("P02", h, op="auto", m=n, n=n, k=n, dA=dA, dB=dB, p=p, la=dA + 3, **sy); C("P02", h, op="auto", m=n, n=n, k=n, dA=dA, dB=dB, p=p, lc=dA + dB + 4, stale=1, **sy); C("P02", h, op="auto", m=n, n=n, k=n, dA=dA, dB=dB, p=p, la=0, **sy); C("P02", h, op="auto", m=n, n=n, k=n, dA=dA, dB=dB, p=p, lc=0, **sy)
    if p: C("P02", h, op="3primes", m=n, n=n, k=n, dA=dA, dB=dB, p=p, **sy); C("P02", h, op="3primes", m=2, n=3, k=1, dA=dA, dB=dB, p=p, sym=4)
for p in MULTI[::2] + (0,):
    for (m, n, k, dA, dB) in ((1, 1, 1, 0, 0), (1, 2, 1, 1, 1), (2, 2, 1, 2, 1), (1, 1, 2, 1, 3), (2, 3, 2, 3, 2)):
        for ph in (0, 1): C("P02", h, op="3primes", m=m, n=n, k=k, dA=dA, dB=dB, p=p, uni=1, multi=1, sym=2, every=3, phase=ph, paths=60)
        C("P02", h, op="3primes", m=m, n=n, k=k, dA=dA, dB=dB, p=p, uni=1, multi=1, sym=4, every=2, phase=1, stale=1, paths=60)
for (N, p) in ((1, 939524129), (2, 664343879), (4, 469762067), (6, 383559139), (20, 210083981), (51, 131559697), (1, 887197696062447019), (2, 627343507138837823), (4, 443598848031223579), (20, 198383435787682931)):
    for n in (1, 2, 4):
        if N % n == 0:
            for dB in (0, 2, 30): C("P02", h, op="3primes", m=1, n=n, k=1, dA=N // n - 1, dB=dB, p=p, sym=1, every=7, phase=3, fill=1, paths=3)
    if N % 2 == 0: C("P02", h, op="3primes", m=2, n=2, k=2, dA=N // 2 - 1, dB=3, p=p, sym=1, every=7, phase=3, fill=1, paths=3)
for (n, dA, dB) in ((1, 1, 1), (2, 2, 1), (3, 1, 4), (2, 5, 3)):
    for al in (0, 1, 2): C("P02", h, op="tgeom", m=n, n=n, k=n, dA=dA, dB=dB, p=0, sym=4, alias=al); C("P02", h, op="tgeom", m=n, n=3, k=2, dA=dA, dB=dB, la=dA, lc=dA + dB, stale=1, p=0, sym=4)
h = "h_solve"
for op in "auto plain fft mid geom".split():
    for (n, ln, d) in ((1, 3, 5), (2, 2, 1), (2, 2, 3), (2, 3, 4), (3, 2, 4), (2, 1, 5), (2, 5, 3)):
        for al in (0, 1): C("P08", h, case="inv", op=op, n=n, len=ln, d=d, thresh=2, p=0, alias=al, sym=6 if n == 1 else 4 if n == 2 and d < 4 else 2)
    C("P08", h, case="inv", op=op, n=1, len=3, d=4, c0=2, p=0, thresh=1); C("P08", h, case="inv", op=op, n=2, len=2, d=3, c0=2, p=0, thresh=1, sym=5); C("P08", h, case="inv", op=op, n=2, len=2, d=4, p=5 if op in ("auto", "plain", "mid") else 101, thresh=1, sym=4) if op != "fft" else None
    C("P08", h, case="inverr", op=op, n=1, len=3, d=4, p=0); C("P08", h, case="inverr", op=op, n=2, len=3, d=4, thresh=2, p=0)
# larger matrices and precisions (around the thresholds 8, 32, 64), FFT primes with few roots of unity, general primes
for op in "auto plain fft mid geom".split():
    for (n, d) in ((1, 20), (2, 7), (2, 8), (2, 9), (2, 15), (2, 17), (3, 33), (2, 65), (3, 12), (5, 10), (7, 3), (2, 130)):
        for p in (0, 1125899906842597, 268435399):
            if op == "fft" and p: continue
            for ln in (2, d // 2 + 1, d, d + 3): C("P08", h, case="inv", op=op, n=n, len=ln, d=d, p=p, uni=1, sym=2, every=max(3, n * ln // 2) if ln > 2 else 5, phase=max(0, min(ln, d) - 2), alias=ln % 2, paths=30)
    for (p, ds) in ((17, (6, 7, 8, 13, 14, 15)), (97, (14, 15, 29, 30, 31)), (257, (9, 126, 127)), (12289, (9, 20))):
        if op == "fft" and p == 17: ds = (6, 7, 8)
        if op == "fft" or (op == "geom" and p == 257): ds = ds[:1]
        elif op == "geom": ds = ds[:2]
        for d in ds:
            for ln in (2, d): C("P08", h, case="inv", op=op, n=2, len=ln, d=d, p=p, fft=1, sym=1, uni=1, phase=ln - 1, paths=30)
for d in (1, 2, 3): C("P08", h, case="hol", n=2, d=d, p=0, sym=3, i=2 * d); C("P08", h, case="hol", n=2, d=d, p=0, sym=2, i=2 * d, rounds=2, alias=1); C("P08", h, case="hol", n=2, d=d, p=0, sym=2, i=2 * d + 1, alias=1)
for op in "low high hol auto vec".split():
    for (n, ln, lb, d) in ((1, 3, 2, 5), (2, 2, 1, 4), (2, 3, 2, 7), (2, 2, 1, 9), (3, 2, 1, 5), (2, 1, 3, 3), (2, 3, 5, 2)):
        if op == "hol" and (ln <= lb): continue
        for al in (0, 1, 2): C("P09", h, case="series", op=op, n=n, len=ln, lb=lb, d=d, p=0, sym=2, alias=al, thresh=2)
    C("P09", h, case="series", op=op, n=1, len=2, lb=2, d=3, c0=2, p=0, thresh=1); C("P09", h, case="series", op=op, n=2, len=1, lb=1, d=2, c0=2, sym=5, p=0, thresh=1)
for al in (0, 1):
    for n, ln, lb in ((1, 1, 2), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 2, 2)):
        C("P09", h, case="linsolve", op="kernel", n=n, len=ln, lb=lb, p=0, sym=4, alias=al); C("P09", h, case="linsolve", op="kernel", n=n, len=ln, lb=lb, p=5, sym=3, alias=al)
        C("P09", h, case="linsolve", op="series", n=n, len=ln, lb=lb, p=0, sym=3, alias=al, generic=True)
for nb in (1, 2, 3):   # several combinations: the denominator comes from a mosaic Toeplitz system
    for (n, ln, lb) in ((2, 2, 2), (2, 3, 1), (3, 2, 2), (3, 3, 4), (4, 2, 2), (5, 2, 2), (1, 3, 2)):
        for sd in (1, 2): C("P09", h, case="linsolve", op="series", n=n, len=ln, lb=lb, p=0, sym=0, uni=1, nb=nb, seed=sd, alias=sd - 1)
        if n < 4: C("P09", h, case="linsolve", op="series", n=n, len=ln, lb=lb, p=0, sym=1, uni=1, nb=nb, generic=True, phase=n)
for op in "low high hol auto vec".split():   # larger matrices and precisions, around the thresholds 16 and 32
    for (n, ln, lb, d) in ((2, 4, 3, 15), (2, 4, 3, 17), (2, 9, 8, 33), (3, 17, 20, 16), (2, 33, 5, 32), (2, 20, 70, 65), (5, 3, 2, 9), (7, 2, 1, 5), (2, 70, 60, 66), (1, 8, 5, 100)):
        if op == "hol" and (ln <= lb): continue
        for p in (0, 1125899906842597, 268435399):
            for ph in (0, 1): C("P09", h, case="series", op=op, n=n, s=1 + ph, len=ln, lb=lb, d=d, p=p, uni=1, sym=2, every=max(1, n * n * ln + lb // 2), phase=ln - 1, alias=ph, paths=30)
    for (p, d) in ((17, 7), (17, 8), (17, 14), (97, 15), (97, 30), (257, 70)): C("P09", h, case="series", op=op, n=2, len=max(2, d // 2), lb=1, d=d, p=p, fft=1, uni=1, sym=1, phase=d // 2 - 1, paths=30)
for (n, ln, lb) in ((3, 3, 2), (5, 2, 3), (4, 5, 5), (2, 20, 15), (7, 2, 1)):
    for op in ("kernel", "series"):
        for ph in (0, ln, n * n * ln): C("P09", h, case="linsolve", op=op, n=n, len=ln, lb=lb, p=0 if ph else 1125899906842597, uni=1, sym=1 if ln < 20 or op == "kernel" else 0, phase=ph, generic=op == "series", alias=ph % 2, paths=30)
for op in "low high auto vec".split():   # only one operand reaches the precision; large primes
    for (n, ln, lb, d) in ((2, 6, 2, 4), (2, 2, 6, 4), (2, 5, 1, 5), (2, 3, 5, 5), (3, 4, 2, 3), (3, 2, 4, 3), (2, 2, 4, 1), (2, 9, 3, 7), (2, 3, 9, 7), (2, 12, 4, 9)):
        for th in (1, 2, -1): C("P09", h, case="series", op=op, n=n, len=ln, lb=lb, d=d, p=0 if th > 0 else 1125899906842597, sym=2, thresh=th, uni=1)
for op in "general geom fft rec minors verify knowing linsolve".split():
    for n, ln, sy in ((1, 1, 9), (1, 3, 9), (2, 1, 9), (2, 2, 9), (2, 3, 12), (3, 1, 9), (3, 2, 6), (4, 2, 4), (5, 2, 3)):
        if (op == "minors" and n > 4) or (op == "linsolve" and n > 3): continue
        C("P10", h, case="det", op=op, n=n, len=ln, p=0, sym=min(sy, 2) if op == "linsolve" else sy, lead=0, generic=op == "linsolve")
    if op in ("rec", "minors"):
        for n, ln, sy in ((2, 2, 8), (3, 1, 9), (4, 1, 6)): C("P10", h, case="det", op=op, n=n, len=ln, p=5, sym=sy)
# larger matrices; columns of different degrees; FFT primes with few roots; other primes
for op in "general geom fft rec verify knowing linsolve minors".split():
    for n, ln in ((5, 3), (6, 2), (7, 2), (8, 2), (9, 2), (3, 12), (4, 9), (2, 40), (1, 60)):
        if (op == "minors" and n > 4) or (op == "rec" and n > 7) or (op == "linsolve" and (ln > 3 or n > 6)): continue
        if op == "knowing" and n == 8:
            for (l8, sd) in ((2, 1), (3, 2), (1, 3), (5, 4)): C("P10", h, case="det", op=op, n=n, len=l8, p=0, uni=1, sym=0, strict=1, seed=sd)
        for ph in (0, ln - 1, ln * n // 2):
            C("P10", h, case="det", op=op, n=n, len=ln, p=0, uni=1, sym=1, phase=ph, generic=op == "linsolve", paths=30)
            if op != "fft": C("P10", h, case="det", op=op, n=n, len=ln, p=1125899906842597 if ph else 268435399, uni=1, sym=1, phase=ph, generic=op == "linsolve", paths=30)
for (p, n, ln) in ((17, 3, 6), (17, 5, 4), (97, 3, 11), (97, 4, 8), (257, 2, 128), (257, 5, 5)):
    C("P10", h, case="det", op="fft", n=n, len=ln, p=p, fft=1, uni=1, sym=1, phase=ln - 1, paths=30)
    if p == 257: C("P10", h, case="det", op="geom", n=3, len=20, p=p, uni=1, sym=1, paths=30); C("P10", h, case="det", op="general", n=n, len=ln, p=p, uni=1, sym=1, paths=30)
for (n, s, ln, la) in ((1, 1, 2, 4), (1, 2, 3, 2), (2, 1, 2, 3), (2, 2, 2, 4), (2, 2, 3, 3), (3, 1, 2, 3), (2, 1, 1, 3), (2, 2, 2, 1)):
    for st in (0, 1): C("P11", h, case="quorem", n=n, s=s, len=ln, la=la, p=0, sym=6 if n == 1 else 1, every=1 if n == 1 else 3, stale=st, phase=0 if n == 1 else st); C("P11", h, case="quorem", n=n, s=s, len=ln, la=la, p=7, sym=4 if n == 1 else 2, stale=st, every=1 if n == 1 else 2, phase=0 if n == 1 else st)
for (n, s, ln, la) in ((4, 3, 3, 6), (5, 2, 2, 3), (7, 1, 2, 4), (2, 3, 5, 12), (2, 2, 2, 30), (3, 2, 20, 40), (2, 2, 40, 90), (3, 3, 9, 9), (3, 1, 9, 5), (2, 1, 33, 65)):
    for ph in (0, 1):
        for p in (0, 1125899906842597): C("P11", h, case="quorem", n=n, s=s, len=ln, la=la, p=p, uni=1, sym=1, phase=n * n * ln + s * la // 2 + ph, stale=ph, paths=30); C("P11", h, case="quorem", n=n, s=s, len=ln, la=la, p=p, uni=1, sym=1, phase=ln * ph, paths=30)
for n, ln in ((1, 3), (2, 2), (2, 3), (3, 2)): C("P11", h, case="gjv", n=n, len=ln, p=0, sym=3 if ln < 3 else 2); C("P11", h, case="gjv", n=n, len=ln, p=0, c0=0, sym=2); C("P11", h, case="gjv", n=n, len=ln, p=0, c0=0, sym=1, phase=3)
h = "h_basis"
APP = "iter popiter general genpopov plain rescomp resupdate mbasis popmbasis pmbasis poppmbasis m1 popm1".split()
for op in APP:
    for (m, n, ln, o) in ((2, 1, 2, 2), (2, 1, 3, 3), (3, 1, 2, 3), (2, 2, 2, 2), (3, 2, 2, 2)):
        for sh in (0, 1, 2, 4):
            C("P12", h, case="app", op=op, m=m, n=n, len=ln, order=o, shift=sh, p=0, sym=3, stale=1)
            C("P12", h, case="app", op=op, m=m, n=n, len=ln, order=o, shift=sh, p=3, sym=3)
    C("P12", h, case="app", op=op, m=1, n=1, len=2, order=3, shift=0, p=5); C("P12", h, case="app", op=op, m=1, n=2, len=2, order=2, shift=1, p=3); 
    C("P12", h, case="app", op=op, m=3, n=2, len=3, order=5, shift=5, p=0, sym=2, zc=1); C("P12", h, case="app", op=op, m=4, n=2, len=3, order=4, shift=3, p=0, sym=2, dep=1)
    if op in ("iter", "popiter", "general", "genpopov"):
        for ow in (0, 1): C("P12", h, case="app", op=op, m=2, n=2, len=3, order=3, shift=1, p=0, sym=3, uneven=1, ow=ow); C("P12", h, case="app", op=op, m=3, n=3, len=3, order=3, shift=3, p=3, sym=2, uneven=1, ow=ow)
for op in ("iter21", "pm21"):
    for sh in (0, 1, 2, 4):
        for o in (1, 2, 3, 4, 6): C("P12", h, case="app", op=op, m=2, n=1, len=o, order=o, shift=sh, p=0, sym=4 if o < 4 else 2); C("P12", h, case="app", op=op, m=2, n=1, len=o + 2, order=o, shift=sh, p=0, sym=2, phase=1)
for op in ("pmbasis", "poppmbasis"):
    for (m, n, o) in ((2, 1, 40), (3, 2, 34), (4, 2, 50), (2, 1, 70)): 
        for sh in (0, 4, 5): C("P12", h, case="app", op=op, m=m, n=n, len=o, order=o, shift=sh, p=0, sym=1, phase=o - 2)
for op in "rescomp resupdate pmbasis top padeit padeit2 paderec pade".split():
    for n, o in ((1, 2), (1, 3), (1, 4), (2, 2), (2, 3)): C("P12", h, case="gen", op=op, n=n, len=o, order=o, p=0, sym=3 if n == 1 else 2)
    for n, o in ((2, 5), (2, 8), (1, 40), (2, 37)): C("P12", h, case="gen", op=op, n=n, len=o, order=o, p=0, sym=1, phase=o - 2)
for op in "rescomp resupdate mbasis mbasiso popmbasis pmbasis poppmbasis pmeval geo geoev".split():
    for (m, n, ln, o) in ((2, 1, 2, 2), (2, 1, 3, 3), (3, 1, 2, 3), (2, 2, 2, 2), (3, 2, 2, 2), (2, 1, 1, 7)):
        for sh in (0, 1, 2, 4): C("P13", h, case="int", op=op, m=m, n=n, len=ln, order=o, shift=sh, p=0, sym=3, stale=1, p0=sh % 2)
    for (m, n, ln, o) in ((2, 1, 2, 2), (3, 1, 2, 2)): C("P13", h, case="int", op=op, m=m, n=n, len=ln, order=o, shift=1, p=13, sym=3)
    C("P13", h, case="int", op=op, m=1, n=1, len=2, order=3, shift=0, p=101); C("P13", h, case="int", op=op, m=4, n=2, len=3, order=4, shift=3, p=0, sym=2, dep=1); C("P13", h, case="int", op=op, m=3, n=2, len=3, order=5, shift=5, p=0, sym=2, zc=1)
    if op in ("rescomp", "resupdate", "mbasiso", "pmeval"): C("P13", h, case="int", op=op, m=2, n=1, len=2, order=3, shift=1, p=0, sym=3, off=2)
for op in ("pmbasis", "poppmbasis", "pmeval", "geo", "geoev"):
    for (m, n, o) in ((2, 1, 40), (3, 2, 34), (4, 2, 38)):
        for sh in (0, 4): C("P13", h, case="int", op=op, m=m, n=n, len=o, order=o, shift=sh, p=0, sym=1, phase=o - 2, paths=24)
for op in "app int zls zlsint auto".split():
    for (m, n, ln) in ((2, 1, 2), (2, 1, 3), (3, 1, 2), (2, 2, 2), (3, 2, 2), (2, 3, 2), (1, 1, 2), (1, 2, 2), (4, 2, 2)):
        for sh in (0, 1, 2, 4):
            C("P14", h, case="ker", op=op, m=m, n=n, len=ln, shift=sh, p=0, sym=3, stale=1); C("P14", h, case="ker", op=op, m=m, n=n, len=ln, shift=sh, p=3, sym=2) if op not in ("int", "zlsint") else None
    for dep in (1, 2, 3): C("P14", h, case="ker", op=op, m=3, n=2, len=2, shift=1, p=0, sym=2, dep=dep); C("P14", h, case="ker", op=op, m=2, n=2, len=2, shift=0, p=0, sym=2, dep=dep)
for k in ("isapp", "isint", "isker"):
    for dmg in range(5):
        for (m, n, ln, o) in ((2, 1, 2, 2), (3, 1, 2, 3), (3, 2, 2, 2)):
            for form in (1, 2, 3, 4):
                if k == "isker" and form == 4: continue
                for sh in (0, 1): C("P26", h, case=k, op="", dmg=dmg, m=m, n=n, len=ln, order=o, shift=sh, form=form, row=sh, p=0, sym=2); C("P26", h, case=k, op="geo", dmg=dmg, m=m, n=n, len=ln, order=o, shift=sh, form=form, row=sh, p=0, sym=2, evals=sh) if k == "isint" else None
                if k == "isint": C("P26", h, case=k, op="", dmg=dmg, m=m, n=n, len=ln, order=o, shift=2, form=form, p=0, sym=2, evals=1)
                if k == "isker": C("P26", h, case=k, op="", dmg=dmg, m=m, n=n, len=ln, order=o, shift=2, form=form, p=0, sym=2 if dmg == 0 else 0, rand=1)
h = "h_lin"
for al in (0, 1, 2):
    for (m, n, kk, ln) in ((1, 1, 1, 2), (2, 2, 1, 2), (2, 1, 3, 1)): C("P15", h, case="join", m=m, n=n, k=kk, len=ln, alias=al, p=0, sym=6, stale=1)
C("P15", h, case="join", m=2, n=2, bad=1, p=0, sym=2)
for cons in (0, 1):
    for (m, n, s, ln, d) in ((1, 4, 2, 2, 2), (2, 3, 3, 2, 3), (2, 3, 1, 1, 1), (1, 6, 2, 2, 4), (2, 6, 3, 1, 2), (1, 3, 2, 2, 2)):
        for al in (0, 1): C("P15", h, case="collapse", cons=cons, m=m, n=n, s=s, len=ln, d=d, alias=al, p=0, sym=7, stale=1)
for op in "vec uni cdeg cdegv def deft".split():
    for (m, n, ln) in ((1, 2, 3), (2, 2, 3), (2, 1, 4), (2, 3, 2)):
        for pd in (0, 1, 2): C("P15", h, case="parlin", op=op, m=m, n=n, len=ln, pd=pd, p=0, sym=6, stale=pd); C("P15", h, case="parlin", op=op, m=m, n=n, len=ln, pd=pd, p=3, sym=6, uneven=1) if op in ("vec", "cdegv") else None
for tight in (0, 2):
    for pd in (0, 1, 2): C("P15", h, case="parlin", op="vec", m=2, n=2, len=3, pd=pd, tight=tight, p=0, sym=6); C("P15", h, case="parlin", op="uni", m=2, n=2, len=3, pd=pd, tight=tight, p=0, sym=6)
for dinf in (0, 1, 2, 4):
    for pd in (0, 1, 2): C("P15", h, case="parlin", dinf=dinf, m=2, n=2, len=4, pd=pd, p=0, sym=6); C("P15", h, case="parlin", dinf=dinf, m=2, n=2, len=4, pd=pd, tight=2, p=0, sym=6, stale=1)
for op in "cd nocd glob dega".split():
    for (kk, m, n, la, ln) in ((2, 2, 2, 2, 3), (1, 2, 2, 1, 4), (2, 1, 3, 3, 2), (1, 1, 1, 2, 5), (2, 2, 1, 2, 1)):
        for pd in (0, 1, 2, 5):
            if op == "dega" and pd: continue
            for st in (0, 1): C("P15", h, case="rmul", op=op, k=kk, m=m, n=n, la=la, len=ln, pd=pd, stale=st, p=0, sym=6)
    if op == "cd": C("P15", h, case="rmul", op=op, k=2, m=2, n=2, la=2, len=3, pd=1, tight=2, p=0, sym=6)
for (kk, m, n, dA, dB, la, ln) in ((2, 2, 2, 2, 2, 3, 5), (1, 2, 2, 2, 1, 3, 4), (2, 1, 2, 3, 2, 2, 6), (2, 2, 1, 1, 3, 2, 5), (1, 1, 1, 2, 2, 1, 5), (1, 1, 2, 2, 2, 3, 2), (1, 2, 1, 0, 2, 1, 3)):
    for pd in (0, 1, 2):
        for st in (0, 1): C("P15", h, case="rmid", k=kk, m=m, n=n, dA=dA, dB=dB, la=la, len=ln, pd=pd, stale=st, tight=pd % 2, p=0, sym=6)
# larger matrices, columns of different degrees, one of them zero
for rg in (0, 1):
    for (m, n, ln) in ((3, 5, 7), (2, 9, 20), (6, 3, 12), (1, 2, 100), (1, 20, 3)):
        ev = dict(p=0, sym=4, every=max(1, m * n * ln // 4), ragged=rg)
        for pd in (0, 1, 2, 3, ln // 2, ln, ln + 3):
            for op in "vec uni cdeg cdegv def deft unit".split(): C("P15", h, case="parlin", op=op, m=m, n=n, len=ln, pd=pd, stale=pd % 2, phase=ln - 1 if pd % 2 else 1, uneven=1 if op in ("vec", "cdegv") and pd > 2 else 0, **ev)
            for di in (1, ln // 2, ln): C("P15", h, case="parlin", dinf=di, m=m, n=n, len=ln, pd=pd, tight=2 if pd % 2 else 1, **ev)
            for op in "cd nocd glob dega".split():
                for la in (1, 4, 30): C("P15", h, case="rmul", op=op, k=2, m=m, n=n, la=la, len=ln, pd=pd, phase=ln - 1, stale=la % 2, p=0, sym=3, every=max(1, (2 * m * la + m * n * ln) // 3), ragged=rg)
            for (dA, dB) in ((1, ln), (4, ln // 2), (ln, 2), (30, 30)):
                for la in (dA + 1, max(1, dA - 1)): C("P15", h, case="rmid", k=2, m=m, n=n, dA=dA, dB=dB, la=la, len=ln if pd < 2 else dA + dB + 1, pd=pd, stale=pd % 2, tight=pd % 3 == 0, p=0, sym=3, every=max(1, (2 * m * la + m * n * ln) // 3), phase=la - 1, ragged=rg)
for al in (0, 1, 2): C("P15", h, case="join", m=5, n=9, k=4, len=6, alias=al, p=0, sym=5, every=70, stale=1); C("P15", h, case="join", m=3, n=1, k=12, len=20, alias=al, p=0, sym=5, every=70); C("P15", h, case="join", m=3, n=3, k=3, len=3, alias=al, p=0, sym=6, every=7)
for cons in (0, 1):
    for (m, n, s, ln, d) in ((5, 12, 3, 4, 4), (5, 12, 4, 4, 7), (1, 30, 6, 9, 9), (3, 20, 20, 5, 5), (2, 20, 1, 5, 5), (2, 7, 7, 3, 4)):
        for al in (0, 1): C("P15", h, case="collapse", cons=cons, m=m, n=n, s=s, len=ln, d=d, alias=al, p=0, sym=5, every=max(1, m * n * ln // 5), phase=ln - 1, stale=1)
h = "h_struct"
V5 = "dense right rightm left leftm".split()
SZ = ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (5, 2), (2, 5), (3, 3))
for k in ("hankel", "toep", "crow", "ccol", "ltt"):
    for (m, n) in SZ:
        if k == "ltt" and m != n: continue
        for op in V5:
            C("P16", h, case=k, op=op, m=m, n=n, p=0, sym=8, stale=1, q=1 + (m + n) % 2); C("P16", h, case=k, op=op, m=m, n=n, p=0, sym=8, alias=1)
            C("P16", h, case=k, op=op, m=m, n=n, p=101, sym=8) if (m, n) in ((2, 3), (3, 2), (3, 3), (4, 1)) else None
    for op in ("bad", "entry")[:2 if k in ("hankel", "toep") else 1]: C("P16", h, case=k, op=op, m=2, n=2 if k == "ltt" else 3, p=0, sym=2)
# sizes where transforms are used (above the crossover 75 or 250), and the thresholds for matrix products
for k in ("hankel", "toep", "ltt"):
    for (m, n, p) in ((75, 75, 0), (76, 76, 0), (80, 77, 0), (77, 80, 0), (76, 130, 0), (200, 78, 0), (101, 101, 0), (128, 129, 0), (78, 76, 101), (76, 78, 101), (128, 128, 101)):
        if k == "ltt" and m != n: continue
        for op in V5[1:]:
            q = 2 if op[-1] == "m" else 1; sy = dict(p=p, sym=5, every=61, paths=6)
            C("P16", h, case=k, op=op, m=m, n=n, q=q, **sy); C("P16", h, case=k, op=op, m=m, n=n, q=q, stale=1, alias=(m + n) % 2, uni=1, phase=m + n - 1, **sy)
            if q == 2 and abs(m - n) < 4: C("P16", h, case=k, op=op, m=m, n=n, q=m // 4 + 1, uni=1, **sy)
    C("P16", h, case=k, op="right", m=251, n=251, p=1125899906842597, sym=2, every=301, paths=4); C("P16", h, case=k, op="left", m=251, n=251, p=1125899906842597, sym=2, every=301, paths=4)
for k in ("hankel", "toep", "mh", "mt"):
    for (m, n, q) in ((8, 8, 1), (8, 8, 2), (9, 4, 1), (4, 9, 1), (9, 4, 3), (4, 9, 3)):
        for op in ("rightm", "leftm"): C("P16", h, case=k, op=op, m=m, n=n, rows="%d.%d" % (m // 2, m - m // 2), cols="%d.%d" % (n // 2 + 1, n - n // 2 - 1), q=q, p=0, sym=6, every=3); C("P16", h, case=k, op=op, m=m, n=n, rows="%d.%d" % (m // 2, m - m // 2), cols="%d.%d" % (n // 2 + 1, n - n // 2 - 1), q=q, p=101, sym=6, every=3, phase=1, stale=1, alias=q % 2)
for t in ("tp", "tm", "hp", "hm"):
    for (m, n) in SZ:
        for op in V5: C("P16", h, case="like", t=t, op=op, m=m, n=n, al=1 + (m + n) % 2, p=0, sym=6, stale=1); C("P16", h, case="like", t=t, op=op, m=m, n=n, al=1, alias=1, p=0, sym=6)
        C("P16", h, case="phi", op=t, m=m, n=n, p=0, sym=25, stale=1); C("P16", h, case="phi", op=t, m=m, n=n, p=0, sym=25, alias=1)
for k in ("cauchy", "clike"):
    for (m, n) in SZ:
        for op in V5 + (["simple"] if k == "cauchy" else ["direct"]):
            C("P16", h, case=k, op=op, m=m, n=n, p=0, sym=5, stale=1, symu=0, al=1 + (m + n) % 2); C("P16", h, case=k, op=op, m=m, n=n, p=0, sym=3, alias=1)
            C("P16", h, case=k, op=op, m=m, n=n, p=0, sym=2, symu=1) if m + n < 5 else None
for k in ("mh", "mt"):
    for (r, c) in (("2", "3"), ("1.2", "2.1"), ("2.1.1", "2"), ("2", "1.1.2"), ("1.1", "1.1"), ("3.1", "1.2")):
        for op in V5 + ["access", "gens", "bad"]: C("P16", h, case=k, op=op, rows=r, cols=c, p=0, sym=8, stale=1); C("P16", h, case=k, op=op, rows=r, cols=c, p=0, sym=8, alias=1)
for (da, db) in ((1, 1), (2, 1), (1, 2), (2, 2), (0, 2), (2, 0), (3, 1), (0, 1)):
    for op in V5 + ["gens", "bad"]: C("P16", h, case="sylv", op=op, da=da, db=db, p=0, sym=8, stale=1); C("P16", h, case="sylv", op=op, da=da, db=db, p=0, sym=8, alias=1) if op != "gens" else None
for op in ("Z", "J", "diag", "clear"):
    for n in (1, 2, 3): C("P16", h, case="small", op=op, m=2, n=n, p=0, sym=8)
# larger structured matrices
SZL = ((7, 9), (12, 5), (17, 17), (5, 40), (33, 20), (40, 3))
for k in ("hankel", "toep", "crow", "ccol", "ltt"):
    for (m, n) in SZL + ((9, 9), (32, 32), (65, 65)):
        if k == "ltt" and m != n: continue
        for op in V5:
            for (p, ph) in ((0, 0), (1125899906842597, m + n - 1), (101, n)): C("P16", h, case=k, op=op, m=m, n=n, q=1 + ph % 3, p=p, sym=4, every=max(1, (m + n) // 2), phase=ph, stale=ph % 2, alias=0 if op[-1] == "m" else (ph + 1) % 2, paths=20)
for t in ("tp", "tm", "hp", "hm"):
    for (m, n) in SZL:
        for al in (1, 3):
            for op in V5: C("P16", h, case="like", t=t, op=op, m=m, n=n, al=al, q=al, p=0, sym=3, every=max(1, (m + n) * al // 3), stale=1, phase=m * al - 1 if al > 1 else 0, paths=20)
        C("P16", h, case="phi", op=t, m=m, n=n, p=0, sym=5, every=m * n // 5, stale=1)
for k in ("cauchy", "clike"):
    for (m, n) in SZL:
        for op in V5 + (["simple"] if k == "cauchy" else ["direct"]):
            for (al, ph) in ((1, 0), (2, m + n - 1), (4, n)): C("P16", h, case=k, op=op, m=m, n=n, q=al, p=0 if al < 4 else 1125899906842597, sym=3, every=max(1, (m + n) * al // 3), phase=ph, stale=al % 2, symu=0, al=al, paths=20)
for k in ("mh", "mt"):
    for (r, c) in (("5.3.4", "6.2"), ("10", "3.3.3.3"), ("1.7.2.5", "9.1.4"), ("3.3.3.3.3", "15"), ("20.1", "1.20"), ("1.1.1.1", "1.1.1.1.1"), ("2.30", "17.4.9")):
        for op in V5 + ["access", "gens"]:
            for ph in (0, 3): C("P16", h, case=k, op=op, rows=r, cols=c, q=1 + ph, p=0 if ph else 1125899906842597, sym=4, every=11, phase=ph, stale=ph % 2, alias=0 if op[-1] == "m" else (ph + 1) % 2, paths=20)
for (da, db) in ((5, 3), (3, 5), (9, 9), (20, 13), (1, 17), (40, 2), (0, 9)):
    for op in V5 + ["gens"]:
        for ph in (0, 1): C("P16", h, case="sylv", op=op, da=da, db=db, q=1 + 2 * ph, p=0 if ph else 1125899906842597, sym=4, every=max(1, (da + db) // 3), phase=ph * (da + 1), stale=ph, alias=0 if op == "gens" or op[-1] == "m" else 1 - ph, paths=20)
# --- P17: structured solving and inversion
for (m, n) in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 3), (3, 1), (4, 4), (5, 4)):
    for al in (1, 2, 3):
        for ta in (-1, 1):
            if ta == 1 and al > min(m, n): continue
            for dup in (0, 1, 2, 3):
                sy = 3 if m + n <= 6 else 2
                C("P17", h, case="clike", op="inv", m=m, n=n, al=al, ta=ta, dup=dup, p=0, sym=sy)
                C("P17", h, case="clike", op="solve", m=m, n=n, al=al, ta=ta, dup=dup, cons=0, p=0, sym=sy)
                C("P17", h, case="clike", op="solve", m=m, n=n, al=al, ta=ta, dup=dup, cons=1, p=0, sym=2)
            C("P17", h, case="clike", op="inv", m=m, n=n, al=al, ta=ta, alias=1, p=0, sym=0)
            C("P17", h, case="clike", op="inv", m=m, n=n, al=al, ta=ta, must=1, p=0, sym=0)
            C("P17", h, case="clike", op="inv", m=m, n=n, al=al, ta=ta, p=101, sym=2)
for dup in (0, 1, 3):
    for op in ("inv", "solve"): C("P17", h, case="clike", op=op, m=200, n=200, al=1, dup=dup, big=1, must=0 if dup == 3 else 1, cons=1, p=0, sym=0)
for k in ("mh", "mt"):
    for (r, c) in (("2", "2"), ("1.1", "2"), ("2", "1.1"), ("1.1", "1.1"), ("2.1", "1.2"), ("3", "2.1"), ("2", "3"), ("3", "2"), ("1.2", "2.2"), ("2.2", "1.2"), ("4", "4"), ("1", "1")):
        sq = sum(map(int, r.split("."))) == sum(map(int, c.split(".")))
        for ta in (-1, 1):
            for cons in (0, 1):
                C("P17", h, case=k, op="solve", rows=r, cols=c, ta=ta, cons=cons, p=0, sym=2)
                C("P17", h, case=k, op="solve", rows=r, cols=c, ta=ta, cons=cons, p=0, sym=0, must=1)
            if sq:
                C("P17", h, case=k, op="inv", rows=r, cols=c, ta=ta, p=0, sym=2)
                C("P17", h, case=k, op="inv", rows=r, cols=c, ta=ta, p=0, sym=0, must=1)
for (da, db) in ((1, 1), (2, 1), (1, 2), (2, 2), (0, 2), (2, 0), (3, 1), (0, 1), (1, 0), (1, 3)):
    for root in (0, 1):
        for prep in (0, 1):
            if min(da, db) + root == 0: continue
            for op in ("solve", "solvem", "tsolve", "tsolvem"):
                C("P17", h, case="sylv", op=op, da=da, db=db, prep=prep, root=root, p=0, sym=5, stale=1); C("P17", h, case="sylv", op=op, da=da, db=db, prep=prep, root=root, alias=1, p=0, sym=3)
        if min(da, db) + root: C("P17", h, case="sylv", op="inv", da=da, db=db, root=root, p=0, sym=4)
        for s in range(1, da + db + 1): C("P17", h, case="sylv", op="block", da=da, db=db, s=s, root=root, p=0, sym=4)
for k in ("mh", "mt"):
    for (r, c) in (("2", "2"), ("1.1", "1.1"), ("2.1", "1.2"), ("3", "2"), ("2", "1.2")):
        for at in range(0, 9):
            for cons in (0, 1):
                C("P17", h, case=k, op="solve", rows=r, cols=c, cons=cons, p=101, sym=0, draws=1, drawat=at)
            if r in ("2", "1.1", "2.1") and c != "1.2" or r == "2.1": C("P17", h, case=k, op="inv", rows=r, cols=c, p=101, sym=0, draws=1, drawat=at)
# larger systems: inputs are right-hand sides (linear) or one entry of the matrix
for (m, n, al) in ((12, 12, 2), (30, 30, 1), (20, 33, 2), (33, 20, 2), (9, 14, 3), (64, 64, 2)):
    for p in (0, 1125899906842597):
        for ta in (-1, 1, 8):
            for dup in (0, 1, 2):
                if dup == 0 or ta == -1: C("P17", h, case="clike", op="solve", m=m, n=n, al=al, ta=ta, dup=dup, cons=0, p=p, uni=1, sym=3, every=max(1, m // 3), phase=(m + n) * al, paths=20, free=1)
                C("P17", h, case="clike", op="solve", m=m, n=n, al=al, ta=ta, dup=dup, cons=1, p=p, uni=1, sym=0, must=0 if dup else 1)
            if m < 40: C("P17", h, case="clike", op="inv", m=m, n=n, al=al, ta=ta, p=p, uni=1, sym=0, must=1)
            if m < 15: C("P17", h, case="clike", op="inv", m=m, n=n, al=al, ta=ta, p=p, uni=1, sym=1, phase=(m + n) * al - 1, paths=20)
for k in ("mh", "mt"):
    for (r, c) in (("5.3.4", "6.6"), ("12", "3.3.3.3"), ("1.7.2.5", "9.1.5"), ("3.3.3.3.3", "15"), ("20.1", "1.20"), ("8.8", "8.9"), ("9.8", "8.8"), ("30", "30"), ("20.20", "20.20")):
        rr, cc = [sum(map(int, x.split("."))) for x in (r, c)]; ent = len(c.split(".")) * rr + len(r.split(".")) * cc - len(c.split(".")) * len(r.split("."))
        for p in (0, 1125899906842597):
            for ta in (-1, 1):
                C("P17", h, case=k, op="solve", rows=r, cols=c, ta=ta, cons=0, p=p, uni=1, sym=3, every=max(1, rr // 3), phase=ent, paths=20, free=1); C("P17", h, case=k, op="solve", rows=r, cols=c, ta=ta, cons=1, p=p, uni=1, sym=0, must=1, stale=1)
                if rr == cc: C("P17", h, case=k, op="inv", rows=r, cols=c, ta=ta, p=p, uni=1, sym=0, must=1)
for (da, db) in ((5, 3), (3, 6), (9, 9), (20, 13), (1, 17), (40, 2), (0, 9), (33, 31)):
    for p in (0, 1125899906842597):
        for root in (0, 1):
            for prep in (0, 1):
                if min(da, db) + root == 0: continue
                for op in ("solve", "solvem", "tsolve", "tsolvem"): C("P17", h, case="sylv", op=op, da=da, db=db, prep=prep, root=root, p=p, uni=1, sym=3, every=max(1, (da + db) // 3), phase=da + db + 2, stale=prep, alias=1 - prep, paths=20, free=1)
            if root or min(da, db): C("P17", h, case="sylv", op="inv", da=da, db=db, root=root, p=p, uni=1, sym=0)
            if da + db < 9:
                for s in (1, 2, da + db): C("P17", h, case="sylv", op="block", da=da, db=db, s=s, root=root, p=p, uni=1, sym=1, phase=da, paths=20)
# --- P18: structured matrices over zz_pX
h = "h_structx"
V9 = V5 + ["tright", "trightm", "tleft", "tleftm"]
for (m, n) in ((1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (3, 2), (2, 3), (4, 2), (1, 3), (5, 2)):
    for op in V9:
        for (d, dv) in ((1, 1), (0, 2), (2, 0)):
            ss = (1, 3) if op[0] == "t" else (0,)
            for s in ss:
                for (pr, p2) in ((-2, -2), (2, 1), (-1, 3)):
                    if op[0] == "t" and pr != -2 or op == "dense" and (pr != -2 or dv): continue
                    if m == n: C("P18", h, case="ltt", op=op, n=n, d=d, dv=dv, s=s, prep=pr, prep2=p2, p=0, sym=5, stale=1); C("P18", h, case="ltt", op=op, n=n, d=d, dv=dv, s=s, prep=pr, prep2=p2, p=0, sym=4, alias=1)
                    C("P18", h, case="crow", op=op, m=m, n=n, d=d, dv=dv, s=s, prep=pr, prep2=p2, p=0, sym=4, stale=1); C("P18", h, case="crow", op=op, m=m, n=n, d=d, dv=dv, s=s, prep=pr, prep2=p2, p=0, sym=3, alias=1, q=1)
                if d == 1 or op[0] == "t": C("P18", h, case="like", op=op, m=m, n=n, al=1 + (m + n) % 2, d=d, dv=dv, s=s, p=0, sym=3, stale=1); C("P18", h, case="like", op=op, m=m, n=n, al=1, d=d, dv=dv, s=s, p=0, sym=3, alias=1)
    for al in (1, 2): C("P18", h, case="like", op="def", m=m, n=n, al=al, d=1, p=0, sym=6)
    for op in ("plus", "minus"): C("P18", h, case="phi", op=op, m=m, n=n, d=1, p=0, sym=8, stale=1); C("P18", h, case="phi", op=op, m=m, n=n, d=1, p=0, sym=8, alias=1)
for k in ("ltt", "crow"): C("P18", h, case=k, op="bad", m=2, n=3, p=0, sym=0)
for (da, db) in ((1, 1), (2, 1), (1, 2), (2, 2), (0, 2), (2, 0), (3, 1), (1, 3)):
    for (d, d2) in ((1, 1), (0, 1), (2, 1), (1, 3)):
        for op in V9 + ["gens"]:
            for s in ((1, 3) if op[0] == "t" else (0,)):
                C("P18", h, case="sylv", op=op, da=da, db=db, d=d, dx2=d2, dv=1, s=s, p=0, sym=4, stale=1); C("P18", h, case="sylv", op=op, da=da, db=db, d=d, dx2=d2, dv=2, s=s, p=0, sym=3, alias=1)
        for op in ("newton", "high"):
            for s in (1, 2, 3, 5):
                if min(da, db):
                    sy = 2 if da + db == 2 or (da + db == 3 and s <= 2 and d) else 1
                    if s != 3 or d != 2: C("P18", h, case="sylv", op=op, da=da, db=db, d=d, dx2=d2, s=s, p=0, sym=sy)
                    C("P18", h, case="sylv", op=op, da=da, db=db, d=d, dx2=d2, s=s, p=0, sym=0)
    C("P18", h, case="sylv", op="ctor", da=da, db=db, p=0, sym=3); C("P18", h, case="sylv", op="bad", da=da, db=db, p=0, sym=0)
# larger matrices, several generators, larger degrees
for (m, n, d, dv) in ((7, 9, 3, 2), (12, 5, 1, 6), (17, 17, 2, 2), (2, 30, 4, 1), (9, 2, 12, 20), (33, 33, 1, 1)):
    for op in V9:
        for s in ((1, d + 1, d + dv + 3) if op[0] == "t" else (0,)):
            for (pr, p2, ph) in ((-2, -2, 0), (dv, 2 * dv + 1, n * (d + 1) - 1)):
                sy = dict(d=d, dv=dv, s=s, p=0 if ph else 1125899906842597, sym=4, every=max(1, n * (d + dv + 2) // 4), phase=ph, stale=1 if ph else 0, alias=0 if ph or op[-1] == "m" else 1, paths=20)
                if op[0] == "t" and pr != -2 or op == "dense" and pr != -2: pr, p2 = -2, -2
                if m == n: C("P18", h, case="ltt", op=op, n=n, prep=pr, prep2=p2, **sy)
                C("P18", h, case="crow", op=op, m=m, n=n, prep=pr, prep2=p2, q=1 if ph else 3, **sy)
                if pr == -2: C("P18", h, case="like", op=op, m=m, n=n, al=3 if m < 10 else 2, **sy)
    for op in ("plus", "minus"): C("P18", h, case="phi", op=op, m=m, n=n, d=d, p=0, sym=5, every=max(1, m * n * d // 5), stale=1)
    C("P18", h, case="like", op="def", m=m, n=n, al=3, d=d, p=0, sym=3, every=n)
for (da, db) in ((5, 3), (3, 6), (9, 9), (1, 17), (20, 2)):
    for (d, d2) in ((2, 1), (1, 5)):
        for op in V9 + ["gens"]:
            for s in ((1, 4) if op[0] == "t" else (0,)):
                for ph in (0, 1): C("P18", h, case="sylv", op=op, da=da, db=db, d=d, dx2=d2, dv=2, s=s, p=0 if ph else 1125899906842597, sym=3, every=max(1, (da + db) * d // 2), phase=ph * ((da + 1) * (d + 1) + 1), stale=ph, alias=0 if op[-1] == "m" or op == "gens" else 1 - ph, paths=20)
        for op in ("newton", "high"):
            for s in (1, 4, 9): C("P18", h, case="sylv", op=op, da=da, db=db, d=d, dx2=d2, s=s, p=0, uni=1, sym=0); C("P18", h, case="sylv", op=op, da=da, db=db, d=d, dx2=d2, s=s, p=1125899906842597, uni=1, sym=1, phase=d, paths=20) if da + db < 12 else None
# --- P19: bivariate polynomials
h = "h_bivar"
for (ny, nx) in ((0, 1), (1, 1), (1, 3), (2, 2), (3, 1), (3, 2), (4, 2)):
    for st in (0, 1):
        for op in ("ctor", "ctor1", "eval"):
            if ny or op != "ctor1": C("P19", h, op=op, ny=ny, nx=nx, p=0, sym=8, stale=st)
        for k in (0, 1, 3): C("P19", h, op="tokro", ny=ny, nx=nx, k=k, p=0, sym=8, stale=st); C("P19", h, op="tokro", ny=ny, nx=nx, k=k, p=0, sym=8, stale=st, vec=1)
    for (al, st) in ((0, 0), (0, 1), (1, 0)):
        for op in ("shx", "shy"):
            for k in (0, 1, 2, -1, -2, -4): C("P19", h, op=op, ny=ny, nx=nx, k=k, p=0, sym=8, alias=al, stale=st)
        for op in ("trx", "try"):
            for k in (0, 1, 2, 4): C("P19", h, op=op, ny=ny, nx=nx, k=k, p=0, sym=8, alias=al, stale=st)
        C("P19", h, op="mulc", ny=ny, nx=nx, p=0, sym=8, alias=al, stale=st)
    for k in (0, 1, 3, 5): C("P19", h, op="set", ny=ny, nx=nx, k=k, p=0, sym=8)
    C("P19", h, op="setneg", ny=ny, nx=nx, p=0, sym=0)
    for (my, mx) in ((0, 1), (1, 1), (2, 1), (2, 3), (3, 2)):
        C("P19", h, op="equal", ny=ny, nx=nx, my=my, mx=mx, p=0, sym=8)
        for op in ("add", "sub", "naive", "kron", "mul"):
            for (al, st) in ((0, 0), (0, 1), (1, 0), (2, 0), (3, 0)): C("P19", h, op=op, ny=ny, nx=nx, my=my, mx=mx, p=0, sym=8, alias=al, stale=st)
for k in (0, 1, 2, 4):
    for ln in (1, 4, 7): C("P19", h, op="fromkro", len=ln, k=k, p=0, sym=8); C("P19", h, op="fromkro", len=ln, k=k, p=0, sym=8, stale=1)
for (rx, ry) in ((2, 2), (1, 3), (3, 1), (2, 0), (0, 2)):
    for st in (0, 1): C("P19", h, op="random", rx=rx, ry=ry, ny=3, nx=2, p=0, sym=2, stale=st); C("P19", h, op="random", rx=rx, ry=ry, ny=3, nx=2, p=101, sym=0, draws=6, stale=st)
for (ny, nx) in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (2, 3)):
    for (my, mx) in ((1, 2), (2, 2), (3, 1), (2, 1), (3, 2)):
        for sy in (1, 2): C("P19", h, op="res", ny=ny, nx=nx, my=my, mx=mx, p=0, sym=sy, stale=1); C("P19", h, op="res", ny=ny, nx=nx, my=my, mx=mx, p=0, sym=sy, phase=2)
        C("P19", h, op="res", ny=ny, nx=nx, my=my, mx=mx, p=0, sym=6 if ny + my < 5 else 3)
        C("P19", h, op="res", ny=ny, nx=nx, my=my, mx=mx, p=101, sym=0, draws=1, mayfail=1); C("P19", h, op="res", ny=ny, nx=nx, my=my, mx=mx, p=101, sym=0, draws=1, drawat=1, mayfail=1)
        if min(ny, my) > 1 and max(nx, mx) > 1:
            for sy in (0, 1): C("P19", h, op="vil", ny=ny, nx=nx, my=my, mx=mx, p=0, sym=sy, mayfail=1); C("P19", h, op="vil", ny=ny, nx=nx, my=my, mx=mx, p=0, sym=sy, phase=2, mayfail=1)
for op in ("res", "vil", "vilt"): C("P19", h, op=op, ny=0, nx=1, my=2, mx=2, p=0, sym=2); C("P19", h, op=op, ny=2, nx=2, my=0, mx=2, p=0, sym=2)
for (ny, my) in ((2, 2), (2, 3), (3, 2), (3, 3)):
    for sd in (1, 2, 3): C("P19", h, op="vilt", ny=ny, nx=ny, my=my, mx=my, p=0, sym=0, seed=sd, mayfail=1)
# on uniformly random input the (Monte Carlo) algorithms must succeed; larger sizes have blocks of more than one row
for (ny, nx, my, mx) in ((2, 2, 2, 2), (3, 2, 3, 2), (2, 3, 3, 1), (3, 1, 2, 1), (1, 1, 1, 1), (1, 3, 1, 2), (1, 2, 2, 2), (4, 3, 2, 2), (5, 3, 5, 2), (9, 2, 9, 2), (9, 1, 7, 2), (10, 2, 8, 3), (8, 2, 11, 2)):
    for sd in (1, 2): C("P19", h, op="vil", ny=ny, nx=nx, my=my, mx=mx, p=0, sym=0, uni=1, seed=sd, must=1, stale=sd - 1)
    if ny + my < 8: C("P19", h, op="vil", ny=ny, nx=nx, my=my, mx=mx, p=0, sym=1, uni=1, must=1, generic=True)
for (ny, my) in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3), (4, 3), (5, 5), (9, 9), (10, 8)):
    for sd in (1, 2): C("P19", h, op="vilt", ny=ny, nx=ny, my=my, mx=my, p=0, sym=0, uni=1, seed=sd, must=1, stale=sd - 1)
# larger polynomials, operands of different sizes
for (ny, nx, my, mx) in ((7, 9, 4, 3), (1, 40, 20, 2), (20, 2, 1, 40), (12, 12, 12, 12), (5, 1, 5, 60), (30, 3, 2, 1)):
    ev = dict(ny=ny, nx=nx, sym=4, every=max(1, (ny * nx + my * mx) // 4), paths=20)
    for (p, ph) in ((0, 0), (1125899906842597, nx - 1), (101, ny * nx)):
        for op in ("add", "sub", "naive", "kron", "mul"):
            for al in (0, 1, 2, 3): C("P19", h, op=op, my=my, mx=mx, p=p, phase=ph, alias=al, stale=al % 2, **ev)
        for op in ("ctor", "eval", "equal", "mulc"): C("P19", h, op=op, my=my, mx=mx, p=p, phase=ph, stale=ph % 2, **ev)
        for k in (0, 1, 5, nx, nx + 3, -1, -nx, -ny):
            for op in ("shx", "shy"): C("P19", h, op=op, k=k, p=p, phase=ph, alias=k % 2, stale=1 - k % 2, **ev)
            if k >= 0:
                for op in ("trx", "try", "set"): C("P19", h, op=op, k=k, p=p, phase=ph, alias=k % 2 if op != "set" else 0, **ev)
                C("P19", h, op="tokro", k=k, p=p, phase=ph, stale=1, vec=k % 2, **ev); C("P19", h, op="fromkro", len=ny * nx + k, k=k, p=p, sym=4, every=max(1, ny * nx // 4), phase=ph, stale=k % 2)
for (ny, nx, my, mx) in ((4, 3, 5, 2), (5, 4, 2, 9), (3, 12, 3, 7), (2, 30, 3, 1), (7, 3, 6, 3)):
    for ph in (0, nx - 1, ny * nx - 1): C("P19", h, op="res", ny=ny, nx=nx, my=my, mx=mx, p=0 if ph else 1125899906842597, uni=1, sym=1, phase=ph, stale=1, paths=30)
# --- P20: sequences and their annihilators
h = "h_seq"
for n in (0, 1, 2, 4):
    for tau in (0, 2):
        for tr in (-1, 1, 2, 3):
            C("P20", h, op="mula", n=n, nx=2, tau=tau, trunc=tr, p=0, sym=8)
            for ny in (0, 1, 2, 3): C("P20", h, op="mulf", n=n, nx=2, tau=tau, trunc=tr, ny=ny, p=0, sym=8); C("P20", h, op="check", n=n, nx=2, tau=tau, trunc=tr, ny=ny, p=0, sym=4); C("P20", h, op="check", n=n, nx=2, tau=tau, trunc=tr, ny=ny, p=0, sym=3, two=1, zero=1)
    for m in (0, 2, 4): C("P20", h, op="add", n=n, nx=2, m=m, p=0, sym=8)
    C("P20", h, op="zero", n=n, nx=2, p=0, sym=8)
for op in ("kur", "mod", "fill"):
    for (n, d) in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (4, 1), (4, 2), (4, 3), (5, 2), (6, 2)):
        for tau in (0, 1, 2):
            sy = 3 if n * d * max(tau, 1) <= 6 else 2 if n * d * max(tau, 1) <= 8 else 1
            C("P20", h, op=op, n=n, d=d, tau=tau, p=0, sym=sy); C("P20", h, op=op, n=n, d=d, tau=tau, p=0, sym=sy, phase=1, stale=1); C("P20", h, op=op, n=n, d=d, tau=tau, p=0, sym=1, every=3, stale=1, val=1)
            for rec in (1, 2):
                if n > rec: C("P20", h, op=op, n=n, d=d, tau=tau, p=0, sym=2 if n * d < 8 else 1, rec=rec); C("P20", h, op=op, n=n, d=d, tau=tau, p=101, sym=0, rec=rec, val=1)
            C("P20", h, op=op, n=n, d=d, tau=tau, p=0, sym=0, zero=1)
for op in ("bm", "hnf"):
    for (n, d) in ((2, 1), (2, 2), (2, 3), (4, 1), (4, 2), (4, 3), (5, 2), (6, 2)):
        for tau in ((0, 1, 2) if op == "bm" else (1, 2)): C("P20", h, op=op, n=n, d=d, tau=tau, p=0, sym=2 if n < 5 else 1); C("P20", h, op=op, n=n, d=d, tau=tau, p=0, sym=1, rec=1)
for (n, d) in ((0, 1), (0, 2), (2, 1), (2, 2), (2, 3), (4, 1), (4, 2), (4, 3), (4, 4), (6, 1), (6, 2)):
    for ph in (0, 1, 2):
        for sy in (0, 1, 2): C("P20", h, op="minp", n=n, d=d, p=0, sym=sy, phase=ph); C("P20", h, op="minp", n=n, d=d, nx=d + 1, p=0, sym=sy, phase=ph, every=2)
# longer sequences, larger precision
for (n, nx, tau) in ((12, 4, 0), (20, 2, 3), (9, 20, 2), (40, 1, 1)):
    ev = dict(n=n, nx=nx, tau=tau, p=0, sym=4, every=max(1, n * nx * max(1, tau) // 4))
    for tr in (-1, 1, nx, nx + 3):
        C("P20", h, op="mula", trunc=tr, **ev)
        for ny in (0, 1, 4, n // 2, n, n + 1): C("P20", h, op="mulf", trunc=tr, ny=ny, phase=ny, **ev); C("P20", h, op="check", trunc=tr, ny=ny, **ev); C("P20", h, op="check", trunc=tr, ny=ny, two=1, zero=1, **ev)
    for m in (0, 2, n, n + 7): C("P20", h, op="add", m=m, **ev)
    C("P20", h, op="zero", **ev)
for op in ("kur", "mod", "fill", "bm", "hnf"):
    for (n, d, tau) in ((8, 3, 1), (10, 2, 0), (8, 4, 2), (12, 1, 1), (6, 8, 0), (6, 4, 3)):
        if op == "hnf" and tau == 0: continue
        for rec in (1, 2, 3):
            if 2 * rec > n: continue
            C("P20", h, op=op, n=n, d=d, tau=tau, p=0, uni=1, sym=0, rec=rec); C("P20", h, op=op, n=n, d=d, tau=tau, p=0, uni=1, sym=1, rec=rec, phase=d - 1, paths=20); C("P20", h, op=op, n=n, d=d, tau=tau, p=101, uni=1, sym=0, rec=rec, val=1)
        C("P20", h, op=op, n=n, d=d, tau=tau, p=0, uni=1, sym=0); C("P20", h, op=op, n=n, d=d, tau=tau, p=0, uni=1, sym=1, phase=n * d - 1, paths=20)
for (n, d) in ((8, 3), (10, 2), (6, 8), (12, 1), (16, 4)):
    for sy in (0, 1): C("P20", h, op="minp", n=n, d=d, p=0, uni=1, sym=sy, phase=n * d - 1, paths=20)
# --- P21: block-Wiedemann sequences and reconstruction
h = "h_bw"
for n in (2, 3, 4, 5):
    for up in (0, 1):
        for (l, s) in ((1, 1), (2, 1), (3, 1), (3, 2), (2, 3)):
            for sy in (2, 3, 5): C("P21", h, op="pows", n=n, l=l, s=s, up=up, p=0, sym=sy, phase=sy); C("P21", h, op="pows", n=n, l=l, s=s, up=up, p=0, sym=sy, gsym=0, stale=1)
            C("P21", h, op="pows", n=n, l=l, s=s, up=up, p=0, sym=2, every=3, monic=0); C("P21", h, op="pows", n=n, l=l, s=s, up=up, p=101, sym=1, na=1, nt=1); C("P21", h, op="pows", n=n, l=l, s=s, up=up, p=101, sym=2, azero=1, stale=1); C("P21", h, op="pows", n=n, l=l, s=s, up=up, p=101, sym=1, nt=0, stale=1)
for (n, m) in ((3, 1), (4, 1), (5, 1), (5, 2), (6, 2), (7, 2), (7, 3), (8, 3), (9, 4), (9, 2)):
    for op in ("seq", "naive"):
        for ph in (0, 1, 4): C("P21", h, op=op, n=n, m=m, p=0, sym=1, phase=ph); C("P21", h, op=op, n=n, m=m, p=0, sym=2 if n < 5 and op == "seq" else 1, phase=ph, every=3, monic=ph % 2, stale=1); C("P21", h, op=op, n=n, m=m, p=0, sym=1, gsym=0, phase=ph, every=2)
        C("P21", h, op=op, n=n, m=m, p=0, sym=0); C("P21", h, op=op, n=n, m=m, p=0, sym=1, azero=1); C("P21", h, op=op, n=n, m=m, p=0, sym=1, na=1); C("P21", h, op=op, n=n, m=m, p=0, sym=1, na=2)
for op in ("recon", "geom"):
    for (m, l) in ((1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2)):
        for sy in (1, 2, 3): C("P21", h, op=op, m=m, l=l, p=0, sym=sy, phase=sy % 2, stale=sy % 2); C("P21", h, op=op, m=m, l=l, p=0, sym=sy, every=2)
        C("P21", h, op=op, m=m, l=l, p=101, sym=0); C("P21", h, op=op, m=m, l=l, p=0, sym=0)
    for dd in (0, 1, 2, 3):
        for l in (2 * dd, 2 * dd + 1, 2 * dd + 2):
            if l:
                for ph in (0, 1, 2): C("P21", h, op=op, m=1, l=l, dd=dd, p=0, sym=2, phase=ph); C("P21", h, op=op, m=1, l=l, dd=dd, p=0, sym=1, phase=ph)
# larger moduli and block sizes
for n in (8, 13, 20):
    for up in (0, 1):
        for (l, s_) in ((1, 1), (3, 2), (5, 4)): C("P21", h, op="pows", n=n, l=l, s=s_, up=up, p=0, uni=1, sym=2, every=3, phase=n - 2, gsym=0, stale=up); C("P21", h, op="pows", n=n, l=l, s=s_, up=up, p=1125899906842597, uni=1, sym=1, phase=1, paths=20)
for (n, m) in ((12, 3), (15, 2), (20, 4), (21, 5), (33, 4)):
    for op in ("seq", "naive"):
        for ph in (0, n - 1): C("P21", h, op=op, n=n, m=m, p=0 if ph else 1125899906842597, uni=1, sym=2 if ph or n < 13 else (1 if n < 30 else 0), every=3, phase=ph, gsym=0, paths=20, stale=1, monic=1 if ph else 0); C("P21", h, op=op, n=n, m=m, p=0, uni=1, sym=0)
for op in ("recon", "geom"):
    for (m, l) in ((1, 12), (2, 9), (3, 6), (4, 8), (5, 4), (2, 40)): C("P21", h, op=op, m=m, l=l, p=0, uni=1, sym=0); C("P21", h, op=op, m=m, l=l, p=0, uni=1, sym=1, phase=m * m * (l - 1), stale=1, paths=20); C("P21", h, op=op, m=m, l=l, p=0, uni=1, sym=1, phase=l - 1, paths=20)
# --- P24: Magma and Sage output
h = "h_print"
for mg in (0, 1):
    C("P24", h, op="init", magma=mg, p=0, sym=0); C("P24", h, op="init", magma=mg, p=101, sym=0)
    for nm in ("", "A1"):
        for n in (0, 1, 2, 4):
            for pr in (0, 101): C("P24", h, op="zzp", magma=mg, name=nm, n=n, p=pr, sym=8)
            for m in (0, 1, 2, 3): C("P24", h, op="mzzp", magma=mg, name=nm, n=n, m=m, p=0, sym=12)
            if n < 3:
                for op in ("long", "ulong", "ZZ"): C("P24", h, op=op, magma=mg, name=nm, n=n, p=0, sym=0)
                for v in ("", "t", "y2"): C("P24", h, op="ZZX", magma=mg, name=nm, n=n, var=v, p=0, sym=0)
        for v in ("", "t", "y2"):
            for ln in (0, 1, 2, 4, 6): C("P24", h, op="poly", magma=mg, name=nm, var=v, len=ln, p=0, sym=8); C("P24", h, op="poly", magma=mg, name=nm, var=v, len=ln, p=101, sym=1, phase=ln // 2)
            for n in (0, 1, 2, 3):
                C("P24", h, op="vpoly", magma=mg, name=nm, var=v, n=n, len=2, p=0, sym=4)
                for m in (0, 1, 2): C("P24", h, op="mpoly", magma=mg, name=nm, var=v, n=n, m=m, len=2, p=0, sym=4)

# ---- flint-extras
h = "hf_forms"
for o in range(4):
    for sh in range(-1, 7):
        for case in ("degree", "degree0", "pivind", "pivprof", "vecpiv", "degmat", "lmat"):
            if case in ("degree", "degree0") and o in (1, 2): continue
            C("P25", h, case=case, orient=o, shift=sh, m=2, n=2, len=2, p=0)
            C("P25", h, case=case, orient=o, shift=sh, m=1, n=3, len=2, p=3); C("P25", h, case=case, orient=o, shift=sh, m=3, n=1, len=2, p=3)
        for f in (1, 2, 3, 4):
            C("P25", h, case="form", form=f, orient=o, shift=sh, m=2, n=2, len=2, p=0)
            C("P25", h, case="form", form=f, orient=o, shift=sh, m=2, n=3, len=2, p=3, sym=9); C("P25", h, case="form", form=f, orient=o, shift=sh, m=3, n=2, len=2, p=3, sym=9, zr=0)
            C("P25", h, case="form", form=f, via=1, orient=o, shift=sh, m=2, n=2, len=2, p=3, sym=6)
    for case in ("echind", "echprof"):
        for (m, n) in ((2, 2), (1, 3), (3, 1), (2, 3)): C("P25", h, case=case, orient=o, m=m, n=n, len=2, p=5, sym=8)
    for f in (5, 6):
        for (m, n, zr) in ((2, 2, -1), (1, 2, -1), (2, 1, -1), (2, 3, -1), (3, 2, -1), (3, 3, 0), (3, 3, 2)):
            for via in (0, 1): C("P25", h, case="form", form=f, via=via, orient=o, m=m, n=n, len=2, p=5, sym=9, zr=zr)
    C("P25", h, case="degmat", plain=1, orient=o, m=2, n=3, len=2, p=5)
h = "hf_mat"
for p in (0, 5):
    for case in ("pluq", "null", "nullc"):
        for (m, n) in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)): C("P27", h, case=case, m=m, n=n, p=p)
        for (m, n, sy) in ((3, 3, 6), (4, 3, 4), (3, 4, 4), (5, 5, 2), (5, 3, 3), (3, 6, 3)):
            for kw in (dict(), dict(dup=1), dict(zr=0), dict(dup=0, zr=2)): C("P27", h, case=case, m=m, n=n, p=p, sym=sy, every=3, **kw)
    for case in ("mul", "mulv", "mulp"):
        for (m, n, q) in ((1, 1, 1), (2, 3, 2), (3, 2, 2), (2, 2, 2)): C("P27", h, case=case, m=m, n=n, q=q, p=p)
    for al in (1, 2): C("P27", h, case="mul", m=2, n=2, q=2, p=p, alias=al)
for op in range(4):
    for (m, n) in ((1, 1), (2, 2), (3, 4), (4, 3)): C("P27", h, case="rot", op=op, m=m, n=n, p=5)
for pm in range(24):
    for (m, n) in ((2, 4), (4, 4), (4, 2)):
        C("P27", h, case="permc", m=m, n=n, perm=pm, store=(pm * 7 + 3) % 24, p=5)
        if pm < 2 or n > 2:
            for cw in (0, 1): C("P27", h, case="pperm", m=m, n=n, perm=pm, store=(pm * 5 + 1) % 24, col=cw, p=5, sym=2, nostore=int(pm % 5 == 4))
    C("P27", h, case="mpperm", m=4, n=2, perm=pm, store=(pm * 7 + 3) % 24, p=5, sym=4)
C("P27", h, case="permc", m=2, n=3, perm=3, nostore=1, p=5)
for cw in (0, 1):
    for (m, n) in ((1, 1), (2, 3), (3, 2), (4, 4)):
        for ns in (0, 1):
            for case in ("pswap", "pinv") + (() if cw else ("prot",)): C("P27", h, case=case, m=m, n=n, col=cw, nostore=ns, p=5, sym=4)
    for v in range(27):
        C("P27", h, case="psort", m=3, n=3, vec=v, col=cw, p=5, sym=3); C("P27", h, case="psort", m=4, n=4, vec=(v * 17 + 5) % 81, r=v % 5, col=cw, p=5, sym=2)
for (m, n) in ((1, 1), (2, 2), (1, 2), (2, 1)): C("P27", h, case="punim", m=m, n=n, p=5, len=2); C("P27", h, case="punim", m=m, n=n, p=0, len=2, sym=5)
C("P27", h, case="punim", m=3, n=3, p=3, len=2, sym=6)
for pre in (0, 1, 4):
    for (m, n) in ((2, 2), (1, 3)):
        for ln in (0, 1, 3):
            k = dict(m=m, n=n, len=ln, pre=pre, p=5, sym=6)
            for case in ("mpone", "mpset", "mpfrom", "mpto"): C("P27", h, case=case, **k)
            C("P27", h, case="mpone", zero=1, **k); C("P27", h, case="mpfromc", **k)
            for o in (0, 1, 2, 3, 5): C("P27", h, case="mpfrom", o=o, **k); C("P27", h, case="mpto", o=o, **k); C("P27", h, case="mpshift", o=o, **k)
            if pre == 0:
                C("P27", h, case="mpset", alias=1, **k); C("P27", h, case="mpfromc", init=1, **k); C("P27", h, case="mpeval", **k); C("P27", h, case="mpeval", x0=1, **k)
                for o in (0, 1, 2, 3, 5): C("P27", h, case="mptrunc", o=o, **k); C("P27", h, case="mptrunc", o=o, realloc=1, **k); C("P27", h, case="mpshift", o=o, alias=1, **k)
                for lb in (0, 1, 2, 4): C("P27", h, case="mpcoeff", lb=lb, q=2, **k)
# functions for generic input: kernels of [X^d I + A; V], Popov approximant bases with the uniform shift, one column
h = "h_basis"
for (d, m, n) in [(1, m, n) for m in (1, 2, 4) for n in (1, 2, 3, 4)] + [(1, 1, 5), (1, 1, 6), (1, 2, 5), (1, 2, 7), (1, 3, 5)] + [(d, m, n) for d in (2, 3, 4) for m in (1, 2, 3) for n in (1, 2, 3) if (d, m, n) != (4, 2, 3)] + [(2, 1, 5), (3, 1, 4), (2, 2, 5), (5, 1, 2), (9, 1, 2), (17, 1, 2), (17, 1, 1), (17, 2, 3), (0, 1, 2), (0, 2, 1)]:
    for st in (0, 1) if d < 2 else (0,): C("P14", h, case="kergen", m=m, n=n, len=d, p=0, uni=1, sym=0, stale=st); C("P14", h, case="kergen", m=m, n=n, len=d, p=0, uni=1, sym=0, stale=st, seed=5)
    if d and m + n < 5 and d < 4: C("P14", h, case="kergen", m=m, n=n, len=d, p=0, uni=1, sym=2, every=3, generic=True); C("P14", h, case="kergen", m=m, n=n, len=d, p=0, uni=1, sym=2, every=2, phase=n, generic=True)
for (d, m, n) in ((1, 3, 4), (2, 2, 7), (2, 3, 4), (4, 2, 3), (1, 3, 6), (1, 4, 5)): C("P14", h, case="kergen", m=m, n=n, len=d, p=0, uni=1, sym=0, min=0)
C("P14", h, case="kergen", m=3, n=4, len=1, p=0, uni=1, sym=0)
for (m, n, o) in ((2, 1, 1), (2, 1, 2), (2, 1, 3), (2, 1, 5), (3, 1, 1), (3, 1, 4), (3, 1, 5), (3, 2, 1), (3, 2, 2), (3, 2, 4), (4, 1, 3), (4, 2, 3), (5, 2, 3), (5, 3, 2), (2, 2, 2), (2, 3, 2), (1, 1, 3)):
    for op in ("pop", "resc"):
        C("P12", h, case="popgen", op=op, m=m, n=n, order=o, len=o, p=0, uni=1, sym=0); C("P12", h, case="popgen", op=op, m=m, n=n, order=o, len=o, p=0, uni=1, sym=2, every=2, generic=True)
        C("P12", h, case="popgen", op=op, m=m, n=n, order=o, len=(o + 1) // 2, p=0, uni=1, sym=1, phase=1, generic=True); C("P12", h, case="popgen", op=op, m=m, n=n, order=o, len=o + 2, p=101, uni=1, sym=0, stale=1)
for (m, n, o) in ((2, 1, 33), (3, 1, 32), (3, 2, 35), (2, 2, 32)): C("P12", h, case="popgen", op="pop", m=m, n=n, order=o, len=o, p=0, uni=1, sym=0)
for (m, o) in ((1, 1), (1, 3), (2, 2), (2, 4), (2, 8), (3, 3), (3, 6), (4, 4), (4, 12), (5, 10)):
    for ln in (o, o - 1, o + 3):
        for op in ("mb", "pm"): C("P12", h, case="onecol", op=op, m=m, order=o, len=max(1, ln), p=0, uni=1, sym=0); C("P12", h, case="onecol", op=op, m=m, order=o, len=max(1, ln), p=0, uni=1, sym=2 if o < 7 else 1, every=2, generic=True) if m < 4 and o < 7 else None
for (m, o) in ((1, 17), (1, 32), (1, 40), (2, 64), (3, 96), (3, 60), (4, 128), (2, 128)): C("P12", h, case="onecol", op="pm", m=m, order=o, len=o, p=0, uni=1, sym=0); C("P12", h, case="onecol", op="pm", m=m, order=o, len=o - 1, p=0, uni=1, sym=0, seed=4)
# zero patterns: anti-triangular constant terms, dropped coefficients; kernels over fields around the number of points needed
h = "h_basis"
for sh in (0, 1, 4):
    for p in (0, 2, 5):
        for (m, n) in ((3, 2), (4, 3), (5, 3), (6, 4)):
            C("P12", h, case="app", op="m1", m=m, n=n, len=1, order=1, shift=sh if sh < 4 else 0, p=p, anti=1, uni=1, sym=3, every=2); C("P12", h, case="app", op="popm1", m=m, n=n, len=1, order=1, shift=sh, p=p, anti=1, sym=3, every=3, phase=1)
            for op in ("rescomp", "resupdate", "mbasis", "pmbasis", "popmbasis"): C("P12", h, case="app", op=op, m=m, n=n, len=2, order=3, shift=sh, p=p, anti=1, uni=1, sym=1, every=9)
for sd in (1, 2, 3, 4, 5, 6):
    for op in ("rescomp", "resupdate", "mbasis", "pmbasis", "popmbasis", "poppmbasis", "iter", "popiter"):
        for (m, n, ln, o) in ((3, 2, 3, 4), (4, 3, 2, 3), (4, 1, 4, 6)): C("P12", h, case="app", op=op, m=m, n=n, len=ln, order=o, shift=sd % 6, p=(0, 7)[sd % 2], sparse=sd, uni=1, sym=3)
    for op in ("rescomp", "resupdate", "mbasis", "pmbasis", "popmbasis", "poppmbasis", "pmeval", "geo", "geoev"): C("P13", h, case="int", op=op, m=4, n=2, len=3, order=3, shift=sd % 6, p=0, sparse=sd, uni=1, sym=3)
    for op in ("app", "int", "zls", "zlsint", "auto"):
        for (m, n, ln) in ((3, 2, 2), (4, 2, 3), (5, 2, 2)): C("P14", h, case="ker", op=op, m=m, n=n, len=ln, shift=sd % 3, p=0 if op[-3:] == "int" else (0, 7)[sd % 2], sparse=sd, uni=1, sym=2)
for op in ("int", "zlsint"):
    for p in (3, 7, 13, 17, 23, 31, 43, 61):
        for (m, n, ln, sh) in ((2, 1, 2, 0), (3, 1, 3, 1), (3, 2, 2, 0), (4, 2, 2, 1), (4, 3, 1, 0)): C("P14", h, case="ker", op=op, m=m, n=n, len=ln, shift=sh, p=p, sym=2 if m < 4 and p < 31 else 1, uni=1)
# many rows (ties among many shift entries), long orders with offsets
for (m, n) in ((18, 1), (20, 3), (24, 12), (19, 18)):
    for sh in (0, 3, 7):
        for op in APP:
            if op in ("iter", "popiter", "general", "genpopov") and m > 20: continue
            C("P12", h, case="app", op=op, m=m, n=n, len=2 if op[-2:] != "m1" else 1, order=2 if op[-2:] != "m1" else 1, shift=sh, p=0 if sh else 5, uni=1, sym=1, phase=9)
        for op in ("rescomp", "resupdate", "mbasis", "popmbasis", "pmeval", "geoev", "pmbasis", "geo"): C("P13", h, case="int", op=op, m=m, n=n, len=2, order=2, shift=sh, p=0, uni=1, sym=1, phase=9)
for (m, n) in ((17, 1), (18, 3), (20, 5)):
    for op in ("app", "int", "zls", "zlsint", "auto"):
        for sh in (0, 7): C("P14", h, case="ker", op=op, m=m, n=n, len=2, shift=sh, p=0, uni=1, sym=1, phase=9)
for op in ("pmeval", "geoev"):
    for (m, n, o) in ((2, 1, 35), (3, 2, 70), (2, 1, 131)):
        for off in (0, 1, 5): C("P13", h, case="int", op=op, m=m, n=n, len=o, order=o, shift=off, p=0, uni=1, sym=1, free=1, phase=m * n * (o - 1), off=off)
for op in ("rescomp", "resupdate", "mbasiso"):
    for off in (1, 3): C("P13", h, case="int", op=op, m=4, n=2, len=6, order=6, shift=3, p=0, uni=1, sym=1, phase=5, off=off)
