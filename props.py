"""Which harness entries decide which property, within which bounds."""

ASSUMPTIONS = [
    "rustc's lowering of the source to LLVM IR (debug assertions and overflow checks on) and the executor's IR semantics; paths of each run are replayed on the native build",
    "Z3 4.8.12 and the executor's term rewriting (an equality found by rewriting alone is put to Z3 where it is small enough)",
    "formatting of error and panic texts is not executed; allocation never fails",
]


def J(entry, *params, **kw):
    d = {"entry": entry, "params": list(params)}
    d.update(kw)
    return d


def c01(t):
    if t == "quick":
        return [J("c01_blocks", 8), J("c01_any", reach=[])] + [J("c01_encrypt", 200, split=8), J("c01_blocks", 300, weight=9), J("c01_long", 16384, 16384, 1, weight=9), J("c01_long", 70000, 70001, 0)]
    return ([J("c01_any", reach=[]), J("c01_blocks", 3000), J("c01_encrypt", 700, split=32)] + [J("c01_long", n - 1, n + 1, 1, weight=9) for n in (4096, 16384, 20000, 65536)]
            + [J("c01_long", 2097151, 2097151, 0, weight=9)])


def c05(t):
    hi = 200 if t == "quick" else 700
    return ([J("c05_sha256", a, min(a + 24, hi)) for a in range(0, hi, 25)] + [J("c05_long", n, n + 1, weight=5) for n in (8191, 16384, 65535)]
            + ([] if t == "quick" else [J("c05_long", n, n, weight=9) for n in (8190, 65534, 1048575)]))


def c06(t):
    if t == "quick":
        return ([J("c06_hmac", a, min(a + 10, 130), m, m) for m in (0, 55, 56, 119) for a in range(0, 131, 11)]
                + [J("c06_hmac", k, k, a, min(a + 32, 130)) for k in (0, 32, 64, 65, 200) for a in range(0, 131, 33)])
    return [J("c06_hmac", k, k, a, a + 65) for k in range(0, 200) for a in (0, 66)]


def c07(t):
    if t == "quick":
        return [J("c07_prf", 48, 77, 2, 70, split=8), J("c07_edges", 3, split=8), J("c07_prf", 0, 0, 1, 40), J("c07_prf", 65, 3, 1, 40)]
    return [J("c07_prf", 48, 77, 2, 140, split=32), J("c07_prf", 32, 13, 3, 40, split=48), J("c07_edges", 4, split=32),
            J("c07_prf", 0, 0, 2, 40), J("c07_prf", 65, 3, 2, 40), J("c07_prf", 200, 120, 1, 200)]


def c13(t):
    hi = 80 if t == "quick" else 300
    return [J("c13_compare", a, min(a + 9, hi)) for a in range(0, hi + 1, 10)]


def c03(t):
    if t == "quick":
        return [J("c03_seal", a, a + 16, 0) for a in range(0, 136, 17)] + [J("c03_seal", a, a, 34) for a in (0, 1, 16, 31)] + [
            J("c03_long", a, b, n, 0, weight=3) for a, b, n in ((255, 257, 13), (255, 257, 256), (16384, 16385, 13), (65535, 65537, 300))]
    return [J("c03_long", a, a + 2, n, 0, weight=3) for a in (254, 511, 1023, 4095, 16384, 32767, 65534, 100000) for n in (0, 13, 255, 256, 65536)] + [J("c03_seal", a, a + 16, 0) for a in range(0, 500, 17)] + [J("c03_seal", a, a, 70) for a in range(0, 66)]


def c04(t):
    if t == "quick":
        return ([J("c04_open", 0, 15, 0, reach=[3])] + [J("c04_open", a, a + 4, 0, reach=[1, 2]) for a in range(16, 86, 5)]
                + [J("c04_open", a, a, 34, reach=[1, 2], split=2) for a in (16, 33)] + [J("c04_roundtrip", a, a + 16, 0) for a in range(0, 85, 17)]
                + [J("c03_long", a, b, n, 1, weight=3, reach=[1, 2, 3]) for a, b, n in ((255, 257, 13), (255, 257, 256), (16384, 16385, 13), (65535, 65537, 300))])
    return ([J("c03_long", a, a + 2, n, 1, weight=3, reach=[1, 2, 3]) for a in (254, 511, 1023, 4095, 16384, 32767, 65534, 100000) for n in (0, 13, 255, 256, 65536)] + [J("c04_open", a, a + 9, 0, reach=[3] if a < 16 else [1, 2]) for a in range(6, 400, 10)]
            + [J("c04_open", a, a, 70, reach=[1, 2]) for a in range(16, 82)] + [J("c04_roundtrip", a, a + 16, 0) for a in range(0, 400, 17)])


def messages(t):
    q = t == "quick"
    js = [J("k01_message", 255, 0, 7 if q else 9, reach=[1, 2]), J("k01_message", 11, 0, 14 if q else 20), J("k01_message", 13, 0, 14 if q else 18, reach=[1, 2]),
          J("k01_message", 20, 10, 14, reach=[1, 2]), J("k01_message", 12, 0, 40), J("k01_message", 16, 0, 40)]
    js += [J("k01_message", ty, 0, 3, reach=[1, 2]) for ty in (0, 14)]
    for ty in (1, 2):
        js += [J("k01_hello", ty, i, 0, (12 if i == 0 else 9) if q else 16, reach=[2] if i == 3 else [1, 2]) for i in range(4)]
        js += [J("k01_extensions", ty, 0, 14 if q else 20, reach=[1, 2])]
        js += [J("k01_known_extension", ty, e, 0, 9 if q else 14, reach=[1, 2]) for e in (10, 11, 13)]
    return js


def k02(t):
    js = [J("k02_hello", 0, split=2), J("k02_hello", 1, split=8), J("k02_ints"), J("k02_codes")] + [J("k02_message", i) for i in range(7)]
    q = t == "quick"
    js += [J("k02_long", 0, n, weight=5) for n in ((300, 70000) if q else (300, 65528, 65536, 300000))] + [J("k02_long", i, n, weight=2) for i in (1, 2) for n in (65535, 65536, 70000, 8400000)]
    js += [J("k02_long", i, n) for i in (3, 4) for n in (255, 256, 4096, 16383, 16384, 32768, 65526)] + [J("k02_long", i, n, weight=4) for i in (5, 6) for n in (256, 40000, 65533)]
    js += [J("k02_long", 7, n, weight=4) for n in ((127, 255, 300, 1000) if q else (127, 128, 255, 300, 1000, 16384, 32766))]
    return js + [J("k02_refuse", i, reach=[1, 2]) for i in range(4)]


def k03(t):
    js = [J("k03_item", i, 0, 10 if t == "quick" else 16, reach=[1] if i == 23 else [1, 2]) for i in range(24) if i not in (18, 21, 22)]
    js += [J("k03_item", 18, 0, 14 if t == "quick" else 20, reach=[1, 2]), J("k03_item", 21, 30, 33, reach=[1, 2]), J("k03_item", 22, 10, 14, reach=[1, 2]),
           J("k03_arrays", 0, 40, reach=[])]
    js += [J("k03_new", 0, 0, 34, reach=[1, 2])]
    js += [J("k03_new", i, 0, 3, reach=[1, 2] if i in (1, 2, 3, 4, 5, 7, 8, 9, 10) else [1]) for i in range(1, 14) if i < 11]
    js += [J("k03_new", i, 0, 3, k) for i in (11, 12, 13) for k in (1, 5)]
    js += [J("k03_new", i, 254, 256, reach=[1, 2]) for i in (1, 4, 7, 10)]
    js += [J("k03_new", i, 32766, 32768, reach=[1, 2], weight=5) for i in (2, 3, 5)]
    js += [J("k03_new", i, 65534, 65536, reach=[1, 2], weight=5) for i in (6, 8)]
    js += [J("k03_new", 12, 1, 2, 32766, reach=[1, 2], weight=3), J("k03_new", 13, 1, 2, 32764, reach=[1, 2]), J("k03_new", 9, 65535, 65537)]
    return js + messages(t)


def k04(t):
    q = t == "quick"
    js = [J("k04_stream", 0, 12 if q else 14, reach=[1, 2], split=1 if q else 8)]
    js += [J("k04_message", ty, 0, 14 if q else 20, reach=[1, 2]) for ty in (11, 13, 20)]
    js += [J("k04_message", ty, 34, 48 if q else 54, reach=[1, 2]) for ty in (1, 2)]
    js += [J("k03_item", i, 0, 12 if q else 18, reach=[2]) for i in (15, 17, 18, 19, 9)]
    js += [J("k04_records", 0, 0, 11 if q else 14, 0, 0), J("k04_records", 1, 0, 15 if q else 18, 2, 0), J("k04_records", 1, 0, 15 if q else 18, 2, 1), J("k04_records", 1, 10, 26, 16, 0)]
    return js


def k05(t):
    q = t == "quick"
    js = [J("k05_any", 0, 9, 2, reach=[1, 2]), J("k05_any", 0, 8, 3, reach=[1, 2]), J("k05_any", 0, 6, 4, reach=[1, 2])]
    js += [J("k05_stream", i, 2, reach=[1, 2] if i != 1 else [1]) for i in range(6)]
    js += [J("k05_records", i, 3) for i in range(3)]
    js += [J("k05_long", n, s, weight=3) for n, s in (((300, 1), (70000, 16384)) if q else ((300, 1), (300, 7), (40000, 100), (70000, 16384), (70000, 16383), (300000, 16384)))]
    if not q:
        js += [J("k05_records", i, 5, split=4) for i in range(3)]
        js += [J("k05_any", 0, 10, 3, reach=[1, 2], split=8), J("k05_any", 0, 9, 5, reach=[1, 2], split=8)]
        js += [J("k05_stream", i, 3, split=8, reach=[]) for i in range(6)]
    return js


def k06(t):
    q = t == "quick"
    n = 7 if q else 10
    js = [J("k06_read", 0, 0, n, n, reach=[1, 2]), J("k06_read", 1, 0, n, n, reach=[1, 2])]
    return js + [J("k06_read", i, 0, 9 if q else 12, reach=[1, 2]) for i in range(2, 10)]


def r01(t):
    hi = 40 if t == "quick" else 300
    js = [J("r01_data", a, 0, hi, h) for a in (0, 1) for h in range(5) if (a, h) not in ((0, 3), (0, 4))]
    js += [J("r01_data", a, n - 1, n + 1, h) for a, h in ((0, 2), (1, 2), (1, 4)) for n in (16384, 32768, 49152)]
    js += [J("r01_message", n) for n in (0, 1, 2, 3, 40, 16381, 16382, 16383, 16400, 33000)] + [J("r01_early", reach=[])]
    js += [J("r01_limit", n, 0, reach=[1] if n <= 16384 else []) for n in (1, 16384, 16385, 16400, 65535, 65536, 70000)]
    js += [J("r01_limit", n, pad, reach=[1] if n <= 16384 and n + pad <= 18432 else []) for n, pad in (
        (16384, 16), (16384, 2048), (16384, 2049), (16385, 1), (0, 18432), (0, 18433), (16000, 2432), (16000, 2433), (0, 65536), (1, 65536))]
    return js + [J("r01_fail", n, reach=[1] if n == 0 else [1, 2]) for n in ((0, 1, 5, 9) if t == "quick" else range(30))]


def r02(t):
    q = t == "quick"
    js = [J("r02_write", 1), J("r02_write", 2), J("r02_write", 20), J("r02_many", 300 if q else 65538, weight=9), J("r02_read", 1), J("r02_read", 2),
          J("r02_read", 3), J("r02_read", 20), J("r02_read_many", 300 if q else 65538, weight=9), J("r02_any_write", reach=[]), J("r02_any_read", reach=[])]
    return js if q else js + [J("r02_write", 3, split=8)]


def r03(t):
    q = t == "quick"
    js = [J("r03_read", 0, 0, 12 if q else 16, 0, reach=range(1, 7), split=1 if q else 8), J("r03_read", 1, 5, 24 if q else 26, 16, reach=[1, 2, 3, 4, 6]),
          J("r03_read", 1, 0, 14 if q else 17, 2, reach=range(1, 7), split=1 if q else 8), J("r03_read", 1, 5, 12, 0, reach=range(1, 7))]
    js += [J("r03_declared", 1, 18433, 65535), J("r03_declared", 0, 18433, 65535)] + [J("r03_declared", 0, a, b) for a, b in ((16385, 16387), (18431, 18432))]
    js += [J("r03_big", 0, n, h, 0, reach=r) for n, h, r in ((16384, 16384, [1]), (16384, 16383, [2]), (16385, 16385, [2]), (18432, 18432, [2]),
           (18433, 18433, [2]), (16385, 100, [2]), (65535, 65535, [2]))]
    js += [J("r03_big", 1, n, h, d, reach=r) for n, h, d, r in ((16384, 16384, 16384, [1]), (18432, 18432, 16385, []), (18432, 18432, 16384, [1]), (18432, 18431, 16384, [2]),
           (18433, 18433, 16384, [2]), (65535, 10, 0, [2]), (65535, 65535, 100, [2]), (16400, 16400, 0, [1]), (16401, 16401, 0, []), (18432, 18432, 0, []), (40, 40, 17000, []))]
    return js


def r04(t):
    q = t == "quick"
    js = [J("r04_network", i) for i in range(5)]
    js += [J("r04_real", k, n) for k, n in ((1, 1), (1, 20), (2, 1), (3, 3), (2, 70), (1, 300))]
    return js if q else js + [J("r04_real", k, n) for k in (1, 2, 3) for n in (0, 15, 16, 17, 63, 64, 65, 128, 400)]


def r05(t):
    q = t == "quick"
    js = [J("r05_sequence", 2, 4, reach=[1, 2], split=2), J("r05_sequence", 3, 0, reach=[1, 2], split=2), J("r05_sequence", 3, 2, 22, reach=[1, 2], split=2), J("r05_activation")]
    return js if q else js + [J("r05_sequence", 2, 6, reach=[1, 2], split=8), J("r05_sequence", 3, 4, reach=[1, 2], split=16), J("r05_sequence", 3, 4, 22, reach=[1, 2], split=8), J("r05_sequence", 4, 2, 22, reach=[1, 2], split=8)]


def r06(t):
    q = t == "quick"
    js = [J("r06_stream", 1, reach=[1, 2, 3]), J("r06_stream", 2, reach=[1, 2, 3]), J("r06_stream", 3, reach=[1, 2, 3])]
    return js if q else js + [J("r06_stream", 4, reach=[1, 2, 3], split=8)]


UF = ["<husk::crypto::p256::Point256>::mult_scalar=o:0:96,i:1:96,i:2:32", "<husk::crypto::p256::Point256>::normalize=o:0:64,i:1:96"]
UF_ASSUME = ["in H01-H04 scalar multiplication and normalisation are uninterpreted functions (their values: C09); the mock server has the private key 1, so the shared point is the client's public one"]


def hs(js):
    for j in js:
        j["uf"] = UF
    return js


def h01(t):
    q = t == "quick"
    js = [J("h01_records", 0, 0, 200)] + [J("h01_records", 1, a, a + 19) for a in range(0, 141, 20)]
    js += [J("h01_order", i, reach=[2]) for i in range(9)] + [J("h01_hello", reach=[1, 2, 3])]
    js += [J("h01_exchange", i, reach=[2] if i == 1 else [1, 2]) for i in range(4)]
    js += [J("h01_finished", i, reach={4: [2], 6: [1], 7: [2], 8: [2]}.get(i, [1, 2])) for i in range(11)]
    return hs(js if q else js + [J("h01_records", k, a, a + 7) for k in (2, 3) for a in range(0, 141, 8)])


def h02(t):
    return hs([J("h02_flight", 0), J("h02_flight", 1), J("h02_shapes", split=4)])


def h03(t):
    js = [J("h01_order", i, reach=[2]) for i in range(9)] + [J("h01_hello", reach=[1, 2, 3]), J("h03_close")]
    js += [J("h01_exchange", i, reach=[2] if i == 1 else [1, 2]) for i in range(4)]
    js += [J("h01_finished", i, reach={4: [2], 6: [1], 7: [2], 8: [2]}.get(i, [1, 2])) for i in range(11)]
    return hs(js + [J("h03_writes", a, a + 24, reach=[]) for a in range(0, 224, 25)])


def h04(t):
    q = t == "quick"
    js = [J("h04_read", k, e, weight=2) for k in (0, 1) for e in range(5)] + [J("h04_read", 2, e, weight=9, split=2) for e in range(5)]
    js += [J("h04_large", 2, 16384, n) for n in (16384, 20000, 40000, 1000)] + [J("h04_large", 3, 5000, n) for n in (5000, 4999, 7001)]
    js += [J("h04_write", 1, 0, 20, 0), J("h04_write", 2, 0, 5, 0), J("h04_write", 1, 0, 3, 1), J("h04_write", 1, 13, 15, 1), J("h04_write", 1, 16383, 16386, 0, weight=9, split=2), J("h04_write", 1, 32767, 32769, 0, weight=9, split=4),
           J("h04_write", 3, 0, 2, 0)]
    return hs(js if q else js + [J("h04_read", 3, e, split=16) for e in range(5)] + [J("h04_write", 2, 0, 5, 1, split=4)])


FUF = ["<husk::crypto::p256::int256::Int256>::mult=o:0:32,i:1:32,i:2:32", "<husk::crypto::p256::int256::Int256>::square=o:0:32,i:1:32"]


def c11(t):
    q = t == "quick"
    js = [J("c11_good", 0, 32, 0), J("c11_good", 1, 96 if q else 320, 3), J("c11_good", 0, 64, 40)]
    js += [J("c11_short", 0, 8 if q else 12, reach=[2])] + [J("c11_mutated", i, reach=[2] if i in (4, 8) else [1, 2]) for i in range(9)]
    for j in js:
        j["uf"] = UF
    js += [J("c11_point", reach=[1, 2], uf=UF + FUF, no_native=True, weight=9)]
    return js


AUTH = ["husk::crypto::poly1305::authenticate=o:0:16,s:1:0,i:3:16,i:4:16"]


def c12(t):
    q = t == "quick"
    n = 1 if q else 3
    js = []
    for m in ("ct", "opt"):
        js += [dict(j, mode=m, no_native=True) for j in [J("c12_cipher", 0, 130 * n), J("c12_mac", 0, 66 * n), J("c12_hash", 0, 130 * n), J("c12_hmac", 0, 70 * n, 20),
               J("c12_hmac", 32, 32, 200), J("c12_prf"), J("c12_seal", 0, 40 * n, reach=[1, 2], uf=AUTH if m == "opt" else []), J("c12_compare", 0, 33 * n)]
               + [J("c12_field", i) for i in range(8)] + [J("c12_field", 8, uf=FUF), J("c12_point", 0, uf=FUF), J("c12_point", 1, uf=FUF)]]
    return js


I256 = "<husk::crypto::p256::int256::Int256>::"
PT = "<husk::crypto::p256::Point256>::"
FIELD = [I256 + x for x in ("add=add", "sub=sub", "double=double", "mult=mult", "square=square", "inverse=inverse", "divide_by_2=half",
                            "reduce_once=reduce", "reduce_once_zero=reduce", "compare=compare", "choose=choose")]
GROUP = [PT + x for x in ("double=gdouble", "add=gadd", "choose=gchoose")]


def c08(t):
    mul = [c for c in FIELD if c.rsplit("=")[1] in ("add", "sub", "double", "reduce")]
    return ([J("c08_linear", i) for i in range(10)] + [J("c08_mult", i, contract=mul, ints=True) for i in (0, 1)]
            + [J("c08_inverse", contract=[I256 + "mult=xmult", I256 + "square=xsquare"])])


def c02(t):
    q = t == "quick"
    js, hi = [], 70 if q else 210
    # every length but 13 mod 16 (the padding byte then makes a whole limb of the last block constant)
    lo = 0
    while lo < hi:
        b = (lo + 2) // 16 * 16 + 13
        js += [J("c02_tag", a, min(a + 4, b - 1), 0, ints=True, weight=2) for a in range(lo, b, 5)]
        lo = b + 1
    for n in ([127, 128, 255, 256, 1024] if q else [255, 256, 257, 511, 512, 1000, 1024, 2048]):
        js.append(J("c02_tag", n, n, 0, ints=True, weight=3))
    # a constant r: where solutions are numbers, and the tag's bits can be asked for
    js += [J("c02_tag", n, n, 1, ints=True, weight=4) for n in ([13, 16, 29, 32, 45, 48] if q else [13, 14, 16, 29, 31, 32, 45, 48, 61, 64])]
    for r in [2, 3, 60, 124] if q else [2, 3, 10, 28, 35, 60, 100, 124]:
        js += [J("c02_tag", n, n, r, ints=True, weight=4) for n in (13, 16)]
    return js


def c09(t):
    js = [J("c09_add", i, contract=FIELD) for i in range(9)] + [J(e, contract=GROUP) for e in ("c09_ladder", "c09_base")]
    return js + [J("c09_order", i, weight=5) for i in range(8)]


def c10(t):
    js = [J("c10_canonical", reach=[1, 2], contract=FIELD)] + [J("c10_range", i, uf=FUF) for i in (0, 1)]
    hi = 130 if t == "quick" else 600
    return js + [J("c10_shape", a, min(a + 99, hi)) for a in range(0, hi + 1, 100)] + [J("c10_base"), J("c10_points", reach=[1, 2])]


PROPS = {
    "C08": dict(feature="field", jobs=c08, outside="-",
        assumptions=["in multiplication, addition, subtraction, doubling and reduction by their contracts (c08_linear); in inversion, multiplication and squaring by theirs (c08_mult)"],
        bounds="no bound: every pair of 256-bit field elements for each operation; every 256-bit string for reduction, equality, selection and conversion; lengths 0..80 for decoding"),
    "C02": dict(feature="crypto", jobs=c02, outside="longer messages; lengths 13 mod 16 for arbitrary r",
        bounds=lambda t: "every message, every 32-byte key, at every length 0..=%d that is not 13 mod 16 and at %s; every message with single-bit r at a few lengths, 13 mod 16 among them" % ((76, "127, 128, 255, 256, 1024") if t == "quick" else (220, "255-257, 511, 512, 1000, 1024, 2048"))),
    "C09": dict(feature="point", jobs=c09, assumptions=["field operations by their contracts (C08); in the ladder, point addition and doubling by theirs (c09_add)"],
        outside="nothing but the contracts: the ladder is followed for every scalar bit by bit",
        bounds="every pair of operands of addition, in any projective coordinates, in each case (different x, equal, opposite, identity on either side), doubling, normalisation; every 256-bit scalar times G or any point, as multiples of it; the whole code on scalars 0, 1, 2, n-1, n, n+1, n+2, 2^256-1; the constants"),
    "C10": dict(feature="field", jobs=c10, assumptions=["for two coordinates below the prime, field operations by their contracts (C08)"], outside="longer inputs",
        bounds=lambda t: "every pair of coordinates below the prime; every pair with one at or above it; curve points with small coordinates, and the same plus the prime; every first byte; every length 0..=%d" % (130 if t == "quick" else 600)),
    "C12": dict(feature="ct", jobs=c12, modes=["ct", "opt"], outside="other lengths; what the code generator does after LLVM's optimiser, and vectorisation; debug assertions (absent from optimised builds)",
        assumptions=["in scalar multiplication and inversion, field multiplication is an uninterpreted function (decided by itself); opening, in the optimised build, takes the authenticator as one"],
        bounds=lambda t: "every secret value at each public length: data to %d bytes, keys to %d, authenticated data to %d, compared strings to %d; every field operation on any 256-bit values; scalar multiplication of G or any point by any scalar; on the IR as rustc emits it (no debug assertions) and on the optimised IR" % ((130, 70, 40, 33) if t == "quick" else (390, 210, 120, 99))),
    "R01": dict(feature="record", jobs=r01, outside="other sizes; the inside of long data (fixed bytes)",
        bounds=lambda t: "every content and content type, protected or not, of every length 0..=%d, around 1, 2 and 3 full records, messages to 33000 bytes; plaintext and ciphertext sizes around the limits; short writes; transport failing after any number of bytes" % (40 if t == "quick" else 300)),
    "R02": dict(feature="record", jobs=r02, outside="sequence number 2^64-1; other sizes",
        bounds=lambda t: "every IV and version; sequences of 1-2%s records of any types and sizes 0, 1, 2, 300, after 0-2 unprotected records; the first %d records of a connection, and every sequence number substituted for the count (the widest word of the structure that follows it)" % (("", 300) if t == "quick" else ("-3", 65538))),
    "R03": dict(feature="record", jobs=r03, outside="other lengths; the inside of long bodies",
        bounds=lambda t: "every content of inputs to %d bytes without cipher, to %d with an ideal one (tag lengths 0, 2, 16), ends of stream, errors and short reads; declared lengths around 2^14 and 2^14+2048 with the body there or short, every longer declared length with the body there; plaintexts around 2^14" % ((12, 24) if t == "quick" else (16, 26))),
    "R04": dict(feature="record", jobs=r04, outside="more and longer records",
        bounds="3 records of 1-2 arbitrary bytes under an ideal cipher: every drop, repeat and reorder (sequences up to 4), cut, altered byte (header or body) or shortened body, inserted record, read to the first error; the real cipher with every key on 1-3 records up to 300 bytes",
        assumptions=["in the network scenarios the cipher is ideal: it opens exactly what was sealed with that nonce and associated data"]),
    "R05": dict(feature="record", jobs=r05, outside="longer sequences",
        bounds=lambda t: "every sequence of 2 records of any type and content (handshake bodies to %d bytes) and of 3 (handshake bodies to %d), of 3 and more with fixed contents of any types, read by any order of the three readers; every cut of a Finished across key activation" % ((4, 0) if t == "quick" else (6, 4))),
    "R06": dict(feature="record", jobs=r06, outside="longer sequences",
        bounds=lambda t: "every sequence of 1..=%d records of any type and content with any one failing authentication, read past its end" % (3 if t == "quick" else 4)),
    "K01": dict(feature="codec", jobs=messages, outside="longer messages; more than two hello extensions after a known one",
        bounds=lambda t: "every content: any type with bodies up to %d bytes, each type with its interesting sizes, hellos with 0, 1, 32, 33-byte session ids and up to %d bytes after them, extension blocks up to %d bytes"
        % ((7, 12, 14) if t == "quick" else (9, 16, 20))),
    "K02": dict(feature="codec", jobs=k02, outside="other list lengths and extension combinations; an extension of a known type built as an unknown one",
        bounds="every content of messages built from the listed shapes (session ids 0, 1, 31, 32 bytes; 1-2 suites; all subsets of 4 extension kinds; 0-3 certificates; key exchange bodies to 300 bytes); certificates, key exchanges, extensions, names, signatures and code lists with long bodies (fixed but for a few bytes) at the sizes around 2^8, 2^14, 2^16 and to 8.4 MB; every integer; every named code point; the sizes at which extensions and handshake messages stop fitting"),
    "K03": dict(feature="codec", jobs=k03, outside="building a 2^24-byte certificate; the inside of long payloads (fixed bytes)",
        bounds="every vector type at 0..3 items and just below, at and above its maximum; every single-item decoder on every content up to 10 bytes; messages as in K01"),
    "K04": dict(feature="codec,record", jobs=k04, outside="longer inputs",
        bounds=lambda t: "every content: handshake streams up to %d bytes, message bodies up to %d bytes (hellos to %d), key-exchange parameters, alerts and records (with and without an ideal cipher); peak heap at most 128 KiB + 64 bytes per input byte" % ((12, 14, 48) if t == "quick" else (14, 20, 54))),
    "K05": dict(feature="codec,record", jobs=k05, outside="longer streams, more fragments",
        bounds=lambda t: "every stream of up to %s bytes in every division into 2, 3, 4 fragments; three-message streams of six type combinations (known, unknown, malformed) with any contents in every division into %d fragments; three-message streams cut into up to 3 records; messages of 300 and 70000 bytes in pieces of 1 to 16384" % (("9, 8, 6", 2) if t == "quick" else ("9, 10, 9 (5 fragments)", 3))),
    "K06": dict(feature="codec", jobs=k06, outside="longer reads",
        bounds=lambda t: "every content, every division into short reads, end of stream or error after 0..=%d bytes; fixed reads of 0..=%d bytes and all integer reads" % ((9, 7) if t == "quick" else (12, 10))),
    "C01": dict(feature="crypto", jobs=c01, bounds=lambda t: "every key, nonce and content; up to %s" % (
        "8 blocks, every length 0..=200 from block 0 or 1" if t == "quick" else "40 blocks, every length 0..=700 from block 0 or 1" + "; 16384 and 70000 bytes with any last 40; any two blocks in a row at any block counter below 2^32-2 (where the structure holds one)"),
        outside="longer inputs (the loop body is the same for every block); the last two counter values"),
    "C05": dict(feature="crypto", jobs=c05, bounds=lambda t: "every content of every length 0..=%d" % (200 if t == "quick" else 700),
        outside="longer messages"),
    "C06": dict(feature="crypto", jobs=c06, outside="longer keys and messages; other length pairs in the quick tier",
        bounds=lambda t: "every content; key lengths 0..=130 with message lengths 0, 55, 56, 119 and key lengths 0, 32, 64, 65, 200 with message lengths 0..=130"
        if t == "quick" else "every content; key lengths 0..=199 with message lengths 0..=131"),
    "C07": dict(feature="crypto", jobs=c07, outside="longer sequences of reads; other secret and seed lengths",
        bounds=lambda t: "every secret and seed content (lengths 48/77, 48/13, 0/0, 65/3%s); %s" % (
            ("", "2 reads of 0..=70 bytes each, 3 reads of sizes around multiples of 32") if t == "quick" else
            (", 32/13, 200/120", "2 reads of 0..=140 bytes, 3 reads of 0..=40, 4 reads of sizes around multiples of 32"))),
    "C13": dict(feature="crypto", jobs=c13, bounds=lambda t: "every pair of contents of every equal length 0..=%d" % (80 if t == "quick" else 300),
        outside="longer strings"),
    "C03": dict(feature="crypto", jobs=c03, outside="longer data; the one-time authenticator itself (C02), whose term the harness shares",
        bounds=lambda t: "every key, nonce, content; data lengths 0..=135 with 13-byte associated data, associated data 0..=33 with data lengths 0, 1, 16, 31"
        if t == "quick" else "every key, nonce, content; data lengths 0..=509 with 13-byte associated data, associated data 0..=69 with data lengths 0..=65"),
    "C04": dict(feature="crypto", jobs=c04, outside="longer data; the one-time authenticator itself (C02), whose term the harness shares",
        bounds=lambda t: "every key, nonce, content and tag; input lengths 0..=%d with 13-byte associated data, a few with associated data up to %d" % ((85, 33) if t == "quick" else (409, 69))),
    "C11": dict(feature="ecdhe", jobs=c11, assumptions=["scalar multiplication and normalisation (and, for arbitrary points, field multiplication) are uninterpreted functions: their values are C08-C10"],
        outside="more rejected draws; longer signatures",
        bounds=lambda t: "every value of the random source up to %d rejected scalars; every 65-byte point; every message to %d bytes; a good message with any curve type and curve, any lengths, any algorithms, any point prefix, any one bit of the point flipped, cut anywhere, extended by 1-3 bytes, points of 0..=80 bytes" % ((2, 8) if t == "quick" else (9, 12))),
    "H01": dict(feature="hs", jobs=h01, assumptions=UF_ASSUME, outside="more than one deviation at once; other server keys",
        bounds="a conforming flight in every division of its handshake bytes into one or two records; every version, suite, compression and random with 4 session id lengths and 5 extension blocks; every curve type, curve, point prefix; the key exchange cut or extended to any length; any one message left out, repeated, exchanged, replaced, preceded by another message or record, cut, in the clear or sealed; any Finished content and tag, any ChangeCipherSpec to 3 bytes, any record type; any first four bytes of a message"),
    "H02": dict(feature="hs", jobs=h02, assumptions=UF_ASSUME, outside="other flights",
        bounds="every client random, server random and shared secret for one flight; 10 flights of different shapes in 3 read sizes, with data both ways after"),
    "H03": dict(feature="hs", jobs=h03, assumptions=UF_ASSUME, outside="more than one deviation at once",
        bounds="the deviations of H01; a transport that ends or fails after any number of bytes of any record, or refuses writes from any byte on; closing"),
    "H04": dict(feature="hs", jobs=h04, assumptions=UF_ASSUME, outside="other sizes",
        bounds=lambda t: "0-%d records of 0, 1, 2, 3, 17 arbitrary bytes read with buffers of 1, 2, 4, 5, 40 bytes in any order, ended in five ways; records of 16384 and 5000 bytes with 7 buffer sizes; 1-3 writes of 0-20 bytes and around 1 and 2 full records, short writes, failing transport" % (2 if t == "quick" else 3)),
}
NOT_APPLICABLE = {}
