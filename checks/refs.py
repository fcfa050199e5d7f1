"""Reference values of the standards: computed from the defining formulas wherever the standard gives one, transcribed otherwise."""
from math import isqrt, sin


def gmul(a, b, poly=0x11b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= poly
        b >>= 1
    return r


def ginv(a, poly=0x11b):
    if a == 0:
        return 0
    for x in range(1, 256):
        if gmul(a, x, poly) == 1:
            return x


def rotl8(x, n):
    return ((x << n) | (x >> (8 - n))) & 0xff


def aes():
    sb = []
    for i in range(256):
        b = ginv(i)
        sb.append(b ^ rotl8(b, 1) ^ rotl8(b, 2) ^ rotl8(b, 3) ^ rotl8(b, 4) ^ 0x63)
    isb = [0] * 256
    for i, v in enumerate(sb):
        isb[v] = i
    ror = lambda x, n: ((x >> n) | (x << (32 - n))) & 0xffffffff
    te0 = [(gmul(s, 2) << 24) | (s << 16) | (s << 8) | gmul(s, 3) for s in sb]
    td0 = [(gmul(s, 14) << 24) | (gmul(s, 9) << 16) | (gmul(s, 13) << 8) | gmul(s, 11) for s in isb]
    pw, x = [], 1
    for _ in range(10):
        pw.append(x << 24)
        x = gmul(x, 2)
    r = {"AES S-box": sb, "AES inverse S-box": isb, "AES round constants": pw}
    for k in range(4):
        r["AES encryption table %d" % k] = [ror(v, 8 * k) for v in te0]
        r["AES decryption table %d" % k] = [ror(v, 8 * k) for v in td0]
    return r


def primes(n):
    p, x = [], 2
    while len(p) < n:
        if all(x % q for q in p if q * q <= x):
            p.append(x)
        x += 1
    return p


def icbrt(n):
    lo, hi = 0, 1 << ((n.bit_length() + 2) // 3 + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def frac_sqrt(p, bits):
    return isqrt(p << (2 * bits)) & ((1 << bits) - 1)


def frac_cbrt(p, bits):
    return icbrt(p << (3 * bits)) & ((1 << bits) - 1)


M64 = (1 << 64) - 1


def sha512_raw(msg, iv):
    K = [frac_cbrt(p, 64) for p in primes(80)]
    l = len(msg) * 8
    msg += b"\x80"
    while len(msg) % 128 != 112:
        msg += b"\0"
    msg += l.to_bytes(16, "big")
    h = list(iv)
    rr = lambda x, n: ((x >> n) | (x << (64 - n))) & M64
    for i in range(0, len(msg), 128):
        w = [int.from_bytes(msg[i + 8 * j:i + 8 * j + 8], "big") for j in range(16)]
        for j in range(16, 80):
            s0 = rr(w[j - 15], 1) ^ rr(w[j - 15], 8) ^ (w[j - 15] >> 7)
            s1 = rr(w[j - 2], 19) ^ rr(w[j - 2], 61) ^ (w[j - 2] >> 6)
            w.append((w[j - 16] + s0 + w[j - 7] + s1) & M64)
        a, b, c, d, e, f, g, hh = h
        for j in range(80):
            t1 = (hh + (rr(e, 14) ^ rr(e, 18) ^ rr(e, 41)) + ((e & f) ^ (~e & M64 & g)) + K[j] + w[j]) & M64
            t2 = ((rr(a, 28) ^ rr(a, 34) ^ rr(a, 39)) + ((a & b) ^ (a & c) ^ (b & c))) & M64
            a, b, c, d, e, f, g, hh = (t1 + t2) & M64, a, b, c, (d + t1) & M64, e, f, g
        h = [(x + y) & M64 for x, y in zip(h, (a, b, c, d, e, f, g, hh))]
    return h


def sha():
    iv512 = [frac_sqrt(p, 64) for p in primes(8)]
    iv384 = [frac_sqrt(p, 64) for p in primes(16)[8:]]
    base = [x ^ 0xa5a5a5a5a5a5a5a5 for x in iv512]
    return {
        "SHA-1 initial value": [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0],
        "SHA-1 round constants": [isqrt(n << 60) & 0xffffffff for n in (2, 3, 5, 10)],
        "SHA-224 initial value": [x & 0xffffffff for x in iv384],
        "SHA-256 initial value": [frac_sqrt(p, 32) for p in primes(8)],
        "SHA-256 round constants": [frac_cbrt(p, 32) for p in primes(64)],
        "SHA-384 initial value": iv384,
        "SHA-512 initial value": iv512,
        "SHA-512 round constants": [frac_cbrt(p, 64) for p in primes(80)],
        "SHA-512/224 initial value": sha512_raw(b"SHA-512/224", base),
        "SHA-512/256 initial value": sha512_raw(b"SHA-512/256", base),
    }


def md5():
    return {"MD5 initial value": [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]}


MD5_K = [int(abs(sin(i + 1)) * 2 ** 32) & 0xffffffff for i in range(64)]

# FIPS 46-3, bit numbers counted from 1 at the most significant end
IP = [58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8,
      57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7]
E = [32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17,
     16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1]
P = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25]
PC1 = [57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
       63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4]
PC2 = [14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
       41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32]
DES_S = """
14 4 13 1 2 15 11 8 3 10 6 12 5 9 0 7 0 15 7 4 14 2 13 1 10 6 12 11 9 5 3 8 4 1 14 8 13 6 2 11 15 12 9 7 3 10 5 0 15 12 8 2 4 9 1 7 5 11 3 14 10 0 6 13
15 1 8 14 6 11 3 4 9 7 2 13 12 0 5 10 3 13 4 7 15 2 8 14 12 0 1 10 6 9 11 5 0 14 7 11 10 4 13 1 5 8 12 6 9 3 2 15 13 8 10 1 3 15 4 2 11 6 7 12 0 5 14 9
10 0 9 14 6 3 15 5 1 13 12 7 11 4 2 8 13 7 0 9 3 4 6 10 2 8 5 14 12 11 15 1 13 6 4 9 8 15 3 0 11 1 2 12 5 10 14 7 1 10 13 0 6 9 8 7 4 15 14 3 11 5 2 12
7 13 14 3 0 6 9 10 1 2 8 5 11 12 4 15 13 8 11 5 6 15 0 3 4 7 2 12 1 10 14 9 10 6 9 0 12 11 7 13 15 1 3 14 5 2 8 4 3 15 0 6 10 1 13 8 9 4 5 11 12 7 2 14
2 12 4 1 7 10 11 6 8 5 3 15 13 0 14 9 14 11 2 12 4 7 13 1 5 0 15 10 3 9 8 6 4 2 1 11 10 13 7 8 15 9 12 5 6 3 0 14 11 8 12 7 1 14 2 13 6 15 0 9 10 4 5 3
12 1 10 15 9 2 6 8 0 13 3 4 14 7 5 11 10 15 4 2 7 12 9 5 6 1 13 14 0 11 3 8 9 14 15 5 2 8 12 3 7 0 4 10 1 13 11 6 4 3 2 12 9 5 15 10 11 14 1 7 6 0 8 13
4 11 2 14 15 0 8 13 3 12 9 7 5 10 6 1 13 0 11 7 4 9 1 10 14 3 5 12 2 15 8 6 1 4 11 13 12 3 7 14 10 15 6 8 0 5 9 2 6 11 13 8 1 4 10 7 9 5 0 15 14 2 3 12
13 2 8 4 6 15 11 1 10 9 3 14 5 0 12 7 1 15 13 8 10 3 7 4 12 5 6 11 0 14 9 2 7 11 4 1 9 12 14 2 0 6 10 13 15 3 5 8 2 1 14 7 4 10 8 13 15 12 9 0 3 5 6 11
"""


def des():
    def f(k):
        k -= 1
        return 8 * (k // 8) + 7 - (k % 8)

    def tr(t):
        r = [None] * len(t)
        for j, v in enumerate(t):
            r[f(j + 1)] = f(v)
        return r
    iip = [0] * 64
    for j, v in enumerate(IP):
        iip[v - 1] = j + 1
    return {
        "DES initial permutation": (IP, tr(IP)), "DES final permutation": (iip, tr(iip)),
        "DES expansion": (E, tr(E)), "DES permutation P": (P, tr(P)),
        "DES key permutation PC-1": (PC1, tr(PC1)), "DES key permutation PC-2": (PC2, tr(PC2)),
        "DES S-boxes": ([int(x) for x in DES_S.split()],),
        "DES key rotations": ([1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1],),
    }


def sm3():
    return {"SM3 initial value": [0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e]}


def sm4():
    # S(x) = A * inv(A*x + C) + C over GF(2)[x]/(x^8+x^7+x^6+x^5+x^4+x^2+1)
    def aff(x):
        r = 0
        for i in range(8):
            row = ((0xa7 << i) | (0xa7 >> (8 - i))) & 0xff
            if bin(row & x).count("1") & 1:
                r |= 1 << i
        return r ^ 0xd3
    sb = [aff(ginv(aff(x), 0x1f5)) for x in range(256)]
    ck = [sum(((4 * i + j) * 7 % 256) << (24 - 8 * j) for j in range(4)) for i in range(32)]
    return {"SM4 S-box": sb, "SM4 system parameters FK": [0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc], "SM4 fixed parameters CK": ck}


ZUC_S0 = list(bytes.fromhex("3e725b47cae0003304d1549809b96dcb7b1bf932af9d6aa5b82dfc1d085303904d4e8499e4ced991ddb685488b296eaccdc1f81e734369c6b5bdfd396320d438767db2a7cfed57c5f32cbb142106559be3ef5e314f7f5aa40d8251495fba581c4a16d517a892241f8cffd8ae2e01d3ad3b4bda46ebc9de9a8f87d73a806f2fc8b1b437f70a2213287ccc3c89c7c3965607bf7ef00b2b975235417961a64c10febc2695888ab0a3fbc01894f2e1e5e95dd0dc1166645cec59427512f5749caa230e86abbe2a02e767e644a26cc2939ff1f6fa36d250689e6271153dd640c4e20f8e83776b25053f0c30ea70b7a1e8a9658d271adb81b3a0f4457a19dfee783460"))
ZUC_S1 = list(bytes.fromhex("55c263713bc847869f3cda5b29aafd778cc5940ca61a1300e3a8167240f9f8424426689681d9453e1076c6a78b3943e13ab5562ac06db3052266bfdc0bfa6248dd20110636c9c1cff62752bb69f5d4877f844cd29c57a4bc4f9adffed68d7aeb2b53d85ca11417fb23d57d3067730809eeb7703f61b2198e4ee54b938f5ddba9adf1ae2ecb0dfcf42d466e1d97e8d1e94d37a5755e839eab829db91ce0cd498901b6bd5824a25f387899159050b895e4d091c7ceed0fb46fa0ccf0024a79c3dea3efea51e66b18ec1b2c80f774e7ff215a6a541e41319235c433070aba7e0e3488b1987cf33d606c7bcad31f3265042864be859b2f598ad7b025acaf1203e2f2"))


def zuc():
    return {"ZUC S-box S0": ZUC_S0, "ZUC S-box S1": ZUC_S1, "ZUC constants D": [0x44d7, 0x26bc, 0x626b, 0x135e, 0x5789, 0x35e2, 0x7135, 0x09af, 0x4d78, 0x2f13, 0x6bc4, 0x1af1, 0x5e26, 0x3c4d, 0x789a, 0x47ac]}


CURVES = {
    "P-224": dict(p=2**224 - 2**96 + 1, n=26959946667150639794667015087019625940457807714424391721682722368061,
                  b=0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4,
                  gx=0xb70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21,
                  gy=0xbd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34, bits=224),
    "P-256": dict(p=2**256 - 2**224 + 2**192 + 2**96 - 1, n=115792089210356248762697446949407573529996955224135760342422259061068512044369,
                  b=0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
                  gx=0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
                  gy=0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5, bits=256),
    "P-384": dict(p=2**384 - 2**128 - 2**96 + 2**32 - 1,
                  n=39402006196394479212279040100143613805079739270465446667946905279627659399113263569398956308152294913554433653942643,
                  b=0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
                  gx=0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
                  gy=0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f, bits=384),
    "P-521": dict(p=2**521 - 1,
                  n=6864797660130609714981900799081393217269435300143305409394463459185543183397655394245057746333217197532963996371363321113864768612440380340372808892707005449,
                  b=0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
                  gx=0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
                  gy=0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650, bits=521),
}


def ec_add(c, A, B):
    p = c["p"]
    if A is None:
        return B
    if B is None:
        return A
    if A[0] == B[0]:
        if (A[1] + B[1]) % p == 0:
            return None
        l = (3 * A[0] * A[0] - 3) * pow(2 * A[1], -1, p) % p
    else:
        l = (B[1] - A[1]) * pow(B[0] - A[0], -1, p) % p
    x = (l * l - A[0] - B[0]) % p
    return x, (l * (A[0] - x) - A[1]) % p


def ec_mul(c, k, A):
    R = None
    while k:
        if k & 1:
            R = ec_add(c, R, A)
        A = ec_add(c, A, A)
        k >>= 1
    return R


def p256_limbs(v):
    r = []
    for i in range(9):
        b = 29 if i % 2 == 0 else 28
        r.append(v & ((1 << b) - 1))
        v >>= b
    return r


def p256():
    c = CURVES["P-256"]
    G = (c["gx"], c["gy"])
    R = pow(2, 257, c["p"])
    out = []
    for base in (0, 32):
        pts = [ec_mul(c, 1 << (base + 64 * i), G) for i in range(4)]
        for m in range(1, 16):
            A = None
            for i in range(4):
                if m >> i & 1:
                    A = ec_add(c, A, pts[i])
            out += p256_limbs(A[0] * R % c["p"]) + p256_limbs(A[1] * R % c["p"])
    return {"P-256 precomputed multiples of the base point": out, "P-256 field one in Montgomery form": p256_limbs(R)}


def p224():
    p = CURVES["P-224"]["p"]
    return {"P-224 prime in limbs": [(p >> (28 * i)) & (2**28 - 1) for i in range(8)]}


PKCS1 = {
    "MD5": "3020300c06082a864886f70d020505000410", "SHA1": "3021300906052b0e03021a05000414",
    "SHA224": "302d300d06096086480165030402040500041c", "SHA256": "3031300d060960864801650304020105000420",
    "SHA384": "3041300d060960864801650304020205000430", "SHA512": "3051300d060960864801650304020305000440",
}

CMAC_RB = {32: 0x8d, 48: 0x2d, 64: 0x1b, 96: 0x641, 128: 0x87, 160: 0x2d, 192: 0x87, 224: 0x309, 256: 0x425, 320: 0x1b, 384: 0x100d,
           448: 0x851, 512: 0x125, 768: 0xa0011, 1024: 0x80043, 2048: 0x86001}
