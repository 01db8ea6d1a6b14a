"""The checks: for every property the scripts that are generated and the specification that judges the traces."""
import random, re, kverif
from kverif import Ep, run_eps

ASSUMPTIONS = {}
KIND = {}    # conf | rel
TECH = {}
LNOTE = {}
CHECKS = {}
def check(p):
    def d(f): CHECKS[p] = f; return f
    return d

class Ctx:
    def __init__(s, seed, tier, prop):
        s.seed, s.tier, s.prop = seed, tier, prop
        s.r = random.Random(f'{seed}/{prop}')
        s.thorough = tier == 'thorough'
        s.n = 0
    def id(s, p=''):
        s.n += 1; return f'{p}{s.n}'
    def by(s, n): return s.r.randbytes(n)
    def hx(s, n): return hx(s.r.randbytes(n))

def hx(b): return b.hex() if b else '-'

HASHES = {  # name: (maxout, block, maxsalt, [round counts])
    'md5': (16, 64, 0, [0]), 'sha1': (20, 64, 0, [0]),
    'sha2_256': (32, 64, 0, [0, 1, 17, 24, 40, 63, 65, 96, 128]), 'sha2_512': (64, 128, 0, [0, 1, 17, 24, 79, 81, 160]),
    'tiger': (24, 64, 0, [0, 1, 3, 4, 5, 6, 7]), 'whirlpool': (64, 64, 0, [0, 1, 2, 5, 9]),
    'blake256': (32, 64, 16, [0, 1, 10, 11, 25]), 'blake512': (64, 128, 32, [0, 1, 10, 11, 25]),
    'blake2b': (64, 128, 16, [0, 1, 10, 13, 24]), 'blake2s': (32, 64, 8, [0, 1, 11, 20]),
    'keccak1600': (0, 200, 0, [0, 1, 5, 23, 48]), 'sha3': (64, 200, 0, [0, 1, 12, 25]), 'keccak800': (0, 100, 0, [0, 1, 7, 22, 40]),
    'skein256': (0, 32, 64, [0, 8, 16, 80]), 'skein512': (0, 64, 64, [0, 8, 24]), 'skein1024': (0, 128, 128, [0, 16]),
}
def relation():
    """the checks against KriptoRel"""
    import relchecks
    return relchecks
def api(*a):
    import walks
    return walks.api(*a)
def cuts(r, b, n):
    """b cut into n+1 pieces (some may be empty)"""
    p = sorted(r.randrange(len(b) + 1) for _ in range(n)); p = [0] + p + [len(b)]
    return [b[i:j] for i, j in zip(p, p[1:])]
def cutn(r, k, n):
    p = sorted(r.randrange(k + 1) for _ in range(n)); p = [0] + p + [k]
    return [j - i for i, j in zip(p, p[1:])]

def outlens(n):
    mo = HASHES[n][0]
    if n == 'keccak1600': return [1, 16, 28, 32, 48, 64, 75, 99]
    if n == 'keccak800': return [1, 16, 20, 32, 40, 49]
    if n == 'sha3': return [1, 28, 32, 48, 64]
    if n.startswith('skein'): b = HASHES[n][1]; return [1, 16, b - 1, b, b + 1, 2 * b, 2 * b + 7]
    return sorted({1, 7, mo // 2, mo - 4, mo * 7 // 8, mo * 3 // 4, mo - 1, mo})
def saltlens(n):
    ms = HASHES[n][2]
    return [0] if not ms else sorted({0, 1, ms // 2, ms - 1, ms})
def rate(n, x):
    return {'keccak1600': 200 - 2 * x, 'sha3': 200 - 2 * x, 'keccak800': 100 - 2 * x}.get(n, HASHES[n][1])
def hmsg_lens(n, x):
    b = rate(n, x); lf = {'whirlpool': 32, 'sha2_512': 16, 'blake512': 16}.get(n, 8)
    L = {0, 1, 2, 3}
    for k in (1, 2, 3):
        for d in (-2, -1, 0, 1): L.add(k * b + d)
        for d in (-2, -1, 0, 1, 2): L.add(k * b - lf + d)
    return sorted(x for x in L if x >= 0)

def hash_ep(c, n, r, salt, x, msg, pieces, opieces):
    L = [f'HC 0 {n} {r} {hx(salt)} {x}']
    for p in pieces: L.append(f'HI 0 {hx(p)}')
    for o in opieces: L.append(f'HO 0 {o}')
    L.append('HX 0')
    return L

def out_total(n, x):
    """how many bytes may be read in total from a hash made for x bytes"""
    if n in ('keccak1600', 'keccak800'): return x + 2 * rate(n, x)
    if n == 'sha3': return min(64, rate(n, x))
    if n.startswith('skein'): return x
    return HASHES[n][0]

@check('C04')
def c04(c):
    eps = []
    facts = set(re.findall(r'n = "(\w+)" /\\ e = (\d+)', open(kverif.V + "/spec/LongFacts.tla").read()))
    for n, (mo, bs, ms, rs) in HASHES.items():
        for x in outlens(n):
            lens = hmsg_lens(n, x)
            full = x in (outlens(n)[-1], outlens(n)[-2])
            if not full: lens = [L for L in lens if L in (0, 1, rate(n, x) - 1, rate(n, x), rate(n, x) + 1)] if not c.thorough else lens
            for L in lens:
                sl = c.r.choice(saltlens(n)); m = c.by(L)
                ls = hash_ep(c, n, 0, c.by(sl), x, m, cuts(c.r, m, c.r.randrange(3)), cutn(c.r, min(x, out_total(n, x)), c.r.randrange(3)))
                eps.append(Ep(c.id(n + '-'), ls, cost=200 + L * 3))
        for r in rs:
            for sl in saltlens(n):
                for L in (c.r.randrange(bs), bs, bs + c.r.randrange(2 * bs)):
                    x = c.r.choice(outlens(n)); m = c.by(L)
                    eps.append(Ep(c.id(n + '-'), hash_ep(c, n, r, c.by(sl), x, m, [m], [min(x, out_total(n, x))]) + [f'HA 0 {n} {r} {c.hx(sl)} {hx(m)} {min(x, out_total(n, x))}'], cost=400 + L * 6))
        # longer messages, also in one call of more than 2^16 bytes
        x = mo or {'keccak1600': 64, 'keccak800': 32}.get(n, bs)
        for L in [c.r.randrange(300, 3000) for _ in range(3)] + [65536 + c.r.randrange(3 * bs), 65536 * 2 - 1]:
            m = c.by(L); eps.append(Ep(c.id(n + '-l'), hash_ep(c, n, 0, b'', x, m, [m] if L % 2 else cuts(c.r, m, 2), [x]), cost=4000 + L * 3 * (6 if n in ('keccak800', 'whirlpool') else 1)))
        # a long output
        if n in ('keccak1600', 'keccak800') or n.startswith('skein'):
            for t in [c.r.randrange(260 * bs, 300 * bs)] + ([65536 + c.r.randrange(1, 300)] if n != 'keccak800' else []):
                m = c.by(c.r.randrange(2 * bs)); x = t if n.startswith('skein') else c.r.choice(outlens(n)[:4])
                for _ in range(2 if t < 65536 else 1):
                    eps.append(Ep(c.id(n + '-o'), hash_ep(c, n, 0, b'', x, m, [m], [t] if t > 65536 else cutn(c.r, t, c.r.randrange(1, 4))), cost=4000 + t * 3 * (6 if n == 'keccak800' else 1)))
        # the length in bits does not fit 32 bits; the length in bytes does not fit 32 bits
        if (n, '29') in facts:
            for rest, ch in ((256, 1 << 20), (c.r.randrange(1, 256), 65521), (257 + c.r.randrange(2 * bs), 1 << 40)):
                m = c.by(c.r.randrange(200)); eps.append(Ep(c.id(n + '-29'), [f'HC 0 {n} 0 - {x}', f'HZ 0 29 {rest} {ch}', f'HI 0 {hx(m)}', f'HO 0 {x}', 'HX 0'], cost=40000))
        if (n, '32') in facts:
            for rest, ch in ((256, 1 << 20), (257 + c.r.randrange(2 * bs), 1 << 40))[0 if c.thorough else 1:]:
                m = c.by(c.r.randrange(200)); eps.append(Ep(c.id(n + '-32'), [f'HC 0 {n} 0 - {x}', f'HZ 0 32 {rest} {ch}', f'HI 0 {hx(m)}', f'HO 0 {x}', 'HX 0'], cost=300000))
    return [run_eps(c.prop, eps, 'KriptoTrace'), relation().covered(c, [('h', n) for n in HASHES]),
            relation().values(c, api(1, 'h', 2, [0, 1, 3, 4, 5], [0], 5, 2), 600)]

# ---------------------------------------------------------------- block ciphers
BLOCKS = {  # name: (block, largest key, largest tweak, largest round count or None for no round counts)
    '3way': (12, 12, 0, 11), 'aes': (16, 32, 0, 40), 'rijndael128': (16, 32, 0, 40), 'rijndael256': (32, 32, 0, 40), 'anubis': (16, 40, 0, 64),
    'aria': (16, 32, 0, 30), 'blowfish': (8, 56, 0, 34), 'camellia': (16, 32, 0, None), 'cast5': (8, 16, 0, None),
    'crax_s': (8, 16, 0, 40), 'des': (8, 24, 0, None), 'idea': (8, 16, 0, 30), 'khazad': (8, 16, 0, 8), 'lea': (16, 32, 0, 64),
    'noekeon': (16, 16, 0, 33), 'rc2': (8, 128, 0, None), 'rc5': (8, 255, 0, 40), 'rc6': (16, 255, 0, 40), 'rectangle': (8, 16, 0, 25),
    'safer': (8, 16, 0, 20), 'safer_sk': (8, 16, 0, 20), 'saferpp': (16, 32, 0, 20), 'seed': (16, 16, 0, 40), 'serpent': (16, 32, 0, 64),
    'shacal2': (32, 64, 0, 128), 'simon128': (16, 32, 0, 100), 'simon32': (4, 8, 0, 60), 'simon64': (8, 16, 0, 80), 'skipjack': (8, 10, 0, None),
    'sm4': (16, 16, 0, 32), 'speck128': (16, 32, 0, 60), 'speck32': (4, 8, 0, 40), 'speck64': (8, 16, 0, 50), 'tea': (8, 16, 0, 80),
    'threefish256': (32, 32, 16, 100), 'threefish512': (64, 64, 16, 100), 'threefish1024': (128, 128, 16, 100), 'trax_l': (32, 32, 16, 30),
    'trax_m': (16, 16, 8, 30), 'twofish': (16, 32, 0, 30), 'xtea': (8, 16, 0, 100), 'gost_cbr': (8, 32, 0, 60), 'gost_r34': (8, 32, 0, 60),
}
STDKEYS = {'aes': (16, 24, 32), 'camellia': (16, 24, 32), 'aria': (16, 24, 32), 'twofish': (16, 24, 32), 'serpent': (16, 24, 32), 'rijndael256': (16, 24, 32)}
SLOW = {'blowfish': 30, 'threefish1024': 4, 'des': 3, 'twofish': 2}
def gost_name(r): return 'gost(' + ''.join('%x' % x for _ in range(8) for x in r.sample(range(16), 16)) + ')'
def binfo(n): return BLOCKS['gost_cbr'] if n.startswith('gost(') else BLOCKS[n]
def pat(c, n):
    """a byte string of length n: random or with structure"""
    k = c.r.randrange(8)
    if k == 0: return bytes(n)
    if k == 1: return b'\xff' * n
    if k == 2 and n: b = bytearray(n); b[c.r.randrange(n)] = 1 << c.r.randrange(8); return bytes(b)
    if k == 3: return bytes((i + c.r.randrange(2)) & 255 for i in range(n))
    if k == 4: return bytes([c.r.randrange(256)]) * n
    return c.by(n)
def keylens(n):
    mk = binfo(n)[1]
    return range(1, mk + 1) if mk <= 64 else sorted(set(list(range(1, 21)) + [31, 32, 33, 63, 64, 65, 96, 126, 127, 128, 129, 160, 192, 224, 252, 253, 254, 255])) if mk == 255 else sorted(set(list(range(1, 18)) + [24, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128]))
def roundcounts(n):
    m = binfo(n)[3]
    if m is None: return [32] if n == 'skipjack' else [1, 16] if n in ('rc2', 'des') else []
    return list(range(1, m + 1))
def block_ops(c, n, k, dirs='ED'):
    bs, mk, mt, _ = binfo(n)
    L = []
    if mt and c.r.random() < .8: L.append(f'BT 0 {hx(pat(c, c.r.choice([1, mt - 1, mt, mt, c.r.randrange(1, mt + 1)])))}')
    for i in range(k): L.append(f'B{dirs[i % len(dirs)]} 0 {hx(pat(c, bs))} {c.r.randrange(2)}')
    return L

@check('C02')
def c02(c):
    eps = []
    names = list(BLOCKS) + [gost_name(c.r) for _ in range(3)]
    for n in names:
        bs, mk, mt, mr = binfo(n)
        short = n.split('(')[0]
        w = SLOW.get(n, 1)
        # all key lengths with the standard number of rounds
        kl = list(keylens(n)) + list(STDKEYS.get(n, ())) * 2 + [mk] * 3
        if n == 'blowfish' and not c.thorough: kl = c.r.sample(kl[:-3], 14) + [1, 16, 56]
        for k in kl:
            eps.append(Ep(c.id(short + '-'), [f'BC 0 {n} 0 {hx(pat(c, k))}'] + block_ops(c, n, 3, 'EDE') + ['BX 0'], cost=w * (100 + 4 * bs)))
        # round counts
        rc = roundcounts(n)
        if not c.thorough: rc = sorted(set(rc[:9] + c.r.sample(rc, min(len(rc), 8)) + rc[-1:])) if n != 'blowfish' else sorted({1, 2, 3, 34} | set(c.r.sample(rc, 3)))
        for r in rc:
            for _ in range(1 if n == 'blowfish' else 3 if c.thorough else 2):
                k = c.r.choice([mk, mk, c.r.choice(list(keylens(n)))])
                eps.append(Ep(c.id(short + '-r'), [f'BC 0 {n} {r} {hx(pat(c, k))}'] + block_ops(c, n, 2) + ['BX 0'], cost=w * (100 + 4 * bs)))
        # more data under one key, re-keying in between
        for _ in range((30 if c.thorough else 4) // (4 if w > 3 else 1)):
            k = pat(c, c.r.choice([mk, c.r.choice(list(keylens(n)))])); L = [f'BC 0 {n} 0 {hx(k)}'] + block_ops(c, n, 6)
            for _ in range(3):
                k = relation().near(c, pat(c, c.r.choice([len(k), c.r.choice(list(keylens(n)))])), k); L += [f'BR 0 0 {hx(k)}'] + block_ops(c, n, 2)
            L += ['BX 0']
            eps.append(Ep(c.id(short + '-d'), L, cost=w * (300 + 10 * bs)))
    return [run_eps(c.prop, eps, 'KriptoTrace')]

# ---------------------------------------------------------------- stream ciphers
NATIVE = {  # name: (largest key used, largest iv used, round counts, multiple)
    'chacha': (32, 24, [1, 2, 3, 7, 8, 12, 20, 21, 64]), 'salsa20': (32, 24, [1, 2, 3, 7, 8, 12, 20, 21, 64]),
    'rc4': (256, 0, [1, 2, 255, 256, 257, 768]), 'keccak1600': (99, 400, [1, 2, 12, 25, 40]), 'keccak800': (49, 250, [1, 5, 21, 30]),
    'skein256': (100, 100, [1, 8, 40, 80]), 'skein512': (200, 200, [1, 8, 40, 80]), 'skein1024': (300, 300, [1, 8, 40, 88]),
}
SBLOCK = {'chacha': 64, 'salsa20': 64, 'rc4': 64, 'keccak1600': 64, 'keccak800': 64, 'skein256': 32, 'skein512': 64, 'skein1024': 128}
def stream_ops(c, total, mult=1, ops='EDP', h=0):
    """calls that process about total bytes"""
    L = []; left = total
    for n in cutn(c.r, total // mult, c.r.randrange(5)):
        n *= mult; o = c.r.choice(ops)
        if o == 'P': L.append(f'SP {h} {n}')
        else: L.append(f'S{o} {h} {hx(pat(c, n))} {c.r.randrange(2)}')
    return L
def big(c):
    """lengths for what has no limit"""
    return c.r.choice([c.r.randrange(250, 520), c.r.randrange(520, 1030), c.r.randrange(1030, 2100), c.r.randrange(2100, 5000), 256 * c.r.randrange(1, 9)])
def bigkey(n):
    """keys of this MAC or native stream have no limit"""
    return n.startswith(('hmac', 'keccak', 'skein')) if '(' in n or n not in NATIVE else n.startswith('skein')
def slens(c, b):
    return c.r.choice([0, 1, b - 1, b, b + 1, 2 * b, 3 * b - 1, c.r.randrange(5 * b), c.r.randrange(5 * b)])

@check('C07')
def c07(c):
    eps = []
    T = 3 if c.thorough else 1
    for n, (mk, mi, rs) in NATIVE.items():
        b = SBLOCK[n]
        w = {'skein1024': 4, 'skein512': 3, 'skein256': 2, 'rc4': 3, 'keccak1600': 4, 'keccak800': 3}.get(n, 1)
        kl = list(range(1, mk + 1))
        if mk > 40: kl = sorted(set(c.r.sample(kl, min(len(kl), 24 * T)) + [1, 2, min(mk, b - 1), min(mk, b), min(mk, b + 1), mk]))
        il = list(range(0, mi + 1))
        if mi > 40: il = sorted(set(c.r.sample(il, min(len(il), 20 * T)) + [0, 1, b - 1, b, b + 1, 2 * b]))
        for k in kl:
            eps.append(Ep(c.id(n + '-k'), [f'SC 0 {n} 0 {hx(pat(c, k))} {hx(pat(c, c.r.choice(il)))}'] + stream_ops(c, slens(c, b)) + ['SX 0'], cost=w * 300))
        for i in il:
            for _ in range(2 * T):
                eps.append(Ep(c.id(n + '-i'), [f'SC 0 {n} 0 {hx(pat(c, c.r.choice([mk, c.r.choice(kl)])))} {hx(pat(c, i))}'] + stream_ops(c, slens(c, b)) + ['SX 0'], cost=w * 300))
        for r in rs + (list(range(1, 41)) if c.thorough and n != 'rc4' else []):
            for k in (mk, c.r.choice(kl)):
                eps.append(Ep(c.id(n + '-r'), [f'SC 0 {n} {r} {hx(pat(c, k))} {hx(pat(c, c.r.choice(il)))}'] + stream_ops(c, slens(c, b)) + ['SX 0'], cost=w * 300))
        # longer data, re-keying
        for _ in range(4 * T):
            L = [f'SC 0 {n} 0 {hx(pat(c, c.r.choice(kl)))} {hx(pat(c, c.r.choice(il)))}'] + stream_ops(c, 20 * b)
            L += [f'SR 0 {c.r.choice([0] + rs)} {hx(pat(c, len(L) and c.r.choice(kl)) if n not in ("keccak1600", "keccak800") else pat(c, c.r.choice(kl)))} {hx(pat(c, c.r.choice(il)))}']
            L += stream_ops(c, 3 * b) + ['SX 0']
            eps.append(Ep(c.id(n + '-l'), L, cost=w * 1200))
        # long keys and vectors
        for _ in range(4 * T):
            k, i = (big(c) if n.startswith('skein') and c.r.randrange(3) else c.r.choice(kl)), (big(c) if n.startswith(('skein', 'keccak')) and c.r.randrange(3) else c.r.choice(il))
            L = [f'SC 0 {n} 0 {c.hx(k)} {c.hx(i)}'] + stream_ops(c, slens(c, b))
            L += [f'SR 0 0 {c.hx(big(c) if n.startswith("skein") and c.r.randrange(2) else c.r.choice(kl))} {c.hx(c.r.choice(il))}'] + stream_ops(c, slens(c, b))
            eps.append(Ep(c.id(n + '-b'), L + ['SX 0'], cost=w * 3000))
        # one call with more than 2^16 bytes
        for o in ('SE 0 ' + c.hx(65536 + c.r.randrange(2, 200)), f'SP 0 {65536 + c.r.randrange(2, 200)}'):
            eps.append(Ep(c.id(n + '-L'), [f'SC 0 {n} 0 {hx(pat(c, c.r.choice(kl)))} {hx(pat(c, c.r.choice(il)))}', o] + stream_ops(c, 2 * b) + ['SX 0'], cost=30000))
        # far positions: the counter carries into its higher bytes
        if n in ('chacha', 'salsa20', 'skein256', 'skein512', 'skein1024'):
            for skip in [255, 65535] + ([1 << 20, (1 << 24) - 1] if c.thorough else []):
                eps.append(Ep(c.id(n + '-p'), [f'SC 0 {n} 0 {hx(pat(c, mk))} {hx(pat(c, c.r.choice(il)))}', f'SK 0 {skip * b}'] + stream_ops(c, 3 * b) + ['SX 0'], cost=w * 300))
    return [run_eps(c.prop, eps, 'KriptoTrace'), relation().covered(c, [('s', n) for n in NATIVE]),
            relation().values(c, api(1, 's', 2, [0, 1, 3, 4, 5], [0], 5, 2), 400, lambda k, n: '(' not in n)]

MODES = {'cbc': 'ED', 'ecb': 'ED', 'cfb': 'EDP', 'ctr': 'EDP', 'ofb': 'EDP'}
def carry_iv(c, bs):
    """ivs for which the counter carries"""
    k = c.r.randrange(4)
    if k == 0: return b'\xff' * bs
    if k == 1: f = c.r.randrange(1, bs + 1); return c.by(bs - f) + b'\xff' * (f - 1) + bytes([255 - c.r.randrange(4)])
    if k == 2: return pat(c, c.r.randrange(bs + 1))
    return c.by(bs)
@check('C06')
def c06(c):
    eps = []
    T = 4 if c.thorough else 1
    for n in BLOCKS:
        bs, mk, mt, mr = binfo(n)
        w = SLOW.get(n, 1)
        for m, ops in MODES.items():
            mult = bs if m in ('cbc', 'ecb') else 1
            cnt = (8 if n in ('aes', 'des', 'threefish256', 'speck32', '3way') else 3) * T
            if w > 3: cnt = min(cnt, 2 * T)
            for q in range(cnt):
                k = c.r.choice([mk, c.r.choice(list(keylens(n)))])
                iv = b'' if m == 'ecb' else carry_iv(c, bs)
                rc = roundcounts(n); r = c.r.choice(rc) if rc and q % 3 == 2 else 0
                tot = c.r.choice([0, bs, 3 * bs, 5 * bs]) if mult > 1 else c.r.choice([1, bs - 1, bs, bs + 1, 3 * bs + 1, 5 * bs - 2, c.r.randrange(6 * bs)])
                # encryption only, decryption only or mixed with generation
                o = c.r.choice([ops, 'E', 'D', ops])
                if m in ('cbc',) and o == ops: o = c.r.choice('ED')
                L = [f'SC 0 {m}({n}) {r} {hx(pat(c, k))} {hx(iv)}'] + stream_ops(c, tot, mult, o)
                if q % 2:
                    L += [f'SR 0 0 {hx(pat(c, c.r.choice(list(keylens(n)))))} {hx(b"" if m == "ecb" else carry_iv(c, bs))}'] + stream_ops(c, 2 * bs, mult, 'E' if m == 'cbc' else ops)
                eps.append(Ep(c.id(f'{m}-{n}-'), L + ['SX 0'], cost=w * (200 + 10 * tot)))
    # more data: a few thousand bytes, and one call with more than 2^16 bytes
    for m, ops in MODES.items():
        for n in ['aes', 'des', 'speck32', '3way', 'threefish512', 'threefish1024'] + c.r.sample(list(BLOCKS), 3 * T):
            if n == 'blowfish': continue
            bs = binfo(n)[0]; mult = bs if m in ('cbc', 'ecb') else 1
            L = [f'SC 0 {m}({n}) 0 {hx(pat(c, binfo(n)[1]))} {hx(b"" if m == "ecb" else carry_iv(c, bs))}']
            eps.append(Ep(c.id(f'{m}-{n}-l'), L + stream_ops(c, c.r.randrange(20, 3000 // bs) * bs, mult, c.r.choice('ED') if m == 'cbc' else ops) + ['SX 0'], cost=8000))
            if n in ('aes', 'speck32', 'threefish1024', '3way'):
                k = 65536 // bs + 1 + c.r.randrange(4)
                eps.append(Ep(c.id(f'{m}-{n}-L'), L + [c.r.choice([f'SE 0 {c.hx(k * bs)} 0', f'SE 0 {c.hx(k * bs)} 1', f'SD 0 {c.hx(k * bs)} 0', f'SP 0 {k * bs}' if 'P' in ops else f'SD 0 {c.hx(k * bs)} 1'])] + stream_ops(c, 2 * bs, mult, 'E' if m == 'cbc' else ops) + ['SX 0'], cost=40000))
    # CBC: both directions on one object
    for n in ('aes', 'des', 'threefish512', 'simon32'):
        for _ in range(3 * T):
            bs = binfo(n)[0]
            eps.append(Ep(c.id('cbcx-'), [f'SC 0 cbc({n}) 0 {hx(pat(c, binfo(n)[1]))} {hx(carry_iv(c, bs))}'] + stream_ops(c, 6 * bs, bs, 'ED') + ['SX 0'], cost=400))
    return [run_eps(c.prop, eps, 'KriptoTrace'), relation().covered(c, [('s', f'{m}({b})') for m in ('ctr', 'ofb', 'cfb') for b in (BLOCKS if c.thorough else c.r.sample(list(BLOCKS), 8))]),
            relation().values(c, api(1, 'sg', 1, [0, 1, 3, 4, 5], [0], 4, 2), 600, lambda k, n: '(' in n)]

# ---------------------------------------------------------------- MACs
MACS = [f'hmac({h})' for h in HASHES] + ['keccak1600', 'keccak800', 'skein256', 'skein512', 'skein1024'] + [f'{m}({b})' for m in ('omac', 'xcbc') for b in BLOCKS if m == 'omac' or BLOCKS[b][0] <= BLOCKS[b][1]]
def parts(n):
    a, _, b = n.partition('('); return a, b[:-1] if b else ''
def mac_info(n):
    """(block for interesting lengths, largest tag, key lengths)"""
    a, b = parts(n)
    if a == 'hmac':
        bs = HASHES[b][1]
        mt = {'keccak1600': 99, 'keccak800': 49, 'skein256': 70, 'skein512': 130, 'skein1024': 140}.get(b, HASHES[b][0])
        return bs, mt, sorted({1, 2, 16, bs - 1, bs, bs + 1, 2 * bs + 3})
    if a in ('omac', 'xcbc'): return BLOCKS[b][0], BLOCKS[b][0], list(keylens(b))
    if a.startswith('keccak'): mt = 99 if a == 'keccak1600' else 49; return (200 if mt == 99 else 100), mt, [1, 5, 64, 100, 199, 200, 201]
    bs = int(a[5:]) // 8; return bs, bs, [1, 5, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 5]
def mac_once(n):
    """the tag must be read in one call, of the length announced"""
    return n.startswith('hmac')
def mac_rounds(n):
    a, b = parts(n)
    if a == 'hmac': return HASHES[b][3]
    if a in ('omac', 'xcbc'): return [0] + roundcounts(b)
    if a.startswith('keccak'): return [0, 1, 12, 30]
    return [0, 8, 40]
def mac_ep(c, n, r, key, x, msg, npieces=None, h=0, create=None):
    L = [create or f'MC {h} {n} {r} {hx(key)} {x}']
    for p in cuts(c.r, msg, c.r.randrange(4) if npieces is None else npieces): L.append(f'MI {h} {hx(p)}')
    if mac_once(n): L.append(f'MT {h} {x}')
    else: L += [f'MT {h} {k}' for k in cutn(c.r, x, c.r.randrange(3)) if k]
    return L
def mac_w(n):
    a, b = parts(n)
    return SLOW.get(b, 1) * (3 if a == 'hmac' else 1)
def mlens(c, bs):
    return c.r.choice([0, 1, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1, 3 * bs, c.r.randrange(4 * bs)])

@check('C05')
def c05(c):
    eps = []
    T = 4 if c.thorough else 1
    for n in MACS:
        bs, mt, kl = mac_info(n)
        block = n.startswith('omac') or n.startswith('xcbc')
        w = mac_w(n)
        cnt = (3 if w < 10 else 1) if block else 12
        lens = [0, bs, bs + 1, 2 * bs, 1, bs - 1, 3 * bs] if block else [0, 1, bs - 1, bs, bs + 1, 2 * bs]
        if block: lens = c.r.sample(lens, min(len(lens), cnt + 1))
        rs = mac_rounds(n)
        for q, L in enumerate(lens * (T if not block else 1) + [None] * cnt * T):
            if L is None: L = mlens(c, bs)
            k = c.r.choice(kl); x = c.r.choice([mt, mt, 1, c.r.randrange(1, mt + 1)])
            r = c.r.choice(rs) if q % 3 == 2 and rs else 0
            ep = mac_ep(c, n, r, pat(c, k), x, pat(c, L))
            if q % 4 == 1:
                x2 = c.r.choice([mt, c.r.randrange(1, mt + 1)]); m2 = pat(c, mlens(c, bs)); k2 = pat(c, c.r.choice(kl))
                ep += mac_ep(c, n, 0, k2, x2, m2, create=f'MR 0 0 {hx(k2)} {x2}')
            ep += ['MX 0']
            if q % 4 == 2: ep.append(f'MA 0 {n} {r} {hx(pat(c, k))} {hx(pat(c, mlens(c, bs)))} {x}')
            eps.append(Ep(c.id(n + '-'), ep, cost=w * (300 + 4 * L)))
        # long keys
        if not block:
            slow = 'keccak800' in n or 'whirlpool' in n or 'tiger' in n
            for k in [c.r.randrange(1025, 1300) if slow else big(c), c.r.randrange(1030, 1600 if slow else 4000), 65536 + c.r.randrange(300)][:3 if n in ('hmac(sha1)', 'hmac(sha2_256)', 'hmac(sha2_512)', 'hmac(blake2b)', 'hmac(md5)', 'skein512', 'skein256', 'keccak1600') or c.thorough else 2]:
                k1 = c.r.choice(kl); x = c.r.choice([mt, c.r.randrange(1, mt + 1)]); x2 = c.r.choice([mt, c.r.randrange(1, mt + 1)]); k2 = c.by(k); m2 = pat(c, mlens(c, bs)); k3 = c.by(c.r.choice([k1, c.r.randrange(250, 1200)]))
                ep = mac_ep(c, n, 0, pat(c, k1), x, pat(c, mlens(c, bs))) + mac_ep(c, n, 0, k2, x2, m2, create=f'MR 0 0 {hx(k2)} {x2}')
                if k < 65536: ep += mac_ep(c, n, 0, k3, x2, m2, create=f'MR 0 0 {hx(k3)} {x2}') 
                if k < 65536 and not slow: ep.append(f'MA 0 {n} 0 {hx(k2)} {hx(m2)} {x2}')
                eps.append(Ep(c.id(n + '-b'), ep + ['MX 0'], cost=w * (600 + 6 * k * (6 if 'keccak800' in n or 'whirlpool' in n else 1))))
        # longer messages; one call with more than 2^16 bytes
        if w < 10:
            for L in [c.r.randrange(4 * bs, 1500)] * (1 if block else 2) + ([65536 + c.r.randrange(2 * bs)] if not block or n.endswith(('(aes)', '(des)', '(threefish1024)', '(speck32)', '(3way)')) else []):
                x = min(mt, 32)
                eps.append(Ep(c.id(n + '-l'), mac_ep(c, n, 0, pat(c, c.r.choice(kl)), x, c.by(L), 0 if L > 60000 else None) + ['MX 0'], cost=w * (300 + 3 * L * (6 if 'keccak800' in n or 'whirlpool' in n else 1))))
    return [run_eps(c.prop, eps, 'KriptoTrace'), relation().covered(c, [('m', n) for n in MACS]),
            relation().values(c, api(1, 'm', 2, [0, 1, 3, 4, 5], [0], 5, 2), 600)]

# ---------------------------------------------------------------- authenticated encryption
EAX2S = [  # stream, mac
    ('ctr(aes)', 'omac(aes)'), ('ctr(speck64)', 'hmac(sha1)'), ('cfb(serpent)', 'xcbc(camellia)'), ('ofb(3way)', 'hmac(md5)'), ('cbc(des)', 'omac(des)'),
    ('ecb(idea)', 'hmac(sha2_256)'), ('cbc(threefish256)', 'skein256'), ('chacha', 'hmac(blake2s)'), ('chacha', 'keccak800'), ('salsa20', 'skein512'),
    ('salsa20', 'omac(threefish512)'), ('rc4', 'hmac(sha3)'), ('keccak800', 'keccak1600'), ('keccak1600', 'hmac(tiger)'), ('skein512', 'skein256'),
    ('skein256', 'omac(lea)'), ('skein1024', 'skein1024'), ('ctr(simon32)', 'xcbc(simon32)'), ('ctr(tea)', 'omac(rc5)'), ('cfb(rc2)', 'hmac(whirlpool)'),
]
def smaxkey(s):
    a, b = parts(s)
    return BLOCKS[b][1] if b else {'keccak1600': 99, 'keccak800': 49, 'rc4': 256, 'chacha': 32, 'salsa20': 32}.get(a, 0)
def smaxiv(s):
    a, b = parts(s)
    if a == 'ecb' or a == 'rc4': return 0
    return BLOCKS[b][0] if b else {'chacha': 24, 'salsa20': 24}.get(a, 10 ** 6)
def smult(s):
    a, b = parts(s)
    return BLOCKS[b][0] if a in ('cbc', 'ecb') else 1
def mmaxkey(m):
    a, b = parts(m)
    return BLOCKS[b][1] if a in ('omac', 'xcbc') else 0
def ae_ops(c, hdr, data, mult, dec, h=0):
    H = [f'AH {h} {hx(p)}' for p in cuts(c.r, hdr, c.r.randrange(3))]
    n = len(data) // mult; D = []; o = 0
    for k in cutn(c.r, n, c.r.randrange(4)):
        D.append(f'A{"D" if dec else "E"} {h} {hx(data[o:o + k * mult])} {c.r.randrange(2)}'); o += k * mult
    # any interleaving of header and data calls
    L = []
    while H or D:
        if H and (not D or c.r.random() < .5): L.append(H.pop(0))
        else: L.append(D.pop(0))
    return L
def ae_params(c, n):
    """(key length, nonce lengths, tag length, data multiple)"""
    a, b = parts(n)
    if a == 'eax':
        bs = BLOCKS[b][0]; return c.r.choice(list(keylens(b)) + [BLOCKS[b][1]] * 4), c.r.choice([0, 1, bs - 1, bs]), c.r.choice([bs, bs, c.r.randrange(1, bs + 1)]), 1
    i = 0; d = 0
    for i, ch in enumerate(b):
        d += (ch == '(') - (ch == ')')
        if ch == ',' and not d: break
    s, m = b[:i], b[i + 1:]
    mk = smaxkey(s) + mmaxkey(m) if smaxkey(s) and mmaxkey(m) else 120
    k = c.r.choice([2, 3, c.r.randrange(2, mk + 1), c.r.randrange(2, mk + 1), mk])
    mt = mac_info(m)[1]
    if k > 100 and not (smaxkey(s) and mmaxkey(m)) and c.r.randrange(2): k = big(c)
    mi = smaxiv(s)
    return k, c.r.choice([0, 1, min(8, mi), min(16, mi), min(24, mi), min(mi, 700), c.r.randrange(min(mi, 1500) + 1)]) if mi else 0, c.r.choice([mt, mt, 1, c.r.randrange(1, mt + 1)]), smult(s)
def eax2_parts(b):
    d = 0
    for i, ch in enumerate(b):
        d += (ch == '(') - (ch == ')')
        if ch == ',' and not d: return b[:i], b[i + 1:]
def ae_rounds(n):
    """round counts that an AE may be asked for (0: the default)"""
    a, b = parts(n)
    if a == 'eax': return [0] + roundcounts(b)
    s, m = eax2_parts(b)
    def srs(n):
        a, b = parts(n)
        return set(roundcounts(b)) if b else set(range(1, max(NATIVE[n][2]) + 1))
    def mrs(n):
        a, b = parts(n)
        return set(roundcounts(b)) if b in BLOCKS else set(range(1, max(mac_rounds(n)) + 1))
    return [0] + sorted(srs(s) & mrs(m))
def ae_names(): return [f'eax({b})' for b in BLOCKS] + [f'eax2({s},{m})' for s, m in EAX2S]
@check('C09')
def c09(c):
    eps = []
    T = 4 if c.thorough else 1
    for n in ae_names():
        a, b = parts(n)
        w = SLOW.get(b, 1) * (1 if a == 'eax' else 6)
        rcs = ae_rounds(n)
        for q in range((6 if a == 'eax2' else 2 if w > 3 else 4) * T):
            k, iv, x, mult = ae_params(c, n)
            bs = BLOCKS[b][0] if a == 'eax' else 32
            hdr = pat(c, c.r.choice([0, 1, bs, c.r.randrange(3 * bs)])); data = pat(c, mult * c.r.choice([0, 1, 2, c.r.randrange(4)]) if mult > 1 else c.r.choice([0, 1, bs - 1, bs, bs + 1, c.r.randrange(4 * bs)]))
            r = c.r.choice(rcs) if q % 3 == 1 else 0
            L = [f'AC 0 {n} {r} {hx(pat(c, k))} {hx(pat(c, iv))} {x}'] + ae_ops(c, hdr, data, mult, c.r.randrange(2)) + [f'AT 0 {x}']
            if q % 2:
                k, iv, x, mult = ae_params(c, n)
                L += [f'AR 0 {c.r.choice(rcs)} {hx(pat(c, k))} {hx(pat(c, iv))} {x}'] + ae_ops(c, hdr, data, mult, c.r.randrange(2)) + [f'AT 0 {x}']
            eps.append(Ep(c.id(f'{a}-'), L + ['AX 0'], cost=w * (400 + 8 * len(data))))
        # every round count, in creation and re-creation
        R = [r for r in rcs if r]; c.r.shuffle(R); R = R[:None if c.thorough else 4 if a == 'eax2' or w > 3 else 9]
        if R and a == 'eax' and w <= 3 and max(rcs) not in R: R[0] = max(rcs)
        if 'blowfish' in n: R = R[:1]
        for r in R:
            L = []
            for op in ('AC 0 ' + n, 'AR 0'):
                k, iv, x, mult = ae_params(c, n); bs = BLOCKS[b][0] if a == 'eax' else 32
                if k > 1000: k = 200
                L += [f'{op} {r} {hx(pat(c, k))} {hx(pat(c, iv))} {x}'] + ae_ops(c, pat(c, c.r.choice([0, 1, bs, c.r.randrange(2 * bs)])), pat(c, mult * c.r.choice([1, 2, c.r.randrange(3)]) if mult > 1 else c.r.choice([0, 1, bs, bs + 1, c.r.randrange(2 * bs)])), mult, c.r.randrange(2)) + [f'AT 0 {x}']
            eps.append(Ep(c.id(f'{a}-r'), L + ['AX 0'], cost=w * 500))
        # longer header and data; one call with more than 2^16 bytes
        if w < 10 and (a == 'eax2' or b in ('aes', 'speck32', 'threefish1024', '3way') or c.thorough or c.r.randrange(4) == 0):
            k, iv, x, mult = ae_params(c, n)
            hdr = c.by(c.r.randrange(200, 1500)); data = c.by(mult * c.r.randrange(200 // mult, 1500 // mult))
            eps.append(Ep(c.id(f'{a}-l'), [f'AC 0 {n} 0 {hx(pat(c, k))} {hx(pat(c, iv))} {x}'] + ae_ops(c, hdr, data, mult, c.r.randrange(2)) + [f'AT 0 {x}', 'AX 0'], cost=w * 9000))
        if n in ('eax(aes)', 'eax(speck64)', 'eax2(chacha,hmac(blake2s))', 'eax2(ctr(aes),omac(aes))', 'eax2(rc4,hmac(sha3))'):
            for q in range(2):
                k, iv, x, mult = ae_params(c, n); big = c.by(65536 + c.r.randrange(1, 99)); small = c.by(c.r.randrange(40))
                eps.append(Ep(c.id(f'{a}-L'), [f'AC 0 {n} 0 {hx(pat(c, k))} {hx(pat(c, iv))} {x}'] + [f'AH 0 {hx(small if q else big)}', f'A{c.r.choice("ED")} 0 {hx(big if q else small)}'] + [f'AT 0 {x}', 'AX 0'], cost=60000))
    return [run_eps(c.prop, eps, 'KriptoTrace'), relation().covered(c, [('a', n) for n in ae_names()]),
            relation().values(c, api(1, 'a', 1, [0, 1, 4, 5], [0], 5, 2), 250)]

# ---------------------------------------------------------------- key derivation
def pb_macs():
    return [m for m in MACS if not (m.startswith('hmac(keccak') or m.startswith('hmac(skein')) ]
@check('C16')
def c16(c):
    eps = []
    T = 4 if c.thorough else 1
    for n in MACS:
        bs, mt, kl = mac_info(n)
        fixed = n in pb_macs()
        block = n.startswith('omac') or n.startswith('xcbc')
        w = mac_w(n)
        for q in range(T * (4 if not block else 1)):
            it = c.r.choice([1, 1, 2, 3, c.r.randrange(1, 6)])
            x = c.r.choice([1, mt - 1, mt, mt + 1, 2 * mt, 3 * mt + 2, c.r.randrange(1, 4 * mt)]) or 1
            r = c.r.choice(mac_rounds(n)) if q % 4 == 3 else 0
            eps.append(Ep(c.id(n + '-'), [f'PB {n} {r} {it} {hx(pat(c, c.r.choice(kl)))} {hx(pat(c, c.r.choice([0, 1, 8, 16, bs, c.r.randrange(2 * bs)])))} {x}'], cost=w * 300 * it * (x // max(1, mt) + 1)))
    # long passwords and salts
    for n in [m for m in pb_macs() if bigkey(m)] + ['omac(aes)', 'omac(threefish512)', 'xcbc(speck64)']:
        for _ in range(2):
            k = big(c) if bigkey(n) and c.r.randrange(3) else c.r.choice(mac_info(n)[2])
            eps.append(Ep(c.id(n + '-b'), [f'PB {n} 0 {c.r.randrange(1, 4)} {c.hx(k)} {c.hx(c.r.choice([big(c), 30]))} {c.r.randrange(1, 2 * mac_info(n)[1] + 3)}'], cost=mac_w(n) * 4000))
    # the block number carries into its second, third and fourth byte (only the bytes around that block are compared)
    for n, k in [('omac(speck32)', 65536), ('hmac(md5)', 65536), ('hmac(sha2_512)', 65536), ('xcbc(simon32)', 1 << 24), ('omac(aes)', 65536)]:
        mt = mac_info(n)[1]; lo = mt * (k - 2) - c.r.randrange(3)
        eps.append(Ep(c.id(n + '-'), [f'PB {n} 0 {c.r.randrange(1, 3)} {c.hx(c.r.randrange(1, 9))} {c.hx(c.r.randrange(20))} {mt * (k + 3) - c.r.randrange(mt)} {lo}'], cost=30000))
    # many iterations; many blocks (the block number needs more than one byte)
    for n, it, x in [('hmac(sha1)', 200, 20), ('hmac(sha2_256)', 100, 40), ('hmac(md5)', 1, 16 * 300), ('omac(aes)', 1, 16 * 258), ('omac(speck32)', 3, 4 * 260), ('hmac(sha2_512)', 50, 64), ('xcbc(aes)', 300, 16)] + ([('hmac(sha1)', 4096, 20), ('omac(speck32)', 1, 4 * 66000), ('hmac(sha1)', 70000, 20)] if c.thorough else []):
        eps.append(Ep(c.id(n + '-'), [f'PB {n} 0 {it} {c.hx(5)} {c.hx(9)} {x}'], cost=600 * it * (x // 20)))
    return [run_eps(c.prop, eps, 'KriptoTrace')]

@check('C17')
def c17(c):
    eps = []
    T = 4 if c.thorough else 1
    for n in ['hmac(sha2_256)'] * 6 + ['hmac(sha1)', 'hmac(blake2s)', 'hmac(sha2_512)', 'omac(aes)', 'skein512', 'keccak800', 'hmac(md5)', 'xcbc(serpent)', 'hmac(skein256)']:
        bs, mt, kl = mac_info(n)
        for q in range(3 * T):
            N = 1 << c.r.randrange(1, 7); r = c.r.choice([1, 1, 2, 3, 5, 8]); p = c.r.choice([1, 1, 2, 3])
            x = c.r.choice([1, mt, 2 * mt + 1, 64, c.r.randrange(1, 100)])
            eps.append(Ep(c.id(n + '-'), [f'SY {n} {c.r.choice(mac_rounds(n)) if q == 2 else 0} {N} {r} {p} {hx(pat(c, c.r.choice(kl)))} {hx(pat(c, c.r.choice([0, 1, 16, c.r.randrange(2 * bs)])))} {x}'], cost=40 * N * r * p + 4000))
    for n in ('hmac(sha2_256)', 'hmac(sha1)', 'skein256', 'hmac(blake2b)', 'hmac(keccak800)'):
        if n in pb_macs(): eps.append(Ep(c.id(n + '-b'), [f'SY {n} 0 4 1 2 {c.hx(big(c))} {c.hx(big(c))} {c.r.randrange(1, 300)}'], cost=9000))
    # N of more than 16 bits: with the values of ScryptFacts
    for N in (131072, 262144): eps.append(Ep(c.id('f'), [f'SY hmac(sha2_256) 0 {N} 2 1 70617373776f7264 4e61436c 64'], cost=10 ** 7 if c.thorough else 1000))
    for N, r, p in [(1024, 1, 1), (512, 3, 1), (16, 8, 6), (2, 17, 2), (1, 1, 1)] + ([(16384, 1, 2), (1024, 8, 2), (8, 300, 1), (4, 1, 300)] if c.thorough else [(2, 1, 270), (2, 260, 1)]):
        eps.append(Ep(c.id('n'), [f'SY hmac(sha2_256) 0 {N} {r} {p} {c.hx(8)} {c.hx(8)} 64'], cost=40 * N * r * p))
    return [run_eps(c.prop, eps, 'KriptoTrace', classes=['nofacts'] if c.thorough else None)]

@check('C18')
def c18(c):
    eps = []
    for pad in range(1, 256):
        L = []
        for n in sorted({0, 1, pad - 1, pad, pad + 1, 2 * pad, c.r.randrange(3 * pad + 1)}):
            m = pat(c, n); full = (n // pad + 1) * pad
            for mx in sorted({full, full - 1, full + 1, n, c.r.randrange(full + 20)}): L.append(f'PA {hx(m)} {pad} {mx}')
            good = m + bytes([full - n]) * (full - n)
            L.append('PR ' + hx(good))
            # malformed: one padding byte changed, or arbitrary data
            bad = bytearray(good); bad[c.r.randrange(n, full)] ^= 1 << c.r.randrange(8); L.append('PR ' + hx(bytes(bad)))
            bad = bytearray(good); bad[n] ^= 1 << c.r.randrange(8); L.append('PR ' + hx(bytes(bad)))
            bad = bytearray(good); bad[-1] = c.r.choice([0, 1, full - n + 1 & 255, 255]); L.append('PR ' + hx(bytes(bad)))
            if full > n + 1: L.append('PR ' + hx(good[:-1])); L.append('PR ' + hx(good[n + 1:]))
        L.append('PR -')
        eps.append(Ep(c.id('p'), L))
    # every length and every value of the last byte for short buffers
    for n in range(1, 9):
        eps.append(Ep(c.id('s'), ['PR ' + hx(bytes([c.r.choice([v, v, 0, 1])] * (n - 1) + [v])) for v in range(256)] + ['PR ' + hx(bytes([v] * n)) for v in range(12)]))
    # all buffers of up to 3 (4) bytes over a small alphabet
    A = range(5)
    def allb(n):
        if n == 0: yield b''; return
        for p in allb(n - 1):
            for a in A: yield p + bytes([a])
    for n in range(0, 6 if c.thorough else 5): eps.append(Ep(c.id('a'), ['PR ' + hx(x) for x in allb(n)]))
    return [run_eps(c.prop, eps, 'KriptoTrace')]

@check('C19')
def c19(c):
    eps = []
    for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 511, 512, 1000, 4096 + 3, 65536 + 7, 70000]:
        L = []
        a = pat(c, n); L.append(f'QE {hx(a)} {hx(a)}')
        pos = range(n) if n <= 300 else sorted({0, 1, n // 2, n - 2, n - 1, 255, 256, 257, 511, 65535 % max(n, 1), 65536 % max(n, 1)} | set(c.r.sample(range(n), 200 if n <= 1000 else 40 if n < 5000 else 4)))
        for i in pos:
            if i < 0 or i >= n: continue
            for bit in range(8) if n <= 20 else c.r.sample(range(8), 2 if n < 70 else 1):
                b = bytearray(a); b[i] ^= 1 << bit; L.append(f'QE {hx(a)} {hx(bytes(b))}')
            if n > 60000 and i % 2: continue
            b = bytearray(a); b[i] ^= c.r.randrange(1, 256); L.append(f'QE {hx(a)} {hx(bytes(b))}')
        # two differences (that may cancel each other)
        for _ in range(6 if n > 1 else 0):
            b = bytearray(a); d = c.r.choice([0x80, 0xff, 1, c.r.randrange(1, 256)]); i, j = c.r.sample(range(n), 2); b[i] ^= d; b[j] ^= d
            L.append(f'QE {hx(a)} {hx(bytes(b))}')
            b = bytearray(a); b[i] = (b[i] + d) & 255; b[j] = (b[j] - d) & 255; L.append(f'QE {hx(a)} {hx(bytes(b))}')
        if n: L.append(f'QE {hx(a)} {hx(bytes(x ^ 255 for x in a))}')
        eps.append(Ep(c.id('e'), L))
        L = []
        for off in (0, 1, 3, c.r.randrange(n + 1)):
            if off <= n:
                L += [f'ALIGN {c.r.randrange(9)}', f'QW {hx(pat(c, n))} {off} {n - off}']
                k = c.r.randrange(n - off + 1); L += [f'QW {c.hx(n)} {off} {k}']
        eps.append(Ep(c.id('w'), L))
    # all differences of one byte, all byte values
    for i in range(3):
        a = c.by(3); eps.append(Ep(c.id('x'), [f'QE {hx(a)} {hx(a[:i] + bytes([v]) + a[i + 1:])}' for v in range(256)]))
    return [run_eps(c.prop, eps, 'KriptoTrace')]

def sample_sources(c):
    R = lambda n: c.by(n)
    N = 4096
    S = []
    S += [R(N) for _ in range(12 if not c.thorough else 60)]                                # good
    S += [bytes([v]) * N for v in (0, 1, 0x55, 0xaa, 0xff, c.r.randrange(256))]             # constant
    S += [bytes(i * k & 255 for i in range(N)) for k in (1, 3, 7, 0x55)]                    # counters
    S += [bytes(x | 1 << b for x in R(N)) for b in (0, 3, 7)] + [bytes(x & ~(1 << b) for x in R(N)) for b in (1, 7)]   # stuck bits
    S += [bytes(x & 0x7f for x in R(N)), bytes(x % 96 + 32 for x in R(N)), bytes(x % 251 for x in R(N)), bytes(x & y for x, y in zip(R(N), R(N))), bytes(x | y & 0x11 for x, y in zip(R(N), R(N)))]
    for p in (1, 2, 16, 64, 256, 500): S.append((R(p) * (N // p + 1))[:N])                  # short periods
    S.append(bytes(x for x in R(N // 2) for _ in (0, 1)))                                   # doubled bytes
    w = sorted(R(N)); S += [bytes(w), bytes(w[::-1])]                                       # sorted
    m = bytearray(R(N))
    for i in range(0, N, 512): m[i:i + 512] = bytes(sorted(m[i:i + 512], key=lambda x: x >> 4))
    S.append(bytes(m))                                                                      # correlated
    m = bytearray(R(N))
    for i in range(0, N, 2): m[i:i + 2] = bytes(sorted(m[i:i + 2]))
    S.append(bytes(m))
    p = list(range(256)); m = b''
    for _ in range(16): c.r.shuffle(p); m += bytes(p)
    S.append(m)                                                                             # too even
    # biased mean with balanced bits, biased bits
    S.append(bytes(x if x < 0xe0 or i % 3 else x ^ 0xff for i, x in enumerate(R(N))))
    S.append(bytes(sum((c.r.random() < .46) << b for b in range(8)) for _ in range(N)))
    S.append(bytes(sum((c.r.random() < .54) << b for b in range(8)) for _ in range(N)))
    # few or many bit changes
    for q in (.42, .45, .55, .58):
        o = []; bit = 0
        for i in range(N):
            v = 0
            for b in range(8):
                bit ^= c.r.random() < q; v = v << 1 | bit
            o.append(v)
        S.append(bytes(o))
    # the second half repeats the first; only the beginning or the end is random
    S += [R(N // 2) * 2, R(N - 300) + bytes(300), bytes(300) + R(N - 300), R(N // 2) + bytes(N // 2)]
    # too few bytes
    S += [R(n) for n in (0, 1, 4095)]
    return S
@check('C20')
def c20(c):
    eps = []
    for m in sample_sources(c): eps.append(Ep(c.id('t'), [f'RF {hx(m)}', 'RC 0', 'RT 0', 'RX 0'], cost=4000))
    for n in (0, 1, 2, 15, 4095, 4096, 4097, 8192, 20000):
        for _ in range(3 if c.thorough else 2):
            L = [f'RF {c.hx(n)}', 'RC 0']
            for k in cutn(c.r, n, c.r.randrange(6)) + [c.r.choice([0, 1, 5, 5000])] * 2: L.append(f'RG 0 {k}')
            # two readers of one source; reading past the end
            L += ['RC 1', f'RG 1 {n // 2}', 'RG 0 3', f'RG 1 {n}', 'RG 1 1', 'RX 0', f'RG 1 10', 'RX 1']
            eps.append(Ep(c.id('g'), L, cost=2000 + n))
    # a pipe that delivers a few bytes at a time; the system's source (a stand-in)
    for n, ch in ((0, 1), (1, 1), (300, 1), (300, 7), (5000, 13), (5000, 1000), (9000, 4096), (70000, 700), (70000, 65536)):
        for kind in ('P', 'S'):
            m = c.by(n); L = [f'RP {hx(m)} {ch}' if kind == 'P' else f'RS {hx(m)}', 'RC 0']
            for k in cutn(c.r, n, c.r.randrange(4)) + [c.r.choice([0, 1, 5, 5000])] * 2: L.append(f'RG 0 {k}')
            eps.append(Ep(c.id(kind), L + ['RX 0'], cost=2000 + n))
    for m in (c.by(4096), c.by(5000), bytes(5000), c.by(4095), bytes(i & 255 for i in range(4096))):
        for s in (f'RP {hx(m)} 100', f'RP {hx(m)} 4095', f'RS {hx(m)}'): eps.append(Ep(c.id('pt'), [s, 'RC 0', 'RT 0', 'RG 0 2000', 'RX 0'], cost=4000))
    m = c.by(70000); eps.append(Ep(c.id('L'), [f'RF {hx(m)}', 'RC 0', 'RG 0 65537', 'RG 0 5000', 'RX 0', 'RC 0', 'RG 0 70000', 'RX 0', 'RC 0', 'RG 0 70001', 'RX 0'], cost=9000))
    m = c.by(9000); eps.append(Ep(c.id('x'), [f'RF {hx(m)}', 'RC 0', 'RG 0 100', 'RT 0', 'RG 0 50', 'RT 0', 'RG 0 1000', 'RX 0'], cost=4000))
    eps.append(Ep(c.id('n'), ['RN 0', 'RC 0', 'RN 1', 'RC 1', 'RG 1 0', 'RG 1 1', 'RG 1 100', 'RG 1 65537', 'RT 1', 'RX 1']))
    return [run_eps(c.prop, eps, 'KriptoTrace')]

@check('C24')
def c24(c):
    eps = []
    T = 6 if c.thorough else 2
    for cfg in ('words', 'words-le', 'words-portable'):
        for w in (8, 16, 32, 64):
            k = w // 8
            vals = lambda q: [c.by(k) for _ in range(q)] + [pat(c, k)]
            for n in range(0, w):
                L = []
                for d in 'LR':
                    for v in vals(T) + [(1 << c.r.randrange(w)).to_bytes(k, 'big')]:
                        L.append(f'WV {d} {n} {hx(v)}')
                        if n: L.append(f'WF {d} {n} {hx(v)}')
                eps.append(Ep(c.id('r'), L, cfg=cfg))
            if w == 8: continue
            L = []
            for e in 'LB':
                for a in range(9):
                    for v in vals(T): L += [f'ALIGN {a}', f'WL {e} {hx(v)}', f'ALIGN {a}', f'WS {e} {hx(v)}']
            eps.append(Ep(c.id('l'), L, cfg=cfg))
            for n in range(1, 41):
                L = []
                for e in 'LB':
                    L += [f'ALIGN {c.r.randrange(9)}', f'WA {e} {w} {hx(pat(c, n))}']
                    for _ in range(T):
                        off = c.r.randrange(0, 24); L += [f'ALIGN {c.r.randrange(9)}', f'WB {e} {w} {c.hx((off + n + k - 1) // k * k)} {off} {n}']
                eps.append(Ep(c.id('a'), L, cfg=cfg))
            # long arrays
            for q in range(6):
                L = []; n = c.r.randrange(41, 300) if q < 2 else c.r.choice([c.r.randrange(300, 1100), 256 + q, 512 - q, c.r.randrange(1100, 5000)])
                for e in 'LB':
                    L += [f'ALIGN {c.r.randrange(9)}', f'WA {e} {w} {hx(pat(c, n))}']
                    off = c.r.randrange(0, 24); L += [f'ALIGN {c.r.randrange(9)}', f'WB {e} {w} {c.hx((off + n + k - 1) // k * k)} {off} {n}']
                eps.append(Ep(c.id('A'), L, cfg=cfg))
    return [run_eps(c.prop, eps, 'KriptoTrace')]
