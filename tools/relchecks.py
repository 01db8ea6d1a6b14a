"""Checks over KriptoRel (what results may depend on) and the limits."""
from checks import *
from checks import check, CHECKS
from kverif import Ep, run_eps
import checks as K

VAL = ['value', 'crash', 'failure']
KINDS = 'bhsma'
def names(kind):
    if kind == 'b': return list(BLOCKS)
    if kind == 'h': return list(HASHES)
    if kind == 'm': return MACS
    if kind == 's': return list(NATIVE) + [f'{m}({b})' for m in MODES for b in BLOCKS]
    return ae_names()
def allnames(c=None, per=None):
    """(kind, name) of everything; modes, OMAC, EAX over per ciphers each (all when None)"""
    L = []
    for k in KINDS:
        for n in names(k):
            L.append((k, n))
    if per is None: return L
    out = []; groups = {}
    for k, n in L:
        a, b = parts(n)
        if b and b in BLOCKS: groups.setdefault((k, a), []).append((k, n))
        else: out.append((k, n))
    for g in groups.values(): out += c.r.sample(g, min(per, len(g)))
    return out
def weight(kind, n):
    a, b = parts(n)
    return SLOW.get(b or a, 1) if 'blowfish' not in n else 10
def dblock(kind, n):
    """length of data around which something may happen"""
    a, b = parts(n)
    if kind == 'h': return HASHES[n][1]
    if kind == 'm': return mac_info(n)[0]
    if kind == 's': return BLOCKS[b][0] if b else SBLOCK[n]
    if kind == 'b': return binfo(n)[0]
    return BLOCKS[b][0] if a == 'eax' else 32

def near(c, new, old):
    """bytes of the length of new, related to old: the same beginning or end, one bit changed, ..."""
    n = len(new); k = c.r.randrange(6)
    if not old or not n or k == 0: return new
    base = (old + new[len(old):])[:n]
    if k == 1: return base
    if k == 2: h = c.r.choice([n // 2, n - 1, 8, 4, 16]); return base[:h] + new[h:] if 0 < h < n else base
    if k == 3: h = c.r.choice([n // 2, 1, n - 8, n - 4]); return new[:h] + base[h:] if 0 < h < n else base
    b = bytearray(base); i = c.r.choice([0, n - 1, c.r.randrange(n)]); b[i] ^= 1 << c.r.randrange(8); return bytes(b)
class Obj:
    """parameters and data of one object; near: related to those of another"""
    def __init__(s, c, kind, name, r=None, like=None, near=None):
        s.c, s.kind, s.n = c, kind, name
        a, b = parts(name); R = c.r
        s.x = 0; s.iv = b''; s.tw = None; s.mult = 1; s.salt = b''; s.hdr = b''
        rc = [0]
        if kind == 'b':
            bs, mk, mt, _ = binfo(name); rc = [0, 0] + roundcounts(name)
            s.key = pat(c, R.choice([mk, R.choice(list(keylens(name)))]))
            if mt: s.tw = pat(c, R.choice([mt, R.randrange(1, mt + 1)]))
            s.data = [pat(c, bs) for _ in range(R.choice([1, 2, 3]))]
        elif kind == 'h':
            rc = [0] + HASHES[name][3]; s.x = R.choice(outlens(name)); s.key = c.by(R.choice(saltlens(name)))
            s.out = min(s.x, out_total(name, s.x)); s.data = pat(c, mlens(c, rate(name, s.x)))
        elif kind == 'm':
            bs, mt, kl = mac_info(name); rc = [0] + mac_rounds(name)
            s.key = c.by(big(c)) if bigkey(name) and not R.randrange(9) else pat(c, R.choice(kl)); s.x = R.choice([mt, mt, R.randrange(1, mt + 1)]); s.data = pat(c, mlens(c, bs))
        elif kind == 's':
            if b:
                bs, mk, mt, _ = BLOCKS[b]; rc = [0, 0] + roundcounts(b)
                s.key = pat(c, R.choice([mk, R.choice(list(keylens(b)))])); s.iv = b'' if a == 'ecb' else carry_iv(c, bs)
                s.mult = smult(name); s.data = pat(c, s.mult * R.randrange(6) if s.mult > 1 else R.choice([0, 1, bs, bs + 1, R.randrange(6 * bs)]))
            else:
                mk, mi, rs = NATIVE[name]; rc = [0, 0] + rs
                s.key = c.by(big(c)) if bigkey(name) and not R.randrange(9) else pat(c, R.choice([mk, R.randrange(1, mk + 1)])); s.iv = c.by(big(c)) if name.startswith(('skein', 'keccak')) and not R.randrange(9) else pat(c, R.choice([0, mi, R.randrange(mi + 1)])); s.data = pat(c, slens(c, SBLOCK[name]))
        else:
            k, iv, s.x, s.mult = ae_params(c, name)
            if a == 'eax': rc = [0, 0] + roundcounts(b)
            s.key = pat(c, k); s.iv = pat(c, iv); bs = dblock(kind, name)
            s.hdr = pat(c, R.choice([0, 1, bs, R.randrange(3 * bs)]))
            s.data = pat(c, s.mult * R.randrange(4) if s.mult > 1 else R.choice([0, 1, bs, bs + 1, R.randrange(4 * bs)]))
        s.r = R.choice(rc) if r is None else r
        if near is not None:
            o = near
            if len(s.key) != len(o.key) and R.randrange(2) and len(o.key) <= 70000:
                s.key = bytes(o.key)   # the same length
            s.key = globals()['near'](c, s.key, o.key); s.iv = globals()['near'](c, s.iv, o.iv)
            if R.randrange(3): s.r = o.r
            if R.randrange(3) and kind == 'b' : s.data = o.data
            if kind == 'b' and s.tw is not None and o.tw is not None: s.tw = globals()['near'](c, s.tw, o.tw)
            if kind in 'ma' and R.randrange(2): s.x = o.x
            if kind == 'h' and R.randrange(2) and s.key == o.key: s.x = o.x; s.out = o.out
        if like is not None: s.r, s.key, s.iv, s.x, s.tw = like.r, like.key, like.iv, like.x, like.tw
    def par(s):
        k = s.kind; t = f'{s.r} {hx(s.key)}'
        if k in 'sa': t += ' ' + hx(s.iv)
        if k in 'hma': t += f' {s.x}'
        return t
    def create(s, h): return f'{s.kind.upper()}C {h} {s.n} {s.par()}'
    def recreate(s, h): return f'{s.kind.upper()}R {h} {s.par()}'
    def destroy(s, h): return f'{s.kind.upper()}X {h}'
    def ops(s, h, dec=None, cut=None):
        """calls that process the data, cut in any way"""
        c = s.c; R = c.r; k = s.kind
        n = lambda: R.randrange(4) if cut is None else cut
        if k == 'b':
            L = [f'BT {h} {hx(s.tw)}'] if s.tw is not None else []
            for d in s.data:
                L.append(f'BE {h} {hx(d)} {R.randrange(2)}')
                if R.randrange(2): L.append(f'BD {h} $0 {R.randrange(2)}')
            return L
        if k == 'h': return [f'HI {h} {hx(p)}' for p in cuts(R, s.data, n())] + [f'HO {h} {q}' for q in cutn(R, s.out, n())]
        if k == 'm':
            L = [f'MI {h} {hx(p)}' for p in cuts(R, s.data, n())]
            return L + ([f'MT {h} {s.x}'] if mac_once(s.n) else [f'MT {h} {q}' for q in cutn(R, s.x, n()) if q])
        if k == 's':
            return s.pieces(h, 'SE', s.data, n())
        H = [f'AH {h} {hx(p)}' for p in cuts(R, s.hdr, n())]; D = s.pieces(h, 'AE', s.data, n()); L = []
        while H or D: L.append((H if H and (not D or R.random() < .5) else D).pop(0))
        return L + [f'AT {h} {s.x}']
    def pieces(s, h, op, data, n):
        L = []; o = 0
        for q in cutn(s.c.r, len(data) // s.mult, n): L.append(f'{op} {h} {hx(data[o:o + q * s.mult])} {s.c.r.randrange(2)}'); o += q * s.mult
        return L
    def slices(s, h, op, total, n, slot='$a'):
        L = []; o = 0
        for q in cutn(s.c.r, total // s.mult, n): L.append(f'{op} {h} {slot}.{o}.{o + q * s.mult} {s.c.r.randrange(2)}'); o += q * s.mult
        return L
def collect(L, ops):
    """LET a = the outputs of the calls ops, which are the latest"""
    return L + ['LET a ' + ('+'.join(f'${k}' for k in range(len(ops) - 1, -1, -1)) if ops else '-')]

# ------------------------------------- behaviours generated from Kripto.tla, transitions of Cover.tla
def part(states, res): return dict(res, states=res.get('states', 0) + states['states'], transitions=res.get('transitions', 0) + states['transitions'])
def lazy(kind, n):
    """a full buffer waits for more"""
    return kind in 'sa' or n.startswith(('blake2', 'skein', 'omac', 'xcbc')) or n.startswith('hmac(') and parts(n)[1].startswith(('blake2', 'skein'))
def cover_block(kind, n, x):
    a, b = parts(n)
    if kind == 'h': return rate(n, x)
    if kind == 'm': return rate(b, x) if a == 'hmac' and b in ('sha3', 'keccak1600', 'keccak800') else rate(n, x) if a.startswith('keccak') else dblock('m', n)
    if kind == 's' and a.startswith('keccak'): return 32
    return dblock(kind, n)
def covered(c, todo, most=60):
    """episodes in which calls of every (critical) length happen at every position of the block, against one call; todo: [(kind, name)]"""
    import walks
    jobs = []; eps = []
    for k, n in todo:
        a, b = parts(n); o = Obj(c, k, n, r=0)
        if k == 'h': o.x = outlens(n)[-1] if c.r.randrange(2) else c.r.choice(outlens(n))
        if k == 'm': o.x = mac_info(n)[1]
        if k == 'a' and (a != 'eax' or o.mult > 1): continue
        if k == 's' and o.mult > 1: continue
        B = cover_block(k, n, o.x)
        if B < 4: continue
        ops = {'h': 'I', 'm': 'I', 's': 'EDP', 'a': 'EH'}[k]
        jobs.append((k, n, o, (B, lazy(k, n), ops, c.thorough and B <= 64)))
        if k == 'h' and out_total(n, o.x) > 20 * B: jobs.append(('o', n, o, (B, True, 'O', False)))
    st = walks.all_edges([j[3] for j in jobs])
    for k, n, o, w in jobs:
        for W in walks.walks_of(c, w, most):
            N = sum(q for _, q in W)
            if k == 'o':
                m = pat(c, c.r.randrange(3 * w[0])); L = [o.create(0), f'HI 0 {hx(m)}', f'HO 0 {N}', o.create(1), f'HI 1 {hx(m)}'] + [f'HO 1 {q}' for _, q in W if q] + ['HX 0', 'HX 1']
            elif k in 'hm':
                m = c.by(N); K = k.upper(); out = (lambda h: [f'HO {h} {min(o.x, out_total(n, o.x))}']) if k == 'h' else (lambda h: [f'MT {h} {o.x}'])
                L = [o.create(0), f'{K}I 0 {hx(m)}'] + out(0) + [o.create(1)]; pos = 0
                for _, q in W: L.append(f'{K}I 1 {hx(m[pos:pos + q])}'); pos += q
                L += out(1) + [o.destroy(0), o.destroy(1)]
            elif k == 's':
                P = b''.join(bytes(q) if op == 'P' else c.by(q) for op, q in W); pos = 0
                L = [o.create(0), f'SE 0 {hx(P)} {c.r.randrange(2)}', 'LET a $0', o.create(1)]
                for op, q in W:
                    L.append(f'SE 1 {hx(P[pos:pos + q])} {c.r.randrange(2)}' if op == 'E' else f'SD 1 $a.{pos}.{pos + q} {c.r.randrange(2)}' if op == 'D' else f'SP 1 {q}'); pos += q
                L += [o.destroy(0), o.destroy(1)]
            else:
                # the header in calls of any length too
                P = c.by(sum(q for op, q in W if op == 'E')); H = c.by(sum(q for op, q in W if op == 'H')); pos = hp = 0
                L = [o.create(0), f'AH 0 {hx(H)}', f'AE 0 {hx(P)} {c.r.randrange(2)}', 'LET a $0', f'AT 0 {o.x}', 'LET t $0', o.create(1)]
                dec = c.r.randrange(2)
                for op, q in W:
                    if op == 'H': L.append(f'AH 1 {hx(H[hp:hp + q])}'); hp += q
                    else: L.append(f'AD 1 $a.{pos}.{pos + q} {c.r.randrange(2)}' if dec else f'AE 1 {hx(P[pos:pos + q])} {c.r.randrange(2)}'); pos += q
                L += ['AV 1 $t', o.destroy(0), o.destroy(1)]
            eps.append(Ep(c.id('cover-'), L, cost=weight('h' if k == 'o' else k, n) * (200 + 8 * N)))
    r = part(st, run_eps(c.prop, eps, 'KriptoRel', classes=VAL)); r['extra'] = dict(transition_cover=f'{sum(len(__import__("walks").CACHE[j[3]][0]) for j in jobs)} transitions of {len(jobs)} automata in {len(eps)} walks')
    return r
def histories(c, consts, per=30, refs=3, classes=VAL, times=1, tag='hist-', most=None, root='KriptoRel', pick=None):
    """every behaviour of Kripto.tla of the given size, in the real code"""
    import walks
    H, r = walks.all_histories(consts); al = len(H)
    if most and al > most: H = c.r.sample(H, most)
    e = part(r, run_eps(c.prop, walks.episodes(c, H, per, c.id(tag), refs, times, pick), root, classes=classes))
    e['extra'] = dict(histories_replayed=f'{len(H)} of {al}'); return e
def random_walks(c, consts, num, refs=3, classes=VAL, per=1, tag='walk-', root='KriptoRel'):
    import walks
    H, r = walks.walks(consts, num, c.seed * 7 + 1); H = walks.one_each(H)
    e = part(r, run_eps(c.prop, walks.episodes(c, H, per, c.id(tag), refs), root, classes=classes))
    e['extra'] = dict(random_walks=len(H)); return e
def values(c, consts, most, pick=None):
    """generated histories; every value judged by the definitions"""
    return histories(c, consts, 5, 0, None, 1, 'value-', most * (10 if c.thorough else 1), 'KriptoTrace', pick)
def api(*a):
    import walks
    return walks.api(*a)

# ------------------------------------------------------------------------------------------- C01
@check('C01')
def c01(c):
    eps = []
    T = 4 if c.thorough else 1
    for n in list(BLOCKS) + [gost_name(c.r) for _ in range(3)]:
        bs, mk, mt, mr = binfo(n); short = n.split('(')[0]; w = SLOW.get(n, 1)
        rcs = [0] + roundcounts(n); kls = list(keylens(n))
        if n == 'blowfish' and not c.thorough: kls = c.r.sample(kls, 12); rcs = [0, 1, 2, 3, 34] + c.r.sample(rcs, 4)
        def use(k):
            L = [f'BT 0 {hx(pat(c, c.r.randrange(1, mt + 1)))}'] if mt and c.r.randrange(4) else []
            for _ in range(k):
                p = hx(pat(c, bs)); i, j = c.r.randrange(2), c.r.randrange(2)
                L += c.r.choice([[f'BE 0 {p} {i}', f'BD 0 $0 {j}'], [f'BD 0 {p} {i}', f'BE 0 $0 {j}']])
            if c.r.randrange(3) == 0: L += [f'BD 0 {p} 0', f'BE 0 {p} 0']
            return L
        # every key length, every round count
        for k in kls: eps.append(Ep(c.id(short + '-k'), [f'BC 0 {n} 0 {hx(pat(c, k))}'] + use(3 * T) + ['BX 0'], cost=w * 40))
        for r in rcs:
            for k in (mk, c.r.choice(kls)): eps.append(Ep(c.id(short + '-r'), [f'BC 0 {n} {r} {hx(pat(c, k))}'] + use(3 * T) + ['BX 0'], cost=w * 40))
        # histories: new keys, round counts and tweaks on one object
        for _ in range(12 * T if w < 4 else 3 * T):
            key = pat(c, c.r.choice(kls)); L = [f'BC 0 {n} {c.r.choice(rcs)} {hx(key)}'] + use(1)
            for _ in range(c.r.randrange(1, 6)):
                key = near(c, pat(c, c.r.choice(kls)), key); L += [f'BR 0 {c.r.choice(rcs)} {hx(key)}'] + use(c.r.randrange(1, 3))
                if mt and c.r.randrange(2): L += use(1)
            eps.append(Ep(c.id(short + '-h'), L + ['BX 0'], cost=w * 120))
    return [run_eps(c.prop, eps, 'KriptoRel', classes=VAL)]

# ------------------------------------------------------------------------------------------- C03
@check('C03')
def c03(c):
    eps = []
    T = 4 if c.thorough else 1
    for n, (mo, bs, ms, rs) in HASHES.items():
        for x in outlens(n):
            lens = hmsg_lens(n, x); top = x == outlens(n)[-1]
            lens = lens if top or c.thorough else c.r.sample(lens, 10)
            lens = lens + [c.r.randrange(8 * rate(n, x)) for _ in range(6 * T)]
            for L in lens:
                m = pat(c, L); r = c.r.choice([0, 0] + rs); salt = c.by(c.r.choice(saltlens(n))); cr = f'HC 0 {n} {r} {hx(salt)} {x}'; re = 'HR' + cr[2:4] + cr[4 + len(n) + 1:]
                tot = out_total(n, x)
                if n.startswith('keccak') and c.r.randrange(3): tot = min(tot, x)
                S = [cr, f'HI 0 {hx(m)}', f'HO 0 {tot}', 'HX 0']
                def var(cre, pieces, outs):
                    return [cre] + [f'HI 0 {hx(p)}' for p in pieces] + [f'HO 0 {o}' for o in outs]
                S += var(cr, cuts(c.r, m, 1), [tot])
                if L <= 300: S += var(re, [m[i:i + 1] for i in range(L)], [1] * tot if tot < 200 else cutn(c.r, tot, 9))
                for _ in range(2 * T): S += var(re, cuts(c.r, m, c.r.randrange(1, 8)), cutn(c.r, tot, c.r.randrange(6)))
                # cuts around the block boundary
                b = rate(n, x)
                for d in (-1, 0, 1):
                    if 0 <= b + d <= L: S += var(re, [m[:b + d], m[b + d:]], cutn(c.r, tot, 1))
                if L > 2 * b: S += var(re, [m[:1], m[1:b + 1], m[b + 1:2 * b], m[2 * b:]], [tot])
                eps.append(Ep(c.id(n + '-'), S + ['HX 0'], cost=200 + 4 * L))
        # long messages: calls with more than 2^16 bytes
        for _ in range(2):
            x = c.r.choice(outlens(n)[-3:]); b = rate(n, x)
            if b < 8: continue
            m = c.by(65536 + c.r.randrange(1, 3 * b)); tot = min(x, out_total(n, x)); S = []
            for ps in ([m], cuts(c.r, m, 3), [m[:1], m[1:]], [m[:65536], m[65536:]], [m[i:i + 997] for i in range(0, len(m), 997)]): S += [f'HC 0 {n} 0 - {x}' if not S else f'HR 0 0 - {x}'] + [f'HI 0 {hx(p)}' for p in ps] + [f'HO 0 {q}' for q in cutn(c.r, tot, c.r.randrange(2))]
            eps.append(Ep(c.id(n + '-L'), S + [f'HA 0 {n} 0 - {hx(m)} {tot}', 'HX 0'], cost=20000))
        if c.thorough:
            x = outlens(n)[-1]; tot = min(x, out_total(n, x)); eps.append(Ep(c.id(n + '-Z'), [f'HC 0 {n} 0 - {x}', f'HZ 0 32 300 {1 << 40}', f'HO 0 {tot}', f'HR 0 0 - {x}', 'HZ 0 32 300 65000', f'HO 0 {tot}', 'HX 0'], cost=500000))
        # further output and input of the sponges
        if n in ('keccak1600', 'keccak800'):
            for _ in range(20 * T):
                x = c.r.choice(outlens(n)); b = rate(n, x); m = [pat(c, c.r.randrange(1, 3 * b)) for _ in range(3)]; o = [c.r.randrange(1, 2 * b) for _ in range(3)]
                S = []
                for k in range(4):
                    S.append(f'HC 0 {n} 0 - {x}' if not S else f'HR 0 0 - {x}')
                    for i in range(3):
                        ps = [m[i]] if not k else [p for p in cuts(c.r, m[i], c.r.randrange(4)) if p]
                        S += [f'HI 0 {hx(p)}' for p in ps] + [f'HO 0 {q}' for q in ([o[i]] if not k else cutn(c.r, o[i], c.r.randrange(4))) if q]
                eps.append(Ep(c.id(n + '-d'), S + ['HX 0'], cost=600))
    return [run_eps(c.prop, eps, 'KriptoRel', classes=VAL), 
            covered(c, [('h', n) for n in HASHES] * (4 if c.thorough else 1)),
            histories(c, api(1, 'h', 2, [0, 1, 3, 4, 5], [0], 6 if c.thorough else 5, 2), most=40000)]

# ------------------------------------------------------------------------------------------- C08
@check('C08')
def c08(c):
    eps = []
    T = 4 if c.thorough else 1
    for n in names('s'):
        a, b = parts(n); gen = a not in ('cbc', 'ecb')
        for q in range((3 if b else 25) * T):
            o = Obj(c, 's', n, r=0 if q % 3 else None)
            if q % 3 == 0: bs = dblock('s', n); o.data = pat(c, o.mult * c.r.randrange(2, 12) if o.mult > 1 else c.r.randrange(bs, 8 * bs))
            N = len(o.data); u = o.mult
            E1 = o.pieces(0, 'SE', o.data, c.r.randrange(4))
            L = [o.create(0)] + collect(E1, E1)
            L += [o.create(1)] + o.pieces(1, 'SE', o.data, c.r.randrange(8))
            L += [o.recreate(1)] + o.slices(1, 'SD', N, c.r.randrange(6))
            if N <= 70 * u: L += [o.recreate(0)] + [f'SE 0 {hx(o.data[i:i + u])} {c.r.randrange(2)}' for i in range(0, N, u)] + [o.recreate(1)] + [f'SD 1 $a.{i}.{i + u} {c.r.randrange(2)}' for i in range(0, N, u)]
            # mixed calls on one object; generated bytes are encrypted zeros
            M = [o.recreate(0)]; pos = 0
            for k in cutn(c.r, N // u, c.r.randrange(1, 7)):
                k *= u; w = c.r.choice('EDP' if gen else 'ED')
                M.append(f'SE 0 {hx(o.data[pos:pos + k])} {c.r.randrange(2)}' if w == 'E' else f'SD 0 $a.{pos}.{pos + k} {c.r.randrange(2)}' if w == 'D' else f'SP 0 {k}'); pos += k
            L += M
            if gen:
                L += [o.recreate(0), f'SE 0 {hx(bytes(N))} 1', o.recreate(1)] + [f'SP 1 {k}' for k in cutn(c.r, N, c.r.randrange(6))]
                L += [o.recreate(1)] + [f'SP 1 {k}' if i % 2 else f'SE 1 {hx(bytes(k))}' for i, k in enumerate(cutn(c.r, N, 5))]
            eps.append(Ep(c.id(n.replace('(', '-').replace(')', '-')), L + ['SX 0', 'SX 1'], cost=weight('s', n) * (100 + N * 4)))
        # calls with more than 2^16 bytes
        if not b or b in ('aes', 'speck32', 'threefish1024', '3way') or c.thorough:
            o = Obj(c, 's', n, r=0); u = o.mult; bs = dblock('s', n); o.data = c.by((65536 // u + 1 + c.r.randrange(3 * bs // u + 1)) * u); N = len(o.data)
            L = [o.create(0), f'SE 0 {hx(o.data)} {c.r.randrange(2)}', 'LET a $0', o.create(1)] + o.slices(1, 'SD', N, c.r.randrange(4))
            if gen: L += [o.recreate(1), f'SE 1 {hx(bytes(N))} 1', o.recreate(0), f'SP 0 {N}', o.recreate(0)] + [f'SP 0 {k}' for k in cutn(c.r, N, 2)]
            L += [o.recreate(0)] + o.pieces(0, 'SE', o.data, 3) + ['SX 0', 'SX 1']
            eps.append(Ep(c.id('L'), L, cost=12000))
    return [run_eps(c.prop, eps, 'KriptoRel', classes=VAL), 
            covered(c, [('s', n) for n in names('s')]),
            histories(c, api(1, 'sg', 1, [0, 1, 3, 4, 5], [0], 5 if c.thorough else 4, 2), most=60000)]

# ------------------------------------------------------------------------------------------- C10
def flipped(c, b, lo=0, hi=None):
    """one bit changed, never a parity bit of a DES key"""
    b = bytearray(b); b[c.r.randrange(lo, hi or len(b))] ^= 1 << c.r.randrange(1, 8); return bytes(b)
def tampered(c, m):
    k = c.r.randrange(4)
    if k == 0 or not m: return m + c.r.choice([b'\0', b'\x80', c.by(1), bytes(c.r.randrange(1, 40)), m or b'\1'])
    if k == 1: return m[:-1]
    b = bytearray(m); b[c.r.randrange(len(b))] ^= 1 << c.r.randrange(8); return bytes(b)
def tagtests(c, op, h, x, redo):
    """verification of the tag in $t and of changed ones; redo: calls that bring the object back (MAC) or None"""
    L = []
    # a change in every byte of the tag
    bits = sorted(set([8 * i + c.r.randrange(8) for i in range(x)] + [0, 7, 8 * x - 1, 8 * x - 8]))
    if c.thorough: bits = range(8 * x)
    def one(t):
        if redo is not None and L: L.extend(redo)
        L.append(f'{op} {h} {t}')
    one('$t')
    for b in bits: one(f'$t.0.{x}~{b}')
    if x > 1:
        # differences that cancel out, equal parts, swapped parts
        one(f'$t.{x // 2}.{x}+$t.0.{x // 2}'); one(f'$t.0.{x - 1}+{c.hx(1)}'); one(f'{c.hx(1)}+$t.1.{x}')
        i, j = sorted(c.r.sample(range(x), 2)); k = c.r.randrange(8)
        one(f'$t.0.{i}' * (i > 0) + '+' * (i > 0) + f'$t.{i}.{i+1}~{k}' + f'+$t.{i+1}.{j}' * (j > i + 1) + f'+$t.{j}.{j+1}~{k}' + f'+$t.{j+1}.{x}' * (j + 1 < x))
        one(f'$t.0.{x // 2}'); one(f'$t.0.1')
    one(hx(bytes(x))); one('ff' * x)
    one('$t')
    return L
def shorter(tt, x):
    """without verifying shortened tags"""
    return tt if x == 1 else [l for l in tt if not (l[1] == 'V' and l.split()[2] in ('$t.0.1', f'$t.0.{x // 2}'))]
@check('C10')
def c10(c):
    eps = []
    T = 3 if c.thorough else 1
    for n in MACS:
        bs, mt, kl = mac_info(n); once = mac_once(n)
        for q in range((2 if '(' in n and not once else 6) * T):
            o = Obj(c, 'm', n, r=0)
            if q % 2 == 0: o.x = mt
            feed = lambda d=None, h=1: [f'MI {h} {hx(p)}' for p in cuts(c.r, o.data if d is None else d, c.r.randrange(3))]
            L = [o.create(0)] + feed(h=0) + [f'MT 0 {o.x}', 'LET t $0', o.create(1)] + feed()
            tt = tagtests(c, 'MV', 1, o.x, [o.recreate(1)] + feed())
            # a truncated tag cannot be asked of an HMAC object
            if once: tt = shorter(tt, o.x)
            L += tt
            # other message, other key: the tag is not theirs
            if o.x >= 8:
                for _ in range(3): L += [o.recreate(1)] + feed(tampered(c, o.data)) + ['MV 1 $t']
                k = o.key
                for _ in range(2): o.key = flipped(c, k); L += [o.recreate(1)] + feed() + ['MV 1 $t']
                o.key = k
            eps.append(Ep(c.id(n.replace('(', '-').replace(')', '-')), L + ['MX 0', 'MX 1'], cost=weight('m', n) * 600))
    for n in ae_names():
        a, b = parts(n)
        for q in range((2 if a == 'eax' else 5) * T):
            o = Obj(c, 'a', n, r=0)
            if q % 2 == 0: o.x = max(o.x, 8) if a == 'eax' and BLOCKS[b][0] >= 8 else o.x
            L = [o.create(0)]
            H = lambda h, d=None: [f'AH {h} {hx(p)}' for p in cuts(c.r, o.hdr if d is None else d, c.r.randrange(3))]
            E1 = o.pieces(0, 'AE', o.data, c.r.randrange(3)); N = len(o.data)
            L += H(0) + collect(E1, E1) + [f'AT 0 {o.x}', 'LET t $0']
            D = lambda: o.slices(1, 'AD', N, c.r.randrange(3))
            tt = tagtests(c, 'AV', 1, o.x, [o.recreate(1)] + H(1) + D())
            if a == 'eax2': tt = shorter(tt, o.x)
            L += [o.create(1)] + H(1) + D() + tt + [o.recreate(1)] + H(1) + D() + [f'AT 1 {o.x}']
            if o.x >= 8:
                L += [o.recreate(1)] + H(1, tampered(c, o.hdr)) + D() + ['AV 1 $t']
                if N:
                    L += [o.recreate(1)] + H(1) + [f'AD 1 $a.0.{N}~{c.r.randrange(8 * N)}', 'AV 1 $t']
                    L += [o.recreate(1)] + H(1) + ([f'AD 1 $a.0.{N - o.mult}'] if N > o.mult else []) + ['AV 1 $t']
                L += [o.recreate(1)] + H(1) + D() + [f'AD 1 {c.hx(o.mult)}', 'AV 1 $t']
                # header for data, data for header
                if N and o.mult == 1: L += [o.recreate(1), f'AH 1 $a', f'AD 1 {hx(o.hdr)}', 'AV 1 $t'] if o.hdr else [o.recreate(1), 'AH 1 $a', 'AV 1 $t']
                iv = o.iv
                if iv: o.iv = flipped(c, iv); L += [o.recreate(1)] + H(1) + D() + ['AV 1 $t']
                mi = BLOCKS[b][0] if a == 'eax' else smaxiv(n[5:].split(',')[0] if '(' not in n[5:].split(',')[0] else n[5:].split(',')[0])
                if len(iv) < min(mi, 100): o.iv = iv + b'\0'; L += [o.recreate(1)] + H(1) + D() + ['AV 1 $t']
                o.iv = iv
                k = o.key; o.key = flipped(c, k, 0, None if a == 'eax' else 1); L += [o.recreate(1)] + H(1) + D() + ['AV 1 $t']; o.key = k
                L += [o.recreate(1)] + H(1) + D() + ['AV 1 $t']
            eps.append(Ep(c.id(a + '-'), L + ['AX 0', 'AX 1'], cost=weight('a', n) * 800))
    return [run_eps(c.prop, eps, 'KriptoRel', classes=VAL + ['forged'])]

# ------------------------------------------------------------------------------------------- C11
@check('C11')
def c11(c):
    eps = []
    T = 4 if c.thorough else 1
    for kind, n in allnames(c, None if c.thorough else 14):
        a, b = parts(n)
        cnt = {'b': 10, 'h': 14, 'm': 6 if a == 'hmac' or not b else 3, 's': 3 if b else 14, 'a': 8 if a == 'eax2' else 3}[kind] * T
        if 'blowfish' in n: cnt = min(cnt, 3 * T)
        for q in range(cnt):
            o = Obj(c, kind, n); ref = [o.create(0)] + o.ops(0) + [o.destroy(0)]
            L = list(ref); h = 1
            for _ in range(c.r.randrange(1, 4)):
                p = Obj(c, kind, n, near=o if c.r.randrange(2) else None); ops = p.ops(h)
                L += [p.create(h) if h not in live_(L) else p.recreate(h)]
                L += ops[:c.r.randrange(len(ops) + 1)]
            L += [o.recreate(h)] + o.ops(h)
            # the same parameters again; back from other ones
            if c.r.randrange(2): L += [o.recreate(h)] + o.ops(h)
            if c.r.randrange(2): p = Obj(c, kind, n, near=o if c.r.randrange(3) else None); L += [p.recreate(h)] + p.ops(h)[:c.r.randrange(9)] + [o.recreate(h)] + o.ops(h)
            eps.append(Ep(c.id(kind + '-'), L + [o.destroy(h)], cost=weight(kind, n) * (100 + sum(map(len, L)) // 8)))
    return [run_eps(c.prop, eps, 'KriptoRel', classes=VAL), 
            histories(c, api(1, 'hmsgba', 2, [0, 4, 5], [0], 5 if c.thorough else 4, 3), most=60000),
            random_walks(c, api(1, 'hmsgba', 2, [0, 1, 3, 4, 5, 9], [0], 25, 20), 2000 if c.thorough else 300)]
def live_(L):
    s = set()
    for l in L:
        t = l.split()
        if t[0][1] == 'C': s.add(int(t[1]))
        if t[0][1] == 'X': s.discard(int(t[1]))
    return s

# ------------------------------------------------------------------------------------------- C12
def oneshots(c):
    L = []
    for n in HASHES:
        o = Obj(c, 'h', n); L.append((n, f'HA 0 {n} {o.r} {hx(o.key)} {hx(o.data)} {o.out}'))
    for n in MACS:
        o = Obj(c, 'm', n); L.append((n, f'MA 0 {n} {o.r} {hx(o.key)} {hx(o.data)} {o.x}'))
    for n in MACS:
        bs, mt, kl = mac_info(n)
        if '(' in n and not n.startswith('hmac') and c.r.random() < (.8 if not c.thorough else 0): continue
        L.append((n, f'PB {n} 0 {c.r.randrange(1, 4)} {c.hx(c.r.choice(kl))} {c.hx(8)} {2 * mt + 1}'))
        L.append((n, f'SY {n} 0 {1 << c.r.randrange(1, 4)} {c.r.randrange(1, 3)} {c.r.randrange(1, 3)} {c.hx(c.r.choice(kl))} {c.hx(8)} {mt + 3}'))
    return L
@check('C12')
def c12(c):
    eps = []
    T = 3 if c.thorough else 1
    MAXF = 12
    for kind, n in allnames(c, None if c.thorough else 12):
        for q in range(T * (2 if 'blowfish' not in n else 1)):
            o = Obj(c, kind, n); p = Obj(c, kind, n); w = Obj(c, kind, n)
            pre = [o.create(1)] + o.ops(1) + [o.destroy(1), w.create(2)]
            for f in range(1, MAXF if kind == 'a' else 7 if kind in 'sm' else 4):
                L = pre + [f'F {f}', o.create(0)] + o.ops(0) + [o.destroy(0)]
                L += [o.create(1)] + o.ops(1) + [o.destroy(1)] + w.ops(2) + [w.destroy(2)]
                eps.append(Ep(c.id(kind + '-'), L, cost=weight(kind, n) * 100))
                # re-creation
                L = pre + [p.create(0)] + p.ops(0) + [f'F {f}', o.recreate(0)] + o.ops(0) + [o.destroy(0)]
                L += [o.create(1)] + o.ops(1) + [o.destroy(1)] + w.ops(2) + [w.destroy(2)]
                eps.append(Ep(c.id(kind + 'r-'), L, cost=weight(kind, n) * 100))
            # use calls
            L = pre + [o.create(0)]
            for l in o.ops(0): L += ['F 1', l]
            eps.append(Ep(c.id(kind + 'u-'), L + [o.destroy(0), w.destroy(2)], cost=weight(kind, n) * 100))
    for n, l in oneshots(c):
        for f in range(1, 16 if l.startswith('PB') else 22 if l.startswith('SY') else 8):
            eps.append(Ep(c.id('one-'), [l, f'F {f}', l, l], cost=60 * (3 if l[0] == 'P' else 6 if l[0] == 'S' else 1)))
    D = [('s', f'{m}({b})') for m in MODES for b in ('aes', 'des')] + [('m', f'{m}({b})') for m in ('omac', 'xcbc') for b in ('aes', 'idea')] + [('m', 'hmac(sha1)'), ('m', 'hmac(blake2b)'), ('a', 'eax(aes)'), ('a', 'eax2(chacha,hmac(md5))')] + [('b', gost_name(c.r)), ('b', gost_name(c.r))]
    for k, n in D:
        eps.append(Ep(c.id('desc-'), [f'DC {k} {n}', 'F 1', f'DC {k} {n}', f'DC {k} {n}']))
    return [run_eps(c.prop, eps, 'KriptoRel', classes=VAL + ['heap', 'mem']), 
            histories(c, api(1, 'hmsgba', 2, [5], range(9), 4, 3), classes=VAL + ['heap', 'mem'], most=104052 if c.thorough else 12000, refs=1),
            random_walks(c, api(3, 'hmsgba', 2, [0, 1, 4, 5], [0, 1, 2, 4, 7], 20, 20), 2000 if c.thorough else 200, classes=VAL + ['heap', 'mem'])]

# ------------------------------------------------------------------------------------------- C13
@check('C13')
def c13(c):
    eps = []
    T = 3 if c.thorough else 1
    def aligned(L, always=False):
        out = []
        for l in L:
            if always or c.r.randrange(3) == 0: out.append(f'ALIGN {c.r.randrange(9)}')
            out.append(l)
        return out
    def variants(g, L, w):
        # different contents of uninitialised memory, alignments, sanitizers
        for cfg, fill, al in (('std', '1', 0), ('std', 'deadbeefcafe', 1), ('asan', '77777', 0), ('msan', '3', 1)):
            eps.append(Ep(c.id(), [f'FILL {fill}'] + (aligned(L) if al else L), cfg=cfg, group=g, cost=w * (100 + sum(map(len, L)) // 8)))
    for kind, n in allnames(c, None if c.thorough else 10):
        a, b = parts(n)
        for q in range({'b': 4, 'h': 8, 'm': 3, 's': 2 if b else 8, 'a': 3}[kind] * T):
            if 'blowfish' in n and q > 0: break
            o = Obj(c, kind, n); p = Obj(c, kind, n)
            L = [o.create(0)] + o.ops(0) + [p.recreate(0)] + p.ops(0) + [p.destroy(0), p.create(1)] + p.ops(1) + [p.destroy(1)]
            if kind == 's' and a not in ('cbc', 'ecb'): L = L[:1] + ['SP 0 ' + str(c.r.randrange(3 * dblock(kind, n))), 'SP 0 0'] + L[1:]
            # the same data in place and into another buffer
            if kind == 's':
                for ip in (0, 1):
                    L += [o.create(2), f'SE 2 {hx(o.data)} {ip}', 'LET a $0', o.recreate(2), f'SD 2 $a {ip}', o.destroy(2)]
            if kind == 'a':
                for ip in (0, 1):
                    L += [o.create(2), f'AE 2 {hx(o.data)} {ip}', 'LET a $0', o.recreate(2), f'AD 2 $a {ip}', f'AT 2 {o.x}', 'LET t $0', o.recreate(2), f'AE 2 {hx(o.data)} {ip}', 'AV 2 $t', o.destroy(2)]
            if kind == 'b':
                for d in o.data:
                    L += [o.create(2)] + ([f'BT 2 {hx(o.tw)}'] if o.tw is not None else []) + [f'BE 2 {hx(d)} {i}' for i in (0, 1)] + [f'BD 2 {hx(d)} {i}' for i in (0, 1)] + [o.destroy(2)]
            if kind == 'm': L += [o.create(2), f'MI 2 {hx(o.data)}', f'MV 2 {c.hx(o.x)}', o.destroy(2)]
            variants(c.id(kind + '-'), L, weight(kind, n))
        if kind == 'b' and 'blowfish' not in n:
            # the shortest and longest keys with the fewest and the most rounds
            rc = roundcounts(n) or [0]; mk = binfo(n)[1]
            L = []
            for r in (rc[0], rc[-1], 0):
                for k in (1, 2, 3, mk - 1, mk): L += [f'BC 0 {n} {r} {c.hx(k)}', f'BE 0 {c.hx(binfo(n)[0])}', f'BD 0 $0', f'BR 0 {c.r.choice(rc)} {c.hx(c.r.randrange(1, mk + 1))}', f'BE 0 {c.hx(binfo(n)[0])}', 'BX 0']
            variants(c.id('bk-'), L, 1)
        if kind in 'hmsa' and 'blowfish' not in n:
            # every length around a few blocks in one call, from the start and from within a block
            o = Obj(c, kind, n, r=0); bs = dblock(kind, n); mu = o.mult; w = weight(kind, n)
            top = max(64, 2 * bs) + bs + 2
            lens = list(range(0, top * (2 if c.thorough else 1), mu))
            if not c.thorough: lens = sorted(set(c.r.sample(lens, min(len(lens), 30)) + [x for x in lens if x % bs in (0, 1, bs - 1)]) | {k for k in range(max(64, 2 * bs), top) if k % mu == 0})
            one = {'h': ('HI', 'HO'), 'm': ('MI',), 's': ('SE', 'SD', 'SP') if a not in ('cbc', 'ecb') else ('SE', 'SD'), 'a': ('AE', 'AD', 'AH')}[kind]
            big = c.by(top * 3)
            for op in one:
                L = []
                if op == 'HO' and out_total(n, o.x) < 99: lens_ = range(0, out_total(n, o.x) + 1)
                else: lens_ = lens
                for q in lens_:
                    pre = c.r.choice([0, 0, 1, bs - 1, c.r.randrange(bs)]) // mu * mu
                    if op == 'HO':
                        x = o.x if not n.startswith('skein') else q + pre or 1
                        t = out_total(n, x); L += [f'HC 0 {n} 0 - {x}', f'HO 0 {min(pre, t - min(q, t))}', f'HO 0 {min(q, t)}', 'HX 0']; continue
                    L += [o.create(0) if not L else o.recreate(0)]
                    if op == 'SP': L += [f'SP 0 {pre}', f'SP 0 {q}']
                    else: L += [f'{op} 0 {hx(big[:pre])}' + (' 1' if op in ('SE', 'SD', 'AE', 'AD') else ''), f'{op} 0 {hx(big[pre:pre + q])}' + (f' {c.r.randrange(2)}' if op in ('SE', 'SD', 'AE', 'AD') else '')]
                if op != 'HO': L.append(o.destroy(0))
                variants(c.id(kind + 'l-'), L, w)
    for n, l in oneshots(c): variants(c.id('one-'), [l, l], 3)
    # helpers
    L = []
    for _ in range(40 * T):
        n = c.r.randrange(40); pad = c.r.randrange(1, 256); m = pat(c, n); full = (n // pad + 1) * pad
        L += [f'PA {hx(m)} {pad} {c.r.choice([full, full, full - 1, full + 3, n])}', 'PR ' + hx(c.r.choice([m + bytes([full - n]) * (full - n), pat(c, n)]))]
        a = c.by(n); L += [f'QE {hx(a)} {hx(a)}', f'QE {hx(a)} {c.hx(n)}', f'QW {hx(a)} 0 {n}', f'QW {hx(a)} {n // 2} {n - n // 2}', f'QW {hx(a)} {n // 2} 0']
    variants(c.id('help-'), L, 3)
    return [run_eps(c.prop, eps, 'KriptoRel', classes=VAL + ['mem'])]

# ------------------------------------------------------------------------------------------- C14
def twin(c, o):
    """the same object with other secrets of the same lengths"""
    import copy
    t = copy.copy(o)
    if o.kind != 'h': t.key = c.by(len(o.key))
    t.data = [c.by(len(d)) for d in o.data] if o.kind == 'b' else c.by(len(o.data))
    t.hdr = c.by(len(o.hdr))
    return t
@check('C14')
def c14(c):
    eps = []
    T = 4 if c.thorough else 1
    import random
    def add(g, mk, w, nt=2):
        st = c.r.randrange(1 << 60)
        for k in range(nt):
            r0 = c.r; c.r = random.Random(st); L = mk(k); c.r = r0     # the cuts are the same
            eps.append(Ep(c.id('t'), L, group=g, cost=w * (60 + sum(map(len, L)) // 10)))
    for kind, n in allnames(c, None if c.thorough else 14):
        for q in range({'b': 4, 'h': 6, 'm': 3, 's': 2 if '(' in n else 6, 'a': 3}[kind] * T):
            if 'blowfish' in n and q: break
            O = [Obj(c, kind, n) for _ in range(3)]; tw = [[o, twin(c, o)] for o in O]
            # q: at which point the object is given up
            n0, n1 = c.r.randrange(99), c.r.randrange(99)
            f = c.r.choice([0, 0, 1, 2, 3, 4])
            def mk(k):
                a, b, d = (x[k] for x in tw)
                oa = a.ops(0); ob = b.ops(0); L = [a.create(0)] + oa[:n0 % (len(oa) + 1)] + [b.recreate(0)] + ob[:n1 % (len(ob) + 1)] + [b.destroy(0)]
                L += [d.create(1), d.destroy(1)]
                L += ([f'F {f}'] if f else []) + [a.create(0)] + a.ops(0) + ([f'F {f}'] if f else []) + [d.recreate(0)] + d.ops(0) + [d.destroy(0)]
                if f:
                    L += [d.create(2), f'F {f}', a.recreate(2), a.destroy(2)]
                return L
            add(c.id(kind + '-'), mk, weight(kind, n))
    for n in HASHES:
        for _ in range(2 * T):
            o = Obj(c, 'h', n); L = len(o.data); add(c.id('ha-'), lambda k: [f'HA 0 {n} {o.r} {hx(o.key)} {hx(o.data if k == 0 else bytes(x ^ 0x5a for x in o.data))} {o.out}'], 1)
    for n in MACS:
        o = Obj(c, 'm', n); t = twin(c, o); add(c.id('ma-'), lambda k: [f'MA 0 {n} {o.r} {hx((o, t)[k].key)} {hx((o, t)[k].data)} {o.x}'], 1)
    for n in MACS:
        if '(' in n and not n.startswith('hmac') and c.r.random() < (.6 if not c.thorough else 0): continue
        bs, mt, kl = mac_info(n); kn = c.r.choice(kl); K = [c.by(kn), c.by(kn)]; it = c.r.randrange(1, 4); s = c.hx(8); x = c.r.choice([1, mt, 2 * mt + 1])
        for f in (0, 1, 2, 3, 5, 8): add(c.id('pb-'), lambda k: [f'F {f}', f'PB {n} 0 {it} {hx(K[k])} {s} {x}'], 1)
        N, R, P = 1 << c.r.randrange(1, 4), c.r.randrange(1, 3), c.r.randrange(1, 3)
        for f in (0, 1, 2, 3, 4, 6, 9): add(c.id('sy-'), lambda k: [f'F {f}', f'SY {n} 0 {N} {R} {P} {hx(K[k])} {s} {x}'], 3)
    return [run_eps(c.prop, eps, 'KriptoRel', classes=['freed', 'crash'], drv_env={'LOG_FREED': '1'})]

# ------------------------------------------------------------------------------------------- C15
@check('C15')
def c15(c):
    eps = []
    T = 4 if c.thorough else 1
    ALL = allnames(c, None if c.thorough else 6)
    byk = {}
    for k, n in ALL: byk.setdefault(k, []).append(n)
    def inter(Ls):
        Ls = [list(L) for L in Ls]; out = []
        while any(Ls): L = c.r.choice([L for L in Ls if L]); out.append(L.pop(0))
        return out
    # outputs of other objects come in between: no references to earlier outputs
    def plain(o, h): return [l.rsplit(' ', 2)[0] + ' ' + hx(c.by(binfo(o.n)[0])) + ' 0' if ' $0 ' in l else l for l in o.ops(h)]
    for kind, n in ALL:
        for q in range(T * (2 if '(' in n else 3)):
            if 'blowfish' in n and q: break
            # three objects: two of one primitive, one of any other
            k3 = c.r.choice(KINDS); o = [Obj(c, kind, n)]; o += [Obj(c, kind, n, near=o[0] if c.r.randrange(2) else None), Obj(c, k3, c.r.choice(byk[k3]))]
            S = [[x.create(h)] + plain(x, h) for h, x in enumerate(o)]
            if c.r.randrange(2): p = Obj(c, kind, n, near=c.r.choice(o[:2])); S[0] += [p.recreate(0)] + plain(p, 0)
            S = [s + [x.destroy(h)] for h, (s, x) in enumerate(zip(S, o))]
            g = c.id(kind + '-'); w = weight(kind, n)
            eps.append(Ep(c.id('alone'), [l for s in S for l in s], group=g, cost=w * 200))
            for _ in range(2): eps.append(Ep(c.id('mixed'), inter(S), group=g, cost=w * 200))
    # threads: every kind of object, several threads each, same and different primitives
    def threads(cfg, count, cn):
        for q in range(count):
            nt = c.r.choice([2, 4, 8]); same = q % 2 == 0
            if same: kind, n = cn[q % len(cn)]
            per = []
            for t in range(nt):
                L = []
                for _ in range(3 if same else 4):
                    if not same: kind, n = c.r.choice(ALL)
                    o = Obj(c, kind, n); L += [o.create(0)] + plain(o, 0) + [o.destroy(0)]
                per.append(L)
            g = c.id('par-')
            eps.append(Ep(c.id('alone'), [l for L in per for l in L], group=g, cfg='std', cost=500))
            body = [f'@{t} {l}' for t, L in enumerate(per) for l in L]
            for _ in range(2): eps.append(Ep(c.id('threads-' + cfg), ['PAR'] + body + ['ENDPAR'], group=g, cfg=cfg, cost=1000 if cfg == 'std' else 3000))
    cn = list(ALL); c.r.shuffle(cn); cn = [x for x in cn if 'blowfish' not in x[1]]
    threads('std', 40 * T, cn); threads('tsan', (len(cn) if c.thorough else 2 * len(cn)), cn)
    # one-shot calls and key derivation in threads
    one = [l for _, l in oneshots(c)]
    for q in range(30 * T):
        nt = 4; per = [c.r.sample(one, 4) for _ in range(nt)]; g = c.id('one-')
        eps.append(Ep(c.id('alone'), [l for L in per for l in L], group=g))
        eps.append(Ep(c.id('threads'), ['PAR'] + [f'@{t} {l}' for t, L in enumerate(per) for l in L] + ['ENDPAR'], group=g, cfg='tsan', cost=2000))
    return [run_eps(c.prop, eps, 'KriptoRel', classes=VAL),
            histories(c, api(2, 'hsa', 2, [5], [0], 4, 3), most=20172 if c.thorough else 8000),
            random_walks(c, api(3, 'hmsgba', 2, [0, 1, 3, 4, 5], [0], 24, 20), 2000 if c.thorough else 300)]

# ------------------------------------------------------------------------------------------- C22
@check('C22')
def c22(c):
    eps = []
    T = 4 if c.thorough else 1
    for n in HASHES:
        for x in outlens(n):
            if x > out_total(n, x): continue
            for L in c.r.sample(hmsg_lens(n, x), 8 if not c.thorough else 16) + [c.r.randrange(6 * rate(n, x)) for _ in range(4 * T)]:
                o = Obj(c, 'h', n); o.x = x; o.out = min(x, out_total(n, x)); o.data = pat(c, L)
                one = f'HA 0 {n} {o.r} {hx(o.key)} {hx(o.data)} {o.out}'
                if o.out != x: continue
                eps.append(Ep(c.id(n + '-'), [one, o.create(0)] + o.ops(0) + [o.destroy(0), one, o.create(0)] + o.ops(0) + [o.destroy(0)], cost=200 + 4 * L))
    for n in MACS:
        for q in range(T * (12 if n.startswith('hmac') else 4 if '(' in n else 25)):
            if 'blowfish' in n and q: break
            o = Obj(c, 'm', n); one = f'MA 0 {n} {o.r} {hx(o.key)} {hx(o.data)} {o.x}'
            eps.append(Ep(c.id('m-'), [one, o.create(0)] + o.ops(0) + [o.destroy(0), o.create(0)] + o.ops(0) + [o.destroy(0), one], cost=weight('m', n) * 200))
        if '(' not in n or n.startswith('hmac') or n.endswith(('(aes)', '(speck32)', '(threefish1024)')):
            o = Obj(c, 'm', n, r=0); o.data = c.by(65536 + c.r.randrange(1, 300)); one = f'MA 0 {n} 0 {hx(o.key)} {hx(o.data)} {o.x}'
            eps.append(Ep(c.id('mL-'), [one, o.create(0)] + o.ops(0) + [o.destroy(0), o.create(0)] + o.ops(0, cut=0) + [o.destroy(0)], cost=8000))
    return [run_eps(c.prop, eps, 'KriptoRel', classes=VAL + ['heap', 'mem'])]

# ------------------------------------------------------------------------------------------- C23
CFGS = ['std', 'le', 'gccO0', 'gccO3', 'clangO3', 'clangOs', 'portable', 'ndebug']
@check('C23')
def c23(c):
    eps = []
    T = 4 if c.thorough else 1
    def allcfg(g, L, w):
        for cfg in CFGS: eps.append(Ep(cfg, L, cfg=cfg, group=g, cost=w * (60 + sum(map(len, L)) // 10)))
    for kind, n in allnames(c, None if c.thorough else 8):
        for q in range({'b': 3, 'h': 6, 'm': 2, 's': 2 if '(' in n else 8, 'a': 2}[kind] * T):
            if 'blowfish' in n and q: break
            o = Obj(c, kind, n); p = Obj(c, kind, n)
            L = [o.create(0)] + o.ops(0) + [p.recreate(0)] + p.ops(0)
            if kind == 's' and parts(n)[0] not in ('cbc', 'ecb'): L += [f'SP 0 {c.r.randrange(5 * dblock(kind, n))}']
            if kind == 'b': L += [f'BE 0 {hx(pat(c, binfo(n)[0]))}' for _ in range(3)] + [f'BD 0 {hx(pat(c, binfo(n)[0]))}' for _ in range(3)]
            # odd alignments
            L = [x for l in L for x in ((f'ALIGN {c.r.randrange(9)}', l) if c.r.randrange(3) == 0 else (l,))]
            allcfg(c.id(kind + '-'), L + [o.destroy(0)], weight(kind, n))
    for n in BLOCKS:
        # all round counts, some key lengths
        if n == 'blowfish': continue
        L = []
        for r in roundcounts(n): L += [f'BC 0 {n} {r} {hx(pat(c, c.r.choice([binfo(n)[1], c.r.choice(list(keylens(n)))])))}', f'BE 0 {hx(pat(c, binfo(n)[0]))}', f'BD 0 {hx(pat(c, binfo(n)[0]))}', 'BX 0']
        if L: allcfg(c.id('br-'), L, 1)
    for n, l in oneshots(c): allcfg(c.id('one-'), [l], 2)
    L = []
    for _ in range(60 * T):
        n = c.r.randrange(40); pad = c.r.randrange(1, 256); m = pat(c, n); full = (n // pad + 1) * pad
        L += [f'PA {hx(m)} {pad} {c.r.choice([full, full - 1, full + 3])}', 'PR ' + hx(m + bytes([full - n]) * (full - n)), 'PR ' + hx(m)]
        a = c.by(n); b = bytearray(a)
        if n: b[c.r.randrange(n)] ^= 1 << c.r.randrange(8)
        L += [f'QE {hx(a)} {hx(a)}', f'QE {hx(a)} {hx(bytes(b))}', f'QW {hx(a)} 0 {n}']
    allcfg(c.id('help-'), L, 1)
    lim = []
    for k, n in allnames():
        lim.append(f'{k.upper()}M 0 {n}')
    allcfg(c.id('lim-'), lim[:200], 2); allcfg(c.id('lim-'), lim[200:], 2)
    return [run_eps(c.prop, eps, 'KriptoRel', classes=VAL)]

# ------------------------------------------------------------------------------------------- C21
@check('C21')
def c21(c):
    eps = []
    T = 3 if c.thorough else 1
    E = lambda L, w=1: eps.append(Ep(c.id('l-'), L, cost=w * (100 + sum(map(len, L)))))
    for n in BLOCKS:
        bs, mk, mt, mr = BLOCKS[n]
        for k in sorted({1, 2, mk // 2, mk - 1, mk} - {0}):
            L = [f'BM 0 {n}', f'BC 0 {n} 0 {hx(pat(c, k))}']
            for t in ([1, mt - 1, mt] if mt else [None]): L += ([f'BT 0 {hx(pat(c, t))}'] if t else []) + [f'BE 0 {hx(pat(c, bs))}', f'BD 0 {hx(pat(c, bs))}']
            E(L + [f'BR 0 0 {hx(pat(c, c.r.choice([1, mk])))}', f'BE 0 {hx(pat(c, bs))}', 'BX 0'], SLOW.get(n, 1))
        for m in MODES:
            mi = 0 if m == 'ecb' else bs
            L = [f'SM 0 {m}({n})']
            for k, i in [(1, 0), (mk, mi), (1, mi), (mk, 0)] if n != 'blowfish' else [(mk, mi)]: L += [f'SC 0 {m}({n}) 0 {hx(pat(c, k))} {hx(pat(c, i))}', f'SE 0 {hx(pat(c, 2 * bs))}', f'SR 0 0 {hx(pat(c, mk))} {hx(pat(c, c.r.choice([0, mi])))}', f'SD 0 {hx(pat(c, 2 * bs))}', 'SX 0'][:None if n != 'blowfish' else 2] + (['SX 0'] if n == 'blowfish' else [])
            E(L, SLOW.get(n, 1))
    for n, (mo, bs, ms, rs) in HASHES.items():
        for x in outlens(n):
            for sl in saltlens(n): E([f'HM 0 {n}', f'HC 0 {n} 0 {c.hx(sl)} {x}', f'HI 0 {c.hx(c.r.randrange(2 * bs))}', f'HO 0 {min(x, out_total(n, x))}', f'HR 0 0 {c.hx(c.r.choice(saltlens(n)))} {x}', f'HO 0 {min(x, out_total(n, x))}', 'HX 0'])
    for n in MACS:
        bs, mt, kl = mac_info(n)
        L = [f'MM 0 {n}']
        for k in [kl[0], kl[-1]]:
            for x in ([1, mt] if mt > 1 else [1]):
                L += [f'MC 0 {n} 0 {hx(pat(c, k))} {x}', f'MI 0 {c.hx(c.r.randrange(2 * bs))}', f'MT 0 {x}', 'MX 0']
            if 'blowfish' in n: break
        E(L, mac_w(n))
    for n, (mk, mi, rs) in NATIVE.items():
        for k in (1, mk):
            for i in (0, mi): E([f'SM 0 {n}', f'SC 0 {n} 0 {hx(pat(c, k))} {hx(pat(c, i))}', f'SE 0 {c.hx(70)}', f'SP 0 20', 'SX 0'], 4)
    for n in ae_names():
        a, b = parts(n)
        L = [f'AM 0 {n}']
        if a == 'eax':
            bs, mk = BLOCKS[b][:2]
            combos = [(1, 0, 1), (mk, bs, bs), (1, bs, bs), (mk, 0, 1)] if b != 'blowfish' else [(mk, bs, bs)]
        else:
            combos = []
            i = 0; d = 0
            for i, ch in enumerate(b):
                d += (ch == '(') - (ch == ')')
                if ch == ',' and not d: break
            s, m = b[:i], b[i + 1:]
            mk = smaxkey(s) + mmaxkey(m) if smaxkey(s) and mmaxkey(m) else 90
            for k in (2, 3, mk - 1, mk):
                for iv in sorted({0, min(smaxiv(s), 40)}): combos.append((k, iv, c.r.choice([1, mac_info(m)[1]])))
        for k, iv, x in combos: L += [f'AC 0 {n} 0 {hx(pat(c, k))} {hx(pat(c, iv))} {x}', f'AH 0 {c.hx(c.r.randrange(20))}', f'AE 0 {c.hx(2 * (smult(s) if a == "eax2" else 9))}', f'AT 0 {x}', 'AX 0']
        E(L, SLOW.get(b, 1) * (1 if a == 'eax' else 6))
    return [run_eps(c.prop, eps, 'KriptoTrace')]

# ------------------------------------------------------------------------------------------- C19: the work of a comparison
c19_values = CHECKS['C19']
@check('C19')
def c19(c):
    res = c19_values(c)
    eps = []
    for n in list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4099, 70000]:
        a = c.by(n); L = [f'QE {hx(a)} {hx(a)}', f'QE {hx(bytes(n))} {hx(bytes(n))}', f'QE {hx(a)} {hx(bytes(x ^ 255 for x in a))}']
        for i in sorted({0, 1, n // 4, n // 2, n - 2, n - 1} | set(range(min(n, 16)))):
            if 0 <= i < n: b = bytearray(a); b[i] ^= 1 << c.r.randrange(8); L.append(f'QE {hx(a)} {hx(bytes(b))}')
        for _ in range(4): L.append(f'QE {hx(pat(c, n))} {hx(pat(c, n))}')
        eps.append(Ep(c.id('steps'), L, cfg='cov'))
    return res + [run_eps(c.prop, eps, 'KriptoRel', classes=VAL + ['steps'])]

for p_ in 'C01 C03 C08 C10 C11 C12 C13 C14 C15 C22 C23'.split(): K.KIND[p_] = 'rel'
K.TECH.update(C12=', with every allocation of a call made to fail in turn', C13=', under guard pages, canaries, AddressSanitizer, UBSan and MemorySanitizer as monitors',
              C14=', over twin histories that differ in secrets only', C15=', over interleavings and threads (also under ThreadSanitizer)', C23=', over eight build configurations')
K.LNOTE.update(
    C12='Up to 21 allocation failures per call are injected, one per run.',
    C14='Contents of every released block are compared between runs with different secrets; copies on the stack or in registers are not covered.',
    C15='Thread schedules are those of the operating system, under ThreadSanitizer; TLC judges the results.',
    C13='Sanitizers and guard pages observe; TLC judges their reports as events of the trace.',
    C19='Work is the number of basic blocks executed in an instrumented build; micro-architectural timing is not covered.',
    C23='x86-64, gcc and clang; big-endian machines are represented by the portable byte-order code only.')
