"""Behaviours of spec/Kripto.tla and spec/impl/*.tla: model checking, and histories for replay into the real code."""
import concurrent.futures as cf, os, re, time
import kverif
from kverif import V, B, tlc, states_of, Broken

def cfg(consts, inv, prop=(), spec='Spec', extra=''):
    f = lambda v: '{' + ', '.join(f(x) for x in v) + '}' if isinstance(v, (list, tuple, set)) else f'"{v}"' if isinstance(v, str) else str(v).upper() if isinstance(v, bool) else str(v)
    return 'CONSTANTS\n' + ''.join(f'  {k} = {f(v)}\n' for k, v in consts.items()) + f'SPECIFICATION {spec}\n' + (f'INVARIANTS {" ".join(inv)}\n' if inv else '') + ''.join(f'PROPERTY {p}\n' for p in prop) + 'CHECK_DEADLOCK FALSE\n' + extra

def model(name, mod, consts, inv, prop=(), args=(), timeout=800, extra='', workers=2, want_out=False):
    """checks a module with TLC; returns dict(states=, transitions=, rejects=) in the form of a part of a check"""
    d = f'{B}/models'; os.makedirs(d, exist_ok=True)
    p = f'{d}/{os.getpid()}-{time.monotonic_ns()}.cfg'
    with open(p, 'w') as f: f.write(cfg(consts, inv, prop, extra=extra))
    try: rc, out = tlc(f'{V}/spec/{mod}.tla', p, args=['-workers', str(workers), '-deadlock'] + list(args), timeout=timeout)
    finally: os.unlink(p)
    if rc and not (want_out and 'simulat' in out.lower() and rc == 0):
        raise Broken(f'model {name}: TLC exit {rc}: {out[-1500:]}')
    s = states_of(out)
    r = dict(states=s[0], transitions=s[1], model=name)
    if want_out: r['out'] = out
    return r

API_INV = ['AnswersDue', 'NothingKept', 'HeapExact', 'FailureReported']
def api(handles, kinds, pars, lens, faults, depth, creations, show=''):
    return dict(Handles=list(range(handles)), Kinds=list(kinds), Pars=list(range(1, pars + 1)), Lens=list(lens), Faults=list(faults), Depth=depth, MaxCreate=creations, Show=show)
def parse(out):
    H = []
    for line in out.splitlines():
        line = line.strip().strip('"')
        if line.startswith('HIST '):
            H.append([(op, int(h), k, int(p), int(n), int(f), ok == '1') for op, h, k, p, n, f, ok in (e.split(',') for e in line[5:].split())])
    H.sort()
    return H
def all_histories(consts, workers=4):
    r = model('Kripto: every history', 'Kripto', dict(consts, Show='all'), API_INV + ['Emit'], ['Isolation'], workers=workers, want_out=True)
    return parse(r.pop('out')), r
def walks(consts, num, seed):
    r = model('Kripto: random walks', 'Kripto', dict(consts, Show='walk'), ['Emit'], (), args=['-simulate', f'num={num}', '-depth', str(consts['Depth'] + 1), '-seed', str(seed)], workers=1, want_out=True)
    return parse(r.pop('out')), r

def scale(c, n, bs):
    """a length in toy blocks of 4 bytes as one in blocks of bs"""
    q, r = divmod(n, 4)
    return q * bs + (0, 1, c.r.randrange(2, max(3, bs - 1)), bs - 1)[r]

def edges(b, lazy, ops, full, top=None):
    """every transition of Cover.tla: [(op, n, p, p')]"""
    top = 2 * b + 1 if top is None else top
    r = model(f'Cover B={b}', 'impl/Cover', dict(B=b, Lazy=lazy, Ops=list(ops), Max=top, Full=full), ['Positions'], (), extra='VIEW View\nACTION_CONSTRAINT EmitEdge\n', workers=1, want_out=True)
    E = [(l[1], int(l[2]), int(l[3]), int(l[4])) for l in (x.strip().strip('"').split() for x in r.pop('out').splitlines()) if l and l[0] == 'EDGE']
    return E, r
CACHE = {}
def all_edges(wanted):
    """fills the cache for a set of (b, lazy, ops, full); returns the states"""
    todo = [w for w in set(wanted) if w not in CACHE]
    with cf.ThreadPoolExecutor(6) as ex:
        for w, (E, r) in zip(todo, ex.map(lambda w: edges(w[0], w[1], w[2], w[3]), todo)): CACHE[w] = E, r
    R = [CACHE[w][1] for w in set(wanted)]
    return dict(states=sum(r['states'] for r in R), transitions=sum(r['transitions'] for r in R))
def walks_of(c, w, most=60): return cover(c, CACHE[w][0], w[0], most)
def cover(c, E, b, most=60):
    """walks from 0 that take every transition; a walk has about `most` calls"""
    todo = {}; op0 = E[0][0]
    for op, n, p, q in E: todo.setdefault(p, []).append((op, n, q))
    for p in todo: todo[p].sort(); c.r.shuffle(todo[p])
    W = []
    while todo:
        p = 0; w = []
        while len(w) < most:
            if p not in todo:
                # one call to the next position where something is left to do; position 0 may be that of a fresh object only
                x = min((x for x in todo if x), key=lambda x: (x - p) % b or b, default=None)
                if x is None or 0 in todo and not w: break
                w.append((op0, (x - p) % b or b)); p = x
            op, n, q = todo[p].pop(); w.append((op, n))
            if not todo[p]: del todo[p]
            p = q
        W.append(w)
    return W

class Realizer:
    """puts algorithms, parameters and data into histories"""
    def __init__(s, c, pick, base=0):
        s.c, s.pick, s.base = c, pick, base     # pick(kind) -> name
    def lines(s, hist, refs=3):
        """refs: so many stretches of calls since a (re-)creation are done again by fresh objects"""
        import relchecks as R
        c = s.c; L = []; life = {}; seg = []
        K = {'g': 's'}
        for op, h, k, p, n, f, ok in hist:
            kk = K.get(k, k); hh = h + s.base
            if op in 'CR':
                if op == 'C': life[h] = dict(name=s.pick(k), pars={})
                lf = life.get(h)
                if lf is None: continue
                o = lf['pars'].get(p)
                if o is None: o = lf['pars'][p] = R.Obj(c, kk, lf['name'], near=next(iter(lf['pars'].values()), None) if c.r.randrange(3) else None)
                lf['o'] = o; lf['read'] = 0; lf['tail'] = None
                if f: L.append(f'F {f}')
                L.append(o.create(hh) if op == 'C' else o.recreate(hh))
                lf['seg'] = []; seg.append((o, lf['seg']))
                if not ok: L.append(o.destroy(hh)); life.pop(h)
                continue
            lf = life.get(h)
            if lf is None: continue
            o = lf['o']; bs = R.dblock(kk, lf['name']); m = scale(c, n, bs); l0 = len(L)
            if kk == 's' and o.mult > 1 or kk == 'a' and o.mult > 1: m = (n // 4) * o.mult
            if op == 'X': L.append(o.destroy(hh)); life.pop(h)
            elif op in ('HI', 'MI', 'AH'): L.append(f'{op} {hh} {R.hx(R.pat(c, m))}')
            elif op in ('SE', 'SD', 'AE', 'AD'): L.append(f'{op} {hh} {R.hx(R.pat(c, m))} {c.r.randrange(2)}')
            elif op == 'SP': L.append(f'SP {hh} {m}')
            elif op == 'HO':
                m = min(m if o.n in ('keccak1600', 'keccak800') else c.r.choice([1, m, o.out]), o.out - lf['read'])
                if m > 0: L.append(f'HO {hh} {m}'); lf['read'] += m
            elif op == 'MT': L.append(f'MT {hh} {o.x}')
            elif op == 'MV': L.append(f'MV {hh} {c.hx(o.x)}')
            elif op == 'AT': L.append(f'AT {hh} {o.x}')
            elif op == 'AV': L.append(f'AV {hh} {c.hx(o.x)}')
            elif op in ('BE', 'BD'):
                if o.tw is not None and c.r.randrange(2): L.append(f'BT {hh} {R.hx(o.tw)}')
                L.append(f'{op} {hh} {R.hx(R.pat(c, bs))} {c.r.randrange(2)}')
            if op != 'X': lf['seg'] += L[l0:]
        for h, lf in life.items(): L.append(lf['o'].destroy(h + s.base))
        seg = [x for x in seg if x[1]]
        for o, ls in c.r.sample(seg, min(len(seg), refs)):
            hh = 9 + s.base
            L += [o.create(hh)] + s.recut(o, hh, ls) + [o.destroy(hh)]
        return L
    def recut(s, o, hh, ls):
        """the same data in other calls"""
        c = s.c; runs = []
        for l in ls:
            t = l.split(); op = t[0]
            if op in ('HI', 'MI', 'AH', 'SE', 'SD', 'AE', 'AD'): d = '' if t[2] == '-' else t[2]
            elif op in ('SP', 'HO'): d = int(t[2])
            else: runs.append([op, None, t[2:]]); continue
            if runs and runs[-1][0] == op and runs[-1][1] is not None: runs[-1][1] += d
            else: runs.append([op, d, None])
        L = []
        for op, d, rest in runs:
            if d is None: L.append(' '.join([op, str(hh)] + rest)); continue
            n = d if op in ('SP', 'HO') else len(d) // 2; u = o.mult if op in ('SE', 'SD', 'AE', 'AD') else 1; pos = 0
            cut = sorted(c.r.randrange(n // u + 1) * u for _ in range(c.r.choice([0, 0, 1, 2])))
            for e in cut + [n]:
                if e == pos and n and c.r.randrange(2): continue
                if op in ('SP', 'HO'): L.append(f'{op} {hh} {e - pos}')
                else: L.append(f'{op} {hh} {d[2 * pos:2 * e] or "-"}' + (f' {c.r.randrange(2)}' if op[0] in 'SA' and op != 'AH' else ''))
                pos = e
        return L
def one_each(H):
    """of walks that differ in the last call only, one"""
    return list({tuple(h[:-1]): h for h in H}.values())

def pick_names(c, only=None):
    """names for the kinds of Kripto.tla, every one of them once before any comes again"""
    import relchecks as R
    pools = {}
    def pool(k):
        if k == 's': L = [n for n in R.names('s') if R.parts(n)[0] not in ('cbc', 'ecb')]
        elif k == 'g': L = [n for n in R.names('s') if R.parts(n)[0] in ('cbc', 'ecb')]
        else: L = list(R.names(k))
        L = [n for n in L if 'blowfish' not in n and (only is None or only(k, n))]; c.r.shuffle(L); return L
    def pick(k):
        if not pools.get(k): pools[k] = pool(k)
        return pools[k].pop()
    return pick
def episodes(c, H, per=20, tag='w', refs=3, times=1, pick=None):
    """several histories make an episode"""
    from kverif import Ep
    r = Realizer(c, pick_names(c, pick)); eps = []
    H = H * times; c.r.shuffle(H)
    for i in range(0, len(H), per):
        L = []
        for h in H[i:i + per]: L += r.lines(h, refs)
        eps.append(Ep(c.id(tag), L, cost=sum(map(len, L)) // 8 + 40 * len(L)))
    return eps
