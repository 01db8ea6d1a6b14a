"""What TLC checks on the specification itself, per property: small instances, every behaviour."""
import concurrent.futures as cf
import walks

def absorb(t, kinds):
    P = {'md': (4, 2, 13, 3), 'blake': (4, 2, 13, 3), 'blake2': (3, 0, 10, 3), 'skein': (3, 0, 10, 7), 'sponge': (3, 0, 5, 4), 'omac': (3, 0, 10, 3)}
    Q = {'md': (8, 3, 30, 4), 'blake': (8, 3, 30, 4), 'blake2': (5, 0, 24, 4), 'skein': (5, 0, 24, 11), 'sponge': (3, 0, 8, 7), 'omac': (4, 0, 17, 4)}
    return [('Absorb/' + k, 'impl/Absorb', dict(zip(('Kind', 'B', 'LF', 'Max', 'OutMax', 'Gens'), (k,) + (Q if t else P)[k] + (2,))), ['Ok'], ['Position']) for k in kinds]
def modes(t):
    P = {'cbc': (3, 12), 'ecb': (3, 12)}
    return [('Modes/' + m, 'impl/Modes', dict(Mode=m, B=b, Max=x, Gens=2), ['CtOk', 'PtOk'], ['Position'])
            for m in ('ctr', 'ofb', 'cfb', 'cbc', 'ecb') for b, x in [((3, 8) if t else (2, 5)) if m not in P else (4, 24) if t else P[m]]]
def laws(t, what):
    top, n = {'pad': (5, 6) if t else (4, 5), 'memory': (3, 5) if t else (2, 4), 'words': (2, 7) if t else (2, 6)}[what]
    return [('Laws/' + what, 'impl/Laws', dict(What=what, Top=top, MaxLen=n), ['Holds'], [])]
def api(t, handles, kinds, lens, faults, depth, depth_t, creations=3):
    return [('Kripto', 'Kripto', walks.api(handles, kinds, 2, lens, faults, depth_t if t else depth, creations), walks.API_INV, ['Isolation'])]
MODELS = {
    'C03': lambda t: absorb(t, ['md', 'blake', 'blake2', 'skein', 'sponge', 'omac']),
    'C04': lambda t: absorb(t, ['md', 'blake', 'blake2', 'skein', 'sponge']),
    'C05': lambda t: absorb(t, ['omac', 'sponge', 'skein']),
    'C06': modes, 'C08': modes,
    'C10': lambda t: laws(t, 'memory'), 'C19': lambda t: laws(t, 'memory'),
    'C11': lambda t: api(t, 1, 'hmsgba', [0, 1, 4, 5], [0], 4, 6, 4),
    'C12': lambda t: api(t, 1, 'hmsgba', [0, 5], range(9), 4, 5),
    'C15': lambda t: api(t, 2, 'hsa', [0, 5], [0, 1], 4, 5, 3),
    'C18': lambda t: laws(t, 'pad'), 'C24': lambda t: laws(t, 'words'),
    'C20': lambda t: [('Source', 'impl/Source', dict(Size=14 if t else 9, R=4 if t else 3, Max=6 if t else 5), ['InOrder', 'NothingLost', 'ShortOnlyAtEnd'], [])],
}
def run(prop, thorough):
    L = MODELS.get(prop, lambda t: [])(thorough)
    with cf.ThreadPoolExecutor(3) as ex:
        R = list(ex.map(lambda m: walks.model(m[0], m[1], m[2], m[3], m[4]), L))
    if not R: return []
    return [dict(states=sum(r['states'] for r in R), transitions=sum(r['transitions'] for r in R),
                 extra=dict(models=[dict(name=r['model'], instance=', '.join(f'{k}={v}' for k, v in m[2].items()), states=r['states'], invariants=m[3] + m[4]) for r, m in zip(R, L)]))]
