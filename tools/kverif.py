#!/usr/bin/env python3
"""kverif: runs one check.   usage: kverif.py check Cnn   (VERIF_SEED, VERIF_TIER in the environment)

Builds the library from /repo's working tree together with the driver, generates scripts, runs
them, and lets TLC decide whether every recorded trace is a behaviour of the specification."""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time, shutil, random

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.path.join(V, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4
BASE = '-std=c99 -pedantic -w -g -fPIC -D_ANSI_SOURCE -D_ISOC99_SOURCE -D_LARGEFILE64_SOURCE -D_FILE_OFFSET_BITS=64 -DKRIPTO_UNIX'.split()
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'malloc calloc realloc free posix_memalign aligned_alloc fopen fopen64 open open64 getrandom getentropy'.split())]
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=shift-base', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
# name: (compiler, flags for library and driver, link flags)
CONFIGS = {
    'std':      ('gcc', ['-O2', '-fstack-protector-all'], []),
    'words':    ('gcc', ['-O2', '-DWITH_WORDS'], []),
    'words-le': ('gcc', ['-O2', '-DWITH_WORDS', '-DKRIPTO_LITTLE_ENDIAN'], []),
    'words-portable': ('clang', ['-O2', '-DWITH_WORDS', '-include', 'portable.h'], []),
    'asan':     ('clang', ['-O1', '-DUSE_ASAN'] + SAN, SAN),
    'le':       ('gcc', ['-O2', '-DKRIPTO_LITTLE_ENDIAN'], []),
    'gccO0':    ('gcc', ['-O0'], []),
    'gccO3':    ('gcc', ['-O3', '-march=native'], []),
    'clangO3':  ('clang', ['-O3'], []),
    'clangOs':  ('clang', ['-Os', '-DKRIPTO_LITTLE_ENDIAN'], []),
    'portable': ('gcc', ['-O2', '-include', 'portable.h'], []),
    'ndebug':   ('gcc', ['-O2', '-DNDEBUG'], []),
    'cov':      ('clang', ['-O1', '-DUSE_COV', '-fsanitize-coverage=trace-pc'], []),
    'msan':     ('clang', ['-O1', '-DUSE_MSAN', '-fsanitize=memory', '-fno-sanitize-memory-use-after-dtor'], ['-fsanitize=memory']),
    'tsan':     ('clang', ['-O1', '-DUSE_TSAN', '-fsanitize=thread'], ['-fsanitize=thread']),
}

class Broken(Exception):
    pass

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def sha(paths, *extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0' + open(p, 'rb').read())
    return h.hexdigest()[:16]

def build_java():
    src = sorted(glob.glob(V + '/java/*.java'))
    out = f'{B}/cls-{sha(src)}'
    if not os.path.exists(out + '/ok'):
        tmp = f'{out}.{os.getpid()}'
        os.makedirs(tmp, exist_ok=True)
        r = run(['javac', '-nowarn', '-cp', JARS, '-d', tmp] + src)
        if r.returncode: raise Broken('javac: ' + r.stdout)
        open(tmp + '/ok', 'w').close()
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp)
    return out

def build(cfg, extra_defs=()):
    """Compiles /repo's lib/*.c, lib/*/*.c and the driver in one configuration; returns the binary."""
    cc, flags, ld = CONFIGS[cfg]
    lib = sorted(glob.glob(REPO + '/lib/*.c') + glob.glob(REPO + '/lib/*/*.c'))
    deps = lib + sorted(glob.glob(REPO + '/**/*.h', recursive=True)) + sorted(glob.glob(V + '/harness/*'))
    out = f'{B}/bin-{cfg}-{sha([p for p in deps if os.path.isfile(p)], cc, flags, extra_defs, BASE)}'
    if os.path.exists(out + '/driver'): return out + '/driver'
    tmp = f'{out}.{os.getpid()}'
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    def comp(a):
        src, o, std = a
        r = run([cc] + std + flags + list(extra_defs) + ['-I', REPO + '/include', '-I', V + '/harness', '-c', src, '-o', o])
        return (src, r) if r.returncode else None
    jobs = [(s, f'{tmp}/{i}.o', BASE) for i, s in enumerate(lib)]
    jobs.append((V + '/harness/driver.c', f'{tmp}/driver.o', ['-std=gnu11', '-w', '-g', '-D_GNU_SOURCE', '-DDRIVER'] + (['-fno-sanitize-coverage=trace-pc'] if cfg == 'cov' else [])))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        bad = [x for x in ex.map(comp, jobs) if x]
    if bad: raise Broken(f'compiling {bad[0][0]} ({cfg}): {bad[0][1].stdout[-2000:]}')
    r = run([cc] + [j[1] for j in jobs] + WRAP + ld + ['-o', tmp + '/driver', '-lm', '-lpthread'])
    if r.returncode: raise Broken('link: ' + r.stdout[-2000:])
    for f in glob.glob(tmp + '/*.o'): os.unlink(f)
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp)
    return out + '/driver'

class Ep:
    """One episode: script lines run in one forked child. cost ~ relative TLC time."""
    def __init__(s, id, lines, cfg='std', cost=None, group=None):
        s.id, s.lines, s.cfg, s.group = id, list(lines), cfg, group
        s.cost = cost if cost is not None else 20 + sum(len(x) for x in s.lines)

def tlc(spec, cfgfile, env=None, args=(), heap='2g', timeout=850, xss=None, lib=None):
    cls = build_java()
    md = f'{B}/tlcmeta/{os.getpid()}-{time.monotonic_ns()}'
    os.makedirs(md)
    cmd = ['java', '-Xmx' + heap, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4'] + (['-Xss' + xss] if xss else []) + [
        '-Djava.io.tmpdir=' + md,
        '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:KripOver', '-DTLA-Library=' + (lib + ':' if lib else '') + ':'.join(V + '/spec' + d for d in ('', '/hash', '/cipher', '/stream', '/impl')),
        '-cp', cls + ':' + JARS, 'tlc2.TLC', '-metadir', md, '-noGenerateSpecTE', '-config', cfgfile] + list(args) + [spec]
    try:
        p = run(cmd, env={**os.environ, **(env or {})}, timeout=timeout, cwd=os.path.dirname(spec))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
    finally:
        shutil.rmtree(md, ignore_errors=True)

def states_of(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ',').replace('\u00a0', ''))
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)

def shard(eps, n):
    """Groups stay together; greedy balancing by cost, order kept inside a shard."""
    groups = {}
    for k, e in enumerate(eps): groups.setdefault((e.group if e.group is not None else ('#', k)), []).append(e)
    bins = [[0, []] for _ in range(max(1, min(n, len(groups))))]
    for g in sorted(groups.values(), key=lambda g: -sum(e.cost for e in g)):
        b = min(bins, key=lambda b: b[0]); b[0] += sum(e.cost for e in g); b[1].append(g)
    return [[e for g in b[1] for e in g] for b in bins]

def episodes_of(t):
    """the lines of each episode of a trace"""
    cur = None
    with open(t, errors='replace') as f:
        for line in f:
            if line.startswith('{"op":"Begin"'):
                if cur: yield cur
                cur = []
            cur.append(line)
    if cur: yield cur

def run_shard(wd, k, eps, root, drv_env=None, timeout=850, spec_env=None):
    d = f'{wd}/{k}'; os.makedirs(d, exist_ok=True)
    # the episodes of one configuration are one driver run; the trace has all of them in the order given
    trace = d + '/trace.ndjson'
    ran = {}
    for n, cfg in enumerate(sorted({e.cfg for e in eps})):
        sc = f'{d}/s{n}'; t = f'{d}/t{n}'
        with open(sc, 'w') as f:
            for e in eps:
                if e.cfg == cfg: f.write('BEGIN ' + (f'{e.group}:' if e.group is not None else '') + e.id + '\n' + '\n'.join(e.lines) + '\nEND\n')
        env = {**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1',
               'UBSAN_OPTIONS': 'print_stacktrace=0', 'MSAN_OPTIONS': 'exit_code=97', 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66', 'RANDOM_FILE': f'{d}/rnd{n}', **(drv_env or {})}
        with open(f'{d}/err{n}', 'w') as err:
            p = subprocess.run([BIN[cfg], sc, t], env=env, timeout=timeout, stdout=err, stderr=err)
        if p.returncode: raise Broken(f'driver ({cfg}) exit {p.returncode}: {open(f"{d}/err{n}").read()[-800:]}')
        ran[cfg] = episodes_of(t)
    with open(trace, 'w') as o:
        for e in eps:
            for line in next(ran[e.cfg]): o.write(line)
    rc, out = tlc(f'{V}/spec/{root}.tla', f'{V}/spec/{root}.cfg', env={'TRACE': trace, **(spec_env or {})}, args=['-workers', '1'], timeout=timeout)
    m = re.search(r'TRACE-DONE\|(\d+)\|(\d+)', out)
    if not m and rc in (75, 76):  # an event that the definitions cannot be applied to
        k = states_of(out)[0]; ep = '?'; op = '?'
        for i, line in enumerate(open(trace), 1):
            ev = json.loads(line)
            if ev['op'] == 'Begin': ep = ev['id']
            if i == k: op = ev['op']; break
        rej = [line.strip().strip('"').split('|', 7) for line in out.splitlines() if line.strip().strip('"').startswith('REJECT|')]
        rej.append(['REJECT', ep, str(k), op, 'an event that the specification cannot take', 'got ' + ' '.join(out.split())[-300:].replace('|', '/'), 'want a step'])
        return dict(rejects=rej, events=k, states=states_of(out), trace=trace)
    if not m or (rc and 'REJECT|' not in out):
        raise Broken(f'TLC did not finish on {trace} (exit {rc}): {out[-3000:]}')
    rej = []
    for line in out.splitlines():
        line = line.strip().strip('"')
        if line.startswith('REJECT|'): rej.append(line.split('|', 7))
    n = sum(1 for _ in open(trace))
    if int(m[1]) != n: raise Broken('trace length')
    return dict(rejects=rej, events=n, states=states_of(out), trace=trace)

BIN = {}

def run_eps(prop, eps, root, drv_env=None, shards=None, classes=None, timeout=850, again=False):
    spec_env = {c: '1' for c in classes or ()}
    """Runs all episodes, validates; returns a result dict. classes: rules of KriptoRel that are on."""
    wd = f'{B}/run/{prop}-{os.getpid()}-{time.monotonic_ns()}'; os.makedirs(wd)
    for c in sorted({e.cfg for e in eps}): BIN[c] = build(c)
    build_java()
    sh = shard(eps, shards or NCPU)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda a: run_shard(wd, a[0], a[1], root, drv_env, timeout, spec_env), enumerate(sh)))
    byid = {(f'{e.group}:' if e.group is not None else '') + e.id: e for e in eps}
    bad = []
    for r in res:
        for j in r['rejects']:
            bad.append((byid.get(j[1]), j))
    if bad and not again:
        # a rejection counts if it repeats
        grp = lambda e: e.group if e.group is not None else e.id
        want = list(dict.fromkeys(grp(e) for e, j in bad if e is not None))[:16]
        sub = [e for e in eps if grp(e) in set(want)]; rep = set()
        for _ in range(4):
            rep |= {e.id for e, j in run_eps(prop, sub, root, drv_env, shards, classes, timeout, again=True)['rejects'] if e is not None}
            if rep: break
        if want and not rep: raise Broken(f'{len(bad)} rejections that did not repeat, e.g. {bad[0][1]}')
        bad.sort(key=lambda x: x[0] is None or x[0].id not in rep)
    sample = []
    for r in res[:2]:
        with open(r['trace']) as f:
            sample += [x.strip()[:300] for _, x in zip(range(6), f)]
    out = dict(rejects=bad, episodes=len(eps), events=sum(r['events'] for r in res),
               states=sum(r['states'][0] for r in res), transitions=sum(r['states'][1] for r in res), samples=sample)
    if not os.environ.get('KEEP'): shutil.rmtree(wd)
    return out

def setup():
    os.makedirs(B, exist_ok=True)
    build_java()
    for c in ('std', 'words', 'asan'): build(c)
    return 0

def known():
    """known_findings.txt: '<property> <regular expression over the rejection> ## <what fails>'; 'fixed:' lines suppress nothing"""
    r = []
    p = V + '/known_findings.txt'
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if not l or l.startswith('#') or l.startswith('fixed:'): continue
        pr, rest = l.split(' ', 1); rx, what = rest.split(' ## ', 1)
        r.append((pr.replace('property=', ''), re.compile(rx), what))
    return r

def main():
    if len(sys.argv) == 2 and sys.argv[1] == 'setup': return setup()
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        f = sys.argv[2]; cfg = re.search(r'^# configuration ([\w-]+);', open(f).read(), re.M)[1]
        b = build(cfg); t = f'{B}/replay.trace'
        subprocess.run([b, f, t], env={**os.environ, 'RANDOM_FILE': f'{B}/rnd', 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=98', 'MSAN_OPTIONS': 'exit_code=97'})
        print(open(t).read()); return 0
    if len(sys.argv) < 3 or sys.argv[1] != 'check': sys.exit('usage: kverif.py check Cnn')
    sys.path.insert(0, V + '/tools')
    prop = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); tier = os.environ.get('VERIF_TIER', 'quick')
    os.makedirs(B, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    ev = f'{V}/evidence/{prop}.json'
    if os.path.exists(ev): os.unlink(ev)
    t0 = time.time()
    import checks, relchecks, models
    try:
        with cf.ThreadPoolExecutor(1) as ex:
            m = ex.submit(models.run, prop, tier == 'thorough')
            parts = checks.CHECKS[prop](checks.Ctx(seed, tier, prop)) + m.result()
    except (Broken, subprocess.TimeoutExpired) as e:
        print(f'ERROR property={prop}: {e}'); sys.exit(2)
    wall = time.time() - t0
    bad = [x for p in parts for x in p.get('rejects', [])]
    kf = [k for k in known() if k[0] == prop]
    hit = set(); rest = []
    for e, j in bad:
        text = '|'.join(j) + ' ' + (' ; '.join(e.lines) if e is not None else '')
        m = next((k for k in kf if k[1].search(text)), None)
        if m: hit.add(m)
        else: rest.append((e, j))
    bad = rest
    for k in kf: print(f'KNOWN-FINDING: property={prop} {k[2]}' + ('' if k in hit else ' (not met in this run)'))
    cov = dict(states=sum(p.get('states', 0) for p in parts), transitions=sum(p.get('transitions', 0) for p in parts),
               traces_validated_against_impl=sum(p.get('episodes', 0) for p in parts),
               events_validated=sum(p.get('events', 0) for p in parts),
               samples=[s for p in parts for s in p.get('samples', [])][:8] or ['(none)'])
    for p in parts:
        for k, v in p.get('extra', {}).items(): cov[k] = v
    json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(wall, 2),
                   violations=len(bad), assumptions=checks.ASSUMPTIONS.get(prop, [])), open(ev, 'w'), indent=1)
    if not bad:
        print(f'{prop}: ok, {cov["traces_validated_against_impl"]} traces, {cov["events_validated"]} events, {cov["states"]} states, {wall:.1f} s')
        return 0
    rd = f'{B}/replay'; os.makedirs(rd, exist_ok=True)
    seen = 0
    for n, (e, j) in enumerate(bad[:5]):
        path = f'{rd}/{prop}-{n}.txt'
        with open(path, 'w') as f:
            f.write('# ' + '|'.join(j)[:4000] + '\n')
            if e is not None:
                f.write(f'# configuration {e.cfg}; run: tools/replay.sh {path}\nBEGIN {e.group or ""}:{e.id}\n' + '\n'.join(e.lines) + '\nEND\n')
        print(f'VIOLATION property={prop} replay={path}')
        print('  ' + '|'.join(j)[:600])
    print(f'{prop}: {len(bad)} rejections in {wall:.1f} s')
    return 1

if __name__ == '__main__':
    sys.exit(main())
