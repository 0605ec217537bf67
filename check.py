#!/usr/bin/env python3
"""Runner:  check.py PROPERTY [quick|thorough]

Rebuilds the LLVM IR of /repo's current tree, symbolically executes the
property's harnesses, replays every counterexample and a sample of the passing
paths natively against the real build, and writes evidence/PROPERTY.json.

exit 0  held on everything explored (listed known findings are printed)
exit 1  a violation that reproduces natively and is not listed
exit 2  no answer (build failure, inconclusive path, non-reproducing result)
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'bin'))
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
CRATES = ['llvm-bitcursor', 'llvm-bitstream', 'llvm-support', 'llvm-mapper']
# What to build: everything, or, should that fail, what the harnesses of the lower crates need.
LEVELS = [
    ([], '--cfg mollusc_verif '),
    (['--no-default-features', '--features', 'hooks'], '--cfg mollusc_verif '),
    (['--no-default-features'], ''),
]
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


def env(toolchain):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never')
    e.pop('CARGO_TARGET_DIR', None)
    e['RUSTFLAGS'] = '--cfg mollusc_verif -Awarnings'
    e['PATH'] = os.path.expanduser('~/.cargo/bin') + ':/usr/local/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e


def die(msg):
    print('ERROR ' + msg)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    roots = ['/repo/' + c for c in CRATES] + [HERE + '/harness', HERE + '/engine', HERE + '/replay', HERE + '/bin']
    files = ['/repo/Cargo.toml']
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('target', '__pycache__'))
            files += [os.path.join(d, f) for f in sorted(fs) if not f.endswith('.pyc')]
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def sh(cmd, cwd, tc, log, extra=None):
    e = env(tc)
    e.update(extra or {})
    with open(log, 'wb') as f:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        with open(log, errors='replace') as f:
            return ''.join(f.readlines()[-60:])
    return None


def build():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + '/.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = tree_hash()
    stamp = BUILD + '/stamp'
    if os.path.exists(stamp) and open(stamp).read() == h:
        return lock, 0.0
    t = time.time()
    if os.path.exists(stamp):
        os.unlink(stamp)
    # never trust mtimes: force the repository's crates and ours to be recompiled
    for d, ds, fs in os.walk(BUILD):
        if os.path.basename(d) == '.fingerprint':
            for x in ds:
                if x.startswith(('llvm-', 'vh-', 'replay-', 'symex-')):
                    shutil.rmtree(os.path.join(d, x))
            ds[:] = []
    engine = ('engine', ['cargo', 'build', '--release', '--offline', '--locked', '--target-dir', BUILD + '/engine'], HERE + '/engine', 'stable', None)
    first = None
    for level, (features, cfg) in enumerate(LEVELS):
        x = {'RUSTFLAGS': cfg + '-Awarnings'}
        jobs = [
            ('replay-dev', ['cargo', 'build', '--offline', '--locked', '--target-dir', BUILD + '/replay'] + features, HERE + '/replay', 'stable', x),
            ('replay-rel', ['cargo', 'build', '--release', '--offline', '--locked', '--target-dir', BUILD + '/replay-rel'] + features, HERE + '/replay', 'stable', x),
            ('ir', ['bash', HERE + '/bin/build_ir.sh', BUILD, str(level)], HERE, 'nightly', None),
        ]
        if level == 0:
            jobs.insert(0, engine)
        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(lambda j: sh(j[1], j[2], j[3], BUILD + '/log-' + j[0], j[4]), jobs))
        bad = [(j[0], r) for j, r in zip(jobs, rs) if r]
        if not bad:
            break
        first = first or bad[0]
        if bad[0][0] == 'engine':
            break
    if bad:
        die('build of %s failed:\n%s' % first)
    with open(BUILD + '/partial', 'w') as f:
        f.write('build of %s failed:\n%s' % first if first else '')
    with open(stamp, 'w') as f:
        f.write(h)
    return lock, time.time() - t


def write_inputs(path, entry, params, inputs):
    with open(path, 'w') as f:
        f.write('entry\t%s\n' % entry)
        for p in params:
            f.write('param\t%d\n' % p)
        for n, b, v in inputs:
            f.write('in\t%s\t%d\t%s\n' % (n, b, v))


def replay(path, rel=False, timeout=30):
    b = BUILD + ('/replay-rel/release/replay' if rel else '/replay/debug/replay')
    try:
        r = subprocess.run([b, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env={'RUST_BACKTRACE': '0'})
        return r.returncode, r.stdout.decode(errors='replace').splitlines(), r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', [], ''


def confirms(kind, name, res):
    rc, out, err = res
    if rc == 5:
        return False
    if kind == 'check':
        return rc == 10 and ('checkfail ' + name) in out
    if kind == 'huge_alloc':
        return rc == 90 or rc == 101 or (isinstance(rc, int) and rc < 0)
    if kind == 'nontermination':
        return rc == 'timeout'
    # panic / unreachable / memory / deep recursion
    return rc == 101 or (isinstance(rc, int) and rc < 0)


def known(prop):
    ks = []
    p = HERE + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % prop):
                m = re.match(r'known: property=\S+ entry=(\S+) kind=(\S+) site="([^"]*)" name="([^"]*)" (.*)', l.rstrip('\n'))
                if not m:
                    die('bad known-findings line: ' + l)
                ks.append(m.groups())
    return ks


def site(v):
    """innermost repository function of a violation's stack"""
    for l in v['stack']:
        if l.startswith('/repo/') or '/repo/' in l:
            return l.split(' ', 1)[1]
    return v['stack'][0] if v['stack'] else ''


def main():
    import jobs as J
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = J.PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    evf = os.path.join(EVID, prop + '.json')
    if os.path.exists(evf):
        os.unlink(evf)
    lock, tb = build()
    jobs = list(spec['quick']) + (list(spec.get('thorough', [])) if tier == 'thorough' else [])
    if tier == 'thorough' and spec.get('thorough_replaces'):
        jobs = list(spec['thorough'])
    with open(BUILD + '/partial') as f:
        partial = f.read()
    if partial:
        with open(BUILD + '/entries.txt') as f:
            there = set(f.read().split())
        for entry, _, _ in jobs:
            if entry not in there:
                die('no harness %s: %s' % (entry, partial))
    wd = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    lines = []
    for i, (entry, params, opts) in enumerate(jobs):
        o = {'seconds': 300 if tier == 'quick' else 3000, 'samples': 4 if tier == 'quick' else 12, 'seed': seed + i}
        o.update(opts)
        lines.append('%s-%03d\t%s\t%s\t%s' % (prop, i, entry, ','.join(map(str, params)), ','.join('%s=%s' % kv for kv in o.items())))
    with open(wd + '/jobs', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    e = dict(os.environ)
    if tier == 'quick':
        e['SYMEX_DEADLINE'] = '600'
    if not known(prop):
        # one violation decides; look for others for a while only
        e['SYMEX_STOP'] = '30'
    dump = None
    if tier == 'thorough' or os.environ.get('VERIF_CROSS'):
        dump = wd + '/smt'
        os.makedirs(dump, exist_ok=True)
        e['SYMEX_DUMP'] = dump
        e['SYMEX_DUMP_MAX'] = '6'
    r = subprocess.run([BUILD + '/engine/release/symex', BUILD + '/h.ll', wd + '/jobs', wd, str(NPROC)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
    errors = []
    if r.returncode:
        errors.append('engine: ' + r.stdout.decode(errors='replace')[-2000:])
    tot = dict.fromkeys(['paths', 'paths_done', 'forks', 'steps', 'checks', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits'], 0)
    solver_s = 0.0
    slowest = 0.0
    reach, checks_by, funcs, viols, samples = {}, {}, {}, [], []
    perjob = []
    maxbits = 0
    for i, (entry, params, opts) in enumerate(jobs):
        p = '%s/%s-%03d.json' % (wd, prop, i)
        if not os.path.exists(p):
            errors.append('no result for %s%s' % (entry, params))
            continue
        with open(p) as f:
            d = json.load(f)
        if 'error' in d:
            errors.append('%s: %s' % (entry, d['error']))
            continue
        for k in tot:
            tot[k] += d[k]
        solver_s += d['solver_s']
        slowest = max(slowest, d['slowest_s'])
        maxbits = max(maxbits, d['input_bits'])
        for k, v in d['reach'].items():
            reach[k] = reach.get(k, 0) + v
        for k, v in d['checks_by'].items():
            checks_by[k] = checks_by.get(k, 0) + v
        for k, v in d['functions'].items():
            funcs.setdefault(k, set()).update(x for x in v if x)
        for w in d['inconclusive']:
            errors.append('inconclusive %s%s: %s' % (entry, params, w[:600]))
        if not d['exhausted'] and not d['violations'] and not d['inconclusive']:
            errors.append('%s%s not exhausted' % (entry, params))
        for v in d['violations']:
            viols.append((entry, params, v))
        for s in d['samples']:
            samples.append((entry, params, s))
        perjob.append({'harness': entry, 'params': params, 'paths': d['paths'], 'forks': d['forks'], 'queries': d['queries'], 'cached_answers': d['cache_hits'], 'solver_s': d['solver_s'], 'symbolic_input_bits': d['input_bits'], 'exhausted': d['exhausted'], 'wall_s': round(d['wall_s'], 2)})
    for k in spec.get('reach', []):
        if not reach.get(k):
            errors.append('vacuity: no feasible path reaches "%s"' % k)
    for k in spec.get('checks', []):
        if not checks_by.get(k):
            errors.append('vacuity: assertion "%s" never evaluated' % k)
    # --- replay
    ks = known(prop)
    reported, knownhits = [], []
    seen = set()
    for n, (entry, params, v) in enumerate(viols):
        f = os.path.join(rdir, '%s-%d.txt' % (prop, n))
        write_inputs(f, entry, params, v['inputs'])
        dev = replay(f)
        rel = replay(f, rel=True)
        okd, okr = confirms(v['kind'], v['name'], dev), confirms(v['kind'], v['name'], rel)
        what = '%s %s: %s' % (entry, v['kind'], v['name'])
        if not (okd or okr):
            errors.append('counterexample does not reproduce natively: %s at %s (dev %s, release %s) %s' % (what, site(v), dev[0], rel[0], f))
            continue
        hit = None
        for k in ks:
            if k[0] == entry and k[1] == v['kind'] and k[2] in site(v) and k[3] in v['name']:
                hit = k
        if hit:
            knownhits.append((hit, f))
            continue
        reported.append((what, site(v), f, okd, okr))
    nval = 0
    shown = []
    def val(x):
        n, (entry, params, s) = x
        f = os.path.join(wd, 's%d.txt' % n)
        write_inputs(f, entry, params, s['inputs'])
        rc, out, err = replay(f)
        got = [l[4:] for l in out if l.startswith('obs ')]
        want = ['%s %s' % (a, b) for a, b in s['obs']]
        ok = rc == 0 and 'end ok' in out and got == want
        return ok, rc, got, want, err
    if not reported:
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(val, enumerate(samples)))
        for (entry, params, s), (ok, rc, got, want, err) in zip(samples, res):
            if ok:
                nval += 1
                if len(shown) < 6 and s['inputs'] and (nval % max(1, len(samples) // 6) == 0 or len(samples) < 8):
                    shown.append({'harness': entry, 'params': params, 'inputs': s['inputs'][:80], 'observed': s['obs'][:40]})
            else:
                errors.append('engine and native run disagree on %s%s: rc %s native %s engine %s inputs %s %s' % (entry, params, rc, got[:20], want[:20], s['inputs'], err[-300:]))
        if not shown and samples:
            entry, params, s = samples[0]
            shown.append({'harness': entry, 'params': params, 'inputs': s['inputs'][:80], 'observed': s['obs'][:40]})
    cross = None
    if dump:
        cross = crosscheck(dump, errors)
    for a, b, c, okd, okr in reported[:20]:
        print('  %s\n    at %s [reproduced: dev %s, release %s]' % (a, b, okd, okr))
    names = {}
    for hit, f in knownhits:
        if hit not in names:
            names[hit] = f
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[4]))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['forks'],
            'traces_validated_against_impl': nval,
            'samples': shown,
            'explanation': 'states = feasible symbolic paths of the real code explored to their end, each standing for every input that follows it; transitions = solver-decided forks; traces = engine paths whose solver model was replayed natively against the real build with identical observations',
            'exhaustive': not errors,
            'instructions_executed': tot['steps'],
            'assertions_decided': tot['checks'],
            'assertions': checks_by,
            'witnesses_reached': reach,
            'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'],
            'queries_answered_from_cache_or_model': tot['cache_hits'],
            'solver_s': round(solver_s, 3), 'slowest_query_s': slowest,
            'max_symbolic_input_bits': maxbits,
            'functions_encoded': {k: len(v) for k, v in sorted(funcs.items())},
            'bounds': spec['bounds'], 'outside': spec.get('outside', ''),
            'jobs': perjob,
        },
        'assumptions': spec.get('assume', []) + J.ASSUME,
        'wall_s': round(time.time() - t0, 2), 'violations': len(reported),
    }
    if cross:
        ev['coverage']['solver_cross_check'] = cross
    if errors:
        ev['coverage']['errors'] = errors[:20]
    with open(evf, 'w') as f:
        json.dump(ev, f, indent=1)
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(wd)
    print('%s %s: %d jobs, %d paths, %d forks, %d assertions, %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, %d traces replayed, build %.0fs, wall %.0fs' % (
        prop, tier, len(jobs), tot['paths'], tot['forks'], tot['checks'], tot['queries'], tot['unsat'], tot['sat'], tot['unknown'], solver_s, nval, tb, time.time() - t0))
    for x in errors[:10] if not reported else []:
        print('ERROR ' + x)
    if reported:
        print('VIOLATION property=%s replay=%s' % (prop, reported[0][2]))
        sys.exit(1)
    if errors:
        sys.exit(2)
    sys.exit(0)


def crosscheck(d, errors):
    """re-decide dumped queries with two other solvers"""
    fs = sorted(f for f in os.listdir(d) if not f.endswith('_unknown.smt2'))
    fs = fs[:: max(1, len(fs) // 60)]
    def one(f):
        p = os.path.join(d, f)
        want = f[:-5].rsplit('_', 1)[1]
        got = {}
        for name, cmd in (('z3-new', ['z3-new', '-T:20', p]), ('cvc5', ['cvc5', '--tlimit=20000', p])):
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
                o = r.stdout.decode(errors='replace').split()
                got[name] = o[0] if o and o[0] in ('sat', 'unsat') and b'(error' not in r.stdout else 'none'
            except Exception:
                got[name] = 'none'
        return f, want, got
    with ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(one, fs))
    agree = {'z3-new': 0, 'cvc5': 0}
    none = 0
    for f, want, got in rs:
        for k, g in got.items():
            if g == want:
                agree[k] += 1
            elif g == 'none':
                none += 1
            else:
                errors.append('solver disagreement on %s: %s says %s' % (f, k, g))
    return {'queries': len(rs), 'agreeing': agree, 'no_answer': none}


if __name__ == '__main__':
    if sys.argv[1:] == ['build']:
        _, t = build()
        print('built in %.0fs' % t)
        sys.exit(0)
    main()
