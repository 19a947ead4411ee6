#!/usr/bin/env python3
"""Deductive check of one property: extract /repo's current source under its contracts, let Verus
decide every obligation, replay failures on the real code.  usage: check.py C01 [--tier quick]"""
import json, os, subprocess, sys, time, threading, concurrent.futures as cf, re, shutil, fnmatch
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
import props as P

T0 = time.time()
def now(): return time.time() - T0
def log(*a): print('[%6.1fs]' % now(), *a, flush=True)

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
args = sys.argv[1:]
if '--tier' in args: TIER = args[args.index('--tier') + 1]
PROP = args[0]
CFG = P.PROPS[PROP]
B = os.path.join(V, '.build')
W = os.path.join(B, 'work', PROP)
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W, exist_ok=True)
NSH = 6
DEADLINE = 780 if TIER == 'quick' else 3000
BASE = json.load(open(os.path.join(V, 'spec', 'baseline.json')))
WEIGHTS = dict(BASE['weights'], **P.HEAVY)
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='')
VERUS = shutil.which('verus') or '/opt/veriftools/verus/verus'

def cargo(d, target, *extra):
    return subprocess.run(['cargo', 'build', '--offline', *extra], cwd=os.path.join(V, d), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, target)), capture_output=True, text=True)

EXTRACT = os.path.join(B, 'extract', 'debug', 'babs-extract')
HARNESS = os.path.join(B, 'harness', 'release', 'babs-harness')

def extract(name, only=None, roots=None, mode='A', external=(), vacuity=False, trust=True):
    out = os.path.join(W, name + '.rs'); meta = os.path.join(W, name + '.json')
    cmd = [EXTRACT, '--repo', REPO, '--spec', os.path.join(V, 'spec'), '--out', out, '--meta', meta, '--mode', mode, '--known-only']
    if only is not None: cmd += ['--only', ';'.join(only) or '-']
    if roots: cmd += ['--roots', ';'.join(roots)]
    if vacuity: cmd += ['--vacuity']
    if trust: cmd += ['--trust-proofs']
    if external:
        ef = os.path.join(W, name + '.ext'); open(ef, 'w').write('\n'.join(external)); cmd += ['--external-file', ef]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode: raise ExtractError(r.stderr.strip()[:2000])
    return out, json.load(open(meta))

class ExtractError(Exception): pass

def modules(paths):
    ms = set()
    for p in paths:
        p = p.split('<')[0].rstrip(':')
        parts = p.split('::')
        ms.add(tuple(parts))
    return ms

KNOWN_MODS = ['digit', 'result', 'ubig', 'ubig::add', 'ubig::cmp', 'ubig::div', 'ubig::div::bz', 'ubig::div::long', 'ubig::mul', 'ubig::mul::karatsuba', 'ubig::mul::long', 'ubig::mul::toom3', 'ubig::ops', 'ubig::rsub', 'ubig::shl', 'ubig::shr', 'ubig::sub', 'ubig::support']
def module_of(path):
    """innermost module of a function path such as ubig::ops::<UBig<T> as Add<T>>::add or ubig::add::inc_assign"""
    head = path.split('<')[0]
    segs = [s for s in head.split('::') if s]
    if '<' not in path: segs = segs[:-1]
    # a trait declared in the module: digit::Digit::f
    while segs and segs[-1][:1].isupper(): segs = segs[:-1]
    return '::'.join(segs)

def run_verus(src, mods, rlimit, multiple=6, timeout=420):
    cmd = [VERUS, os.path.basename(src), '--multiple-errors', str(multiple), '--rlimit', str(rlimit), '--output-json', '--time-expanded', '--error-format=json']
    for m in mods: cmd += (['--verify-root'] if m == '' else ['--verify-only-module', m] if not m.endswith('*') else ['--verify-module', m[:-1]])
    t = time.time()
    pr = subprocess.Popen(cmd, cwd=os.path.dirname(src), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = pr.communicate(timeout=timeout)
    except subprocess.TimeoutExpired as e:
        try: os.killpg(pr.pid, 9)
        except OSError: pass
        pr.communicate()
        return dict(ok=False, timeout=True, compiled=True, verified=0, errors=0, diags=[], smt_ms=0, wall=time.time() - t, breakdown=[])
    try: d = json.loads(out)
    except Exception: d = {}
    vr = d.get('verification-results', {})
    diags = []
    for l in err.splitlines():
        if l.startswith('{'):
            try: x = json.loads(l)
            except Exception: continue
            if x.get('level') == 'error' or (x.get('level') == 'note' and 'rlimit' in x.get('message', '').lower()): diags.append(x)
    bd = []
    for m in d.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        bd += [dict(f, module=m['module']) for f in m.get('function-breakdown', [])]
    compiled = bool(bd) or (vr.get('success') is True) or vr.get('verified', 0) > 0
    nerr = [x for x in diags if x.get('level') == 'error']
    return dict(ok=vr.get('errors') == 0 and vr.get('verified', 0) > 0 and not vr.get('encountered-error') and not vr.get('encountered-vir-error') and not nerr, timeout=False, compiled=compiled, vir=vr.get('encountered-vir-error'), verified=vr.get('verified', 0), errors=vr.get('errors', 0),
                diags=diags, smt_ms=sum(f.get('time-micros', 0) for f in bd) / 1000.0, wall=time.time() - t, breakdown=bd, stderr=err[-3000:] if not out else '')

FN = re.compile(r'/\*@FN (.*?) @\*/')
class Src:
    def __init__(s, path):
        s.lines = open(path).read().split('\n')
        s.at = []
        for i, l in enumerate(s.lines):
            for m in FN.finditer(l): s.at.append((i + 1, m.group(1)))
        import bisect
        s.keys = [a for a, _ in s.at]
    def fn(s, line):
        import bisect
        k = bisect.bisect_right(s.keys, line) - 1
        return s.at[k][1] if k >= 0 else None

def attribute(res, src, targets):
    """-> list of (function, kind, message, text) for the errors of a run"""
    s = Src(src); out = []
    for d in res['diags']:
        msg = d.get('message', '')
        if msg.startswith('aborting due to'): continue
        spans = d.get('spans', [])
        cands = [x for x in spans if x.get('is_primary')] + [x for x in spans if not x.get('is_primary')]
        f = None; line = None
        for x in cands:
            g = s.fn(x['line_start'])
            if g in targets: f = g; line = x; break
        if f is None and cands: f = s.fn(cands[0]['line_start']); line = cands[0]
        # in the prelude (lemmas): no function marker before it
        text = ' '.join(t['text'].strip() for t in (line or {}).get('text', []))[:200] if line else ''
        for x in spans:
            if 'failed' in (x.get('label') or ''):
                text += ' | ' + ' '.join(t['text'][t['highlight_start'] - 1:t['highlight_end'] - 1] for t in x.get('text', []))[:200]
        m = msg.lower()
        kind = ('rlimit' if 'rlimit' in m or 'resource limit' in m or 'timed out' in m else
                'overflow' if 'overflow' in m or 'underflow' in m or 'division by zero' in m else
                'pre' if 'precondition' in m else 'post' if 'postcondition' in m else
                'invariant' if 'invariant' in m else 'decreases' if 'decreases' in m or 'terminat' in m else
                'assert' if 'assertion' in m or 'assert' in m else 'other')
        out.append((f, kind, msg, text, d.get('rendered', '')))
    return out

def match(path, pats): return any(fnm(path, p) for p in pats)
_rx = {}
def fnm(path, pat):
    r = _rx.get(pat)
    if r is None: r = _rx[pat] = re.compile('.*'.join(re.escape(x) for x in pat.split('*')) + r'\Z')
    return bool(r.match(path))

# ------------------------------------------------------------------ findings file
def known_findings():
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:') and ('property=%s ' % PROP) in l: out.append(l[len('finding:'):].strip())
    return out

ev = dict(property=PROP, tier=TIER, seed=SEED, level=CFG.get('level', 'proof'), coverage={}, assumptions=[], wall_s=0.0, violations=0)
notes = []

def harness(ms, seed, tag):
    o = os.path.join(W, 'h_%s.json' % tag); cr = os.path.join(W, 'crash_' + tag); os.makedirs(cr, exist_ok=True)
    cmd = [HARNESS, '--prop', PROP, '--seed', str(seed), '--ms', str(ms), '--threads', '8', '--crashdir', cr, '--out', o]
    kf = os.path.join(V, 'known-cases.txt')
    if os.path.exists(kf): cmd += ['--known', kf]
    try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=ms / 1000 + 240)
    except subprocess.TimeoutExpired: return dict(rc=2, out='harness timeout', data={})
    data = {}
    if os.path.exists(o):
        try: data = json.load(open(o))
        except Exception: pass
    # a crash of the process itself leaves the cases that were running
    text = r.stdout
    if r.returncode not in (0, 1):
        for f in sorted(os.listdir(cr)):
            t = open(os.path.join(cr, f), errors='replace').read().strip('\0 \n')
            if t: text += '\nCRASH rc=%d\nCASE %s' % (r.returncode, t.replace('CASE ', ''))
    return dict(rc=r.returncode, out=text, data=data)

def replay_file(tag, text):
    d = os.path.join(V, '.build', 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%s.txt' % (PROP, tag)); open(p, 'w').write(text); return p

def finish(rc, lines=()):
    ev['wall_s'] = round(now(), 1)
    if notes: ev['notes'] = notes
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', PROP + '.json'), 'w'), indent=1)
    for k in known_findings(): print('KNOWN-FINDING: %s' % k)
    for l in lines: print(l)
    log('exit', rc); sys.stdout.flush()
    os._exit(rc)

def main():
    pool = cf.ThreadPoolExecutor(16)
    hb = pool.submit(cargo, 'harness', 'harness', '--release')
    eb = cargo('extract', 'extract')
    if eb.returncode: print(eb.stderr[-3000:]); log('extractor does not build'); os._exit(2)
    log('extractor built')
    undecided = {}      # function -> reason
    results = []
    alarms = []         # (function, kind, msg, text, rendered)
    jobs_done = []
    fatal = None
    try:
        _, meta0 = extract('cone', roots=CFG['roots'])
    except ExtractError as e:
        fatal = 'extraction failed: %s' % e; meta0 = None
    per = {}; meta = {}
    stats = dict(obligations=0, discharged=0, smt_ms=0.0)
    if meta0:
        fns = {f['path']: f for f in meta0['functions']}
        meta = fns
        cone = [f for f in meta0['functions'] if f['in_cone'] and f['has_body']]
        # the cone restricted to what this property owns a proof for
        targets = [f['path'] for f in cone if f['known'] and not f['trusted'] and not f['external'] and not match(f['path'], CFG.get('elsewhere', []) + P.ASSUMED)]
        assumed = sorted(f['path'] for f in cone if match(f['path'], P.ASSUMED))
        proved_elsewhere = sorted(f['path'] for f in cone if f['known'] and match(f['path'], CFG.get('elsewhere', [])))
        trusted = sorted(f['path'] for f in meta0['functions'] if f['trusted'])
        # every function with a contract that /repo no longer has, or that changed beyond its anchors
        for f in cone:
            if f['lost']: undecided[f['path']] = 'anchor lost: ' + f['lost']
        b = BASE['functions']
        def changed(p): return p in fns and (p not in b or b[p]['hash'] != fns[p]['hash'])
        if meta0['unused_contracts']: notes.append('contracts without a function: %s' % meta0['unused_contracts'])
        bset = [p for p in targets if match(p, CFG.get('mode_b', []))]
        decided = run_all(pool, targets, bset, undecided, alarms, stats, changed, per)
        log('verified: %d of %d obligations discharged, %d functions targeted, %d undecided, %d failing' % (stats['discharged'], stats['obligations'], len(targets), len(undecided), len(alarms)))
        unproved = sorted(f['path'] for f in cone if not f['known'] and not f['trusted'])
    else: targets = []; trusted = []; unproved = []; assumed = []; proved_elsewhere = []
    h = hb.result()
    if h.returncode:
        print(h.stderr[-3000:]); log('harness does not build'); os._exit(2)
    # concrete runs on the real code: a cross-check, and the replay of failed obligations
    ms = CFG.get('ms', 8000) if TIER == 'quick' else 120000
    if undecided or alarms or fatal: ms = max(ms, 60000 if TIER == 'quick' else 240000)
    hr = harness(ms, SEED, 'main')
    log('harness rc', hr['rc'], hr['out'].strip().split('\n')[-1][:200])
    cov = ev['coverage']
    cov.update(obligations=stats['obligations'], discharged=stats['discharged'],
        checker_cmd='verus <extract of /repo/src, contracts of /verif/spec woven in> --rlimit %d --verify-only-module ... (%d runs; z3 back end), driven by: python3 /verif/check.py %s' % (CFG.get('rlimit', 100), len(per), PROP),
        trusted_base=P.trusted_base(V) + ['contract assumed, body not proved (extraction drops it): ' + t for t in trusted] + ['contract assumed here, body only run within the bound of the stand-in: ' + t for t in assumed] + ['contract used here, body proved by another check: ' + t for t in proved_elsewhere] + ['no contract; callers assume nothing about it: ' + t for t in unproved],
        functions_under_contract=len(targets), functions=targets, solver_ms=round(stats['smt_ms']), shards=[{k: v for k, v in p.items() if k != 'diags'} for p in per.values()],
        bounded_stand_in=dict(what='random and structured operands run on the real code against an independent reference (bounded, not counted as proved)', evaluations=hr['data'].get('evaluations', 0), distinct_nontrivial=hr['data'].get('distinct_nontrivial', 0)),
        evaluations=hr['data'].get('evaluations', 0), distinct_nontrivial=hr['data'].get('distinct_nontrivial', 0),
        rule='operands drawn from seed %d: digit patterns (random, 0, max, runs, near powers), sizes across the algorithm cut-offs; non-trivial: two or more digits in total or a count above 1' % SEED,
        samples=hr['data'].get('samples', [])[:6], undecided=[dict(function=k, reason=v) for k, v in sorted(undecided.items())])
    if 'vacuity' in stats: cov['vacuity'] = stats['vacuity']
    ev['assumptions'] = P.ASSUMPTIONS + CFG.get('assumptions', [])
    if hr['rc'] not in (0, 1) and 'CASE' not in hr['out']:
        print(hr['out'][-2000:]); log('harness error'); os._exit(2)
    if hr['rc'] != 0:
        ev['violations'] = 1
        txt = 'property %s\n%s\n' % (PROP, hr['out'].strip())
        for a in alarms: txt += '\nfailed obligation: %s [%s] %s\n%s\n' % (a[0], a[1], a[2], a[4])
        txt += '\nreplay: %s --replay <this file> --prop %s\n' % (HARNESS, PROP)
        p = replay_file('input', txt)
        print(hr['out'][-1500:])
        finish(1, ['VIOLATION property=%s replay=%s' % (PROP, p)])
    if fatal:
        notes.append(fatal); log('UNDECIDED', fatal)
        ev['level'] = CFG.get('level', 'proof')
        finish(0)
    if alarms:
        # another, differently seeded, search for an input
        hr2 = harness(90000 if TIER == 'quick' else 300000, SEED + 7919, 'second')
        if hr2['rc'] != 0 and 'CASE' in hr2['out']:
            ev['violations'] = 1
            p = replay_file('input', 'property %s\n%s\n%s' % (PROP, hr2['out'], '\n'.join('failed obligation: %s [%s] %s\n%s' % (a[0], a[1], a[2], a[4]) for a in alarms)))
            print(hr2['out'][-1500:])
            finish(1, ['VIOLATION property=%s replay=%s' % (PROP, p)])
        real = [a for a in alarms if owned(a, meta, undecided)]
        for a in alarms:
            if a not in real: notes.append('UNDECIDED obligation %s [%s] %s' % a[:3])
        if real:
            ev['violations'] = len(real)
            txt = 'property %s: obligations that the verifier no longer discharges (no failing input found)\n' % PROP
            for a in real: txt += '\nobligation: function %s, %s: %s\n  at: %s\n%s\n' % a
            p = replay_file('obligation', txt)
            for a in real[:5]: print('failed obligation: %s [%s] %s | %s' % a[:4])
            finish(1, ['VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, p)])
        log('failed obligations that this check does not attribute to the property: undecided')
    for k, v in undecided.items(): log('UNDECIDED', k, '-', v[:200], '(bounded stand-in: %d evaluations)' % hr['data'].get('evaluations', 0))
    finish(0)

def owned(a, meta, undecided):
    f, kind = a[0], a[1]
    if f in undecided: return False
    own = CFG.get('own', CFG['roots'])
    if not match(f, own) or CFG.get('kinds') and kind not in CFG['kinds']: return False
    # an obligation of a function that several properties share: does the failed clause speak about this one?
    return not CFG.get('clause') or kind not in ('post', 'pre') or bool(re.search(CFG['clause'], a[3].split(' | ')[-1]))

def restructured(p, fns):
    """the body was rewritten, not edited: new callees, another number of loops, or the same tokens in another order"""
    b = BASE['functions'].get(p); f = fns.get(p)
    if not b or not f: return 'not in the baseline'
    if f['loops'] != b['loops']: return '%d loops, %d before' % (f['loops'], b['loops'])
    new = set(f['calls']) - set(b['calls'])
    if new: return 'new callees %s' % sorted(new)
    if set(f.get('locals', [])) != set(b.get('locals', [])): return 'other local names'
    if f.get('bag') == b.get('bag'): return 'same tokens, other order'
    return None

def run_all(pool, targets, bset, undecided, alarms, stats, changed, per):
    W_ = lambda p: WEIGHTS.get(p, 300)
    try:
        return _run_all(pool, targets, bset, undecided, alarms, stats, changed, per, W_)
    except ExtractError as e:
        notes.append('extraction failed: %s' % e)
        for t in targets: undecided.setdefault(t, 'extraction failed')

def group(p):
    for g in P.GROUPS:
        if p in g: return g
    return [p]

def shardify(targets, n, weight):
    sh = [[] for _ in range(n)]; w = [0.0] * n
    units = {}
    for p in targets: units.setdefault(group(p)[0], []).append(p)
    uw = lambda u: sum(weight(p) + 20 for p in u)
    for u in sorted(units.values(), key=lambda u: (-uw(u), u)):
        k = min(range(n), key=lambda i: w[i]); sh[k] += u; w[k] += uw(u)
    return [s for s in sh if s]

def do_shard(name, fnl, mode, rlimit, external=(), vacuity=False):
    src, m = extract(name, only=fnl, mode=mode, external=external, vacuity=vacuity)
    fns = {f['path']: f for f in m['functions']}
    live = [p for p in fnl if p in fns and not fns[p]['external']]
    mods = sorted(set(module_of(p) for p in live))
    r = run_verus(src, mods, rlimit, multiple=1 if vacuity else 6, timeout=150 if vacuity else 420)
    return dict(name=name, src=src, fns=fns, live=live, mods=mods, res=r, mode=mode)

def _run_all(pool, targets, bset, undecided, alarms, stats, changed, per, weight):
    rl = CFG.get('rlimit', 100)
    jobs = []
    # the lemmas and the proofs about the specification itself
    def lemmas(name, pick):
        src, m = extract(name, only=['-'], trust=False)
        own = re.findall(r'^pub mod (\w+)', open(src).read().split('======== extracted')[0], re.M)
        mods = pick(own)
        r = run_verus(src, mods, rl)
        return dict(name=name, src=src, fns={}, live=[], mods=mods, res=r, mode='A')
    small = lambda m: m.startswith(('dl_', 'dd_'))
    jobs.append(pool.submit(lemmas, 'lemmas_digit', lambda own: [m for m in own if small(m)]))
    jobs.append(pool.submit(lemmas, 'lemmas_rest', lambda own: [''] + [m for m in own if not small(m)] + ['digit', 'ubig', 'ubig::mul', 'ubig::div::bz']))
    sel = [t for t in targets if t not in undecided or 'loop' not in undecided[t]]
    n = NSH if sum(map(weight, sel)) > 6000 else 4
    nb = 1 if bset else 0
    for k, s in enumerate(shardify(sel, n - nb, weight)): jobs.append(pool.submit(do_shard, 'a%d' % k, s, 'A', rl))
    if bset: jobs.append(pool.submit(do_shard, 'b0', [t for t in bset if t in sel], 'B', rl))
    out = [j.result() for j in jobs]
    failing = {}
    redo = []
    for o in out: absorb(o, failing, redo, undecided, stats, per, changed)
    # retry shards that did not compile, without the functions the verifier rejects
    rounds = 0
    while redo and now() < DEADLINE * 0.5 and rounds < 4:
        rounds += 1
        js = []
        for name, fnl, mode in redo:
            rest = [f for f in fnl if f not in undecided]
            if rest: js.append(pool.submit(do_shard, '%s_%d' % (name, rounds), rest, mode, rl, list(undecided)))
        redo = []
        for j in js: absorb(j.result(), failing, redo, undecided, stats, per, changed)
    for name, fnl, mode in redo:
        for f in fnl: undecided.setdefault(f, 'shard %s not decided' % name)
    # a failed obligation: once more alone, with a larger resource limit
    todo = sorted(set((f, m) for f, m in failing if f))
    if todo:
        log('failing:', '; '.join('%s (%s)' % x for x in todo)[:600])
        js = [(f, m, pool.submit(do_shard, 're%d' % i, [g for g in group(f) if g in sel], m, rl * 4)) for i, (f, m) in enumerate(todo[:24])]
        for f, m, j in js:
            try: o = j.result()
            except ExtractError as e: undecided[f] = str(e); continue
            r = o['res']
            if r['ok'] and r['verified'] > 0:
                stats['discharged'] += 1; notes.append('%s needed a larger resource limit' % f); continue
            every = attribute(r, o['src'], set(o['live'])); errs = [a for a in every if a[0] == f]
            if not errs and every and all(a[0] for a in every) and r['compiled'] and not r['timeout']: stats['discharged'] += 1; continue
            hard = [a for a in errs if a[1] not in ('rlimit', 'other')]
            why = restructured(f, o['fns'])
            if f in undecided: pass
            elif not hard: undecided[f] = 'resource limit'
            elif not changed(f): undecided[f] = 'fails although unchanged (a callee or type changed)'
            elif why: undecided[f] = 'rewritten: ' + why
            else: alarms.extend(hard)
        for f, m in todo[24:]: undecided[f] = 'not retried'
    for f, m in failing:
        if f is None: notes.append('error outside the functions under contract: %s' % (failing[(f, m)][:3],))
    # vacuity: an assertion that must fail at the end of each function
    if TIER == 'thorough' or CFG.get('vacuity', True): vacuity(pool, [t for t in sel if t not in undecided and t not in [f for f, _ in failing]], stats, weight)

def absorb(o, failing, redo, undecided, stats, per, changed):
    r = o['res']
    per[o['name']] = dict(name=o['name'], mode=o['mode'], functions=len(o['live']), verified=r['verified'], errors=r['errors'], wall_s=round(r['wall'], 1), smt_ms=round(r['smt_ms']))
    stats['smt_ms'] += r['smt_ms']
    if r['ok'] and r['verified'] > 0:
        if r['verified'] < len(o['live']): notes.append('%s: fewer obligations than functions' % o['name'])
        stats['obligations'] += r['verified']; stats['discharged'] += r['verified']
        return
    if r['timeout']:
        for f in o['live']: undecided[f] = 'verifier timeout'
        stats['obligations'] += len(o['live'])
        return
    errs = attribute(r, o['src'], set(o['live']))
    if not r['compiled']:
        # not accepted by the verifier: leave out the functions it complains about
        bad = set(a[0] for a in errs if a[0] and (a[0] in o['live'] or a[0] in o['fns']))
        bad &= set(o['live'])
        if not bad: bad = set(f for f in o['live'] if changed(f))
        if o['name'].startswith('lemmas') or not bad:
            notes.append('%s does not compile: %s' % (o['name'], [a[:4] for a in errs][:3] or r.get('stderr', '')[-500:]))
            for f in o['live']: undecided[f] = 'extract does not compile'
            stats['obligations'] += max(1, len(o['live']))
            return
        for f in bad: undecided[f] = 'construct not supported by the verifier: ' + next((a[2] for a in errs if a[0] == f), '')[:150]
        stats['obligations'] += len(bad)
        redo.append((o['name'], o['live'], o['mode']))
        return
    stats['obligations'] += r['verified'] + r['errors']; stats['discharged'] += r['verified']
    for a in errs: failing.setdefault((a[0] if a[0] in o['live'] else None, o['mode']), a)
    if not errs: notes.append('%s: failed without a diagnostic' % o['name'])

def vacuity(pool, targets, stats, weight):
    targets = [t for t in targets if TIER == 'thorough' or P.HEAVY.get(t, 0) < 20000]   # expensive to refute
    js = [pool.submit(do_shard, 'v%d' % k, s, 'A', 6, (), True) for k, s in enumerate(shardify(targets, NSH if len(targets) > 40 else 3, lambda p: 100))]
    seen = set(); total = 0
    for j in js:
        try: o = j.result()
        except ExtractError: continue
        total += len(o['live'])
        s = Src(o['src'])
        for d in o['res']['diags']:
            for x in d.get('spans', []):
                f = s.fn(x['line_start'])
                if f in o['live']: seen.add(f)
        if o['res']['timeout']: seen.update(o['live']); notes.append('vacuity shard timed out: %s' % o['name'])
        elif not o['res']['compiled']: seen.update(o['live']); notes.append('vacuity shard did not compile')
    silent = sorted(set(targets) - seen)
    stats['vacuity'] = dict(functions=total, refuted=len(seen), not_refuted=silent)
    if silent: notes.append('vacuous or unreachable end of body: %s' % silent)

main()
