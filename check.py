#!/usr/bin/env python3
"""Decides one property:  check.py <property> [--tier quick|thorough]

1. extract   /repo/src -> one Verus crate (mechanical, see DESIGN.md), contracts from proofs/*.spec
2. verify    every function the property depends on, against its contract (Verus / Z3)
3. witness   concrete runs of the real crate: validates what the contracts assume, and turns a failed
             obligation into a failing input
Exit 0: property holds (proved, or - where the verifier could not follow a changed function - bounded
stand-in, labelled as such in the evidence).  Exit 1: VIOLATION line.  Exit 2: the check could not run.
"""
import json, os, re, subprocess, sys, threading, time, hashlib, shutil, resource, tempfile
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
import props as PR

T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
EXTRACT = f'{V}/extract/target/release/extract'
WIT = {'sequential': f'{V}/witness/target/debug/witness', 'parallel': f'{V}/witness/target-par/debug/witness',
       'scalar': f'{V}/witness/target-scalar/debug/witness'}
WIT_ARGS = {'sequential': [], 'parallel': ['--features', 'parallel'], 'scalar': ['--no-default-features']}
OBLIG = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
         'possible arithmetic', 'possible division', 'decreases not satisfied', 'unable to prove', 'possible bit shift',
         'failed', 'could not show', 'cannot show', 'this loop', 'assert_by', 'unreachable', 'assertion not', 'possible',
         'constructed value may fail', 'split', 'termination')

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def left(budget):
    return max(5.0, budget - (time.time() - T0))

# ---------------------------------------------------------------- builds
def build_extract():
    r = subprocess.run(['cargo', 'build', '--release', '--offline'], cwd=f'{V}/extract', capture_output=True, text=True,
                       env=dict(ENV, CARGO_TARGET_DIR=f'{V}/extract/target'))
    return r.returncode == 0, r.stderr[-3000:]

def build_witness(kind):
    cmd = ['cargo', 'build', '--offline'] + WIT_ARGS[kind]
    tgt = WIT[kind].rsplit('/', 2)[0]
    r = subprocess.run(cmd, cwd=f'{V}/witness', capture_output=True, text=True, env=dict(ENV, CARGO_TARGET_DIR=tgt))
    return r.returncode == 0, r.stderr[-3000:]

# ---------------------------------------------------------------- extraction and verification
class Extraction:
    def __init__(self, work, tag, features, prove=None, degrade=None, probe=False, algebra=False, nonan=False):
        self.out, self.mapf = f'{work}/{tag}.rs', f'{work}/{tag}.json'
        cmd = [EXTRACT, '--src', '/repo/src', '--proofs', f'{V}/proofs', '--out', self.out, '--map', self.mapf,
               '--features', features, '--baseline', f'{V}/proofs/baseline_{features.replace(",", "_")}.json']
        if prove is not None:
            p = f'{work}/{tag}.prove'
            open(p, 'w').write('\n'.join(sorted(prove)) + '\n')
            cmd += ['--prove-file', p]
        if degrade:
            p = f'{work}/{tag}.degrade'
            open(p, 'w').write(''.join(f'{k}\t{v}\n' for k, v in degrade.items()))
            cmd += ['--degrade-file', p]
        if probe:
            cmd.append('--probe')
        if algebra:
            cmd.append('--algebra')
        if nonan:
            cmd.append('--nonan')
        r = subprocess.run(cmd, capture_output=True, text=True)
        self.ok, self.err = r.returncode == 0, r.stderr
        if self.ok:
            self.map = json.load(open(self.mapf))
            self.funcs = self.map['functions']
            for f in self.funcs:
                own = f['key'].split('::')[-2]
                f['types'] = set(f.get('types', [])) | {own} | set(self.map['structs'].get(own, []))
            self.lines = open(self.out).read().split('\n')
    def at(self, line):
        for f in self.funcs:
            if 'start' in f and f['start'] <= line <= f['end']:
                return f['key']
        return None

def closure(funcs, roots):
    by = {}
    keys = {}
    for f in funcs:
        if 'start' not in f:
            continue
        keys.setdefault(f['key'], f)
        by.setdefault(f['key'].rsplit('::', 1)[1], []).append(f['key'])
    def mod(k):
        k = re.sub(r'<.*>', 'X', k)
        parts = k.split('::')[:-1]
        while parts and (parts[-1][:1].isupper() or parts[-1] == 'X'):
            parts.pop()
        return '::'.join(parts)
    local = {'new', 'data', 'update', 'index', 'clone', 'next', 'from', 'alpha'}
    seen, todo = set(), [r for r in roots if r in keys]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        for c in keys[k].get('calls', []):
            cand = by.get(c, [])
            same = [x for x in cand if mod(x) == mod(k)]
            if c in local:
                cand = same or [x for x in cand if mod(x).startswith('image')]
            elif same:
                cand = same
            # methods of one name on several types: those of a type the caller speaks of
            if len(cand) > 1 and cand is same and not any('<' in x for x in cand):
                cand = [x for x in cand if x.split('::')[-2] in keys[k].get('types', ())] or cand
            for x in cand:
                if keys[x].get('has_spec'):
                    todo.append(x)
    return seen

def run_verus(ex, rlimit, seed, timeout, expand=True):
    cmd = ['verus', ex.out, '--crate-type=lib', '--multiple-errors', '6', '--num-threads', '8', '--rlimit', str(rlimit),
           '--output-json', '--time-expanded', '--error-format=json']
    if seed:
        cmd += ['--smt-option', f'smt.random_seed={seed}']
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(ex.out))
    except subprocess.TimeoutExpired:
        return {'timeout': True, 'cmd': cmd, 'diags': [], 'res': None, 'secs': time.time() - t, 'raw': ''}
    diags = []
    for l in p.stderr.split('\n'):
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and d.get('spans'):
                diags.append(d)
    res = None
    i = p.stdout.find('{')
    if i >= 0:
        try:
            res = json.loads(p.stdout[i:])
        except ValueError:
            pass
    return {'timeout': False, 'cmd': cmd, 'diags': diags, 'res': res, 'secs': time.time() - t, 'raw': p.stderr[-4000:] if not diags else ''}

def classify(d):
    m = d['message'].lower()
    if 'resource limit' in m or 'rlimit' in m or 'timed out' in m or 'canceled' in m:
        return 'rlimit'
    if d.get('code'):
        return 'front'
    if any(x in m for x in OBLIG) and 'not supported' not in m and 'unsupported' not in m and 'mismatch' not in m:
        return 'obligation'
    return 'front'

def locate(ex, d):
    sp = sorted(d['spans'], key=lambda s: not s['is_primary'])
    for s in sp:
        if os.path.basename(s['file_name']) == os.path.basename(ex.out):
            k = ex.at(s['line_start'])
            if k:
                return k
    return None

def clause(ex, d):
    o = []
    for s in d['spans']:
        if os.path.basename(s['file_name']) == os.path.basename(ex.out):
            t = ' '.join(x['text'].strip() for x in s.get('text', [])[:2])
            o.append(t[:300])
    return o

def hint(ex, d):
    """A rejected loop invariant or assertion of the annotations (the code's own assertions become calls, and its one generated
    assertion is about the step of a range)."""
    if d['message'].startswith('invariant not satisfied'):
        return True
    return d['message'].startswith('assertion failed') and not any(re.search(r'\bn__\d+ > 0', t['text'][t['highlight_start'] - 1:t['highlight_end'] - 1])
                                                                   for s in d['spans'] for t in s['text'])

def without_hints(ex, diags, keys):
    """The same obligations with the rejected loop invariants and assertions of the annotations left out. They are proof
    hints: leaving one out takes away what later obligations may use, and no obligation of a contract."""
    text = open(ex.out, 'rb').read()
    cut = set()
    for d in diags:
        if classify(d) == 'obligation' and hint(ex, d) and locate(ex, d) in keys:
            for s in d['spans']:
                if s['is_primary'] and os.path.basename(s['file_name']) == os.path.basename(ex.out):
                    cut.add((s['byte_start'], s['byte_end']))
    for a, b in sorted(cut, reverse=True):
        text = text[:a] + b'true' + b'\n' * text[a:b].count(b'\n') + text[b:]
    open(ex.out, 'wb').write(text)
    return len(cut)

def verify(work, tag, features, roots, tier, budget):
    """-> dict(failed={key:[..]}, undecided={key:reason}, ...)"""
    R = {'features': features, 'failed': {}, 'undecided': {}, 'runs': 0, 'secs': 0.0, 'smt_ms': 0, 'verified': 0, 'errors': 0,
         'proved': [], 'changed': [], 'cmd': '', 'degraded_known': {}}
    ex = Extraction(work, tag, features, prove=['none'])
    if not ex.ok:
        R['undecided']['*'] = 'extraction: ' + ex.err[-400:]
        return R, None
    if features == 'scalar':    # build without any cargo feature
        roots = [r for r in roots if not r.startswith('simd::')]
    missing = [r for r in roots if r not in {f['key'] for f in ex.funcs}]
    for r in missing:
        R['undecided'][r] = 'the function is gone (renamed or removed)'
    want = closure(ex.funcs, roots)
    degrade = {}
    rl = 60 if tier == 'thorough' else 30
    v = None
    for it in range(10):
        ex = Extraction(work, tag, features, prove=want, degrade=degrade)
        if not ex.ok:
            R['undecided']['*'] = 'extraction: ' + ex.err[-400:]
            return R, ex
        v = run_verus(ex, rl, 0, min(300, left(budget)))
        R['runs'] += 1
        R['secs'] += v['secs']
        if v['timeout']:
            R['undecided']['*'] = 'the verifier ran out of time'
            break
        front = [d for d in v['diags'] if classify(d) == 'front']
        if not front:
            break
        new = {}
        for d in front:
            k = locate(ex, d)
            if k:
                new[k] = 'not accepted by the verifier front end: ' + d['message'][:150]
        new = {k: r for k, r in new.items() if k not in degrade}
        if not new:
            R['undecided']['*'] = 'front end: ' + front[0]['message'][:200] + ' | ' + ' '.join(clause(ex, front[0]))[:200]
            break
        degrade.update(new)
    st = {f['key']: f for f in ex.funcs if 'start' in f}
    for k in sorted(want):
        f = st.get(k)
        if not f:
            continue
        if f['status'] == 'proved':
            R['proved'].append(k)
        elif f['status'] == 'degraded':
            R['undecided'][k] = f['reason']
        elif f['status'] == 'trusted':
            R['degraded_known'][k] = f['reason']
        if f.get('changed'):
            R['changed'].append(k)
    def collect(ex, v):
        fl, un = {}, {}
        for d in v['diags']:
            c = classify(d)
            k = locate(ex, d) or 'PRELUDE'
            if c == 'obligation':
                fl.setdefault(k, []).append({'obligation': d['message'], 'at': clause(ex, d), 'rendered': d.get('rendered', '')[:1500]})
            elif c == 'rlimit':
                un[k] = 'resource limit exceeded'
        return fl, un
    if v and not v['timeout'] and '*' not in R['undecided']:
        fl, un = collect(ex, v)
        resolved = False
        # a proof that does not go through gets other solver seeds, a higher limit and the IEEE 754 facts about
        # operand order (proofs/00_spec.rs, group algebra) before it counts as rejected
        for seed, algebra in ((7, True), (23, False)):
            if not (fl or un) or left(budget) < 60:
                break
            if algebra:
                ex2 = Extraction(work, tag, features, prove=want, degrade=degrade, algebra=True)
                if not ex2.ok:
                    continue
            else:
                ex2 = Extraction(work, tag, features, prove=want, degrade=degrade)
            v2 = run_verus(ex2, rl * 2, seed, min(300, left(budget)))
            R['runs'] += 1
            R['secs'] += v2['secs']
            if v2['timeout']:
                break
            f2, u2 = collect(ex2, v2)
            if algebra and any(k not in f2 and k not in u2 for k in list(fl) + list(un)):
                R['algebra'] = sorted(k for k in list(fl) + list(un) if k not in f2 and k not in u2)
            bad = lambda k: k in f2 or k in u2
            fl = {k: f2.get(k, x) for k, x in fl.items() if bad(k)}
            un = {k: x for k, x in un.items() if bad(k)}
            if not fl and not un:
                resolved = True
        if resolved:   # every obligation was discharged by one of the runs
            vr = v['res']['verification-results']
            vr['verified'], vr['errors'] = vr['verified'] + vr['errors'], 0
        # an invariant or assertion that no longer holds where it now stands may not be needed: the rest is proved without it
        if any(d for d in v['diags'] if classify(d) == 'obligation' and hint(ex, d) and locate(ex, d) in fl):
            ex2, v2 = Extraction(work, tag, features, prove=want, degrade=degrade), v
            for rnd in range(3):
                if not fl or not ex2.ok or left(budget) < 120 or not without_hints(ex2, v2['diags'], fl):
                    break
                v2 = run_verus(ex2, rl * 2, 0, min(300, left(budget)))
                R['runs'] += 1
                R['secs'] += v2['secs']
                if v2['timeout'] or not v2.get('res') or any(classify(d) == 'front' for d in v2['diags']):
                    break
                f2, u2 = collect(ex2, v2)
                done = [k for k in fl if k not in f2 and k not in u2]
                R.setdefault('weaker', []).extend(done)
                fl = {k: x for k, x in fl.items() if k not in done}
            if not fl and not un:
                vr = v['res']['verification-results']
                vr['verified'], vr['errors'] = vr['verified'] + vr['errors'], 0
        # a failure of a proof whose annotations were written for another shape of the code (locals gone, loops that change other variables) decides nothing
        weak = {f['key'] for f in ex.funcs if f.get('weakened')}
        # what is accepted for values other than NaN is not proved, and not rejected either: the witness decides about NaN
        if fl and left(budget) >= 60:
            ex2 = Extraction(work, tag, features, prove=want, degrade=degrade, nonan=True)
            v2 = run_verus(ex2, rl * 2, 7, min(300, left(budget))) if ex2.ok else {'timeout': True, 'secs': 0}
            R['runs'] += 1
            R['secs'] += v2['secs']
            if not v2['timeout'] and v2.get('res'):
                f2, u2 = collect(ex2, v2)
                for k in [k for k in fl if k not in f2 and k not in u2]:
                    un[k] = 'proved only for values that are not NaN: ' + fl.pop(k)[0]['obligation']
        for k in [k for k in fl if k in weak]:
            un[k] = 'not proved with the annotations written for the old shape of the code: ' + fl.pop(k)[0]['obligation']
        R['failed'] = fl
        R['undecided'].update({k: x for k, x in un.items() if k not in fl})
        for k in list(fl) + list(un):
            if k in R['proved']:
                R['proved'].remove(k)
    res = (v or {}).get('res') or {}
    vr = res.get('verification-results', {})
    R['verified'], R['errors'] = vr.get('verified', 0), vr.get('errors', 0)
    try:
        R['smt_ms'] = res['times-ms']['smt']['smt-run']
    except (KeyError, TypeError):
        pass
    try:
        R['queries'] = sum(len(m.get('function-breakdown', [])) for m in res['times-ms']['smt']['smt-run-module-times'])
    except (KeyError, TypeError):
        R['queries'] = 0
    R['cmd'] = ' '.join((v or {}).get('cmd', []))
    R['clauses'] = sum(st[k]['clauses'] for k in R['proved'] if k in st)
    R['map_notes'] = ex.map.get('notes', [])
    return R, ex

def probes(work, features, want, budget):
    """Vacuity: every `assert(false)` placed at the start of a body, a loop or a closure must be rejected."""
    ex = Extraction(work, 'probe', features, prove=want, probe=True)
    if not ex.ok:
        return {'error': ex.err[-300:]}
    n = sum(l.count('crate::rt::pb(') for l in ex.lines)
    cmd = ['verus', ex.out, '--crate-type=lib', '--multiple-errors', '60', '--num-threads', '8', '--rlimit', '30', '--error-format=json', '--output-json']
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=min(400, left(budget)), cwd=work)
    except subprocess.TimeoutExpired:
        return {'probes': n, 'error': 'timeout'}
    hit = set()
    for l in p.stderr.split('\n'):
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') != 'error': continue
            for s in d.get('spans', []):
                for t in s.get('text', []):
                    m = re.search(r'crate::rt::pb\((\d+)\)\s*{\s*assert \(false\)', t['text'])
                    if m and s['is_primary']:
                        for mm in re.finditer(r'crate::rt::pb\((\d+)\)', t['text']):
                            pass
                        hit.add((s['line_start'], s['column_start']))
    return {'probes': n, 'rejected': len(hit)}

# ---------------------------------------------------------------- witnesses
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def witness(work, prop, kind, tier, seed, secs):
    out = f'{work}/wit_{kind}_{tier}_{seed}.json'
    for f in (out, out + '.cur'):
        if os.path.exists(f): os.remove(f)
    cmd = [WIT[kind], 'run', prop, '--tier', tier, '--seed', str(seed), '--secs', str(secs), '--out', out]
    scratch = tempfile.mkdtemp(prefix='wit', dir=work)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs * 2 + 60, preexec_fn=limits, cwd=scratch, env=dict(ENV, TMPDIR=scratch))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = 'hang'
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc in (0, 1) and os.path.exists(out):
        return json.load(open(out))
    # the process died or hung: the case under way decides, run on its own
    try:
        sub, sd, it = open(out + '.cur').read().split()[:3]
    except (OSError, ValueError):
        return {'error': f'witness ended with {rc}', 'violation': None, 'subs': []}
    ends = []
    for _ in range(2):
        try:
            q = subprocess.run([WIT[kind], 'one', prop, sub, sd, it], capture_output=True, text=True, timeout=60, preexec_fn=limits, cwd=work)
            ends.append(q.returncode)
        except subprocess.TimeoutExpired:
            ends.append('hang')
    if all(e not in (0,) for e in ends):
        return {'violation': {'property': prop, 'sub': sub, 'build': kind, 'seed': int(sd), 'iteration': int(it),
                              'input': f'case {sub} seed {sd} iteration {it} (deterministic generator)', 'expected': 'the operation returns',
                              'actual': f'process ended with {ends}'}, 'subs': []}
    return {'error': f'witness ended with {rc}, not reproducible', 'violation': None, 'subs': []}

def witness_both(work, prop, tier, seed, secs, kinds):
    res = {}
    th = []
    for k in kinds:
        t = threading.Thread(target=lambda k=k: res.__setitem__(k, witness(work, prop, k, tier, seed, secs)))
        t.start(); th.append(t)
    for t in th: t.join()
    return res

def dump_compare(work, seed, tier):
    outs = {}
    for k in ('sequential', 'parallel'):
        p = subprocess.run([WIT[k], 'dump', '--tier', tier, '--seed', str(seed)], capture_output=True, text=True, timeout=300, cwd=work)
        outs[k] = (p.returncode, p.stdout.split('\n'))
    a, b = outs['sequential'], outs['parallel']
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        if x != y:
            return {'line': i, 'sequential': x, 'parallel': y}, len(a[1])
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return {'line': -1, 'sequential': str(a[0]), 'parallel': str(b[0])}, len(a[1])
    return None, len(a[1])

# ---------------------------------------------------------------- known findings
def known():
    o = []
    p = f'{V}/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) sub=(\S+) match=(\S+) (.*)', l)
            if m: o.append(m.groups())
    return o

# ---------------------------------------------------------------- main
def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    budget = 780 if tier == 'quick' else 840
    cfg = PR.PROPS[prop]
    kinds = ['sequential', 'parallel'] + (['scalar'] if 'scalar' in cfg.get('variants', []) else [])
    work = f'{V}/work/{prop}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    ok, e = build_extract()
    if not ok:
        print('the extractor does not build\n' + e); sys.exit(2)
    wres = {}
    def wt():
        for k in kinds:
            ok, e = build_witness(k)
            if not ok:
                wres['build_error'] = e; return
        wres['quick'] = witness_both(work, prop, 'quick', seed, 40 if tier == 'quick' else 60, kinds)
        if cfg.get('dump'):
            wres['dump'] = dump_compare(work, seed, tier)
    th = threading.Thread(target=wt); th.start()
    vs = []
    for fi, features in enumerate(cfg.get('variants', ['simd'])):
        R, ex = verify(work, f'v{fi}', features, cfg['roots'], tier, budget * 0.6)
        vs.append(R)
    th.join()
    if 'build_error' in wres:
        print('the witness crate does not build against /repo\n' + wres['build_error']); sys.exit(2)
    failed, undecided = {}, {}
    for R in vs:
        for k, x in R['failed'].items(): failed[f"{k} [{R['features']}]"] = x
        for k, x in R['undecided'].items(): undecided[f"{k} [{R['features']}]"] = x
    viol, wstats = None, []
    def scan(res):
        nonlocal viol
        for k, r in res.items():
            wstats.append({'build': k, 'subs': r.get('subs', []), 'error': r.get('error')})
            if r.get('violation') and viol is None:
                viol = r['violation']
    scan(wres['quick'])
    if viol is None and wres.get('dump') and wres['dump'][0]:
        d = wres['dump'][0]
        viol = {'property': prop, 'sub': 'dump', 'build': 'both', 'seed': seed, 'iteration': d['line'], 'input': f'case {d["line"]} of `witness dump --seed {seed} --tier {tier}`',
                'expected': d['sequential'][:500], 'actual': d['parallel'][:500]}
    if viol is None and (failed or undecided or tier == 'thorough'):
        for s in (seed, seed + 1000):
            secs = min(60 if tier == 'quick' else 90, left(budget) / 3)
            scan(witness_both(work, prop, 'thorough', s, secs, kinds))
            if viol: break
    pr = None
    if tier == 'thorough' and not failed:
        pr = [probes(work, f, closure_of(work, f, cfg['roots']), budget) for f in cfg.get('variants', ['simd'])]
    # ---- verdict
    rc, lines = 0, []
    for (p, sub, match, txt) in known():
        if p == prop:
            lines.append(f'KNOWN-FINDING: property={prop} {txt}')
            if viol and viol['sub'] == sub and match in json.dumps(viol):
                viol = None
    replay = f'{V}/work/{prop}/replay.json'
    if viol:
        rep = {'property': prop, 'failing_input': viol, 'failed_obligations': failed,
               'replay_cmd': f"{WIT.get(viol['build'], WIT['sequential'])} one {prop} {viol['sub']} {viol['seed']} {viol['iteration']}"}
        json.dump(rep, open(replay, 'w'), indent=1)
        for k, x in failed.items():
            lines.append(f"failed obligation: {k}: {x[0]['obligation']}: {' / '.join(x[0]['at'])[:200]}")
        lines.append(f"failing input ({viol['build']} build, {viol['sub']}): {viol['input'][:600]}")
        lines.append(f"  expected {viol['expected'][:300]}\n  actual   {viol['actual'][:300]}")
        lines.append(f'VIOLATION property={prop} replay={replay}')
        rc = 1
    elif failed:
        json.dump({'property': prop, 'failed_obligations': failed, 'failing_input': None}, open(replay, 'w'), indent=1)
        for k, x in failed.items():
            lines.append(f"failed obligation: {k}: {x[0]['obligation']}: {' / '.join(x[0]['at'])[:200]}")
        lines.append(f'VIOLATION property={prop} replay={replay} no-failing-input-found')
        rc = 1
    elif undecided:
        for k, x in undecided.items():
            lines.append(f'BOUNDED {prop}: {k}: {x[:160]}')
        lines.append(f'{prop}: no violation found; the functions above were only checked on bounded inputs')
    else:
        lines.append(f"{prop}: proved: " + '; '.join(f"{len(R['proved'])} functions, {R['verified']} obligations groups ({R['features']})" for R in vs))
    proof = not failed and not undecided
    cases = sum(s['cases'] for w in wstats for s in w['subs'])
    vals = sum(s['values'] for w in wstats for s in w['subs'])
    cov = {
        'obligations': sum(R['verified'] + R['errors'] for R in vs) + len(undecided),
        'discharged': sum(R['verified'] for R in vs),
        'checker_cmd': vs[0]['cmd'],
        'trusted_base': PR.TRUSTED + cfg.get('trusted', []) + [f'{k}: proved with the IEEE 754 operand-order facts of proofs/00_spec.rs, group algebra' for R in vs for k in R.get('algebra', [])]
                        + [f'{k}: contract assumed ({x})' for R in vs for k, x in R['degraded_known'].items()],
        'functions_under_contract': {R['features']: R['proved'] for R in vs},
        'contract_clauses': sum(R.get('clauses', 0) for R in vs),
        'roots': cfg['roots'],
        'back_end': 'Verus 0.2026.09.13 / Z3 (bundled)',
        'solver_ms': sum(R['smt_ms'] for R in vs),
        'verifier_runs': sum(R['runs'] for R in vs),
        'verifier_secs': round(sum(R['secs'] for R in vs), 2),
        'bounded_standins': sorted(undecided) + cfg.get('bounded', []),
        'failed_obligations': sorted(failed),
        'proved_without_some_hints': sorted({k for R in vs for k in R.get('weaker', [])}),
        'functions_changed_since_baseline': sorted({k for R in vs for k in R['changed']}),
        'inlined_helpers': sorted({n for R in vs for n in R.get('map_notes', [])}),
        'witness_cases': cases, 'witness_values_compared': vals, 'witness': wstats,
    }
    if pr is not None:
        cov['vacuity_probes'] = pr
    if not proof:
        cov['explanation'] = 'not all obligations were decided on this tree; undecided functions were covered by bounded concrete runs only' if not failed else 'obligations rejected'
        cov.update(evaluations=cases, distinct_nontrivial=cases, rule='deterministic generator of the witness crate', samples=[viol or {}])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if (proof or rc) else 'other', 'coverage': cov,
          'assumptions': PR.ASSUME + cfg.get('assume', []), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if rc else 0}
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print('\n'.join(lines))
    sys.exit(rc)

def closure_of(work, features, roots):
    ex = Extraction(work, 'cl', features, prove=['none'])
    return closure(ex.funcs, roots) if ex.ok else set()

main()
