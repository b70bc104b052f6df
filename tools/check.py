#!/usr/bin/env python3
"""check.py PROPERTY: extract the functions from /repo, prove their contracts, search for a concrete
failing input, write the evidence file. Exit 0 or 1 (with a VIOLATION line)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from checks import CHECKS, ALWAYS_TRUSTED  # noqa: E402

T0 = time.time()
TIER = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
WORK = os.path.join(ROOT, 'build')


def log(*a):
    print('#', *a, flush=True)


def run(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace') + '\ntimeout'


# ---------------------------------------------------------------- builds
def build_vx():
    env = dict(os.environ)
    for k in ('RUSTC', 'RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    rc, o, e = run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', ROOT + '/vx/Cargo.toml'], 600, env)
    if rc != 0:
        raise RuntimeError('vx does not build: ' + e[-2000:])
    return ROOT + '/vx/target/debug/vx'


def build_harness(crate):
    sh = ('. /opt/vp/env.sh && cd %s/harness/%s && CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 '
          'CARGO_TARGET_DIR=%s/target cargo build --offline --quiet' % (ROOT, crate, ROOT))
    rc, o, e = run(['bash', '-c', sh], 700)
    if rc != 0:
        return None, e[-3000:]
    return '%s/target/debug/vh_%s' % (ROOT, crate), ''


# ---------------------------------------------------------------- verus
VERIF_KINDS = [
    ('postcondition not satisfied', 'postcondition'),
    ('precondition not satisfied', 'precondition'),
    ('invariant not satisfied', 'invariant'),
    ('assertion failed', 'assert'),
    ('assert_by_compute', 'assert'),
    ('possible arithmetic underflow/overflow', 'arithmetic'),
    ('possible division by zero', 'arithmetic'),
    ('possible bit shift', 'arithmetic'),
    ('decreases not satisfied', 'termination'),
    ('could not prove termination', 'termination'),
    ('recommendation not met', 'recommends'),
    ('loop invariant', 'invariant'),
    ('unreachable', 'assert'),
    ('cannot show invariant', 'invariant'),
    ('split', 'assert'),
    ('Resource limit', 'rlimit'),
    ('rlimit', 'rlimit'),
]
# what a `no-failing-input-found` report may rest on
DECIDING = ('postcondition', 'precondition', 'arithmetic')


def kind_of(msg):
    for k, v in VERIF_KINDS:
        if k.lower() in msg.lower():
            return v
    return None


class Unit:
    def __init__(self, name):
        self.name = name
        self.fns = []
        self.rewrites = []
        self.failures = []      # obligations of functions that failed
        self.undecided = {}     # function -> reason
        self.verified = 0
        self.errors = 0
        self.smt_ms = 0
        self.cmd = ''
        self.dead = None        # the unit as a whole could not be checked
        self.vacuous = []
        self.probed = 0
        self.scan = []
        self.tries = 0


def fn_at(fns, line):
    for f in fns:
        if f['kind'] == 'fn' and f['start'] <= line <= f['end']:
            return f
    return None


def verus(vx, unit, probe, external):
    out = '%s/%s%s.rs' % (WORK, unit, '_probe' if probe else '')
    mp = out[:-3] + '.json'
    args = [vx, 'emit', REPO, out, mp]
    if probe:
        args.append('--probe')
    if external:
        args += ['--external', '|'.join(sorted(external))]
    args.append('%s/specs/unit_%s.rs' % (ROOT, unit))
    rc, o, e = run(args, 120)
    if rc != 0:
        return None, None, 'extraction failed: ' + (e or o)[-800:], None, None
    m = json.load(open(mp))
    cmd = ['verus', out, '--output-json', '--time', '--error-format=json', '--multiple-errors', '20', '--rlimit', '60', '--num-threads', '4']
    only = only_module(unit)
    if only:
        cmd += ['--verify-module', only]
    env = dict(os.environ)
    for k in ('RUSTC', 'RUSTUP_TOOLCHAIN', 'RUSTFLAGS'):
        env.pop(k, None)
    rc, o, e = run(cmd, 400, env, WORK)
    diags = []
    for l in e.splitlines():
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting due to'):
                diags.append(d)
    res = None
    k = o.find('{')
    if k >= 0:
        try:
            res = json.loads(o[k:])
        except ValueError:
            res = None
    err = None
    if res is None and not diags:
        err = 'verus gave no answer (rc %d): %s' % (rc, (e or o)[-800:])
    return m, diags, err, res, ' '.join(cmd)


def only_module(unit):
    """the module a unit verifies, when the rest of it is verified by other units"""
    for l in open('%s/specs/unit_%s.rs' % (ROOT, unit)):
        if l.startswith('// verify: --verify-module '):
            return l.split()[-1]
    return None


def own_fns(unit, m, path):
    only = only_module(unit)
    if not only:
        return m['fns']
    lines = open(path).read().splitlines()
    at = next((i for i, l in enumerate(lines) if l.strip().startswith('mod %s ' % only)), 0) + 1
    return [f for f in m['fns'] if f['start'] >= at]


def locate(m, d):
    """function the diagnostic belongs to, and the text of the obligation"""
    out = m['_out']
    spans = [s for s in d['spans'] if s['file_name'].endswith(out)]
    what = [s for s in spans if (s.get('label') or '').startswith('failed')]
    rest = [s for s in spans if s not in what] or spans
    prim = [s for s in rest if s.get('is_primary')] or rest
    fn = None
    for s in prim + rest + spans:
        fn = fn_at(m['fns'], s['line_start'])
        if fn:
            break
    t = (what or prim or spans)
    text = ' '.join(x['text'].strip() for x in t[0]['text'])[:300] if t else ''
    if t and t[0]['text']:
        x = t[0]['text'][0]
        if t[0]['line_start'] == t[0]['line_end']:
            text = x['text'][x['highlight_start'] - 1:x['highlight_end'] - 1].strip() or text
    return fn, text


def check_unit(vx, name):
    u = Unit(name)
    external = {}
    for attempt in range(8):
        u.tries += 1
        m, diags, err, res, cmd = verus(vx, name, False, external)
        if err:
            u.dead = err
            return u
        m['_out'] = name + '.rs'
        u.fns, u.rewrites, u.cmd = m['fns'], m['rewrites'], cmd
        hard = [d for d in diags if kind_of(d['message']) is None]
        if not hard:
            break
        # constructs outside the dialect: the changed functions that carry them lose their contract
        bad = {}
        for d in hard:
            fn, text = locate(m, d)
            if fn and fn['status'] in ('changed', 'exact') and fn['name'] not in external:
                bad[fn['name']] = d['message'][:200]
        if not bad:
            changed = [f['name'] for f in u.fns if f['kind'] == 'fn' and f['status'] == 'changed' and f['name'] not in external]
            if not changed:
                u.dead = 'outside the dialect: ' + '; '.join(d['message'][:160] for d in hard[:3])
                return u
            bad = {n: hard[0]['message'][:200] for n in changed}
        external.update(bad)
    else:
        u.dead = 'outside the dialect after several attempts'
        return u
    u.fns = own_fns(name, m, '%s/%s.rs' % (WORK, name))
    for n, r in external.items():
        u.undecided[n] = 'outside the verified dialect: ' + r
    for f in u.fns:
        if f['kind'] == 'fn' and f['status'] == 'lost':
            u.undecided[f['name']] = 'not found or not translatable: ' + f['reason']
        if f['kind'] != 'fn' and f['status'] != 'exact':
            u.undecided[f['name']] = 'definition differs from the one the contracts were written for'
    vr = (res or {}).get('verification-results', {})
    u.verified = vr.get('verified', 0)
    u.errors = vr.get('errors', 0)
    u.smt_ms = (res or {}).get('times-ms', {}).get('smt', {}).get('total', 0)
    for d in diags:
        kind = kind_of(d['message'])
        fn, text = locate(m, d)
        item = {'unit': name, 'kind': kind, 'message': d['message'], 'obligation': text,
                'function': fn['name'] if fn else None, 'file': fn['file'] if fn else None,
                'rendered': d.get('rendered', '')[:3000]}
        if fn is None:
            item['why'] = 'in the supporting text'
        u.failures.append(item)
    if vr and vr.get('encountered-vir-error'):
        u.dead = 'verus stopped before proving'
    return u


def probe_unit(vx, u):
    """every function with a precondition must be able to reach its first statement"""
    if u.dead:
        return
    ext = {n for n, r in u.undecided.items()}
    m, diags, err, res, cmd = verus(vx, u.name, True, ext)
    if err:
        return
    if not (res or {}).get('verification-results') or res['verification-results'].get('encountered-vir-error'):
        return
    m['_out'] = u.name + '_probe.rs'
    hit = set()
    for d in diags:
        if 'assertion failed' in d['message'] or 'Resource limit' in d['message']:
            fn, _ = locate(m, d)
            if fn:
                hit.add(fn['name'])
    probed = [f['name'] for f in own_fns(u.name, m, '%s/%s_probe.rs' % (WORK, u.name)) if f['reason'] == 'probe']
    u.probed = len(probed)
    u.vacuous = [n for n in probed if n not in hit]


def scan(path):
    """trusted constructs in the emitted text"""
    out = []
    try:
        lines = open(path).read().splitlines()
    except OSError:
        return out
    for i, l in enumerate(lines):
        if re.search(r'\b(assume|admit)\s*\(', l) or 'axiom fn' in l or 'assume_specification' in l or 'external_type_specification' in l:
            out.append(l.strip()[:160])
        if 'external_body' in l:
            nxt = ' '.join(x.strip() for x in lines[i:i + 3])
            mm = re.search(r'(fn|struct|enum)\s+(\w+)', nxt)
            out.append('external_body ' + (mm.group(0) if mm else nxt[:80]))
    return sorted(set(out))


# ---------------------------------------------------------------- concrete search
def harness_run(binary, prop, secs, only=None):
    cfile = '%s/case_%s' % (WORK, prop)
    cmd = [binary, prop, str(secs), str(SEED), cfile]
    if only:
        cmd += ['--only', only]
    rc, o, e = run(cmd, secs + 240, cwd=WORK)
    fail = res = None
    for l in o.splitlines():
        if l.startswith('FAIL '):
            fail = json.loads(l[5:])
        elif l.startswith('RESULT '):
            res = json.loads(l[7:])
    if fail is None and res is None:
        # the process died: stack overflow or abort inside the case
        try:
            cid = open(cfile).read().strip().split('\n')[0]
        except OSError:
            cid = '?'
        fail = {'case': cid, 'input': '(see case id; rerun with --only)', 'what': 'the process ends with code %d: %s' % (rc, e[-300:].strip())}
    if fail:
        fail['rerun'] = ' '.join(cmd[:1] + [prop, str(secs), str(SEED), cfile, '--only', fail['case']])
    return fail, res


# ---------------------------------------------------------------- main
def known_findings(prop):
    out = []
    try:
        for l in open(ROOT + '/known_findings.txt'):
            mm = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l.strip())
            if mm and mm.group(1) == prop:
                out.append((re.compile(mm.group(2)), mm.group(3)))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    os.makedirs(ROOT + '/replays', exist_ok=True)
    secs = cfg.get('secs', 10) if TIER == 'quick' else cfg.get('secs_thorough', 180)
    ex = cf.ThreadPoolExecutor(8)
    hb = {c: ex.submit(build_harness, c) for c in sorted({c for c, _ in cfg['harness']})}
    units = []
    try:
        vx = build_vx()
        fu = [ex.submit(check_unit, vx, n) for n in cfg['units']]
        units = [f.result() for f in fu]
        list(ex.map(lambda u: probe_unit(vx, u), units))
        for u in units:
            u.scan = scan('%s/%s.rs' % (WORK, u.name))
    except Exception as e:  # tool trouble: fall back to the bounded search alone
        log('proof part unavailable: %s' % e)
        for n in cfg['units']:
            u = Unit(n)
            u.dead = str(e)
            units.append(u)
    fails, results, hnotes = [], [], []

    def search(c, p):
        b, err = hb[c].result()
        if b is None:
            return None, None, 'harness %s does not build: %s' % (c, err)
        f, r = harness_run(b, p, secs)
        return f, r, ''
    hs = [(c, p, ex.submit(search, c, p)) for c, p in cfg['harness']]
    for c, p, s in hs:
        f, r, n = s.result()
        if n:
            hnotes.append(n)
        if f:
            f['harness'] = c
            fails.append(f)
        if r:
            results.append((c, p, r))

    # --- verdict
    violation = None
    known = known_findings(prop)
    open_fails = []
    for f in fails:
        text = f['what'] + ' ' + f['input']
        hit = [w for rx, w in known if rx.search(text)]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
        else:
            open_fails.append(f)
    owned_failures = []
    dep_failures = []
    for u in units:
        for x in u.failures:
            fn = next((f for f in u.fns if f['name'] == x['function']), None)
            owned = fn is not None and prop in fn['flags']
            x['status'] = fn['status'] if fn else None
            sound = fn is not None and fn['lost'] == 0 and fn['loops_same']
            x['deciding'] = bool(owned and sound and x['kind'] in DECIDING and fn['status'] == 'changed')
            (owned_failures if owned else dep_failures).append(x)
            log('obligation failed: %s / %s: %s [%s] %s' % (x['unit'], x['function'], x['kind'], 'owned' if owned else 'dependency', x['obligation']))
        for n, r in u.undecided.items():
            log('undecided: %s / %s: %s' % (u.name, n, r))
        if u.dead:
            log('unit %s not checked: %s' % (u.name, u.dead))
        for n in u.vacuous:
            log('vacuous precondition: %s / %s' % (u.name, n))
    for n in hnotes:
        log(n[:1500])
    nff = [x for x in owned_failures if x['deciding']]
    if open_fails or nff:
        path = 'replays/%s.json' % prop
        violation = {'property': prop, 'failing_input': open_fails[:1], 'failed_obligations': owned_failures + dep_failures,
                     'obligation': (nff or owned_failures or [{}])[0].get('obligation'), 'seed': SEED, 'tier': TIER}
        with open(os.path.join(ROOT, path), 'w') as fo:
            json.dump(violation, fo, indent=1)
        if open_fails:
            log('failing input: %s: %s' % (open_fails[0]['what'][:600], open_fails[0]['input'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            for x in nff:
                log('failed obligation of %s (%s): %s' % (x['function'], x['kind'], x['obligation']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))

    # --- evidence
    fns = [(u, f) for u in units for f in u.fns if f['kind'] == 'fn']
    failed_names = {(x['unit'], x['function']) for x in owned_failures + dep_failures}
    under = [(u, f) for u, f in fns if f['status'] in ('exact', 'changed')]
    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    evals = sum(r['evaluations'] for _, _, r in results)
    cov = {
        'obligations': obligations,
        'discharged': discharged,
        'checker_cmd': '; '.join(u.cmd for u in units if u.cmd) or 'none',
        'trusted_base': ALWAYS_TRUSTED + cfg.get('trusted', []) + sorted({'%s: %s' % (u.name, s) for u in units for s in u.scan}),
        'back_end': 'Verus 0.2026.09.13 (Z3)',
        'solver_ms': sum(u.smt_ms for u in units),
        'functions_under_contract': [{'unit': u.name, 'function': f['name'], 'file': f['file'], 'owned': prop in f['flags'],
                                      'text': f['status'], 'result': 'failed' if (u.name, f['name']) in failed_names else 'discharged' if not u.dead else 'unchecked'}
                                     for u, f in under],
        'functions_assumed': [{'unit': u.name, 'function': f['name'], 'why': u.undecided.get(f['name'], 'contract assumed, see DESIGN.md')}
                              for u, f in fns if f['status'] in ('assumed', 'external', 'lost')],
        'undecided': {u.name: u.undecided for u in units if u.undecided},
        'units_not_checked': {u.name: u.dead for u in units if u.dead},
        'failed_obligations': [{k: x[k] for k in ('unit', 'function', 'kind', 'obligation')} for x in owned_failures + dep_failures],
        'precondition_reachability': {'probed': sum(u.probed for u in units), 'vacuous': sum((u.vacuous for u in units), [])},
        'extraction_rewrites': sorted({r for u in units for r in u.rewrites}),
        'bounded': {
            'label': 'bounded search on the real code; never counted as proved',
            'stands_in_for': cfg.get('bounded_for', ''),
            'evaluations': evals,
            'phases': {('%s %s' % (c, p)): r['phases'] for c, p, r in results},
            'notes': hnotes,
        },
        'evaluations': evals,
        'distinct_nontrivial': sum(r['distinct_nontrivial'] for _, _, r in results),
        'rule': cfg.get('rule', 'seeded generation plus exhaustive small cases; non-trivial: the input exercises the operation (per-phase definition in /verif/harness)'),
        'samples': sum((r['samples'] for _, _, r in results), [])[:8],
        'explanation': cfg['note'],
    }
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': cfg['level'], 'coverage': cov,
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - T0, 1),
          'violations': 1 if violation else 0}
    with open('%s/evidence/%s.json' % (ROOT, prop), 'w') as fo:
        json.dump(ev, fo, indent=1)
    log('%s: %d/%d obligations discharged, %d bounded evaluations, %.1f s' % (prop, discharged, obligations, evals, time.time() - T0))
    if violation:
        sys.exit(1)
    answered = [u for u in units if not u.dead] or results
    if not answered:
        log('no answer: neither the proof nor the bounded search ran')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
