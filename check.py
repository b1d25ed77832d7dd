#!/usr/bin/env python3
"""check.py PROPERTY  -- run one property's check (see DESIGN.md).

1. extract the functions under contract from /repo, generate the Verus / Kani units, run the verifier;
2. run the executable contract (replay harness) against the real crate built from /repo;
3. decide, write evidence/<PROPERTY>.json, print VIOLATION / KNOWN-FINDING lines.
"""
import sys, os, re, json, subprocess, time, hashlib, fcntl, concurrent.futures
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import extract

BUILD = os.path.join(VERIF, '.build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
INDEX = json.load(open(os.path.join(VERIF, 'units', 'index.json')))
INDEX['properties'] = {f[:-5]: json.load(open(os.path.join(VERIF, 'units', 'props', f))) for f in sorted(os.listdir(os.path.join(VERIF, 'units', 'props'))) if f.endswith('.json')}
T0 = time.time()

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0')
ENV['PATH'] = os.path.expanduser('~/.cargo/bin') + ':' + ENV.get('PATH', '')

def sh(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENV, cwd=cwd, text=True, errors='replace', start_new_session=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode(errors='replace') if isinstance(b, bytes) else (b or '')
        subprocess.run(['pkill', '-f', cmd[-1]], stderr=subprocess.DEVNULL) if False else None
        return 124, d(e.stdout), d(e.stderr) + '\nTIMEOUT'

# ------------------------------------------------------------------ the harness
def build_harness(variant):
    env = dict(ENV, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=os.path.join(BUILD, 'target-' + variant))
    cmd = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(VERIF, 'harness', 'Cargo.toml')]
    if variant != 'std': cmd += ['--features', variant]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out, err = sh(cmd, 800, env)
    if rc != 0:
        return None, err[-4000:]
    return os.path.join(BUILD, 'target-' + variant, 'debug', 'vp-harness'), ''

def run_harness(binary, prop, tier, timeout, only=None):
    env = dict(ENV, VERIF_SEED=str(SEED), VERIF_TIER=tier)
    if only is not None: env['VP_ONLY'] = only
    rc, out, err = sh([binary, prop], timeout, env)
    if rc == 124: return {'timeout': True, 'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'exhaustive': []}
    line = out.strip().split('\n')[-1] if out.strip() else ''
    try:
        return json.loads(line)
    except Exception:
        if rc < 0 or rc in (134, 139, 101):
            # the process died: the real code overflowed its stack / aborted on some input
            return {'evaluations': 0, 'distinct': 0, 'samples': [], 'exhaustive': [], 'violations': [{'key': 'abort', 'input': 'see detail', 'detail': f'harness process ended with {rc}: {err[-2000:]}'}]}
        return {'error': f'rc={rc} {err[-2000:]} {out[-500:]}', 'evaluations': 0, 'distinct': 0, 'samples': [], 'violations': [], 'exhaustive': []}

# ------------------------------------------------------------------ Verus
FAIL_RE = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|arithmetic underflow/overflow|division by zero|decreases not satisfied|could not prove termination|requires not satisfied|index out of bounds|not satisfied|bounds|possible bit shift|unreachable', re.I)
TRUST_RE = re.compile(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]|#\[verifier::external_body\]\s*(?:pub\s+)?(?:proof\s+|broadcast\s+)*(fn|struct)\s+(\w+)|\b(assume|admit)\s*\(|#\[verifier::external_type_specification\]\s*(?:#\[[^\]]*\]\s*)*pub struct (\w+)|\baxiom fn (\w+)|uninterp spec fn (\w+)')

def verus_once(path, extra, timeout, multi='6'):
    t = time.time()
    rc, out, err = sh(['verus', path, '--output-json', '--time-expanded', '--multiple-errors', multi, '--no-report-long-running', '--triggers-mode', 'silent'] + extra, timeout, dict(ENV), cwd=os.path.dirname(path))
    r = {'rc': rc, 'err': err, 'secs': time.time() - t, 'fns': {}, 'verified': 0, 'errors': 0, 'tool': None, 'smt_ms': 0}
    if rc == 124:
        r['tool'] = 'timeout'; return r
    try:
        d = json.loads(out)
    except Exception:
        r['tool'] = 'no verifier output: ' + err[:1500]; return r
    v = d.get('verification-results', {})
    r['verified'], r['errors'] = v.get('verified', 0), v.get('errors', 0)
    if v.get('encountered-vir-error') or 'verified' not in v or (r['verified'] + r['errors'] == 0):
        r['tool'] = 'unit rejected before verification: ' + '\n'.join(l for l in err.split('\n') if l.strip())[:1500]; return r
    smt = d.get('times-ms', {}).get('verification', {}) if False else d.get('times-ms', {}).get('smt') or d.get('times-ms', {}).get('verification', {}).get('smt') or {}
    def find(o):
        if isinstance(o, dict):
            if 'function-breakdown' in o:
                for f in o['function-breakdown']:
                    n = f['function'].split('::', 1)[-1]
                    e = r['fns'].setdefault(n, {'ok': True, 'ms': 0, 'mode': f.get('mode:', '?')})
                    e['ok'] = e['ok'] and f.get('success', False); e['ms'] += f.get('time', 0)
            for x in o.values(): find(x)
        elif isinstance(o, list):
            for x in o: find(x)
    find(d.get('times-ms', {}))
    r['smt_ms'] = sum(f['ms'] for f in r['fns'].values())
    return r

def error_blocks(err):
    """rustc-style diagnostics -> list of (headline, block)"""
    blocks, cur = [], None
    for l in err.split('\n'):
        if re.match(r'^(error|note|warning)(\[|:|\b)', l):
            if cur: blocks.append(cur)
            cur = [l]
        elif cur is not None: cur.append(l)
    if cur: blocks.append(cur)
    return [(b[0], '\n'.join(b)) for b in blocks if b[0].startswith('error')]

def run_verus_unit(unit, wd):
    """-> dict(status proved|failed|undecided, ...)"""
    tpl = os.path.join(VERIF, 'units', unit + '.rs')
    res = {'unit': unit, 'backend': 'verus/z3', 'status': 'undecided', 'obligations': 0, 'discharged': 0, 'smt_ms': 0, 'functions': [], 'trusted': [], 'reason': '', 'failed': [], 'rewrites': [], 'output': ''}
    try:
        extract.Source.cache.clear() if False else None
        text, st = extract.build(REPO, tpl)
        ctext, cst = extract.build(REPO, tpl, canary=True)
    except extract.Lost as e:
        res['reason'] = f'lost anchor: {e}'; return res
    except (ValueError, IndexError, KeyError, StopIteration, AttributeError) as e:
        res['reason'] = f'extraction failed: {e!r}'; return res
    res['functions'] = st.get('functions', []); res['rewrites'] = st.get('rewrites', []) + [f"{k} desugared x{st[k]}" for k in ('format!', 'write!') if k in st]
    for m in TRUST_RE.finditer(text):
        g = m.groups()
        res['trusted'].append(f"{unit}: " + next((x for x in ((g[0] and 'assumed std contract ' + g[0]), (g[2] and f'external_body {g[1]} {g[2]}'), (g[3] and f'{g[3]}()'), (g[4] and 'external type ' + g[4]), (g[5] and 'axiom ' + g[5]), (g[6] and 'uninterpreted ' + g[6])) if x), m.group(0)))
    if any(t.endswith('assume()') or t.endswith('admit()') for t in res['trusted']):
        res['reason'] = 'unit contains assume/admit'; return res
    p = os.path.join(wd, unit + '.rs'); pc = os.path.join(wd, unit + '_canary.rs')
    open(p, 'w').write(text); open(pc, 'w').write(ctext)
    opts = INDEX.get('unit_opts', {}).get(unit, [])
    left = lambda: 560 - (time.time() - T0)     # the verifier's share of the time of one check
    pool = concurrent.futures.ThreadPoolExecutor(1)
    fc = pool.submit(verus_once, pc, opts, 420, '60')
    r = verus_once(p, opts, 360)
    tries = [r]
    if r['tool'] is None and r['errors']:
        # a proof accepted under any solver seed / resource limit is a proof: retry before deciding
        for extra in (['--rlimit', '60', '--smt-option', 'smt.random_seed=7'], ['--rlimit', '120', '--smt-option', 'smt.random_seed=11']):
            if left() < 30: break
            r2 = verus_once(p, opts + extra, min(240, left()))
            tries.append(r2)
            if r2['tool'] is None and r2['errors'] == 0: r = r2; break
    res['smt_ms'] = sum(t['smt_ms'] for t in tries)
    res['output'] = r['err'][-12000:]
    if r['tool']:
        res['reason'] = r['tool']; return res
    res['obligations'] = r['verified'] + r['errors']; res['discharged'] = r['verified']
    if r['errors']:
        bad = [n for n, f in r['fns'].items() if not f['ok']]
        blocks = error_blocks(r['err'])
        real = [b for h, b in blocks if FAIL_RE.search(h) and 'aborting' not in h]
        rl = [b for h, b in blocks if 'rlimit' in h or 'Resource limit' in h]
        # a function whose last word is a resource limit in every attempt is undecided, not failed
        if not real or (rl and not any(not ('rlimit' in h or 'Resource limit' in h) and FAIL_RE.search(h) for t in tries for h, _ in error_blocks(t['err']))):
            res['reason'] = 'solver gave up (resource limit) in ' + ', '.join(bad); return res
        # the obligation must fail in every attempt for which the solver answered
        res['status'] = 'failed'; res['failed'] = bad; res['reason'] = real[0][:3000]
        return res
    # vacuity: assert(false) behind every precondition and loop invariant must be refuted
    c = fc.result()
    want = cst.get('canaries', 0)
    cblocks = error_blocks(c['err'])
    refuted = {int(m) for h, b in cblocks if 'assertion failed' in h for m in re.findall(r'(\d+)\s*\|\s*assert\(false\); /\*canary', b)}
    # where the solver ran out of resources on the rest of a function's query, its remaining canaries were not proved either
    clines = ctext.split('\n')
    for h, b in cblocks:
        m = re.search(r'-->\s*\S+?:(\d+):', b) if 'Resource limit' in h else None
        k = int(m.group(1)) if m else len(clines)
        while k < len(clines) and not re.match(r'\s*(pub(\(crate\))?\s+)?((open|closed|proof|spec|broadcast|uninterp|axiom)\s+)*fn\s', clines[k]):
            if 'assert(false); /*canary*/' in clines[k]: refuted.add(k + 1)
            k += 1
    got = len(refuted)
    res['canaries'] = [want, got]
    if c['tool'] is not None or got < want:
        res['reason'] = f"vacuity check: {got} of {want} canaries refuted {c['tool'] or ''}"; return res
    res['status'] = 'proved'
    return res

# ------------------------------------------------------------------ Kani
def run_kani_unit(unit, wd):
    spec = INDEX['kani'][unit]
    res = {'unit': unit, 'backend': 'kani/cbmc', 'status': 'undecided', 'obligations': 0, 'discharged': 0, 'smt_ms': 0, 'functions': [], 'trusted': [], 'reason': '', 'failed': [], 'rewrites': [], 'output': ''}
    try:
        text, st = extract.build(REPO, os.path.join(VERIF, 'units', unit + '.rs'))
    except extract.Lost as e:
        res['reason'] = f'lost anchor: {e}'; return res
    except (ValueError, IndexError, KeyError, StopIteration, AttributeError) as e:
        res['reason'] = f'extraction failed: {e!r}'; return res
    res['functions'] = st.get('functions', [])
    res['trusted'] = [f"{unit}: " + t for t in spec.get('trusted', [])]
    def one(hn):
        d = os.path.join(wd, unit + '_' + hn); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, unit + '.rs'); open(p, 'w').write(text)
        t = time.time()
        rc, out, err = sh(['kani', p, '--harness', hn, '--exact'] if False else ['kani', p, '--harness', hn], spec.get('timeout', 420), cwd=d)
        return hn, rc, out, err, time.time() - t
    harnesses = spec['harnesses'] + (spec.get('thorough', []) if THOROUGH else [])
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, harnesses))
    reasons = []
    for hn, rc, out, err, secs in rs:
        res['smt_ms'] += int(secs * 1000)
        m = re.search(r'\*\* (\d+) of (\d+) failed', out)
        if 'VERIFICATION:- SUCCESSFUL' in out and m:
            cov = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', out)
            if cov and cov.group(1) != cov.group(2):
                reasons.append(f'{hn}: vacuous ({cov.group(0)})'); continue
            res['obligations'] += int(m.group(2)); res['discharged'] += int(m.group(2))
        elif 'VERIFICATION:- FAILED' in out and m:
            fails = re.findall(r'Failed Checks: (.*)', out)
            real = [f for f in fails if 'unwinding assertion' not in f and 'unsupported' not in f.lower() and 'is not currently supported' not in f]
            res['obligations'] += int(m.group(2)); res['discharged'] += int(m.group(2)) - int(m.group(1))
            if any('unwinding assertion' in f for f in fails) or not real:
                reasons.append(f'{hn}: undecided ({fails[:2]})')
            else:
                res['failed'].append(hn); res['output'] += '\n'.join(l for l in out.split('\n') if 'Fail' in l or 'FAILURE' in l or 'File:' in l)[-4000:]
                reasons.append(f'{hn}: {real[0]}')
        else:
            reasons.append(f'{hn}: no answer (rc {rc}) ' + (err or out)[-400:])
    res['reason'] = '; '.join(reasons)
    if res['failed']: res['status'] = 'failed'
    elif not reasons: res['status'] = 'proved'
    return res

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    d = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    return [k for k in d.get('findings', []) if k['property'] == prop]

def is_known(v, kf):
    return next((k for k in kf if k['key'] == v['key'] and re.search(k['match'], v['input'] + '\n' + v['detail'], re.S)), None)

def main():
    prop = sys.argv[1]
    if prop == '--setup':
        for v in ('std', 'constmem'):
            b, e = build_harness(v)
            if b is None: print(f'setup: the {v} harness does not build (each check builds it again)\n{e}', file=sys.stderr)
        sys.exit(0)
    cfg = INDEX['properties'][prop]
    wd = os.path.join(BUILD, 'work', prop); os.makedirs(wd, exist_ok=True)
    variant = cfg.get('variant', 'std')
    units = []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fh = ex.submit(build_harness, variant)
        fv = [ex.submit(run_verus_unit, u, wd) for u in cfg.get('verus', [])]
        fk = [ex.submit(run_kani_unit, u, wd) for u in cfg.get('kani', [])]
        binary, berr = fh.result()
        if binary is None:
            print(f'check error: the harness does not build against /repo\n{berr}', file=sys.stderr); [f.result() for f in fv + fk]; sys.exit(2)
        hr = run_harness(binary, prop, TIER, 700 if THOROUGH else 300)
        units = [f.result() for f in fv + fk]
    kf = known_findings(prop)
    viol, known = [], {}
    for v in hr.get('violations', []):
        k = is_known(v, kf)
        if k: known.setdefault(k['id'], (k, v))
        else: viol.append(v)
    failed = [u for u in units if u['status'] == 'failed']
    if failed and not viol and not THOROUGH:
        # an obligation failed: search longer for a concrete failing input
        left = 780 - (time.time() - T0)
        if left > 60:
            hr2 = run_harness(binary, prop, 'thorough', min(left - 30, 420))
            for v in hr2.get('violations', []):
                if not is_known(v, kf): viol.append(v)
    undecided = [u for u in units if u['status'] == 'undecided']
    herr = hr.get('error') or ('harness timed out' if hr.get('timeout') else '')
    # ---------------- evidence
    obligations = sum(u['obligations'] for u in units); discharged = sum(u['discharged'] for u in units)
    trusted = sorted({t for u in units for t in u['trusted']}) + cfg.get('trusted', []) + INDEX['trusted_common']
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': f'/verif/check.py {prop}: verus <unit>.rs --output-json --time-expanded on ' + ', '.join(cfg.get('verus', [])) + ('; kani on ' + ', '.join(cfg['kani']) if cfg.get('kani') else ''),
        'trusted_base': trusted,
        'functions_under_contract': sorted({f for u in units for f in u['functions']}),
        'units': [{k: u[k] for k in ('unit', 'backend', 'status', 'obligations', 'discharged', 'smt_ms', 'reason', 'rewrites')} | ({'canaries_refuted': u['canaries']} if 'canaries' in u else {}) for u in units],
        'solver_ms': sum(u['smt_ms'] for u in units),
        'undecided_units': [u['unit'] for u in undecided],
        'bounded_standin': {'what': cfg.get('standin', ''), 'evaluations': hr.get('evaluations', 0), 'distinct': hr.get('distinct', 0), 'exhausted': hr.get('exhaustive', []), 'samples': hr.get('samples', []), 'error': herr, 'label': 'bounded: never counted as proved'},
        'evaluations': hr.get('evaluations', 0), 'distinct_nontrivial': hr.get('distinct', 0),
        'rule': 'bounded stand-in on the real crate: ' + cfg.get('standin', '') + '; a case is counted once per distinct input',
        'samples': hr.get('samples', [])[:12] or ['none'],
    }
    ev = {'property': prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': cfg.get('level', 'proof'), 'coverage': cov,
          'assumptions': cfg.get('assumptions', []) + (['UNDECIDED this run, bounded stand-in only: ' + ', '.join(f"{u['unit']} ({u['reason'][:200]})" for u in undecided)] if undecided else []),
          'wall_s': round(time.time() - T0, 2), 'violations': len(viol) + (1 if failed and not viol else 0)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    # ---------------- report
    for u in units:
        print(f"[{prop}] {u['unit']}: {u['status']} {u['discharged']}/{u['obligations']} obligations ({u['backend']}, {u['smt_ms']} ms) {u['reason'][:300] if u['status'] != 'proved' else ''}")
    print(f"[{prop}] bounded stand-in: {hr.get('evaluations', 0)} cases, {len(hr.get('violations', []))} failing {herr}")
    for k, v in known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rp = os.path.join(VERIF, '.build', 'replay'); os.makedirs(rp, exist_ok=True)
    if viol:
        f = os.path.join(rp, f'{prop}.json')
        json.dump({'property': prop, 'how': f'VP_ONLY=<input> {binary} {prop}  (or /verif/check.py {prop})', 'failing_inputs': viol[:20],
                   'failed_obligations': [{'unit': u['unit'], 'functions': u['failed'], 'reason': u['reason'], 'verifier': u['output']} for u in failed]}, open(f, 'w'), indent=1)
        v = viol[0]
        print(f"  failing input [{v['key']}]: {v['input'][:500]!r}\n  {v['detail'][:700]}")
        for u in failed: print(f"  failed obligation: {u['unit']}::{u['failed']}")
        print(f'VIOLATION property={prop} replay={f}')
        sys.exit(1)
    if failed:
        f = os.path.join(rp, f'{prop}-obligation.json')
        json.dump({'property': prop, 'failed_obligations': [{'unit': u['unit'], 'functions': u['failed'], 'reason': u['reason'], 'verifier': u['output']} for u in failed]}, open(f, 'w'), indent=1)
        for u in failed: print(f"  failed obligation: {u['unit']}::{u['failed']}\n{u['reason'][:1500]}")
        print(f'VIOLATION property={prop} replay={f} no-failing-input-found')
        sys.exit(1)
    if herr:
        print(f'check error: {herr}', file=sys.stderr); sys.exit(2)
    sys.exit(0)

main()
