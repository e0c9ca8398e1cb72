#!/usr/bin/env python3
"""Decide one property of Cydhra/Jester:  check.py <ID>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

 1. vx extracts the functions under contract from /repo's current source into Verus input;
 2. Verus discharges every obligation (and Kani the byte-level contracts of unsafe code);
 3. in parallel the replay harness, built against /repo's current crates, looks for a concrete
    failing input;  when an obligation fails it searches longer.
Exit 0: holds (or, after an edit that the extraction cannot follow, undecided by the prover and
nothing found - said so in the evidence).  Exit 1 with a VIOLATION line: broken.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
sys.path.insert(0, V)
from checks_config import PROPS, UNITS, KANI, owned  # noqa: E402
sys.path.insert(0, V + '/tools')
from dictionary import dictionary  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never', HOME=os.environ.get('HOME', '/root'))
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '')
VX = V + '/vx/target/debug/vx'


def sh(cmd, timeout=None, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, env=env or ENV, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        def d(x):
            return x.decode(errors='replace') if isinstance(x, bytes) else (x or '')
        return -9, d(e.stdout), d(e.stderr) + '\ntimeout'


def build_vx():
    rc, o, e = sh(['cargo', 'build', '--offline', '--quiet', '--manifest-path', V + '/vx/Cargo.toml'], 600)
    if rc != 0:
        return 'cannot build vx: ' + e[-2000:]
    return None


def build_harness(binname):
    env = dict(ENV)
    env['RUSTFLAGS'] = '--cfg verif_hooks -A warnings'
    env['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    rc, o, e = sh(['cargo', 'build', '--offline', '--quiet', '--manifest-path', V + '/harness/Cargo.toml', '--bin', binname], 800, env=env)
    if rc != 0:
        return None, e[-3000:]
    return V + '/harness/target/debug/' + binname, None


# ---------------------------------------------------------------- verifier
SMT_FAIL = [
    'postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
    'possible arithmetic underflow/overflow', 'possible division by zero', 'possible bit shift underflow/overflow',
    'index out of bounds', 'unable to prove', 'decreases not satisfied', 'unreachable', 'assertion not satisfied',
    'could not prove termination', 'recommendation', 'cannot show', 'failed this', 'not all errors', 'constructed value may fail', 'might not',
]


class Unit:
    def __init__(self, name, work):
        self.name, self.work = name, work
        self.verified = self.errors = 0
        self.failed = []      # (function, message, text)
        self.limits = []      # tool limits (no verdict)
        self.functions = []   # what was extracted
        self.trusted = []
        self.smt_ms = 0
        self.cmd = ''
        self.retried = False
        self.slow = []


def span_fn(ranges, line):
    best = None
    for a, b, n in ranges:
        if a <= line <= b:
            best = n
    return best


def parse_ranges(text):
    """line ranges of extracted functions (markers) and of template functions"""
    r, stack = [], {}
    lines = text.split('\n')
    cur = None
    for i, l in enumerate(lines, 1):
        m = re.match(r'\s*//vp-begin (\S+) (.*)$', l)
        if m:
            stack[m.group(1)] = (i, m.group(2).strip())
            continue
        m = re.match(r'\s*//vp-end (\S+)', l)
        if m and m.group(1) in stack:
            a, n = stack.pop(m.group(1))
            r.append((a, i, n))
    starts = [(i, m.group(1)) for i, l in enumerate(lines, 1) for m in [re.match(r'\s*(?:pub )?(?:open |closed )?(?:spec |proof |exec )?(?:static |fn )(\w+)', l)] if m]
    gen = []
    for k, (i, n) in enumerate(starts):
        e = starts[k + 1][0] - 1 if k + 1 < len(starts) else len(lines)
        gen.append((i, e, 'contract text: ' + n))
    return gen + r


def trusted_of(text):
    out = []
    lines = text.split('\n')
    for i, l in enumerate(lines):
        if 'assume_specification' in l:
            out.append('assumed: ' + re.sub(r'\s+', ' ', l.strip())[:160])
        elif 'external_body' in l and '#[' in l:
            note = l.split('//', 1)[1].strip() if '//' in l else ''
            for k in range(i + 1, min(i + 4, len(lines))):
                if 'fn ' in lines[k] or 'struct ' in lines[k]:
                    out.append('contract assumed%s: %s' % (' (' + note + ')' if note else '', re.sub(r'\s+', ' ', lines[k].strip())[:160]))
                    break
        elif re.search(r'\b(assume|admit)\s*\(', l) and 'kani' not in l and not l.strip().startswith('//'):
            out.append('ASSUME: ' + l.strip()[:160])
        elif re.search(r'\baxiom\b', l) and 'fn' in l:
            out.append('axiom: ' + l.strip()[:160])
    return out


def run_verus(path, extra=(), timeout=600):
    cmd = ['verus', path, '--triggers-mode', 'silent', '--time-expanded', '--output-json', '--error-format=json', '--multiple-errors', '4'] + list(extra)
    rc, o, e = sh(cmd, timeout, cwd=os.path.dirname(path))
    try:
        j = json.loads(o[o.index('{'):])
    except Exception:
        j = None
    errs = []
    raw = []
    for l in e.split('\n'):
        l = l.strip()
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get('level') == 'error':
                errs.append(d)
                raw.append(d.get('rendered') or d.get('message', ''))
        elif l:
            raw.append(l)
    return rc, j, errs, '\n'.join(raw), ' '.join(cmd)


def expand_source(manifest, pkg, target, out):
    """the package as the compiler sees it after macro expansion"""
    env = dict(ENV, RUSTC_BOOTSTRAP='1', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=target, RUSTFLAGS='-A warnings')
    rc, o, e = sh(['cargo', 'rustc', '--offline', '--quiet', '--manifest-path', manifest, '-p', pkg, '--lib', '--', '-Zunpretty=expanded'], 400, env=env)
    if rc == 0:
        open(out, 'w').write(o)
    return rc, e


def extract(name, work, rs, meta):
    if name != 'delegation':
        return sh([VX, '%s/units/%s.vrs' % (V, name), REPO, rs, meta], 120)
    # implementations generated by the attribute macro: for the crate's own traits and for probe traits
    src = [(V + '/harness/Cargo.toml', 'jester_sharing'), (V + '/probe/Cargo.toml', 'probe')]
    args = []
    with cf.ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(expand_source, m, p, '%s/probe/target/%s' % (V, p), '%s/%s.expanded.rs' % (work, p)) for m, p in src]
        for f, (m, p) in zip(fs, src):
            rc, e = f.result()
            if rc != 0:
                return 1, '', 'macro expansion of %s: %s' % (p, e[-1500:])
            args += ['%s/%s.expanded.rs' % (work, p), p + '::']
    return sh([VX, '--delegation', rs, meta] + args, 120)


def do_unit(name, work, suffix='', post=None):
    u = Unit(name, work)
    rs, meta = '%s/%s%s.rs' % (work, name, suffix), '%s/%s%s.meta.json' % (work, name, suffix)
    rc, o, e = extract(name, work, rs, meta)
    if rc != 0:
        u.limits.append('extraction: ' + (e.strip()[-1500:] or 'exit %d' % rc))
        if rc == 3 and os.path.exists(meta):
            u.functions = json.load(open(meta))['functions']
        return u
    u.functions = json.load(open(meta))['functions']
    text = open(rs).read()
    if post:
        text = post(text, u)
        open(rs, 'w').write(text)
    u.trusted = trusted_of(text)
    ranges = parse_ranges(text)
    extra = UNITS.get(name, {}).get('args', [])
    for attempt, more in enumerate([[], ['--rlimit', '60', '--smt-option', 'smt.random_seed=11'], ['--rlimit', '90', '--smt-option', 'smt.random_seed=4711']]):
        t0 = time.time()
        rc, j, errs, raw, cmd = run_verus(rs, extra + more, 400)
        u.cmd = cmd.replace(work, '$WORK')
        u.failed, u.limits = [], []
        vr = (j or {}).get('verification-results')
        if not vr or vr.get('encountered-vir-error') or (rc != 0 and not vr.get('errors')):
            msg = '; '.join(d.get('message', '')[:200] for d in errs[:3]) or raw[-600:]
            u.limits.append('the verifier cannot process the extracted text: ' + msg)
            u.raw = raw
            return u
        u.verified, u.errors = vr.get('verified', 0), vr.get('errors', 0)
        mods = j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', [])
        fb = [f for m in mods for f in m.get('function-breakdown', [])]
        u.smt_ms = sum(f['time-micros'] for f in fb) / 1000.0
        u.slow = sorted([(f['time-micros'] // 1000, f['function']) for f in fb], reverse=True)[:3]
        for d in errs:
            m = d.get('message', '')
            if m.startswith('aborting due to'):
                continue
            sp = d.get('spans') or []
            prim = [s for s in sp if s.get('is_primary')] or sp
            # Verus reports a failed pre/postcondition at its clause; the other span is in the body
            lines = [s.get('line_start', 0) for s in prim + sp]
            fn = None
            for s in prim + sp:
                n = span_fn(ranges, s.get('line_start', 0))
                if n and not n.startswith('contract text'):
                    fn = n
                    break
                fn = fn or n
            rendered = d.get('rendered', m)
            if 'rlimit' in m or 'Resource limit' in m or 'timeout' in m or 'esource' in m:
                u.limits.append('%s: solver resource limit' % fn)
            elif any(k in m for k in SMT_FAIL):
                u.failed.append((fn or '?', m, rendered))
            else:
                u.limits.append('%s: %s' % (fn, m[:300]))
        if u.errors == 0 and not u.limits:
            u.raw = ''
            break
        # a loop this contract text says nothing about (one the source did not have): its failing obligations are for
        # want of an invariant, not a verdict
        bare = {f['name'] for f in u.functions if f.get('loops_without_invariant')}
        u.limits += ['%s: has a loop without an invariant: %s' % (f[0], f[1]) for f in u.failed if f[0] in bare]
        u.failed = [f for f in u.failed if f[0] not in bare]
        u.raw = raw
        u.retried = attempt > 0
        if time.time() - T0 > 300:
            break
    return u


# ---------------------------------------------------------------- kani
def do_kani(name, harnesses, work):
    cfg = KANI[name]
    res = {'name': name, 'ok': [], 'failed': [], 'limits': [], 'checks': 0, 'cmd': ''}
    out = []
    for l in open(V + '/kani/' + cfg['file']):
        if l.startswith('//@verbatim '):
            rc, o, e = sh([VX, '--verbatim', REPO, l[12:].strip()], 60)
            if rc != 0:
                res['limits'].append('extraction: ' + l[12:].strip() + ' not found')
                return res
            out.append(o)
        else:
            out.append(l)
    d = work + '/kani_' + name
    os.makedirs(d, exist_ok=True)
    open(d + '/k.rs', 'w').write(''.join(out))
    cmd = ['kani', 'k.rs', '--output-format', 'terse', '-j', '4'] + sum([['--harness', h] for h in harnesses], [])
    res['cmd'] = ' '.join(cmd)
    rc, o, e = sh(cmd, 500, cwd=d)
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', o)
    if not m:
        res['limits'].append('kani gave no answer: ' + (e or o)[-400:])
        return res
    for h in harnesses:
        # terse output: a summary lists the failed harnesses
        if re.search(r'Verification failed for - .*\b%s\b' % h, o):
            res['failed'].append((h, o[-3000:]))
        else:
            res['ok'].append(h)
    res['checks'] = sum(int(x) for x in re.findall(r'\*\* \d+ of (\d+) failed', o))
    if int(m.group(2)) and not res['failed']:
        res['failed'].append(('?', o[-3000:]))
    for h, t in list(res['failed']):
        if 'not currently supported' in t or 'unwinding assertion' in t:
            res['failed'].remove((h, t))
            res['limits'].append('kani: %s not supported or not fully unwound' % h)
    return res


# ---------------------------------------------------------------- search for inputs
def do_search(binpath, pid, work, secs, deep):
    out = '%s/search%s.json' % (work, '_deep' if deep else '')
    rc, o, e = sh([binpath, pid, str(secs), str(SEED), out] + (['deep'] if deep else []), 780)
    if os.path.exists(out):
        return json.load(open(out))
    # the harness itself ended (abort, stack overflow, out of memory): a crash of the code under test
    if rc == -9:
        return {'cases': 0, 'sections': {}, 'violation': None, 'limit': 'search timed out'}
    return {'cases': 0, 'sections': {}, 'violation': {'property': pid, 'seed': SEED, 'case': '', 'what': 'the process running the code ended abnormally (status %s): %s' % (rc, (e or o)[-500:])}}


def main():
    global T0
    T0 = time.time()
    pid = sys.argv[1]
    cfg = PROPS[pid]
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(V + '/replays', exist_ok=True)
    # numbers and strings of lines /repo did not have before: more inputs for the search, empty on the unchanged tree
    try:
        ints, strs = dictionary()
    except Exception:
        ints, strs = [], []
    ENV['VP_DICT'], ENV['VP_DICT_BYTES'] = ','.join(map(str, ints)), ','.join(x.hex() for x in strs)
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        rc = decide(pid, cfg, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(pid, cfg, work):
    err = build_vx()
    thorough = TIER == 'thorough'
    secs = cfg.get('secs', 6) * (10 if thorough else 1)
    with cf.ThreadPoolExecutor(16) as ex:
        fs = ex.submit(search_base, pid, cfg, work, secs)
        fu = [] if err else [ex.submit(do_unit, n, work) for n in cfg['units']]
        fd = [] if err else [ex.submit(do_unit, n, work) for n in cfg.get('deps', [])]
        fk = [] if err else [ex.submit(do_kani, n, hs, work) for n, hs in cfg.get('kani', {}).items()]
        fx = [ex.submit(f, work) for f in cfg.get('extra', [])]
        fv = [ex.submit(do_vacuity, n, work) for n in (cfg['units'] + cfg.get('deps', []) if thorough and not err else [])]
        units = [f.result() for f in fu]
        kanis = [f.result() for f in fk]
        deps = [f.result() for f in fd]
        vac = [f.result() for f in fv]
        binpath, search = fs.result()
    other = [(u.name, f) for u in units for f in u.failed if not owned(pid, u.name, f[0])]
    failed = [(u.name, f) for u in units for f in u.failed if owned(pid, u.name, f[0])] + [('kani ' + k['name'], (h, 'kani harness failed', t)) for k in kanis for h, t in k['failed']]
    limits = ['%s: %s' % (u.name, l) for u in units for l in u.limits] + ['kani %s: %s' % (k['name'], l) for k in kanis for l in k['limits']]
    # contracts this property's proof relies on, discharged elsewhere: when one is not, the property is not decided
    # by the proof (the check of the property it belongs to reports it) and the search decides
    limits += ['supporting unit %s: %s' % (u.name, l) for u in deps for l in u.limits + ['%s: %s' % (f[0], f[1]) for f in u.failed]]
    limits += ['%s: relies on %s: %s' % (n, f[0], f[1]) for n, f in other]
    units = units + deps
    if err:
        limits.append(err)
    viol = search.get('violation')
    deep = None
    if not viol and binpath and (failed or limits or thorough) and not cfg.get('nodeep'):
        deep = do_search(binpath, pid, work, cfg.get('deep_secs', 60), True)
        viol = deep.get('violation')
    # functions whose contract was expected to be checked
    nfun = sum(1 for u in units for f in u.functions if f.get('kind') == 'function')
    obligations = sum(u.verified + u.errors for u in units) + sum(len(k['ok']) + len(k['failed']) for k in kanis)
    discharged = sum(u.verified for u in units) + sum(len(k['ok']) for k in kanis)
    for u in units:
        if u.limits:
            obligations += max(1, sum(1 for f in u.functions) - u.verified if not u.verified else 1)
    vac_bad = [x for u in vac for x in u.vacuous + u.limits]
    replay = None
    rc = 0
    if viol:
        replay = '%s/replays/%s.json' % (V, pid)
        json.dump({'property': pid, 'seed': viol.get('seed', SEED), 'case': viol.get('case', ''), 'what': viol.get('what', ''),
                   'dict': ENV['VP_DICT'], 'dict_bytes': ENV['VP_DICT_BYTES'],
                   'failed_obligations': [{'unit': n, 'function': f[0], 'obligation': f[1]} for n, f in failed],
                   'how': 'cd %s && cargo run --offline --bin %s -- --replay %s   (RUSTFLAGS="--cfg verif_hooks")' % (V + '/harness', cfg['bin'], replay)}, open(replay, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        print('  case %s: %s' % (viol.get('case'), viol.get('what', '')[:600]))
        for n, f in failed[:6]:
            print('  obligation not discharged: %s: %s: %s' % (n, f[0], f[1]))
        rc = 1
    elif failed:
        replay = '%s/replays/%s.json' % (V, pid)
        json.dump({'property': pid, 'no_failing_input_found': True,
                   'failed_obligations': [{'unit': n, 'function': f[0], 'obligation': f[1], 'verifier_output': f[2]} for n, f in failed],
                   'searched': {'cases': search.get('cases', 0) + (deep or {}).get('cases', 0)}}, open(replay, 'w'), indent=1)
        for n, f in failed[:8]:
            print('  obligation not discharged: %s: %s: %s' % (n, f[0], f[1]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        rc = 1
    ev = evidence(pid, cfg, units, kanis, search, deep, failed, limits, obligations, discharged, nfun, rc, vac, vac_bad)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    if rc == 0:
        for l in known_findings(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, l))
        s = 'undecided by the verifier (see evidence), no failing input found' if limits else 'all obligations discharged'
        print('%s: %s; %d/%d obligations, %d functions under contract, %d cases run, %.1f s' % (pid, s, discharged, obligations, nfun, search.get('cases', 0), time.time() - T0))
        for l in limits:
            print('  undecided: ' + l[:300].replace('\n', ' '))
        for l in vac_bad:
            print('  vacuity: ' + l)
    return rc


def search_base(pid, cfg, work, secs):
    b, e = build_harness(cfg['bin'])
    if b is None and cfg.get('compiles'):
        # the programs themselves are the inputs: where the crates build and a program of `compiles` does not, it fails
        c, e2 = build_harness(cfg['compiles'])
        if c is None and build_harness('crates')[0] is not None:
            return None, {'cases': 1, 'sections': {'compiles': 1}, 'violation': {
                'case': 'compiling harness/src/%s.rs' % cfg['compiles'], 'seed': SEED,
                'what': 'a program using the attribute is no longer accepted by the compiler: ' + e2[-1500:]}}
        if c is not None:
            r = do_search(c, pid, work, secs, False)
            r['limit'] = 'the replay harness does not build, only %s was run: %s' % (cfg['compiles'], e)
            return None, r
    if b is None:
        return None, {'cases': 0, 'sections': {}, 'violation': None, 'limit': 'the replay harness does not build: ' + e}
    return b, do_search(b, pid, work, secs, False)


def do_vacuity(name, work):
    """every extracted function gets `assert(false)` at its exit; where that verifies, the function's assumptions
    (preconditions, contracts of callees, axioms) contradict each other and what was proved of it means nothing"""
    u = Unit(name, work)
    u.vac_checked, u.vacuous = 0, []
    if name == 'delegation':
        return u  # no assumption enters these contracts
    rs, meta = '%s/%s_vacuity.rs' % (work, name), '%s/%s_vacuity.meta.json' % (work, name)
    rc, o, e = sh([VX, '%s/units/%s.vrs' % (V, name), REPO, rs, meta], 120, env=dict(ENV, VX_VACUITY='1'))
    if rc != 0:
        u.limits.append('vacuity check of %s: extraction failed' % name)
        return u
    ranges = [r for r in parse_ranges(open(rs).read()) if not r[2].startswith('contract text')]
    rc, j, errs, raw, cmd = run_verus(rs, UNITS.get(name, {}).get('args', []), 600)
    vr = (j or {}).get('verification-results')
    if not vr or vr.get('encountered-vir-error'):
        u.limits.append('vacuity check of %s: the verifier gave no answer: %s' % (name, '; '.join(d.get('message', '')[:200] for d in errs[:2])))
        return u
    hit = set()
    for d in errs:
        for sp in d.get('spans') or []:
            for a, b, n in ranges:
                if a <= sp.get('line_start', 0) <= b:
                    hit.add((a, b))
    for a, b, n in ranges:
        u.vac_checked += 1
        if (a, b) not in hit and '/*exit never reached*/' not in n:
            u.vacuous.append('%s: %s' % (name, n))
    return u


def known_findings(pid):
    p = V + '/known_findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def evidence(pid, cfg, units, kanis, search, deep, failed, limits, obligations, discharged, nfun, rc, vac, vac_bad):
    fl = []
    for u in units:
        bad = {f[0] for f in u.failed}
        for f in u.functions:
            fl.append({'unit': u.name, 'function': f.get('name'), 'file': f.get('file'), 'kind': f.get('kind'), 'backend': 'verus/z3', 'loops': f.get('loops', 0),
                       'status': 'undecided' if u.limits and not u.verified else ('failed' if f.get('name') in bad else 'discharged'), 'lowerings': f.get('lowerings', [])})
    for k in kanis:
        for h in k['ok']:
            fl.append({'unit': 'kani ' + k['name'], 'function': h, 'kind': 'harness over verbatim text, fully unwound', 'backend': 'kani/cbmc', 'status': 'discharged'})
    trusted = []
    for u in units:
        for t in u.trusted:
            if t not in trusted:
                trusted.append(t)
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': '; '.join([u.cmd for u in units if u.cmd] + [k['cmd'] for k in kanis if k['cmd']]) or 'none (the extraction failed)',
        'trusted_base': trusted + cfg.get('trusted', []),
        'functions_under_contract': nfun, 'functions': fl,
        'solver_ms': round(sum(u.smt_ms for u in units), 1), 'slowest': {u.name: u.slow for u in units},
        'kani_checks': sum(k['checks'] for k in kanis),
        'failed_obligations': [{'unit': n, 'function': f[0], 'obligation': f[1]} for n, f in failed],
        'undecided': limits,
        'evaluations': search.get('cases', 0) + (deep or {}).get('cases', 0), 'evaluations_by_section': search.get('sections', {}),
        'evaluations_rule': 'replay harness (not counted as proof): concrete inputs run through the real crates and compared with an independent reference',
    }
    if search.get('limit'):
        cov['search_limit'] = search['limit']
    if vac:
        cov['vacuity'] = {'functions_checked': sum(getattr(u, 'vac_checked', 0) for u in vac), 'vacuous': vac_bad}
    return {'property': pid, 'tier': TIER, 'seed': SEED, 'level': cfg.get('level', 'proof'), 'coverage': cov,
            'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if rc else 0}


if __name__ == '__main__':
    main()
