#!/usr/bin/env python3
"""check.py <PROP> [--tier quick|thorough] [--replay FILE] [--setup]

Decides one property on /repo's current source:
  1. expand /repo with rustc, extract every function mechanically (extract/), splice in the contracts (specs/*.vrs)
     and have Verus discharge every obligation;
  2. Kani harnesses (kani/) on the real crate discharge what the Verus layer takes from the primitive types;
  3. the executable contracts (harness/) run on the real crate, in a checked and in an unchecked build: they turn a failed
     obligation into a concrete input, and stand in (labelled bounded) for a function the verifier cannot take.
Exit 0: held. Exit 1 + `VIOLATION property=.. replay=..`: broken.
"""
import sys, os, re, json, time, subprocess, hashlib, glob, shutil, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import vxasm, plan
REPO = os.environ.get('VX_REPO', '/repo')
BUILD = os.environ.get('VX_BUILD', os.path.join(HERE, 'build'))
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET'): ENV.pop(k, None)

def left(limit): return limit - (time.time() - T0)
def log(*a): print('[%6.1f]' % (time.time() - T0), *a, flush=True)

def run(cmd, cwd=HERE, timeout=600, env=None, out=None):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE if out is None else open(out, 'w'), stderr=subprocess.PIPE, env=env or ENV, start_new_session=True)
        try:
            o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            o, e = p.communicate()
            return 'timeout', (o or b'').decode('utf8', 'replace'), (e or b'').decode('utf8', 'replace')
        return p.returncode, (o or b'').decode('utf8', 'replace'), (e or b'').decode('utf8', 'replace')
    except OSError as ex:
        return 'oserror', '', str(ex)

# ------------------------------------------------------------------ build
def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, 'Cargo.toml')]
    for d in (os.path.join(REPO, 'src'), os.path.join(HERE, 'harness', 'src'), os.path.join(HERE, 'kani', 'src'), os.path.join(HERE, 'extract', 'src')):
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            files += [os.path.join(r, f) for f in sorted(fs)]
    for d in ('harness', 'kani', 'extract'):
        files += [os.path.join(HERE, d, f) for f in ('Cargo.toml', 'Cargo.lock')]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    h.update(REPO.encode())
    return h.hexdigest()[:16]

class Build:
    """Everything compiled from the current tree lives in build/t-<hash of the sources>: nothing stale can be reused."""
    def __init__(s):
        s.dir = os.path.join(BUILD, 't-' + tree_hash())
        for old in glob.glob(os.path.join(BUILD, 't-*')):
            if old != s.dir: shutil.rmtree(old, ignore_errors=True)
        os.makedirs(s.dir, exist_ok=True)
        s.err = {}
        s.hdir = os.path.join(HERE, 'harness')
        if REPO != '/repo':   # development only: the same harness against another tree
            s.hdir = os.path.join(s.dir, 'h')
            if not os.path.exists(s.hdir):
                shutil.copytree(os.path.join(HERE, 'harness'), s.hdir, ignore=shutil.ignore_patterns('target'))
                f = os.path.join(s.hdir, 'Cargo.toml'); t = open(f).read().replace('/repo', REPO); open(f, 'w').write(t)
    def done(s, n): return os.path.exists(os.path.join(s.dir, n + '.done'))
    def mark(s, n): open(os.path.join(s.dir, n + '.done'), 'w').write('ok')
    def harness(s, prof, engines):
        """the harness with only the engines named (a Cargo feature each)"""
        tag = 'h-%s-%s' % (prof, hashlib.sha256(engines.encode()).hexdigest()[:8])
        td = os.path.join(s.dir, 'h-' + prof); exe = os.path.join(s.dir, tag)
        if s.done(tag) and os.path.exists(exe): return exe
        cmd = ['cargo', '+stable', 'build', '--offline', '--locked', '-q', '--manifest-path', os.path.join(s.hdir, 'Cargo.toml'), '--no-default-features', '--features', engines, '--target-dir', td]
        if prof == 'release': cmd.append('--release')
        rc, o, e = run(cmd, timeout=500)
        if rc != 0: s.err['harness ' + prof] = e[-3000:]; return None
        shutil.copy(os.path.join(td, prof, 'vxh'), exe)
        s.mark(tag); return exe
    def extractor(s):
        exe = os.path.join(BUILD, 'x-' + hashlib.sha256(b''.join(open(f, 'rb').read() for f in [os.path.join(HERE, 'extract/src/main.rs'), os.path.join(HERE, 'extract/Cargo.lock')])).hexdigest()[:12])
        b = os.path.join(exe, 'debug', 'vxextract')
        if os.path.exists(b + '.done'): return b
        rc, o, e = run(['cargo', '+stable', 'build', '--offline', '--locked', '-q', '--manifest-path', os.path.join(HERE, 'extract/Cargo.toml'), '--target-dir', exe], timeout=400)
        if rc != 0: s.err['extractor'] = e[-3000:]; return None
        open(b + '.done', 'w').write('ok'); return b
    def expand(s):
        f = os.path.join(s.dir, 'expanded.rs')
        if s.done('expand'): return f
        rc, o, e = run(['cargo', '+nightly', 'rustc', '--offline', '--locked', '-q', '-p', 'succinct', '--manifest-path', os.path.join(s.hdir, 'Cargo.toml'), '--target-dir', os.path.join(s.dir, 'x'), '--', '-Zunpretty=expanded'], timeout=300)
        if rc != 0 or 'mod' not in o: s.err['expand'] = e[-3000:]; return None
        open(f, 'w').write(o); s.mark('expand'); return f

# ------------------------------------------------------------------ Verus
SPECS = sorted(glob.glob(os.path.join(HERE, 'specs/*.vrs')))
FAILMSG = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic', 'possible division by zero',
           'possible bit shift', 'decreases not satisfied', 'loop invariant', 'unable to prove', 'failed this', 'possible overflow', 'unwinding', 'could not prove termination', 'requires not satisfied')

class Verus:
    def __init__(s, build): s.b = build; s.out = []; s.note = []
    def go(s, limit):
        """-> dict(functions: key -> status), or None when the verifier cannot take the source."""
        with ThreadPoolExecutor(2) as ex:
            fx, fe = ex.submit(s.b.extractor), ex.submit(s.b.expand)
            x, e = fx.result(), fe.result()
        if not x or not e: s.note.append('extraction not possible: %s' % s.b.err); return None
        spec = vxasm.parse_specs(SPECS)
        exits = os.path.join(s.b.dir, 'exits')
        open(exits, 'w').write('\n'.join(k for k, f in spec.fns.items() if 'exit' in f.hooks) + '\n')
        rc, o, er = run([x, e, exits], timeout=60)
        if rc != 0: s.note.append('extractor failed: ' + er[-500:]); return None
        js = os.path.join(s.b.dir, 'x.json'); open(js, 'w').write(o)
        trust = {}
        for attempt in range(12):
            try: A, text = vxasm.assemble(js, SPECS, trust_extra=trust, canaries=True, baseline=os.path.join(HERE, 'specs/baseline.json'))
            except Exception as ex: s.note.append('assembly failed: %r' % ex); return None
            s.A = A; s.trust = trust
            f = os.path.join(s.b.dir, 'all.rs'); open(f, 'w').write(text)
            s.cmd = ['verus', 'all.rs', '--multiple-errors', '6', '--triggers-mode', 'silent', '-A', 'warnings', '--rlimit', '50', '--output-json', '--time-expanded', '--num-threads', '6']
            s.text = text.split('\n')
            env = dict(ENV)
            rc, o, er = run(s.cmd, cwd=s.b.dir, timeout=max(60, min(400, left(limit))), env=env)
            s.stderr = er
            if rc == 'timeout': s.note.append('verifier ran out of time'); return None
            try: d = json.loads(o)
            except ValueError: d = None
            errs = s.parse(er)
            hard = [x for x in errs if x['hard']]
            if hard or d is None or not d.get('verification-results'):
                new = set()
                for h in hard:
                    for ow in h['owners']:
                        if ow in A.fns and ow not in trust: new.add(ow)
                if not new:
                    s.note.append('the verifier rejects the source: ' + (hard[0]['text'][:600] if hard else er[-600:])); return None
                for k in new: trust[k] = 'construct outside the verifier'
                s.note += ['not verified (construct outside the verifier): %s: %s' % (k, hard[0]['text'].split('\n')[0]) for k in new]
                continue
            break
        else: return None
        s.json = d
        return s.classify(d, errs)
    def parse(s, er):
        out = []
        for blk in re.split(r'\n(?=(?:error|warning|note)(?:\[|:| ))', '\n' + er):
            blk = blk.strip('\n')
            if not blk.startswith('error'): continue
            first = blk.split('\n')[0]
            if first.startswith('error: aborting') or 'could not compile' in first: continue
            m = re.search(r'-->\s*all\.rs:(\d+):', blk)
            lines = [int(m.group(1))] if m else []
            mp = s.A.g.map
            owners = [mp[l - 1] for l in lines if 0 < l <= len(mp) and mp[l - 1]]
            if owners and owners[0] not in s.A.fns:
                # a trait's contract that an impl's body fails: the obligation is the body's
                more = [mp[int(x) - 1] for x in re.findall(r'^\s*(\d+) *\|', blk, re.M) if 0 < int(x) <= len(mp) and mp[int(x) - 1] in s.A.fns]
                if more: owners = more[-1:]
            rl = 'Resource limit' in blk or 'rlimit' in first
            hard = not rl and not any(x in first for x in FAILMSG)
            out.append(dict(text=blk, first=first, owners=owners, rl=rl, hard=hard))
        return out
    def classify(s, d, errs):
        A = s.A; st = {}
        fails = {}
        s.canary = set()
        for e in errs:
            for ow in e['owners']:
                if ow.startswith('canary:'): s.canary.add(ow); continue
                fails.setdefault(ow, []).append(e)
        missing = set(A.canaries) - s.canary
        if missing: s.note.append('vacuity guard: contradiction derivable in %s' % sorted(missing)); return None
        base = A.base or {}
        for k, f in A.fns.items():
            v = dict(status='proved', fails=[])
            if f['trusted'] and k not in s.trust: v['status'] = 'assumed'
            elif k in s.trust: v['status'] = 'undecided'; v['why'] = s.trust[k]
            elif k in fails:
                es = fails[k]
                unc = sorted(set(f['calls']) & A.uncontracted_names)
                if all(x['rl'] for x in es): v['status'] = 'undecided'; v['why'] = 'solver resource limit'
                elif A.lost.get(k): v['status'] = 'undecided'; v['why'] = 'proof anchors lost: %s' % A.lost[k]
                elif k not in A.contracted: v['status'] = 'undecided'; v['why'] = 'function without a contract'
                elif unc: v['status'] = 'undecided'; v['why'] = 'calls functions without a contract: %s' % unc
                elif f.get('inlined'): v['status'] = 'undecided'; v['why'] = 'calls replaced by longer code: %s' % f.get('inlined')
                elif A.renamed.get(k) or A.fields_followed: v['status'] = 'undecided'; v['why'] = 'renamed variables or fields may have changed meaning: %s' % (A.renamed.get(k) or A.fields_followed)
                elif f.get('newloops'): v['status'] = 'undecided'; v['why'] = 'loop without an invariant'
                elif k.endswith('#refuse') and not any('assertion failed' in x['first'] for x in es): v['status'] = 'undecided'; v['why'] = 'a call that may refuse, with no statement about the state before it'
                else: v['status'] = 'failed'
                v['fails'] = [x['text'] for x in es]
            st[k] = v
        for k in fails:
            if k not in st: st[k] = dict(status='lemma-failed', fails=[x['text'] for x in fails[k]], why='lemma or trait-level obligation')
        return st

# ------------------------------------------------------------------ harness
def harness_job(exe, prof, prop, scale, secs, seed, wd):
    tag = '%s-%s-%d-%d' % (prop, prof, seed, scale)
    out = os.path.join(wd, tag + '.json'); jr = os.path.join(wd, tag + '.journal')
    for f in (out, jr):
        if os.path.exists(f): os.remove(f)
    rc, o, e = run([exe, 'run', prop, str(scale), str(secs), str(seed), out, jr], timeout=secs + 90)
    res = dict(build=prof, rc=rc, seed=seed, scale=scale)
    if os.path.exists(out):
        try: res.update(json.load(open(out)))
        except ValueError: pass
    if rc == 1 and res.get('fail'):
        c = res['fail']['case']
        if replay_case(exe, prop, c)[0] in (1, 3, -6, -11): res['violation'] = (c, res['fail']['message'])
        else: res['note'] = 'not reproducible: ' + c
    elif rc in (3, -6, -11, -4, -8, 134, 139):
        c = open(jr).read().strip() if os.path.exists(jr) else ''
        if c:
            rc2, o2 = replay_case(exe, prop, c)
            if rc2 == rc: res['violation'] = (c, 'the process ended abnormally (%s) in this case: %s' % ('the case does not end' if rc == 3 else 'signal/exit %s' % rc, (e or '')[-400:]))
            elif rc2 == 1: res['violation'] = (c, o2)
            else: res['note'] = 'abnormal end, not reproducible'
    elif rc not in (0,): res['note'] = 'harness ended with %s: %s' % (rc, e[-300:])
    return res

def replay_case(exe, prop, case):
    rc, o, e = run([exe, 'replay', prop] + case.split(' '), timeout=100)
    return rc, o

def run_harness(exes, prop, jobs, wd):
    os.makedirs(wd, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(harness_job, exes[p], p, prop, sc, secs, seed, wd) for (p, sc, secs, seed) in jobs if exes.get(p)]
        return [f.result() for f in fs]

# ------------------------------------------------------------------ main
def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        b = Build()
        def hs(p):
            for e in sorted(set(plan.ENGINES.values())): b.harness(p, e)
        with ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(b.extractor), ex.submit(b.expand), ex.submit(hs, 'debug'), ex.submit(hs, 'release')]: f.result()
        print('setup', b.err or 'ok'); return 0
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--replay' in args:
        r = json.load(open(args[args.index('--replay') + 1])); b = Build()
        if r.get('case'):
            exe = b.harness(r['build'], plan.ENGINES[prop]); rc, o = replay_case(exe, prop, r['case']); print(o); return 1 if rc else 0
        print(json.dumps(r, indent=1)); return 0
    limit = 840 if tier == 'quick' else 3000
    P = plan.PROPS[prop]
    b = Build()
    wd = os.path.join(b.dir, 'run'); os.makedirs(wd, exist_ok=True)
    log('property', prop, 'tier', tier, 'build', b.dir)
    kani_res = None
    with ThreadPoolExecutor(4) as ex:
        hx = {p: ex.submit(b.harness, p, plan.ENGINES[prop]) for p in ('debug', 'release')}
        V = Verus(b)
        fv = ex.submit(V.go, limit)
        exes = {p: f.result() for p, f in hx.items()}
        log('harness built', {p: bool(x) for p, x in exes.items()})
        sc, secs = (P['scale'], 150) if tier == 'quick' else (P['scale'] * 20, 900)
        jobs = [(p, sc, secs, seed + 1000 * k) for p in ('debug', 'release') for k in range(1 if tier == 'quick' else 4)]
        H = run_harness(exes, prop, jobs, wd)
        log('harness done', [(h['build'], h['rc'], h.get('evals')) for h in H])
        st = fv.result()
        log('verus done', None if st is None else {x: sum(1 for v in st.values() if v['status'] == x) for x in set(v['status'] for v in st.values())})
    for n in V.note: log('note:', n)
    if P.get('kani') and not any(h.get('violation') for h in H):
        import kanirun
        kani_res = kanirun.go(sys.modules[__name__], b, P['kani'], tier, limit)
        log('kani done', kani_res['summary'])

    if st is not None:
        kani_res = second_back_end(b, prop, P, st, tier, limit, kani_res)
    rel = {}
    if st is not None:
        pats = [re.compile(x) for x in P['fns']]
        rel = {k: v for k, v in st.items() if any(p.search(k) for p in pats) and (not k.endswith('#refuse') or prop in ('C18', 'C23'))}
    failed = {k: v for k, v in rel.items() if v['status'] in ('failed', 'lemma-failed')}
    undecided = {k: v for k, v in rel.items() if v['status'] == 'undecided'}
    kfail = [k for k in (kani_res or {}).get('harnesses', []) if k['status'] == 'failed']
    viol = [(h, h['violation']) for h in H if h.get('violation')]
    if not viol and not any(k.get('concrete') for k in kfail) and (failed or kfail or undecided or st is None or (kani_res and kani_res.get('undecided'))) and any(exes.values()):
        # search harder for a concrete input (and as the bounded stand-in)
        secs = int(max(20, min(150 if tier == 'quick' else 900, left(limit) - 120)))
        log('searching for a failing input:', sorted(failed) + sorted(undecided))
        H2 = run_harness(exes, prop, [(p, P['scale'] * 12, secs, seed + 17 + 1000 * k) for p in ('debug', 'release') for k in range(4)], wd)
        H += H2
        viol = [(h, h['violation']) for h in H2 if h.get('violation')]
        log('search done', [(h['build'], h['rc'], h.get('evals')) for h in H2])
    rdir = os.path.join(HERE, 'evidence', 'replays'); os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, prop + '.json')
    nv = 0; lines = []
    known = known_findings(prop)
    if viol:
        h, (case, msg) = viol[0]
        kf = [k for k in known if k in (case, msg)]
        if kf: lines.append('KNOWN-FINDING: property=%s %s' % (prop, kf[0]))
        else:
            nv = len(viol)
            json.dump(dict(property=prop, build=h['build'], case=case, message=msg, reproduce='python3 check.py %s --replay %s' % (prop, rfile), failed_obligations=sorted(failed), verifier_output={k: v['fails'] for k, v in failed.items()}, kani=kfail), open(rfile, 'w'), indent=1)
            print('violated by %s (%s build):\n %s' % (case, h['build'], msg[:3000]))
            for k in failed: print('failed obligation in %s:\n%s' % (k, '\n'.join(failed[k]['fails'])[:1500]))
            lines.append('VIOLATION property=%s replay=%s' % (prop, rfile))
    elif any(k.get('concrete') for k in kfail):
        nv = len(kfail)
        json.dump(dict(property=prop, kani=kfail, reproduce='cargo kani playback'), open(rfile, 'w'), indent=1)
        for k in kfail: print('failed obligation: Kani harness %s\n%s\ncounterexample %s, replayed against the real code:\n%s' % (k['name'], k.get('output', '')[-2000:], k.get('concrete'), k.get('replayed', '')))
        lines.append('VIOLATION property=%s replay=%s' % (prop, rfile))
    elif failed or kfail:
        nv = len(failed) + len(kfail)
        json.dump(dict(property=prop, case=None, failed_obligations=sorted(failed), verifier_output={k: v['fails'] for k, v in failed.items()}, kani=kfail, checker_cmd=' '.join(V.cmd), note='no failing input was found by %d harness cases' % sum(h.get('evals', 0) for h in H)), open(rfile, 'w'), indent=1)
        for k in failed: print('failed obligation in %s:\n%s' % (k, '\n'.join(failed[k]['fails'])[:3000]))
        for k in kfail: print('failed obligation: Kani harness %s\n%s' % (k['name'], k.get('output', '')[-1500:]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rfile))
    evidence(prop, tier, seed, P, V, st, rel, H, kani_res, nv, b)
    for l in lines: print(l, flush=True)
    log('done')
    return 1 if any(l.startswith('VIOLATION') for l in lines) else 0

PRIMFN = re.compile(r'^(storage|rank::prim|bit_vec::prim)::<(u8|u16|u32|u64|usize)as\w+>::(\w+)$')
BWFN = re.compile(r'^broadword::(?!lemma|values)\w+$|^broadword::<Broadwordas\w+>::\w+$')
IOFN = ('read_block', 'write_block')
KANI_COVERS = dict(u8='k8', u16='k16', u32='k32', u64='k64', usize='ksz')

def second_back_end(b, prop, P, st, tier, limit, K):
    """A contract of a primitive-type or broadword function that Verus does not accept is put to Kani, which decides these (loop-free, fixed
    width) functions for every argument: discharged there, the obligation is discharged."""
    pats = [re.compile(x) for x in P['fns']]
    todo = {k: PRIMFN.match(k) for k, v in st.items() if v['status'] in ('failed', 'undecided') and any(p.search(k) for p in pats)}
    todo = {k: m for k, m in todo.items() if m and m.group(3) not in ('ceil_div',) or BWFN.match(k)}
    if not todo: return K
    import kanirun
    groups = lambda m: ['bw::'] if not m else ['io::'] if m.group(3) in IOFN else ['blk::', 'prim::']
    need = set(g for m in todo.values() for g in groups(m))
    need = sorted(need - set(P.get('kani', []) if K else []))
    if need:
        log('Kani decides', sorted(todo)[:12])
        K2 = kanirun.go(sys.modules[__name__], b, need, tier, limit)
        K = dict(K2, harnesses=(K or dict(harnesses=[]))['harnesses'] + K2['harnesses'], undecided=(K or dict(undecided=[]))['undecided'] + K2['undecided'])
    for k, m in todo.items():
        grp = ['bw::'] if m is None else ['io::' + KANI_COVERS[m.group(2)].replace('k', 'i', 1) + ('' if m.group(2) == 'usize' else '_')] if m.group(3) in IOFN else ['blk::' + KANI_COVERS[m.group(2)]] + ([] if m.group(1) == 'storage' else ['prim::' + KANI_COVERS[m.group(2)].replace('k', 'p', 1)])
        hs = [h for h in K['harnesses'] if any(h['name'].startswith(g.rstrip(':') + '::') for g in grp)]
        if hs and all(h['status'] == 'ok' for h in hs):
            log('discharged by Kani:', k)
            st[k].update(status='proved', back_end='kani')
        elif hs and not any(h['status'] == 'failed' for h in hs) and st[k]['status'] == 'failed':
            # neither back end decides it: not proved, no counterexample either - the bounded harness stands in
            log('undecided by both back ends:', k)
            st[k].update(status='undecided')
    return K

def known_findings(prop):
    out = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop: out.append(m.group(2))
    return out

def evidence(prop, tier, seed, P, V, st, rel, H, K, nv, b):
    proved = sorted(k for k, v in rel.items() if v['status'] == 'proved')
    und = sorted(k for k, v in rel.items() if v['status'] in ('undecided',))
    fail = sorted(k for k, v in rel.items() if v['status'] in ('failed', 'lemma-failed'))
    assumed = sorted(k for k, v in rel.items() if v['status'] == 'assumed')
    secs = solver_s = 0
    if st is not None:
        try: solver_s = V.json['times-ms']['smt']['total'] / 1000.0
        except (KeyError, TypeError): pass
    ext = V.A.external() if st is not None else []
    prim = re.compile(r'^impl (PrimInt|ToPrimitive|BlockType|RankSupport|BitRankSupport|BitVec) for (u8|u16|u32|u64|usize|TT)\b')
    ext = [x + ('  [discharged for every value on the compiled crate by the Kani harnesses of check C10]' if prim.search(x) else '') for x in ext]
    kh = (K or {}).get('harnesses', [])
    obl = len(proved) + len(und) + len(fail) + len(kh)
    dis = len(proved) + sum(1 for k in kh if k['status'] == 'ok')
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd='cd %s && %s' % (b.dir, ' '.join(getattr(V, 'cmd', ['verus']))) + (' ; ' + K['cmd'] if K else ''),
        trusted_base=plan.TRUSTED + P.get('trusted', []) + ['assumed contract (Verus external_body): ' + x for x in ext],
        back_ends=dict(verus_z3=sum(1 for k in proved if rel[k].get('back_end') != 'kani'), functions_discharged_by_kani_only=[k for k in proved if rel[k].get('back_end') == 'kani'], kani_cbmc=sum(1 for k in kh if k['status'] == 'ok')),
        functions_under_contract=proved, functions_bounded_only=und + P.get('bounded', []), functions_failed=fail, functions_assumed=assumed,
        kani_harnesses=[dict(name=k['name'], status=k['status'], checks=k.get('checks'), seconds=k.get('secs')) for k in kh],
        verifier=dict(whole_crate=(V.json['verification-results'] if st is not None else None), solver_seconds=solver_s, notes=V.note, vacuity_guards=sorted(getattr(V, 'canary', []))),
        evaluations=sum(h.get('evals', 0) for h in H), distinct_nontrivial=sum(h.get('distinct', 0) for h in H),
        rule='executable contracts on the real crate (harness/), cases numbered by engine and parameters; distinct counts different (engine, parameters) pairs per build; every case exercises at least one library call whose result is compared with a bit-by-bit model',
        harness_runs=[dict(build=h['build'], exit=h['rc'], seed=h['seed'], scale=h['scale'], cases=h.get('evals'), facts_checked=h.get('checks'), cut_short=h.get('cut'), note=h.get('note')) for h in H],
        samples=(H[0].get('samples', []) if H else []) + ['contract: ' + k for k in proved[:5]],
        build_errors=b.err)
    ev = dict(property=prop, tier=tier, seed=seed, level=P['level'], coverage=cov, assumptions=plan.ASSUME + P.get('assume', []), wall_s=round(time.time() - T0, 2), violations=nv)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    sys.exit(main())
