"""Run Kani contract harnesses (kani/) on the crate in /repo and, for a failed one, replay the counterexample natively."""
import os, re, shutil, time

def parse(t):
    """-> {harness: dict(status, checks, secs, cover)} from `cargo kani -j --output-format terse`"""
    out = {}; cur = {}; th = None; buf = []
    for l in t.split('\n'):
        m = re.match(r'(?:Thread (\d+): )?Checking harness (.*?)\.\.\.$', l)
        if m:
            cur[m.group(1)] = m.group(2)
            if m.group(1) is None: th = None; buf = []
            continue
        m = re.match(r'Thread (\d+):\s*$', l)
        if m: th = m.group(1); buf = []; continue
        buf.append(l)
        m = re.match(r'Verification Time: ([\d.]+)', l)
        if m and cur.get(th):
            b = '\n'.join(buf); h = cur.pop(th)
            st = re.search(r'VERIFICATION:- (\w+)', b)
            c = re.search(r'\*\* (\d+) of (\d+) failed', b)
            cv = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', b)
            out[h] = dict(ok=bool(st and st.group(1) == 'SUCCESSFUL'), checks=int(c.group(2)) if c else 0, failed=int(c.group(1)) if c else None, secs=float(m.group(1)),
                          cover=(int(cv.group(1)) if cv else None), text=b, unwind='unwinding assertion' in b, timeout='TIMEOUT' in b.upper() or 'timed out' in b)
        elif 'CBMC timed out' in l or 'TIMEOUT' in l:
            if cur.get(th): out[cur.pop(th)] = dict(ok=False, checks=0, failed=None, secs=0, cover=None, text=l, unwind=False, timeout=True)
    return out

def go(M, b, groups, tier, limit):
    kd = os.path.join(M.HERE, 'kani')
    if M.REPO != '/repo':
        kd = os.path.join(b.dir, 'kc')
        if not os.path.exists(kd):
            shutil.copytree(os.path.join(M.HERE, 'kani'), kd, ignore=shutil.ignore_patterns('target'))
            f = os.path.join(kd, 'Cargo.toml'); t = open(f).read().replace('/repo', M.REPO); open(f, 'w').write(t)
    td = os.path.join(b.dir, 'kani')
    env = dict(M.ENV, CARGO_TARGET_DIR=td)
    per = 150 if tier == 'quick' else 600
    cmd = ['cargo', 'kani', '-Z', 'unstable-options', '--harness-timeout', '%ds' % per, '--output-format', 'terse', '-j', '6']
    for g in groups: cmd += ['--harness', g]
    rc, o, e = M.run(cmd, cwd=kd, timeout=max(60, min(420 if tier == 'quick' else 1500, M.left(limit) - 100)), env=env)
    r = dict(harnesses=[], undecided=[], cmd='cd kani && ' + ' '.join(cmd), summary='', note='')
    res = parse(o)
    want = harness_names(M, groups)
    for h in want:
        x = res.get(h)
        d = dict(name=h, status='undecided', checks=0, secs=0)
        if x:
            d.update(checks=x['checks'], secs=x['secs'])
            oob = h.rsplit('::', 1)[-1].startswith('oob_')
            if x['ok'] and (not oob or x['cover'] == 0): d['status'] = 'ok'
            elif x['timeout'] or x['unwind'] or (not x['ok'] and not x['failed'] and not oob): d['status'] = 'undecided'
            else:
                d['status'] = 'failed'; d['output'] = x['text'][-3000:]
        r['harnesses'].append(d)
        if d['status'] == 'undecided': r['undecided'].append(h)
    if not res: r['note'] = 'Kani did not run: ' + (e or o)[-800:]
    for d in [d for d in r['harnesses'] if d['status'] == 'failed'][:2]:
        try: replay(M, b, kd, td, env, d, tier)
        except Exception as ex: d['replay_note'] = repr(ex)
    n = lambda s: sum(1 for d in r['harnesses'] if d['status'] == s)
    r['summary'] = dict(ok=n('ok'), failed=n('failed'), undecided=n('undecided'), note=r['note'][-300:])
    return r

def harness_names(M, groups):
    """every harness the sources declare: one that stops being run is undecided, not silently gone"""
    out = []
    src = os.path.join(M.HERE, 'kani', 'src')
    for mod in ('laws', 'blk', 'prim', 'bw', 'io'):
        t = open(os.path.join(src, mod + '.rs')).read()
        fns = re.findall(r'#\[kani::proof\][^\n{]*?pub fn (\w+)\(\)', t)
        inst = re.findall(r'^(?:.*; )?(?=\w+!\()', t, re.M) and re.findall(r'\b%s!\((\w+), (\w+)' % mod, t)
        for f in fns:
            if inst: out += ['%s::%s::%s' % (mod, i[0], f) for i in inst]
            else: out.append('%s::%s' % (mod, f))
    return [h for h in out if any(g in h for g in groups)]

def replay(M, b, kd, td, env, d, tier):
    rc, o, e = M.run(['cargo', 'kani', '-Z', 'concrete-playback', '--concrete-playback=print', '--output-format', 'terse', '--exact', '--harness', d['name']], cwd=kd, timeout=200, env=env)
    m = re.search(r'let concrete_vals: Vec<Vec<u8>> = (vec!\[[\s\S]*?\n\s*\]);', o)
    if not m: d['replay_note'] = 'Kani gives no counterexample values'; return
    d['values'] = re.sub(r'\s+', ' ', m.group(1))
    pc = os.path.join(b.dir, 'kp')
    shutil.rmtree(pc, ignore_errors=True)
    shutil.copytree(kd, pc, ignore=shutil.ignore_patterns('target'))
    with open(os.path.join(pc, 'src/lib.rs'), 'a') as f:
        f.write('\n#[cfg(test)] mod pb { #[test] fn pb() { let v: Vec<Vec<u8>> = %s; kani::concrete_playback_run(v, crate::%s); } }\n' % (m.group(1), d['name']))
    rc, o, e = M.run(['cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--', 'pb::pb'], cwd=pc, timeout=200, env=dict(env, CARGO_TARGET_DIR=td + '-pb'))
    oob = d['name'].rsplit('::', 1)[-1].startswith('oob_')
    ran = 'running 1 test' in o
    failed = 'test pb::pb ... FAILED' in o
    if ran and (failed != oob):
        d['concrete'] = d['values']; d['replayed'] = o[-1500:]
    else: d['replay_note'] = (o + e)[-600:]
