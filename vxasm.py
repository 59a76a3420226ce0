"""Assemble the Verus crate: extracted code (JSON from vxextract) + specifications (specs/*.vrs)."""
import re, json, os, sys

DIRECTIVES = ('prelude', 'mod', 'fn', 'entry', 'loop', 'loopend', 'pre', 'before', 'after', 'exit', 'closure',
              'impl', 'trait', 'include', 'skip', 'trust', 'attrs', 'lemmas', 'use', 'subst', 'sig', 'witness', 'locals', 'canary', 'refuse')

STD_TRAITS = ('Iterator', 'ExactSizeIterator', 'DoubleEndedIterator', 'IntoIterator', 'Default', 'PartialEq', 'Hash', 'Clone')
SAME = '*self == *old(self)'
STRUCTURAL = ('PartialEq', 'Hash', 'Clone')

def field_types(text):
    """field name (or number) -> type, of an extracted struct"""
    m = re.search(r'\{(.*)\}', text, re.S)
    if m: return {a: b.strip() for a, b in re.findall(r'(\w+) : ([^,]+)', m.group(1))}
    m = re.search(r'\((.*)\)', text, re.S)
    return {str(i): re.sub(r'^pub\b', '', x.strip()).strip() for i, x in enumerate(m.group(1).split(','))} if m else {}

class FnSpec:
    def __init__(s, key):
        s.key = key; s.contract = ''; s.ret = 'r'; s.hooks = {}; s.attrs = ''; s.trust = False; s.subst = []; s.sig = None; s.locals = None; s.refuse = None

class Spec:
    def __init__(s):
        s.prelude = []; s.mods = {}; s.fns = {}; s.impls = {}; s.traits = {}; s.include = []; s.skip = set(); s.uses = {}; s.witness = {}; s.canary = []

class Multi:
    def __init__(s): s.fns = []

def norm(k): return k.replace(' ', '')

def parse_specs(files):
    S = Spec()
    for f in files:
        cur = None; curfn = None; buf = []
        def flush():
            nonlocal buf
            t = '\n'.join(buf); buf = []
            if cur is None:
                return
            kind, arg = cur
            if kind == 'prelude': S.prelude.append(t)
            elif kind == 'mod': S.mods[arg] = S.mods.get(arg, '') + t + '\n'
            elif kind == 'use': S.uses[arg] = t
            elif kind == 'impl': S.impls[norm(arg)] = t
            elif kind == 'trait': S.traits[norm(arg)] = t
            elif kind == 'canary': S.canary.append((arg, t))
            elif kind == 'witness': S.witness.setdefault(arg, []).append(t)
            elif kind == 'include': S.include += t.split()
            elif kind == 'skip': S.skip |= set(norm(x) for x in t.split('\n') if x.strip())
            else:
              for fn in curfn.fns:
                if kind == 'fn': fn.contract += t
                elif kind == 'trust': fn.trust = arg or 'assumed'
                elif kind == 'attrs': fn.attrs += t
                elif kind == 'sig': fn.sig = t.strip()
                elif kind == 'locals': fn.locals = t.split()
                elif kind == 'refuse' and not arg: fn.refuse = t.strip() or SAME
                elif kind == 'subst':
                    for l in t.split('\n'):
                        if '=>' in l: fn.subst.append(tuple(x.strip() for x in l.split('=>', 1)))
                else: fn.hooks[(kind + ' ' + arg).strip()] = fn.hooks.get((kind + ' ' + arg).strip(), '') + t + '\n'
        for line in expand_foreach(open(f).read()).split('\n'):
            m = re.match(r'//@ (\w+) ?(.*)$', line)
            if m:
                flush()
                kind, arg = m.group(1), m.group(2).strip()
                assert kind in DIRECTIVES, (f, line)
                if kind == 'fn':
                    curfn = Multi()
                    for one in arg.split(' | '):
                        parts = one.split(' -> ')
                        key = norm(parts[0])
                        fn = S.fns.setdefault(key, FnSpec(key))
                        if len(parts) > 1: fn.ret = parts[1].strip()
                        curfn.fns.append(fn)
                    cur = ('fn', '')
                else:
                    cur = (kind, arg)
            else:
                buf.append(line)
        flush()
    return S

def translate_use(text, crate_mods):
    t = text.replace(' ', '')
    t = t.replace('as', ' as ') if False else text
    t = re.sub(r'\s*::\s*', '::', t)
    first = re.split(r'::|\s', t.strip('{ '))[0]
    if first in crate_mods or first in ('num_traits', 'byteorder'):
        t = 'crate::' + t
    return t

class Gen:
    """Accumulates text and remembers which lines belong to which function."""
    def __init__(s): s.lines = []; s.map = []; s.cur = None
    def add(s, text, owner=None):
        for l in text.split('\n'):
            s.lines.append(l); s.map.append(owner)
    def text(s): return '\n'.join(s.lines) + '\n'

def rename(t, ren):
    return re.sub(r'(?<![\w.])(%s)(?!\w)' % '|'.join(map(re.escape, ren)), lambda m: ren[m.group(1)], t) if ren else t

def find_close(s, i, o='(', c=')'):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise ValueError('unbalanced')

def expand_foreach(t):
    """`//$ foreach A,B in x,1 y,2` ... `//$ end`: textual repetition (specification text only)."""
    def rep(m):
        names = m.group(1).split(','); out = ''
        for tup in m.group(2).split():
            b = m.group(3)
            for n, v in zip(names, tup.split(',')): b = re.sub(r'(?<![A-Za-z])%s(?![A-Za-z0-9])' % n, v, b)
            out += b
        return out
    return re.sub(r'//\$ foreach (\S+) in (.*)\n([\s\S]*?)//\$ end\n?', rep, t)

def split_args(t):
    out = ['']; d = 0
    for ch in t:
        if ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        if ch == ',' and d == 0: out.append('')
        else: out[-1] += ch
    return [x.strip() for x in out]

def expand_ix(body):
    while True:
        m = None
        for m in re.finditer(r'vx_(len|get|set)\s*!\s*\(', body): pass   # innermost last
        if not m: return body
        e = find_close(body, m.end() - 1)
        a = split_args(body[m.end():e])
        if m.group(1) == 'len': r = '%s.len()' % a[0]
        elif m.group(1) == 'get': r = '%s[%s]' % (a[0], a[1])
        else: r = '%s[%s] = %s' % (a[0], a[1], a[2])
        body = body[:m.start()] + r + body[e + 1:]

def splice_body(body, fs, lost, vecfields=()):
    hooks = dict(fs.hooks) if fs else {}
    used = set()
    # closures
    while True:
        m = re.search(r'__VXCLO_(\d+)__\s*\(', body)
        if not m: break
        e = find_close(body, m.end() - 1)
        params = body[m.end():e].strip()
        b0 = body.index('{', e)
        b1 = find_close(body, b0, '{', '}')
        inner = body[b0:b1 + 1]
        h = hooks.get('closure ' + m.group(1)); used.add('closure ' + m.group(1))
        rep = (h.strip() + ' ' + inner) if h else (params + ' ' + inner)
        body = body[:m.start()] + rep + body[b1 + 1:]
    # loop headers
    def loop_sub(m):
        k = 'loop ' + m.group(1); used.add(k)
        h = hooks.get(k)
        if h is None: return '{'
        return '\n' + h.rstrip() + '\n{'
    body = re.sub(r'\{\s*__vx_loop_(\d+)\s*!\s*\(\s*\)\s*;', loop_sub, body)
    def hook_sub(m):
        n = m.group(1)
        if n == 'entry' or n == 'exit': k = n
        elif n.startswith('loopend_'): k = 'loopend ' + n[8:]
        elif n.startswith('pre_'): k = 'pre ' + n[4:]
        elif n.startswith('before_') or n.startswith('after_'):
            w, rest = n.split('_', 1); nm, idx = rest.rsplit('_', 1); k = '%s %s %s' % (w, nm, idx)
        else: k = n
        used.add(k)
        h = hooks.get(k)
        return ('\n' + h.rstrip() + '\n') if h else ''
    body = re.sub(r'__vx_((?:before|after|entry|exit|loopend|pre)\w*)\s*!\s*\(\s*\)\s*;[ \t]*\n?', hook_sub, body)
    for k in hooks:
        if k not in used and not k.startswith('refuse '): lost.append(k)
    body = expand_ix(body)
    # R10: std Vec methods reached through a field declared as a Vec go to the shims of vxp::VxVec
    if vecfields:
        body = re.sub(r'\. (%s) \. (push|pop|truncate|clear|resize|reserve|reserve_exact|shrink_to_fit|capacity|last_mut|is_empty|extend) \(' % '|'.join(vecfields), r'. \1 . vx_\2 (', body)
    body = re.sub(r'\bVec :: (?:< \w+ > :: )?with_capacity \(', 'vx_with_capacity (', body)
    if fs:
        for a, b in fs.subst:
            body = re.sub(a, b, body)
    # R8: the error conversion of `try!`/`?` is the identity here (std::io::Error throughout)
    body = re.sub(r'::\s*core\s*::\s*convert\s*::\s*From\s*::\s*from\s*\(\s*err\s*\)', 'err', body)
    body = body.replace(':: core :: result :: Result ::', 'core::result::Result::')
    return body

class Assembler:
    def __init__(s, mods, spec, trust_extra=(), base=None):
        s.mods = {m['path']: m for m in mods}; s.S = spec; s.g = Gen(); s.fns = {}; s.lost = {}
        s.trust_extra = set(trust_extra); s.warn = []; s.base = base or {}; s.contracted = set(); s.canaries = []; s.renamed = {}
        s.crate_mods = set(m['path'].split('::')[0] for m in mods if m['path'])
        s.vecfields = sorted(set(x for m in mods for st in m['structs'] for x in re.findall(r'(\w+) : Vec <', st['text'])))
        s.trait_methods = {}
        for m in mods:
            for t in m['traits']:
                s.trait_methods[t['name']] = (m['path'], t)

    def fn_text(s, f, fs, key, owner_key, contract, ret, in_trait_decl=False, in_trait_impl=False, hooks_from=None):
        """Emit one function. contract: text or ''. """
        ren = s.renames(f)
        if ren:
            s.renamed[owner_key] = ren
            contract = rename(contract, ren)
            src = hooks_from if hooks_from is not None else fs
            if src:
                n = FnSpec(src.key); n.__dict__.update(src.__dict__); n.hooks = {k: rename(v, ren) for k, v in src.hooks.items()}
                if hooks_from is not None: hooks_from = n
                else: fs = n
        if contract.strip() or in_trait_impl: s.contracted.add(owner_key)
        if in_trait_decl: f = dict(f, inputs=[re.sub(r'^mut\s+(\w+\s*:)', r'\1', p) for p in f['inputs']])
        # R13: `mut self` -> `self`, moved to a mutable local
        if any(re.match(r'^mut\s+self$', p) for p in f['inputs']):
            f = dict(f, inputs=[re.sub(r'^mut\s+self$', 'self', p) for p in f['inputs']])
            if 'body' in f: f['body'] = '{ let mut vx_self = self ; ' + re.sub(r'\bself\b', 'vx_self', f['body']) + ' }'
        # R14: an ignored parameter gets a name
        sig_params = ', '.join(re.sub(r'^_(\s*:)', r'vx_p%d\1' % n, p) for n, p in enumerate(f['inputs']))
        gen = f['generics']
        where = f['where']
        r = f['ret']
        if fs and fs.sig: head = fs.sig
        else:
            head = 'fn %s %s (%s)' % (f['name'], gen, sig_params)
            if r:
                head += ' -> (%s : %s)' % (ret, r) 
            if where: head += ' ' + where
        pub = '' if (in_trait_decl or in_trait_impl) else 'pub '
        lost = []
        trust = (fs and fs.trust) or owner_key in s.trust_extra
        s.refusal(f, fs, owner_key, contract, in_trait_decl, in_trait_impl, hooks_from, trust)
        attrs = (fs.attrs.strip() + '\n') if fs and fs.attrs else ''
        if in_trait_decl:
            s.g.add(attrs + head + '\n' + contract.rstrip() + ';', owner_key); return
        hf = hooks_from if hooks_from is not None else fs
        if trust:
            s.g.add('#[verifier::external_body]\n' + pub + head + '\n' + contract.rstrip() + '\n{ unimplemented!() }', owner_key)
        else:
            body = splice_body(f['body'], hf, lost, s.vecfields)
            s.g.add(attrs + pub + head + '\n' + contract.rstrip() + '\n' + body, owner_key)
        s.fns[owner_key] = dict(name=f['name'], loops=f.get('loops', []), lost=lost, trusted=(trust if isinstance(trust, str) else 'retry') if trust else False, calls=f.get('calls', []), rules=f.get('rules', []), locals=f.get('locals', []), orig=f.get('orig', ''))
        if lost: s.lost[owner_key] = lost
        s.fns[owner_key]['inlined'] = s.inlined(f)
        s.fns[owner_key]['newloops'] = any(('loop %d' % k) not in (hf.hooks if hf else {}) for k in range(len(f.get('loops', []))))

    def refusal(s, f, fs, owner_key, contract, in_trait_decl, in_trait_impl, hooks_from, trust):
        """R21: a second copy of a mutator whose refusal must change nothing. It assumes nothing about its arguments, its calls must
        be in range (or hooked: then nothing may have changed before), and where it panics nothing may have changed."""
        if owner_key.endswith('#refuse'): return
        same = None
        for src in (fs, hooks_from):
            if src is not None and src.refuse: same = src.refuse; break
        tc = contract
        if in_trait_impl:
            m = re.match(r'.*<.* ?as ?(\w+)(<.*>)?>::(\w+)$', owner_key)
            if not m or m.group(1) not in s.trait_methods: return
            p, _ = s.trait_methods[m.group(1)]
            tfs = s.S.fns.get(norm('%s::%s::%s' % (p, m.group(1), m.group(3))))
            if not tfs or not tfs.refuse: return
            same = (fs.refuse if fs is not None and fs.refuse else None) or tfs.refuse; tc = ''
        if not same: return
        import copy
        n = FnSpec(owner_key + '#refuse')
        src = hooks_from if hooks_from is not None else fs
        if src: n.hooks = dict(src.hooks); n.subst = list(src.subst)
        if fs: n.attrs = fs.attrs; n.ret = fs.ret
        ren = s.renames(f)
        for k in [k for k in n.hooks if k.startswith('refuse ')]:
            P = n.hooks.pop(k).strip(); t = k[7:]
            n.hooks[t] = 'proof { assert((%s) || (%s)); assume(%s); }\n' % (rename(P, ren), same, rename(P, ren)) + n.hooks.get(t, '')
        n.trust = trust
        req = re.split(r'^ensures\b', tc, flags=re.M)[0].rstrip().rstrip(',')
        if tc.strip() or not in_trait_impl:
            req = req.replace('panics_allowed()', 'true')
            req = (req + ', !panics_allowed()') if req.strip() else 'requires !panics_allowed()'
        f2 = copy.deepcopy(f); f2['name'] = f['name'] + '__refuse'
        if 'body' in f2: f2['body'] = re.sub(r'\bvx_panic \(\s*\)', '{ proof { assert ( %s ) ; } vx_refuse ( ) }' % same, f2['body'])
        s.fn_text(f2, n, owner_key + '#refuse', owner_key + '#refuse', req, n.ret, in_trait_decl=in_trait_decl, in_trait_impl=in_trait_impl)

    def renames(s, f):
        """Parameters and locals that carry other names than when the specifications were written."""
        b = s.base.get(norm(f['key']))
        if not b: return {}
        r = {}
        for fld in ('params', 'locals'):
            old, new = b.get(fld, []), f.get(fld, [])
            if old != new and len(old) == len(new):
                for o, n in zip(old, new):
                    if o != n and r.get(o, n) == n: r[o] = n
        if any(n in b.get('params', []) + b.get('locals', []) and n not in r for n in r.values()): return {}
        return r

    def inlined(s, f):
        """calls to functions of the crate that the function made when the specifications were written and no longer makes, if it
        has become longer instead: the callee may have been inlined, and its facts with it"""
        b = s.base.get(norm(f['key']))
        if not b or len(f.get('orig', '').split()) <= b.get('size', 1 << 60): return []
        names = set(x.split('::')[-1] for x in s.base)
        return sorted(c for c in set(b.get('calls', [])) - set(f.get('calls', [])) if c in names)

    def uncontracted(s):
        """names of functions of the crate that have no contract and are not known"""
        return set(f['name'] for k, f in s.fns.items() if k not in s.contracted and k not in s.base)

    def external(s):
        """every assumed item of the text handed to the verifier, as (impl or module, [names])"""
        out = {}; ctx = ''
        for i, l in enumerate(s.g.lines):
            m = re.match(r'(?:\s*)(?:pub )?(impl|mod|trait)\b(.*)', l)
            if m: ctx = re.sub(r'\s+', ' ', l.strip())[:70].rstrip(' {')
            elif re.match(r'}', l): ctx = ''
            if 'verifier::external_body' in l:
                for j in range(i, min(i + 4, len(s.g.lines))):
                    m = re.search(r'\bfn\s+(\w+)', s.g.lines[j])
                    if m: out.setdefault(ctx or 'crate support', []).append(m.group(1)); break
        return ['%s: %s' % (c, ', '.join(dict.fromkeys(n))) for c, n in out.items()]

    def emit_canaries(s):
        s.g.add('pub mod vxcanary {\nuse vstd::prelude::*;\nuse crate::vxp::*;\nuse crate::storage::*;\nverus! {')
        for name, text in s.S.canary:
            s.g.add(text, 'canary:' + name); s.canaries.append('canary:' + name)
        s.g.add('}\n}')

    def emit_module(s, path):
        m = s.mods[path]; S = s.S
        if path in S.uses:
            s.g.add(S.uses[path])
        else:
            s.g.add('use crate::vxp::*;')
            for u in m['uses']:
                t = translate_use(u['text'], s.crate_mods)
                s.g.add('#[allow(unused_imports)] pub use %s;' % t if u['pub'] else '#[allow(unused_imports)] use %s;' % t)
        for st in m['structs']:
            if norm(path + '::' + st['name']) in S.skip: continue
            der = [d['trait'].split('::')[-1].strip() for d in m['derived'] if re.split(r'[ <]', d['self'])[0] == st['name']]
            if 'Copy' in der: s.g.add('#[derive(Clone, Copy)]')
            s.g.add(st['text'])
        for c in m['types'] + m['consts']:
            if norm(path + '::' + c['name']) in S.skip: continue
            s.g.add(c['text'])
        if path in S.mods: s.g.add(expand_foreach(S.mods[path]))
        for t in m['traits']:
            tk = norm(path + '::' + t['name'])
            if tk in S.skip: continue
            raw = S.traits.get(tk, '')
            sup = list(t['supertraits'])
            m2 = re.search(r'^\s*supertraits:(.*)$', raw, re.M)
            if m2: sup = [x for x in m2.group(1).split('+') if x.strip()]; raw = raw.replace(m2.group(0), '')
            s.g.add('pub trait %s %s %s {' % (t['name'], t['generics'], (': ' + ' + '.join(sup)) if sup else ''))
            for ty in t['types']: s.g.add(ty)
            s.g.add(raw, tk)
            for f in t['methods']:
                k = norm(f['key'])
                if k in S.skip: continue
                fs = S.fns.get(k)
                s.fn_text(f, fs, k, k, fs.contract if fs else '', fs.ret if fs else 'r', in_trait_decl=True)
            s.g.add('}')
        for f in m['fns']:
            k = norm(f['key'])
            if k in S.skip: continue
            fs = S.fns.get(k)
            if fs is None: s.warn.append('no contract: ' + k)
            s.fn_text(f, fs, k, k, fs.contract if fs else '', fs.ret if fs else 'r')
        for i in m['impls']:
            s.emit_impl(path, i)
        for w in S.witness.get(path, []):
            s.emit_witness(path, w)

    def impl_key(s, path, i):
        return norm('%s::<%s as %s>' % (path, i['self'], i['traitname'])) if i['trait'] else norm('%s::%s' % (path, re.split(r'[ <]', i['self'])[0]))

    def emit_impl(s, path, i):
        S = s.S
        ik = s.impl_key(path, i)
        if ik in S.skip or norm(i['traitname']) in S.skip_traits: return
        # R12: methods of an impl of a std trait are emitted as inherent methods of the type
        inherent = i['trait'] and i['traitname'] in STD_TRAITS
        # R24: IntoIterator for &'a T: `self` by value of the reference is `&'a self` of T
        ref = re.match(r"& ('\w+) (.*)$", i['self'].strip(), re.S) if i['traitname'] == 'IntoIterator' else None
        if ref:
            i = dict(i, self=ref.group(2), methods=[dict(f, inputs=['& %s self' % ref.group(1) if x.strip() == 'self' else x for x in f['inputs']]) for f in i['methods']], types=i['types'])
        # R7: bounds on Debug are dropped (nothing under contract is printed)
        gen = re.sub(r'\+\s*(::\s*)?std\s*::\s*fmt\s*::\s*Debug\b', '', i['generics'])
        hdr = 'impl %s %s %s %s {' % (gen, (re.sub(r'^crate\s*::\s*(\w+\s*::\s*)*', '', i['trait']) + ' for') if i['trait'] and not inherent else '', i['self'], i['where'])
        if inherent and i['traitname'] in STRUCTURAL:
            if not any(norm(f['key']) in S.fns for f in i['methods']): return
            i, hdr = s.structural(path, i, hdr)
        s.g.add(hdr, ik)
        if inherent:
            import copy
            i = copy.deepcopy(i)
            for ty in [t for o in [i] + s.mods[path]['impls'] if o['self'] == i['self'] and o['traitname'] in STD_TRAITS for t in o['types']]:
                m = re.match(r'type\s+(\w+)\s*=\s*([\s\S]*?);\s*$', ty)
                for f in i['methods']:
                    for fld in ('ret', 'body'):
                        if f.get(fld): f[fld] = re.sub(r'\bSelf\s*::\s*%s\b' % m.group(1), m.group(2).strip(), f[fld])
                    f['inputs'] = [re.sub(r'\bSelf\s*::\s*%s\b' % m.group(1), m.group(2).strip(), x) for x in f['inputs']]
            for f in i['methods']:
                k = norm(f['key'])
                if k in S.skip: continue
                fs = S.fns.get(k)
                if fs is None: s.warn.append('no contract: ' + k)
                s.fn_text(f, fs, k, k, fs.contract if fs else '', fs.ret if fs else 'r')
            s.g.add('}')
            return
        for ty in i['types']: s.g.add(ty)
        if ik in S.impls: s.g.add(S.impls[ik], ik)
        have = set()
        for f in i['methods']:
            k = norm(f['key']); have.add(f['name'])
            if k in S.skip: continue
            # R17: Box::deref is the built-in dereference
            if re.match(r'Box <', i['self']) and f.get('body'): f = dict(f, body=re.sub(r'\bself \. (?:deref|as_ref) \(\s*\)', '(* * self )', f['body']))
            if re.match(r'Vec <', i['self']) and f.get('body'): f = dict(f, body=re.sub(r'\bself \. capacity \(', 'self . vx_capacity (', f['body']))
            fs = S.fns.get(k)
            if i['trait']:
                c, ret = s.trait_contract(i['traitname'], f['name'], fs)
                s.fn_text(f, fs, k, k, fs.contract if fs else '', fs.ret if (fs and fs.contract.strip()) else ret, in_trait_impl=True)
            else:
                if fs is None: s.warn.append('no contract: ' + k)
                s.fn_text(f, fs, k, k, fs.contract if fs else '', fs.ret if fs else 'r')
        if i['trait']:
            s.copy_defaults(path, i['traitname'], ik, have)
        s.g.add('}')

    def structural(s, path, i, hdr):
        """R19: PartialEq, Hash, Clone of a struct: the bound on the block type is BlockType; a field is compared, hashed,
        cloned natively (integers), by the Vec shims, or by the inherent method of its type"""
        import copy
        i = copy.deepcopy(i)
        hdr = re.sub(r'(\w+) :( :: core :: (?:cmp|hash|clone) :: \w+)( \+ BlockType)?', r'\1 : BlockType', hdr)
        st = [x for x in s.mods[path]['structs'] if x['name'] == re.split(r'[ <]', i['self'])[0]]
        ty = field_types(st[0]['text']) if st else {}
        kind = lambda f: 'vec' if re.match(r'Vec\b', ty.get(f, '')) else 'prim' if re.match(r'(u8|u16|u32|u64|usize|bool)$', ty.get(f, '')) else 'struct'
        def eq(m):
            k = kind(m.group(2))
            return m.group(0) if k == 'prim' else 'vx_vec_eq ( & %s . %s , & %s . %s )' % m.groups() if k == 'vec' else '%s . %s . eq ( & %s . %s )' % m.groups()
        def hash_(m):
            F, st = m.group(1), m.group(2)
            return {'prim': 'vx_hash_int ( self . %s as u64 , %s )', 'vec': 'vx_hash_vec ( & self . %s , %s )', 'struct': 'self . %s . hash ( %s )'}[kind(F)] % (F, st)
        def clone(m):
            F = m.group(1)
            return {'prim': 'self . %s', 'vec': 'vx_vec_clone ( & self . %s )', 'struct': 'self . %s . clone ( )'}[kind(F)] % F
        for f in i['methods']:
            b = f.get('body', '')
            b = re.sub(r'\b(self|other) \. (\w+) == (self|other) \. (\w+)', eq, b)
            b = re.sub(r'(?::: )?(?:core :: hash :: )?Hash :: hash \(\s*& self \. (\w+) , (\w+)\s*\)', hash_, b)
            b = re.sub(r'(?::: )?(?:core :: clone :: )?Clone :: clone \(\s*& self \. (\w+)\s*\)', clone, b)
            f['body'] = b
            f['generics'] = re.sub(r': (:: )?core :: hash :: Hasher', ': VxHasher', f['generics'])
        return i, hdr

    def trait_contract(s, tname, fname, fs):
        if tname in s.trait_methods:
            p, t = s.trait_methods[tname]
            k = norm('%s::%s::%s' % (p, tname, fname))
            tfs = s.S.fns.get(k)
            if tfs: return tfs.contract, tfs.ret
        return '', 'r'

    def copy_defaults(s, path, tname, ik, have):
        if tname not in s.trait_methods: return
        p, t = s.trait_methods[tname]
        for f in t['methods']:
            if f['name'] in have or 'body' not in f: continue
            k = norm('%s::%s::%s' % (p, tname, f['name']))
            if k in s.S.skip: continue
            if (ik + '::' + f['name']) in s.S.skip: continue
            tfs = s.S.fns.get(k); fs = s.S.fns.get(ik + '::' + f['name'])
            hooks = FnSpec(k)
            # R20: inherited at a concrete block type
            if 'gbody' in f and re.search(r'Vec<bool>', ik): f = dict(f, body=f['gbody'])
            # R9: in the generic default body a literal shift count has type usize
            if 'body' in f: f = dict(f, body=re.sub(r'(<<|>>)\s*(\d+)\b(?!\w)', r'\1 \2usize', f['body']))
            if tfs: hooks.hooks = dict(tfs.hooks); hooks.subst = tfs.subst
            if tfs and tfs.sig and not (fs and fs.sig):
                fs2 = FnSpec(ik + '::' + f['name'])
                if fs: fs2.__dict__.update(fs.__dict__)
                fs2.sig = tfs.sig; fs = fs2
            if fs and fs.hooks: hooks.hooks = fs.hooks
            if fs and fs.subst: hooks.subst = fs.subst
            s.fn_text(f, fs, k, ik + '::' + f['name'], fs.contract if fs else '', tfs.ret if tfs else 'r', in_trait_impl=True, hooks_from=hooks)

    def emit_witness(s, path, w):
        """A witness implementer: raw text with `//$ defaults Trait name,name` lines."""
        name = None
        for line in expand_foreach(w).split('\n'):
            m = re.match(r'\s*//\$ key (\S+)', line)
            if m: name = m.group(1); continue
            m = re.match(r'\s*//\$ defaults (\w+)(?: (except|only) (.*))?$', line)
            if m:
                names = set((m.group(3) or '').replace(' ', '').split(','))
                if m.group(2) == 'only': names = set(f['name'] for f in s.trait_methods[m.group(1)][1]['methods']) - names
                s.copy_defaults(path, m.group(1), norm('%s::<%s as %s>' % (path, name, m.group(1))), names)
            else: s.g.add(line, norm('%s::%s' % (path, name)))

    def run(s):
        S = s.S
        s.g.add('#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_parens, unused_braces, non_snake_case, unreachable_code, unused_assignments, path_statements, redundant_semicolons, unused_must_use)]')
        # a loop keeps what is known of the variables it does not change
        s.g.add('#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]')
        s.g.add('use vstd::prelude::*;')
        s.g.add('verus! {\nglobal size_of usize == 8;\n}')
        for p in S.prelude: s.g.add(expand_foreach(p))
        tree = {}
        for p in S.include:
            node = tree
            for seg in p.split('::'): node = node.setdefault(seg, {})
        def rec(node, path):
            for seg, ch in node.items():
                p = (path + '::' + seg) if path else seg
                s.g.add('pub mod %s {' % seg)
                if p in S.include and p in s.mods:
                    if ch == {}:
                        s.g.add('use vstd::prelude::*;')
                        s.g.add('verus! {')
                        s.emit_module(p); s.g.add('} // verus!')
                    else:
                        # a module with children: re-exports (of included children) only
                        for u in s.mods[p]['uses']:
                            t = re.sub(r'\s*::\s*', '::', u['text'])
                            t = re.sub(r'^(self::|%s::)' % re.escape(p), '', t)
                            if u['pub'] and re.match(r'\w+', t).group(0) in ch:
                                s.g.add('#[allow(unused_imports)] pub use self::%s;' % t)
                rec(ch, p)
                s.g.add('} // mod ' + p)
        rec(tree, '')
        if s.want_canaries: s.emit_canaries()
        s.g.add('fn main() {}')
        return s.g.text()

def assemble(json_path, spec_files, trust_extra=(), canaries=False, baseline=None):
    mods = json.load(open(json_path))
    S = parse_specs(spec_files)
    S.skip_traits = set(x[6:] for x in S.skip if x.startswith('trait='))
    base = json.load(open(baseline)) if baseline and os.path.exists(baseline) else None
    fields = follow_fields(mods, base) if base else {}
    A = Assembler(mods, S, trust_extra, base)
    A.fields_followed = fields
    A.want_canaries = canaries
    t = A.run()
    A.uncontracted_names = A.uncontracted()
    return A, t

def struct_fields(mods):
    """path::Name -> [[field, type], ...] of every struct with named fields"""
    r = {}
    for m in mods:
        for st in m['structs']:
            if '{' in st['text']: r['%s::%s' % (m['path'], st['name'])] = [list(x) for x in field_types(st['text']).items()]
    return r

def follow_fields(mods, base):
    """R25: a private field that carries another name than when the specifications were written (same struct, same position,
    same type) is called by its old name again, throughout its module.  A use this misses is a compile error, never a verdict."""
    old = base.get('__structs__', {}); new = struct_fields(mods); ren = {}
    known = set(n for fs in old.values() for n, t in fs)
    for m in mods:
        here = {}
        for st in m['structs']:
            k = '%s::%s' % (m['path'], st['name']); a, b = old.get(k), new.get(k)
            if not a or not b or a == b or [t for n, t in a] != [t for n, t in b]: continue
            for (o, t), (n, u) in zip(a, b):
                if o != n and n not in known and here.get(n, o) == o: here[n] = o
        if not here: continue
        for n, o in here.items():
            N = re.escape(n)
            for st in m['structs']: st['text'] = re.sub(r'\b%s :(?!:)' % N, o + ' :', st['text'])
            def fix(b):
                b = re.sub(r'(\. )%s\b(?!\s*(?:\(|::))' % N, r'\1' + o, b)
                lit = r'\b(?:Self|%s)(?: :: < [^{}]* >)? \{' % '|'.join(re.escape(st['name']) for st in m['structs'] if n in [x for x, t in new.get('%s::%s' % (m['path'], st['name']), [])])
                out = ''; i = 0
                for mm in re.finditer(lit, b):
                    if mm.start() < i: continue
                    d = 0; j = mm.end() - 1
                    while j < len(b):
                        d += (b[j] in '{([') - (b[j] in '})]'); j += 1
                        if d == 0: break
                    body = b[mm.end():j]
                    body = re.sub(r'(^\s*|,\s*)%s :(?!:)' % N, r'\1%s :' % o, body)
                    body = re.sub(r'(^\s*|,\s*)%s(?=\s*[,}])' % N, r'\1%s : %s' % (o, n), body)
                    out += b[i:mm.end()] + body; i = j
                return out + b[i:]
            for f in all_fns([m]):
                for q in ('body', 'gbody'):
                    if q in f: f[q] = fix(f[q])
        ren[m['path']] = here
    return ren

def all_fns(mods):
    for m in mods:
        for f in m['fns']: yield f
        for t in m['traits']:
            for f in t['methods']: yield f
        for i in m['impls']:
            for f in i['methods']: yield f

if __name__ == '__main__':
    import glob
    here = os.path.dirname(os.path.abspath(__file__))
    files = sorted(glob.glob(os.path.join(here, 'specs/*.vrs')))
    if sys.argv[1] == '--baseline':
        mods = json.load(open(sys.argv[2]))
        b = {norm(f['key']): dict(params=f.get('params', []), locals=f.get('locals', []), calls=f.get('calls', []), size=len(f.get('orig', '').split())) for f in all_fns(mods)}
        b['__structs__'] = struct_fields(mods)
        json.dump(b, open(os.path.join(here, 'specs/baseline.json'), 'w'), indent=0, sort_keys=True)
        sys.exit(0)
    A, t = assemble(sys.argv[1], files)
    open(sys.argv[2], 'w').write(t)
    json.dump(A.g.map, open(sys.argv[2] + '.map', 'w'))
    for k, v in A.lost.items(): print('lost anchor', k, v)
    for w in A.warn: print('warn', w)
