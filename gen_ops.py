#!/usr/bin/env python3
"""Generates inst/src/ops.rs, the table of all public functions, model structs,
methods and exported C functions of /repo's current tree.

usage: gen_ops.py REPO OUT.rs BASELINE.txt [--write-baseline]

Only items in the baseline (the public interface when the harness was written)
are used, so that helper functions a change adds need not fit the harness."""
import os, re, sys

repo, out, basefile = sys.argv[1:4]
src = os.path.join(repo, 'src')


def strip(s):
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    return re.sub(r'//[^\n]*', '', s)


def read(p):
    return strip(open(p, encoding='utf-8', newline='').read().replace('\r\n', '\n'))


OK = {'&f64': 'f', 'f64': 'F', '&u8': 'u', 'u8': 'U'}


def params(s):
    r = []
    for p in s.split(','):
        p = p.strip()
        if not p:
            continue
        if p in ('&self',):
            r.append(('self', 'S'))
            continue
        if ':' not in p:
            return None
        n, t = [x.strip() for x in p.split(':', 1)]
        if t not in OK:
            return None
        r.append((n.lstrip('&'), OK[t]))
    return r


def arg(i, k):
    v = 'a[%d]' % i
    return {'f': '&' + v, 'F': v, 'u': '&(%s as u8)' % v, 'U': v + ' as u8'}[k]


fns, structs, exts = [], [], {}
for d, _, fs in sorted(os.walk(src)):
    rel = os.path.relpath(d, src).split(os.sep)
    if rel == ['.'] or rel[0] not in ('math', 'physics') or 'monte_carlo' in rel:
        continue
    for f in ('ex.rs',):
        if f in fs:
            for m in re.finditer(r'pub (?:unsafe )?extern(?: "C")? fn (\w+)\s*\(([^)]*)\)\s*->\s*f64', read(os.path.join(d, f))):
                ps = params(m.group(2))
                if ps is not None:
                    exts[m.group(1)] = ps
    if 'mod.rs' not in fs:
        continue
    # visible?
    vis = True
    for i in range(len(rel)):
        par = os.path.join(src, *rel[:i], 'mod.rs') if i else os.path.join(src, 'lib.rs')
        if not re.search(r'pub mod %s\s*;' % rel[i], read(par)):
            vis = False
    if not vis:
        continue
    text = read(os.path.join(d, 'mod.rs'))
    path = '::'.join(rel)
    # impl blocks (by brace matching)
    impls = []
    rest = text
    for m in re.finditer(r'^impl (\w+)\s*\{', text, flags=re.M):
        i, depth = m.end(), 1
        while depth and i < len(text):
            depth += {'{': 1, '}': -1}.get(text[i], 0)
            i += 1
        impls.append((m.group(1), text[m.end():i]))
        rest = rest.replace(text[m.start():i], '')
    for m in re.finditer(r'^pub fn (\w+)\s*\(([^)]*)\)\s*->\s*f64', rest, flags=re.M):
        ps = params(m.group(2))
        if ps is not None:
            fns.append((path, m.group(1), ps))
    for name, body in impls:
        init, meths = None, []
        for m in re.finditer(r'pub fn (\w+)\s*\(([^)]*)\)\s*->\s*(\w+)', body):
            ps = params(m.group(2))
            if ps is None:
                continue
            if m.group(1) == 'init' and m.group(3) == 'Self':
                init = ps
            elif m.group(3) == 'f64' and ps and ps[0][1] == 'S':
                meths.append((m.group(1), ps[1:]))
        if init is not None:
            structs.append((path, name, init, meths))

sig = lambda ps: ' '.join(k + ':' + n for n, k in ps)
lines = ['fn %s::%s %s' % (p, n, sig(a)) for p, n, a in fns]
lines += ['ext %s %s' % (n, sig(a)) for n, a in sorted(exts.items())]
for p, n, a, ms in structs:
    lines.append('struct %s::%s %s' % (p, n, sig(a)))
    lines += ['meth %s::%s.%s %s' % (p, n, m, sig(b)) for m, b in ms]
if '--write-baseline' in sys.argv:
    open(basefile, 'w').write('\n'.join(sorted(lines)) + '\n')
base = {}
for l in open(basefile).read().split('\n'):
    if l:
        w = l.split(' ')
        base[' '.join(w[:2])] = [(x[2:], x[0]) for x in w[2:]]


def known(key, ps):
    """The baseline's names of the parameters, if number and types still agree."""
    b = base.get(key)
    return b if b is not None and [k for _, k in b] == [k for _, k in ps] else None


have = {' '.join(l.split(' ')[:2]): [(x[2:], x[0]) for x in l.split(' ')[2:]] for l in lines}
missing = sorted(k for k in base if k not in have or known(k, have[k]) is None)

o = ['// Generated by gen_ops.py', 'use crate::table::*;', '']
o.append('extern "C" {')
use_ext = {n: known('ext ' + n, a) for n, a in exts.items() if known('ext ' + n, a) is not None}
for n, a in sorted(use_ext.items()):
    o.append('    fn %s(%s) -> f64;' % (n, ', '.join('%s: %s' % (q, {'F': 'f64', 'U': 'u8'}[k]) for q, k in a)))
o.append('}')
o.append('pub static FNS: &[FnDef] = &[')
matched = set()
for p, n, a in fns:
    a = known('fn %s::%s' % (p, n), a)
    if a is None:
        continue
    e = 'None'
    en = p.replace('::', '_') + '_' + n
    if en in use_ext and sorted(q for q, _ in use_ext[en]) == sorted(q for q, _ in a):
        matched.add(en)
        ix = {q: i for i, (q, _) in enumerate(a)}
        e = 'Some(|a| unsafe { %s(%s) })' % (en, ', '.join(arg(ix[q], k) for q, k in use_ext[en]))
    o.append('    FnDef { name: "%s::%s", params: &[%s], call: |a| polymers::%s::%s(%s), ext: %s },' % (
        p, n, ', '.join('"%s"' % q for q, _ in a), p, n, ', '.join(arg(i, k) for i, (_, k) in enumerate(a)), e))
o.append('];')
o.append('pub static STRUCTS: &[StructDef] = &[')
nm = 0
for p, n, a, ms in structs:
    a = known('struct %s::%s' % (p, n), a)
    if a is None:
        continue
    t = 'polymers::%s::%s' % (p, n)
    o.append('    StructDef { name: "%s::%s", params: &[%s], size: std::mem::size_of::<%s>(), shareable: shareable!(%s),' % (p, n, ', '.join('"%s"' % q for q, _ in a), t, t))
    o.append('        make: |a| Box::into_raw(Box::new(%s::init(%s))) as *mut (), free: |p| unsafe { drop(Box::from_raw(p as *mut %s)) }, methods: &[' % (t, ', '.join(arg(i, k) for i, (_, k) in enumerate(a)), t))
    for m, b in ms:
        b = known('meth %s::%s.%s' % (p, n, m), b)
        if b is None:
            continue
        nm += 1
        o.append('            MethDef { name: "%s", params: &[%s], call: |p, a| unsafe { (*(p as *const %s)).%s(%s) } },' % (m, ', '.join('"%s"' % q for q, _ in b), t, m, ', '.join(arg(i, k) for i, (_, k) in enumerate(b))))
    o.append('        ] },')
o.append('];')
o.append('pub static MISSING: &[&str] = &[%s];' % ', '.join('"%s"' % x for x in missing))
un = sorted(set(use_ext) - matched)
o.append('pub static UNMATCHED_EXT: &[&str] = &[%s];' % ', '.join('"%s"' % x for x in un))
text = '\n'.join(o) + '\n'
if not os.path.exists(out) or open(out).read() != text:
    open(out, 'w').write(text)
print('gen_ops: %d functions, %d exported (%d unmatched), %d structs, %d methods, %d missing' % (len(fns), len(use_ext), len(un), len(structs), nm, len(missing)))
