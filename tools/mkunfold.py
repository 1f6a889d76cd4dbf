#!/usr/bin/env python3
"""Writes contracts/spec_unfold.rs: one verified one-step unfolding lemma per opaque spec function of spec_parse.rs."""
import re, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + '/contracts/spec_parse.rs').read()
out = ["// Generated by tools/mkunfold.py from spec_parse.rs: the defining equations of the document language,\n// one lemma each (all verified), so that a proof can use exactly the ones it needs.\n"]
names = re.findall(r'#\[verifier::opaque\] pub open spec fn (\w+)', s)
for m in re.finditer(r'#\[verifier::opaque\] pub open spec fn (\w+)\((.*?)\) -> (.*?)\n\s+decreases [^\n]*\n\{\n(.*?)\n\}\n', s, re.S):
    name, params, ret, body = m.groups()
    args = ', '.join(p.split(':')[0].strip() for p in re.sub(r'<[^<>]*>|\((?:[^()]|\([^()]*\))*\)', '', re.sub(r'Seq<[^=]*?>(?=,|$)', 'X', params)).split(',')) if False else None
    # split parameters at top-level commas
    ps, depth, cur = [], 0, ''
    for ch in params:
        if ch in '<([': depth += 1
        if ch in '>)]': depth -= 1
        if ch == ',' and depth == 0: ps.append(cur); cur = ''
        else: cur += ch
    ps.append(cur)
    args = ', '.join(p.split(':')[0].strip() for p in ps)
    callees = sorted({n for n in names if re.search(r'\b%s\(' % n, body)} | {name})
    rev = ' '.join(('reveal_with_fuel(%s, 2);' if n == name else 'reveal(%s);') % n for n in callees)
    out.append(f"pub proof fn unfold_{name}({params}) ensures {name}({args}) == ({{\n{body}\n}}) {{ {rev} }}\n")
assert len(out) == len(names) + 1, (len(out), names)
open(R + '/contracts/spec_unfold.rs', 'w').write(''.join(out))
