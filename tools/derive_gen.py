#!/usr/bin/env python3
"""Write derive_probe/src/gen.rs from sa/dspec.py."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import dspec, dspec2
o = ['// Written by tools/derive_gen.py from sa/dspec.py.', 'use crate::support::*;', 'use schemars::JsonSchema;', '']
for t in dspec.W:
    o.append(t.source())
for m in (False, True):
    o.append('types! {' if m else 'schemas! {')
    for t in dspec.W:
        if bool(t.meth) == m:
            o.append('    %s: %s = %s,' % (t.module, t.type(), t.type().split('<')[0]))
    o.append('}')
def write(f, o):
    p = os.path.join(V, 'derive_probe/src', f)
    s = '\n'.join(o) + '\n'
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)
    print(f, len(s), 'bytes')
write('gen.rs', o)
print(len(dspec.W), 'types')

from sa import dspec41 as d41
mods = {}
for d in d41.DECLS:
    mods.setdefault(d.mod, []).append(d.src)
for k, src, a, b, why in d41.TWINS:
    mods['m1'].append(src)
mods['m1'].append(d41.LOCAL)
o = ['// Written by tools/derive_gen.py from sa/dspec41.py.']
head = 'use crate::support::*; use schemars::{JsonSchema, JsonSchema_repr};'
o += ['pub mod m1 {', head] + mods['m1'] + ['}', 'pub mod m2 {', head] + mods['m2'] + ['pub mod m3 {', head] + mods['m2::m3'] + ['}', '}']
o += ['pub mod g {', 'use super::*; use crate::support::*;', 'types! {']
for i, d in enumerate(d41.DECLS):
    for j, a in enumerate(d.insts):
        o.append('    i%d_%d: crate::gen41::%s::%s%s%s,' % (i, j, d.mod, 'r#' if d.raw else '', d.ty, '<%s>' % ', '.join(a) if a else ''))
for k, src, a, b, why in d41.TWINS:
    for x, t in (('a', a), ('b', b)):
        o.append('    tw_%s_%s: crate::gen41::m1::%s,' % (k.replace('-', '_'), x, t))
o += ['}', '}']
write('gen41.rs', o)
