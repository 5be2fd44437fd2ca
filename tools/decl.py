#!/usr/bin/env python3
"""Writes decl/src/lib.rs (contracts declared with the macros of /repo/client/contract_macro), verus/decl.rs (what
their expansion must be) and props/decl.rs (the same, run). Their text is a function of the table below alone."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool', 'f32', 'f64', 'String', 'ObjectHandle', 'ContractDataHandle']
VAR = dict(zip(T, ['U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64', 'Bool', 'F32', 'F64', 'String', 'ObjectHandle', 'ContractDataHandle']))
D = [
    ('Empty', []),
    ('One', [('only', 'u64')]),
    ('Two', [('b', 'f64'), ('a', 'u32')]),
    ('Each', [(t.lower() + '_field', t) for t in T]),
    ('Back', [('z%d' % i, t) for i, t in enumerate(reversed(T))]),
    ('Same', [('same%d' % i, 'String') for i in range(5)]),
    ('Pairs', [('u8_0', 'u8'), ('u8_1', 'u8'), ('i8_0', 'i8'), ('i8_1', 'i8'), ('f32_0', 'f32'), ('f32_1', 'f32'), ('str_0', 'String'),
               ('oh_0', 'ObjectHandle'), ('ch_0', 'ContractDataHandle')]),
    ('Names', [('id', 'u8'), ('idx', 'bool'), ('contract', 'i64'), ('handle', 'u8'), ('ID', 'u16'), ('_x', 'i16'), ('x', 'i16'), ('x_', 'i16'),
               ('XX', 'f64'), ('types', 'u32'), ('names', 'String'), ('etats', 'bool'), ('value', 'f32'), ('state', 'u8'), ('channels', 'ObjectHandle')]),
    ('Wide', [('w%03d' % i, T[(i * 3 + i // 14) % 14]) for i in range(300)]),
    ('Many', [('m%02d' % i, T[(i * 5 + i // 14) % 14]) for i in range(70)]),
]
VIS = ['', 'pub ', '/// with a comment\n    ', 'pub(crate) ']
KINDS = [('states', 'S', 'State', 'IStates'), ('channels', 'C', 'Channel', 'IChannels')]
HEAD = '// Written by tools/decl.py\n'


def lib():
    o = HEAD + '''//! Contracts declared as a client declares them. Expanded for the verifier, linked by the stand-in.
#![allow(non_snake_case, dead_code)]
use tp_client::contract::{channels, states, ContractDataHandle};
use tp_client::object::ObjectHandle;
'''
    for mac, p, _, _ in KINDS:
        for n, fs in D:
            o += '\n#[%s]\npub struct %s%s {\n' % (mac, p, n)
            for i, (f, t) in enumerate(fs):
                o += '    %s%s: %s,\n' % (VIS[(i + len(fs)) % 4], f, t)
            o += '}\n'
    return o


def verus():
    o = HEAD + open(os.path.join(V, 'tools', 'decl_head.rs')).read()
    for mac, p, k, tr in KINDS:
        for n, fs in D:
            s = p + n
            o += '\n//@struct decl::%s\nimpl %s {\n' % (s, s)
            o += '    //@fn decl::%s::new\n    //@spec\n        ensures true' % s
            for i, (f, t) in enumerate(fs):
                o += ',\n            ret.%s.idx == %d, ret.%s.contract == $A0' % (f, i, f)
            o += '\n    //@end\n'
            for f, t in fs:
                o += '    //@fn decl::%s::%s\n    //@spec\n        ensures ({ let x: %sId<%s> = ret; x == self.%s })\n    //@end\n' % (s, f, k, t, f)
            o += '}\nimpl %s {\n' % s
            o += '    //@fn decl::%s@%s::type_ids\n    //@lazy\n    //@spec\n        ensures ret@.len() == %d' % (tr, s, len(fs))
            for i, (f, t) in enumerate(fs):
                o += ',\n            ret@[%d] == crate::stub::tid::<%s>()' % (i, t)
            o += '\n    //@end\n'
            o += '    //@fn decl::%s@%s::enumerate_types\n    //@lazy\n    //@spec\n        ensures ret@.len() == %d' % (tr, s, len(fs))
            for i, (f, t) in enumerate(fs):
                o += ',\n            ret@[%d] == TpPropertyType::Primitive(TpPrimitiveType::%s)' % (i, VAR[t])
            o += '\n    //@entry\n        proof { crate::tp_client::contract::properties::traits::types(); }\n    //@end\n'
            o += '    //@fn decl::%s@%s::field_names\n    //@lazy\n    //@spec\n        ensures ret@.len() == %d' % (tr, s, len(fs))
            for i, (f, t) in enumerate(fs):
                o += ',\n            ret@[%d] == "%s"' % (i, f)
            o += '\n    //@end\n}\n'
    return o + '}\nfn main() {}\n'


def props():
    o = HEAD + '''//! M01: what the macros make of each declaration.
use tp_client::contract::properties::channels::{ChannelId, IChannels};
use tp_client::contract::properties::dynamic::{TpPrimitiveType as P, TpPropertyType};
use tp_client::contract::properties::states::{IStates, StateId};
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;
use decl::*;
'''
    for mac, p, k, tr in KINDS:
        for n, fs in D:
            s = p + n
            o += '\nfn c_%s(_h: ContractDataHandle) {\n    let _c = %s::new(_h);\n' % (s, s)
            for i, (f, t) in enumerate(fs):
                o += '    { let id: %sId<%s> = _c.%s(); assert!(id == %sId::new(%d, _h) && id.contract() == _h, "%s::%s() is {:?}", id); }\n' % (k, t, f, k, i, s, f)
            o += '    assert_eq!(<%s as %s>::type_ids(), &[%s] as &[std::any::TypeId], "types of %s");\n' % (s, tr, ', '.join('std::any::TypeId::of::<%s>()' % t for _, t in fs), s)
            o += '    assert_eq!(<%s as %s>::enumerate_types(), &[%s] as &[TpPropertyType], "types of %s");\n' % (s, tr, ', '.join('TpPropertyType::Primitive(P::%s)' % VAR[t] for _, t in fs), s)
            o += '    assert_eq!(<%s as %s>::field_names(), &[%s] as &[&str], "names of %s");\n}\n' % (s, tr, ', '.join('"%s"' % f for f, _ in fs), s)
    al = [p + n for _, p, _, _ in KINDS for n, _ in D]
    o += '\npub const N: usize = %d;\npub fn check(n: usize, h: ContractDataHandle) {\n    match n {\n' % len(al)
    for i, s in enumerate(al):
        o += '        %s => c_%s(h),\n' % (i if i < len(al) - 1 else '_', s)
    return o + '''    }
}

pub fn m01_decl<S: crate::src::Src>(s: &mut S) {
    let n = s.below(N as u32) as usize;
    check(n, ContractDataHandle::new(arena::generational_arena::Index::from_raw_parts(s.usize(), s.u64())));
}
'''


for path, text in [('decl/src/lib.rs', lib()), ('verus/decl.rs', verus()), ('props/decl.rs', props())]:
    with open(os.path.join(V, path), 'w') as f:
        f.write(text)
