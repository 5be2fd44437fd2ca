"""What decides each property: proofs (Kani harness groups, Verus functions) and the bounded
stand-ins that replay counterexamples and cross-check (native bodies, scripts)."""

ARENA = [r'arena::.*']
IDS = [r'tp_client::contract::properties::states::id::.*', r'tp_client::contract::properties::channels::(ChannelId|DynChannelId)::.*',
       r'tp_client::contract::properties::channels::From.*']
ITER = [r'tp_client::contract::properties::states::iter::.*', r'tp_client::contract::properties::channels::(ChannelsIter|Iterator@ChannelsIter)::.*']
MAPS = [r'tp_client::contract::properties::states::(StateArenaMap|State)::.*', r'tp_client::contract::properties::channels::ChannelArenaMap::.*']
HANDLE = [r'tp_client::contract::properties::(states|channels)::handle::.*']
CDATA = [r'tp_client::contract::ContractData::.*']
DYNTYPE = [r'tp_client::contract::properties::dynamic::.*', r'tp_client::contract::properties::channels::dyn_channel::.*']
OBJECT = [r'tp_client::object::Object::.*']


def base(*names):
    return [r'tp_client::baseline::Baseline::(%s)' % '|'.join(names)]


BINDEX = [r'tp_client::baseline::Index(Mut)?<.*']


TRUSTED = {
    'common': ['rustc 1.70 / 1.99 compile the same semantics the verifiers read', 'the vendored `traitobject` crate replaces the cached one, which newer compilers reject; it is only the type map\'s internals'],
    'kani': ['Kani 0.68 and CBMC 6 (machine arithmetic is bit-precise)', 'the Kani back end\'s model of std'],
    'verus': ['Verus 0.2026.09.13 and Z3', 'the extractor /verif/extract (what it drops is listed in DESIGN.md)',
              'assumed contracts: iter_mut and extend of generational_arena::Arena (its other methods and iterators are proved, in unit ga), typemap::ShareMap (a map keyed by type), std HashSet/Vec/mem::take, itertools zip_longest/enumerate/try_fold as sequence functions, eyre errors opaque, panics unreachable or diverging',
              'assumed: the types a contract enumerates are constant during a run (Contract implementations are outside the code base)'],
    'verus/capi': ['assumed contracts: safer_ffi boxes, lists and string references hold the value given, ref_cast gives a reference to the same place, a type converts to itself unchanged; std String::from_utf8/from_utf16 invert the encodings',
                   'what the baseline does is proved in units core and dynamic; here it is assumed in a form that names one item and all the rest'],
    'verus/tween': ['assumed contracts: num_traits conversions of the primitive integers and floats (to_i128, from_i128, min_value, max_value, to_f64, one), i128 saturating_add/saturating_sub',
                    'multiplication of f64 is that of IEEE 754 rounding to nearest (what the proof needs of it is proved: Kani k02_f64_*, rocq/float_product.v)'],
    'verus/decl': ['assumed: lazy_static gives the value of its initialiser; vec! lists its elements'],
}

P = {}
P['T01'] = dict(level='proof', secs=3,
    kani=[['t01_add'], ['t01_add_assign'], ['t01_sub'], ['t01_sub_assign'], ['t01_mul', 't01_mul_alt1', 't01_mul_alt2', 't01_mul_alt3'],
          ['t01_mul_assign'], ['t01_order']],
    native={'native': ['t01_']})
P['T02'] = dict(level='proof', secs=6,
    kani=[['t02_apply'], ['t02_warp'], ['t02_default'], ['t02_start'], ['t01_sub'], ['t01_mul', 't01_mul_alt1', 't01_mul_alt2', 't01_mul_alt3']],
    native={'native': ['t02_']})
P['T03'] = dict(level='proof', secs=3,
    kani=[['t03_millis'], ['t03_secs'], ['t03_secs_f32'], ['t03_scale']],
    native={'native': ['t03_']})
P['A01'] = dict(level='proof', verus=ARENA + MAPS + HANDLE + base('new', 'object', 'object_mut', 'contract_data', 'state', 'state_mut', 'channel', 'channel_mut', 'state_remove',
                'channel_remove', 'state_create', 'channel_create', 'iter_objects') + BINDEX, native={'native': ['a01_']})
P['C01'] = dict(level='proof', verus=ARENA + CDATA + base('new', 'register_contract', 'contract_data', 'unregister_contract'), native={'native': ['c01_']})
P['C02'] = dict(level='proof', verus=ARENA + CDATA + ITER + IDS + MAPS + base('unregister_contract', 'object_remove', 'state_remove', 'channel_remove')
                + [r'tp_client::object::Object::(bind_state|bind_channel|contract)'], native={'native': ['c02_']})
P['O01'] = dict(level='proof', verus=ARENA + CDATA + DYNTYPE + base('object_create'), native={'native': ['o01_']})
P['O02'] = dict(level='proof', verus=ARENA + MAPS + HANDLE + OBJECT + base('object_create', 'state_create', 'channel_create', 'bind_state', 'bind_channel', 'channel'),
                native={'native': ['o02_']})
P['O03'] = dict(level='proof', verus=ARENA + CDATA + ITER + IDS + MAPS + base('object_remove', 'state_remove', 'channel_remove')
                + [r'tp_client::object::Object::(bind_state|bind_channel|contract)'], native={'native': ['o03_']})
P['O04'] = dict(level='proof', verus=OBJECT + [r'tp_client::contract::properties::(states::id::StateId|channels::ChannelId)::.*']
                + base('bind_state', 'bind_channel', 'object'), native={'native': ['o04_']})
P['S01'] = dict(level='proof', verus=ARENA + MAPS + HANDLE + base('channel', 'channel_mut', 'object_mut', 'state', 'state_mut', 'state_create', 'channel_create', 'object_create')
                + BINDEX, native={'native': ['s01_']})
P['I01'] = dict(level='proof', verus=ITER + IDS + [r'tp_client::contract::Contract::.*'], native={'native': ['i01_']})


DYNP = r'tp_client::contract::properties::(dynamic|states::dyn_state|channels::dyn_channel)::'
P['D01'] = dict(level='proof', verus={'dynamic': [DYNP + r'.*prop_type', r'.*dyn_handle::.*prop_type', r'.*::primitive_type', r'.*::(DATA|PROPERTY)_TYPE', r'.*traits::ITpProperty@T::prop_type'], 'core': IDS},
                native={'native': ['d01_']})
P['D02'] = dict(level='proof', verus={'dynamic': [DYNP + r'.*::(from|try_from|borrow|borrow_mut|clone)']}, native={'native': ['d02_']})
P['D03'] = dict(level='proof', verus={'dynamic': [DYNP + r'.*::eq']}, native={'native': ['d03_']})
P['S02'] = dict(level='proof', verus={'dynamic': [r'.*::dyn_handle::.*', r'.*::dyn_state::From<.*', r'.*::dyn_channel::.*From<&.*'], 'core': HANDLE},
                native={'native': ['s02_']})
P['D03']['verus']['dynamic'].append(r'.*::PartialEq@Tp(Property|Primitive)Type::eq')
P['D01']['verus']['dynamic'].append(r'.*::PartialEq@Tp(Property|Primitive)Type::eq')
P['R01'] = dict(level='proof', verus={'dynamic': [r'tp_client::realm::.*', r'tp_client::time::RealmTime::.*', r'tp_client::time::Default@RealmTime::.*'],
                'core': ARENA + base('new', 'kind', 'register_contract', 'unregister_contract', 'object_create', 'object_remove')},
                native={'native': ['r01_']})
P['E01'] = dict(level='proof', verus={'dynamic': [r'tp_client::engine::.*', r'tp_client::action::.*', r'tp_client::realm::.*', r'tp_client::time::.*',
                r'.*::(dyn_handle|dyn_state)::.*', DYNP + r'.*::(eq|borrow|prop_type)', r'.*::PartialEq@Tp(Property|Primitive)Type::eq', r'tp_client::baseline::.*'],
                'core': HANDLE}, kani=[['t01_add'], ['t01_add_assign']], native={'native': ['e01_']})
P['A01']['verus'] = {'core': P['A01']['verus'], 'ga': [r'generational_arena::.*']}
P['A02'] = dict(level='proof', verus={'core': ARENA, 'ga': [r'generational_arena::.*']}, native={'native': ['a02_']})
P['K01'] = dict(level='proof', verus={'channel': [r'tp_client::contract::properties::channels::channel::.*']}, kani=[['k01_float_order']],
                native={'native': ['k01_']})
INTS = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64']
P['K02'] = dict(level='proof',
                verus={'tween': [r'tp_client::contract::properties::channels::misc::.*']}, rocq=['float_product'],
                kani={'tween_kani': [['k02_jump'], ['k02_f64_outer'], ['k02_f64_over'], ['k02_f64_cut'], ['k02_f64_key']] + [['k02_%s_ends' % t] for t in INTS] + [['k02_%s_any' % t] for t in INTS[:6]] + [['k02_u8_within'], ['k02_i8_within']]},
                kani_thorough={'tween_kani': [['k02_%s_any' % t] for t in INTS[6:]] + [['k02_%s_near' % t] for t in INTS]},
                native={'tween': ['k02_']})
P['M01'] = dict(level='translation_validation', verus={'decl': [r'decl::.*', r'tp_client::contract::properties::(states::id::StateId|channels::ChannelId)::new']},
                native={'native': ['m01_']})
P['F01'] = dict(level='proof', verus={'capi': [r'tp_client::.*', r'rsharp::.*', r'unity_states::.*', r'tp_contract_example::.*']}, native={'native': ['f01_']})
PROPS = P
