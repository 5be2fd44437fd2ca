#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below and registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPS  # noqa

B = 'client/rust/src/baseline.rs'
AR = 'crates/datastructures/arena/src/lib.rs'
CO = 'client/rust/src/contract/mod.rs'
OB = 'client/rust/src/object.rs'
TI = 'client/rust/src/time/mod.rs'
PR = 'client/rust/src/contract/properties/'

# id: title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], technique, level_note
D = {
'T01': ('Clock arithmetic never wraps', 'Adding, subtracting and scaling times gives the mathematically exact tick count (scaling rounds down to a whole tick), or the nearest representable time when the exact one does not fit. The in-place forms agree with the others, and times are ordered as their tick counts.',
        ['inputs'], 'all pairs of tick counts and all scale factors', 'A handful of small sums never reaches the ends of the range, negative rounding, or the wide intermediate product.',
        [TI, 'client/rust/src/engine.rs'], [('saturating tick arithmetic', TI + ' Ticks add/sub/mul'), ('ordering', TI + ' Ticks, ChannelTime, RealmTime')],
        'Kani function contracts stated as assertions over fully symbolic inputs (bit-precise proof)', 'Proved for every input by CBMC on the compiled real code; no bound.'),
'T02': ('An object\'s own time is its parent\'s time, shifted and scaled', 'The time an object sees is the distance of its parent\'s time from the object\'s start offset, scaled by the object\'s speed. With no warp set, an object\'s time is its parent\'s time at every instant, and a new object has no warp until one is set on it.',
        ['inputs', 'histories'], 'all parent times, offsets and speeds; all histories of creating objects and setting their warps', 'Tests sample a few resolved times, not the whole product space nor rounding below zero.',
        [TI, OB], [('warp application', TI + ' TimeWarp::apply, ChannelTime::warp'), ('default warp', TI + ' TimeWarp/TimeScale Default'), ('per-object warp', OB)],
        'Kani proof over symbolic inputs, composed with the contracts of subtraction and scaling', 'The composition is proved for all inputs; that new objects get the default warp is cross-checked by bounded histories.'),
'T03': ('Ticks convert to and from seconds consistently', 'A tick count converts to milliseconds and to seconds by the declared number of ticks per second, and a speed factor round-trips through its numerator over the fixed denominator.',
        ['inputs'], 'all tick counts and speed factors', 'Unit errors show only at particular magnitudes or where two conversions disagree.',
        [TI], [('units', TI + ' Ticks::as_millis/as_secs, TimeScale')], 'Kani proof over symbolic inputs', 'Proved for every input by CBMC; no bound.'),
'A01': ('A handle reaches only the item it was issued for', 'A handle to a contract, object, state or channel resolves to the item it was issued for as long as that item exists, and to nothing once the item is removed. A handle never comes to denote a different, later item, and a handle that was never issued resolves to nothing.',
        ['histories'], 'all histories of creating, removing and looking up items through live, stale and foreign handles', 'The danger is slot reuse after particular remove/create sequences, which sampled tests do not reach.',
        [AR, B, PR + 'states/handle.rs', PR + 'channels/handle.rs'], [('typed arena', AR + ' Arena, Index'), ('lookups', B + ' object/contract_data/channel, handle get')],
        'Verus contracts on the extracted real functions: handles index a ghost map of issued keys', 'Every obligation discharged for all histories. The contract of generational_arena is proved on its source too, except its iterators, which are assumed and cross-checked by bounded histories.'),
'C01': ('A contract is registered at most once, under its own identity', 'Registering a contract succeeds exactly when no contract with the same name and version is currently registered, and the handle it returns is new and names that contract. A failed registration changes nothing, and a contract that was unregistered can be registered again.',
        ['histories'], 'all histories of registering and unregistering contracts', 'Duplicates differ in how they arise (version-only differences, re-registration after removal), a space tests only sample.',
        [B, CO], [('registration', B + ' register_contract'), ('identity', CO + ' ContractId, ContractData')],
        'Verus contracts on the extracted real functions with an object invariant of unique identities', 'All obligations discharged for every contract type and history; HashSet and the arena dependency are assumed by contract.'),
'C02': ('Unregistering a contract removes it and exactly its objects', 'Unregistering a contract under its own identity removes the contract, all objects created for it and all their fields. Every other contract, object and field keeps its existence and value; with a wrong handle or identity the operation fails and changes nothing.',
        ['histories'], 'all histories, contracts with any number of objects and fields', 'Leaks and collateral removals depend on the history of what else exists.',
        [B, CO, OB], [('cascade', B + ' unregister_contract, object_remove'), ('object list of a contract', CO + ' ContractData::objects')],
        'Verus contracts: postcondition over the whole ghost state, loop invariants for the cascade', 'All obligations discharged for every history; HashSet iteration and the arena are assumed by contract.'),
'O01': ('An object is created only with exactly the fields its contract declares', 'Creating an object succeeds exactly when the handle names the registered contract of the given identity and the supplied states and channels match the contract\'s fields in number, order and type. A refused creation leaves every contract, object and field as it was.',
        ['inputs', 'histories'], 'all contracts, handles and supplied field lists', 'There are 28 types times positions times lengths, and partial creation shows only after a late mismatch.',
        [B], [('validation before creation', B + ' object_create')],
        'Verus contracts on the extracted real function (closures and loops included)', 'All obligations discharged for every contract type and supplied iterator; itertools adapters are assumed by contract.'),
'O02': ('A new object\'s fields hold the values it was created with', 'After an object is created, binding and reading each of its states and channels gives the value supplied for that field, the object lists under its contract, and no other object\'s fields changed.',
        ['inputs', 'histories'], 'all field lists of all types, in any surrounding history', 'Mix-ups between fields of the same type or between objects need particular shapes of contract.',
        [B, OB], [('creation and field order', B + ' object_create, state_create, channel_create'), ('field handles', OB + ' Object')],
        'Verus contracts: postcondition relates every new field handle to its supplied value', 'All obligations discharged; map and arena dependencies assumed by contract.'),
'O03': ('Removing an object removes exactly that object and its fields', 'Removing an object as its own contract removes the object, its entry in the contract\'s object list and all its fields. Everything else is unchanged; removing with a stale handle or as another contract fails and changes nothing.',
        ['histories'], 'all histories, objects of any contract', 'Leaked or over-removed fields show only through handles kept from before.',
        [B, OB, CO], [('removal', B + ' object_remove, state_remove, channel_remove')],
        'Verus contracts with loop invariants over the removed fields', 'All obligations discharged for every history; the warning branch of the logger is assumed effect-free.'),
'O04': ('Field ids bind only to objects of their own contract', 'Binding a field id to an object gives the handle of that very field when the id belongs to the object\'s contract and the field exists, the same handle every time. An id of another contract, a field index out of range or a removed object is refused.',
        ['inputs', 'histories'], 'all ids, objects and contracts', 'Confusable ids (same index, other contract registration) are rare in tests.',
        [OB, B], [('binding', OB + ' bind_state, bind_channel, state, channel; ' + B + ' bind_state, bind_channel')],
        'Verus contracts on the extracted real functions', 'All obligations discharged for all inputs.'),
'S01': ('Writing one field changes that field only', 'A value written through a state or channel handle is the value read back through any handle of that field. No other field, object, contract or object time is affected, and a handle reads the type of value it is declared for.',
        ['histories'], 'all histories of writes to any fields through any access path', 'Aliasing between fields depends on types and slots of all the others.',
        [B, PR + 'states/handle.rs', PR + 'channels/handle.rs', PR + 'states/mod.rs', PR + 'channels/mod.rs'],
        [('typed storage', PR + 'states/mod.rs StateArenaMap; ' + PR + 'channels/mod.rs ChannelArenaMap'), ('access', PR + 'states/handle.rs get/get_mut; ' + B + ' channel_mut')],
        'Verus contracts: mutable access is framed to one entry of the ghost state', 'All obligations discharged; ShareMap assumed to be a map keyed by type.'),
'I01': ('Field ids enumerate every field of a contract once, in order', 'Enumerating the state or channel ids of a contract yields one id per declared field, in declaration order, with the field\'s own index, type and contract; skipping ahead skips exactly that many, and the announced number of remaining ids is exact. Asking for one id by index gives that same id, or nothing when there is no such field.',
        ['inputs', 'programs'], 'all contracts and all ways of stepping through the enumeration', 'Skips and ends in combination (skip past the end, then ask the size) are not sampled by tests.',
        [PR + 'mod.rs', PR + 'states/iter.rs', PR + 'channels/mod.rs', CO], [('iterators', PR + 'mod.rs prop_iter'), ('lookup by index', CO + ' state_id, chan_id'), ('dynamic id construction', PR + 'dynamic/__macro.rs DynTpPropId')],
        'Verus contracts on the extracted macro-expanded iterators', 'All obligations discharged for every contract type and index.'),
}
NA = {}
try:
    from meta_more import MORE, NA_MORE
    D.update(MORE)
    NA.update(NA_MORE)
except ImportError:
    pass


def main():
    lines, checks = [], []
    for i in sorted(set(D)):
        title, st, over, q, why, files, mech, tech, note = D[i][:9]
        assert len(title) <= 80, (i, len(title))
        p = {'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
             'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
        if len(D[i]) > 9:
            p['anchors'].update(D[i][9])
        lines.append(json.dumps(p))
        if i in PROPS:
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                           'technique': tech, 'level': PROPS[i]['level'], 'level_note': note})
        else:
            assert i in NA, i
    open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
         'checks': checks,
         'not_applicable': [{'property': i, 'reason': r} for i, r in sorted(NA.items()) if i not in PROPS],
         'notes': 'DESIGN.md explains the machinery; known-findings.txt lists repaired and known defects.'}
    hooks = os.path.join(V, 'tools', 'hooks.json')
    if os.path.exists(hooks):
        m['hooks'] = json.load(open(hooks))
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
