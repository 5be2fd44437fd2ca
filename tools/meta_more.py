"""More property descriptions, in the form of tools/meta.py's D, and the reasons for those not claimed."""
PR = 'client/rust/src/contract/properties/'
CO = 'client/rust/src/contract/mod.rs'
MORE = {
'D01': ('Every value, field, handle and id reports the type it has', 'The type reported by a dynamic value, borrowed value, dynamic state or channel, handle or field id is the type of what it holds or names, telling apart all base types and their lists. What a static type declares about itself agrees with that.',
        ['inputs'], 'all 28 property types, all values, every kind of carrier', 'The carriers times 28 types are far more combinations than tests name, and one wrong row is enough.',
        [PR + 'dynamic/property.rs', PR + 'dynamic/primitive.rs', PR + 'dynamic/vec.rs', PR + 'traits.rs', PR + 'channels/dyn_channel/mod.rs', PR + 'states/dyn_handle.rs', PR + 'states/id.rs'],
        [('type tags', PR + 'dynamic/mod.rs TpPropertyType; traits.rs DATA_TYPE'), ('prop_type', PR + 'dynamic/*.rs, channels/dyn_channel/mod.rs, */dyn_handle.rs, */id.rs')],
        'Verus contracts on the macro-expanded real functions, one instance per type', 'All obligations discharged for every carrier and type.'),
'D02': ('Converting to a dynamic value and back preserves it', 'Converting a value to its dynamic form and back gives the same value, and converting it to any other type fails instead of changing it. Borrowing a dynamic value gives the value itself; what is written through a mutable borrow is what the value becomes.',
        ['inputs'], 'all values of all 28 types, owned, borrowed and mutably borrowed', 'Per-type conversion rows are written and generated many times; tests touch a few.',
        [PR + 'dynamic/from_impls.rs', PR + 'dynamic/property.rs', PR + 'dynamic/borrow_impls.rs', PR + 'states/dyn_state.rs', PR + 'channels/dyn_channel/from_impls.rs'],
        [('conversions', PR + 'dynamic/from_impls.rs, property.rs derives'), ('borrows', PR + 'dynamic/borrow_impls.rs'), ('states and channels', PR + 'states/dyn_state.rs, channels/dyn_channel/from_impls.rs')],
        'Verus contracts on the macro-expanded real functions; round trips are lemmas over them', 'All obligations discharged; mutable borrows by the prophecy of the final value.'),
'D03': ('Dynamic values are equal exactly when type and contents are', 'Comparing dynamic values with each other, or with a static value or list, in either order and owned or borrowed, says equal exactly when both have the same type and equal contents.',
        ['inputs'], 'all pairs of dynamic and static values of all 28 types', 'Pairs of types times both orders times ownership are hundreds of rows.',
        [PR + 'dynamic/eq_impls.rs', PR + 'dynamic/primitive.rs', PR + 'dynamic/vec.rs', PR + 'dynamic/property.rs', PR + 'states/dyn_state.rs'],
        [('mixed equality', PR + 'dynamic/eq_impls.rs, primitive.rs, vec.rs'), ('derived equality', PR + 'dynamic/property.rs, states/dyn_state.rs')],
        'Verus contracts on the macro-expanded real comparisons; symmetry is a lemma over them', 'All obligations discharged; equality of the base types themselves is the standard library\'s and assumed symmetric.'),
'S02': ('Dynamic handles read and write what the static handle does', 'A handle of dynamic type converts to and from the static handle of its type and of no other. Reading or writing through a dynamic handle reaches exactly the state or channel, with the value and type, that the static handle reaches, and nothing else; it is absent for one exactly when it is for the other.',
        ['inputs', 'histories'], 'all handles of all 28 types, all stores', 'One wrong row of the generated type tables sends reads or writes of one type elsewhere.',
        [PR + 'states/dyn_handle.rs', PR + 'channels/dyn_handle.rs', PR + 'states/dyn_state.rs', PR + 'states/handle.rs', PR + 'channels/handle.rs'],
        [('access', PR + 'states/dyn_handle.rs, channels/dyn_handle.rs get, get_mut'), ('conversions', 'derives and from_impls of the handle enums')],
        'Verus contracts on the macro-expanded real functions against the contracts of the static handles', 'All obligations discharged, one match arm per type.'),
'R01': ('A realm keeps two separate baselines', 'A realm gives, for each of the two kinds, the one baseline of that kind, which starts empty. Whatever is done to one baseline changes nothing in the other, and nothing in the realm\'s clock, which starts at zero.',
        ['inputs', 'histories'], 'both kinds, all contents, all histories of operations on either', 'The tests touch one baseline; that no operation ever reaches the other needs every operation and history.',
        ['client/rust/src/realm.rs', 'client/rust/src/baseline.rs'],
        [('selection', 'client/rust/src/realm.rs Realm::baseline, baseline_mut'), ('creation', 'client/rust/src/realm.rs Realm::new; baseline.rs Baseline::new')],
        'Verus contracts on the real functions; separation is the frame condition of every baseline operation', 'All obligations discharged; the borrow of one baseline leaves the other equal, by contract.'),
'E01': ('Collactions are decided whole, against the fork', 'A pending collaction is accepted exactly when every one of its assertions names a state that exists in the fork and equals the asserted value there; otherwise it is rejected. It comes back with its actions as they were sent, each is decided once and in the order sent, and deciding changes no state, no baseline and no clock. Ticking the engine advances the realm\'s clock by exactly that much, up to the end of its range. A bounded queue takes as many as it has places.',
        ['inputs', 'histories'], 'all collactions of assertions and channel actions, all realms, all queues', 'No test covers the engine at all; verdicts depend on every action, its type, and which baseline is read.',
        ['client/rust/src/engine.rs', 'client/rust/src/action/mod.rs', 'client/rust/src/action/property.rs', 'client/rust/src/realm.rs'],
        [('verdicts', 'client/rust/src/engine.rs apply_collaction, apply_action'), ('reversal', 'client/rust/src/engine.rs reverse_action(s)'), ('queue', 'client/rust/src/engine.rs new, try_apply, apply_timeout'), ('clock', 'client/rust/src/engine.rs tick')],
        'Verus contracts on the real functions, with a loop invariant over the actions and prophecies of the mutable borrows', 'All obligations discharged for any collaction; the channel crate\'s queue (order, capacity) is assumed by contract and cross-checked by bounded histories. Writing a present state is unimplemented in the code (todo!) and outside the property.'),
'A02': ('An arena holds what was put in it, under keys that tell values apart', 'An arena enumerates, forwards, backwards or by taking it apart, each live value exactly once, and its size and the announced number of remaining values are exact. Reserving room, however much, changes no contents. Typed keys are equal, ordered and hashed exactly as the places and generations they stand for.',
        ['inputs', 'histories'], 'all histories of inserting, removing, reserving, indexing and enumerating; all pairs of keys', 'One test inserts and removes three values; reserving nothing, for instance, broke the next insertion unnoticed.',
        ['crates/datastructures/arena/src/lib.rs'],
        [('storage', 'crates/datastructures/arena/src/lib.rs Arena'), ('enumeration', 'crates/datastructures/arena/src/lib.rs Iter, IterMut'), ('keys', 'crates/datastructures/arena/src/lib.rs Index')],
        'Verus contracts on the extracted real functions, over a ghost map of live values', 'All obligations discharged for every history. generational_arena is proved on its source too, except iter_mut and extend, which are assumed by contract and cross-checked by bounded histories.'),
'K01': ('A channel holds exactly its keyframes, in order of time', 'A keyframe has the value and the time it was made with. A channel made from keyframes holds each of them exactly once, ordered by time whenever every time is a number, and shows that same list for reading and for writing.',
        ['inputs'], 'all lists of keyframes of all types, with equal, negative, infinite and very close times', 'Times that differ by less than one, or beyond the range of integers, and repeated times are not sampled.',
        [PR + 'channels/channel.rs'],
        [('ordering', PR + 'channels/channel.rs Channel::new'), ('access', PR + 'channels/channel.rs keyframes, keyframes_mut, Keyframe')],
        'Verus contracts on the extracted real functions; floating-point order axioms proved by Kani', 'All obligations discharged for every list; slice sorting is assumed by contract (a permutation, sorted when the comparison is an order).'),
'K02': ('Tweens start and end exactly, and never pass their ends unasked', 'An integer tween gives the start at blend value zero and the target at one, in every integer type of up to 64 bits. It stays between the two for blend values in between; past them it stays on the outer side, at most to the limits of the type, and never fails. A jump gives the start until the blend value reaches one and the target from there on.',
        ['inputs'], 'all pairs of ends of each integer type and all finite blend values', 'Downward tweens, wide ranges and overshoot are where wrapping and rounding show.',
        [PR + 'channels/misc.rs'],
        [('integer tween', PR + 'channels/misc.rs IntTweenable::ease'), ('jump', PR + 'channels/misc.rs JumpTweenable::ease')],
        'Verus contract on the generic tween functions over axioms of f64 (themselves proved by Kani and Rocq), and Kani proofs per integer type', 'Proved for every input: the whole statement by Verus for every integer type of up to 64 bits, over five facts of f64 multiplication that Kani and Rocq/Flocq prove; besides, by CBMC, ends for all eight types, outer sides for six, staying between the ends for the 8-bit types.'),
'M01': ('A declared contract\'s fields are addressed and typed as declared', 'Each field of a declared contract, among its states or among its channels, has an accessor that gives the id at the field\'s position in the declaration, in the contract the declaration was bound to, with the declared type. The lists of types, of type descriptions and of names that the declaration reports hold one entry per field, in the order of declaration, each matching its field.',
        ['programs', 'inputs'], 'all declarations (20 are checked, of up to 70 fields, with every field type) and all contract handles', 'Every client\'s contract goes through the declaration macros; two-field samples cannot show a wrong position, type or name further on.',
        ['client/contract_macro/src/lib.rs', PR + 'states/id.rs', PR + 'channels/mod.rs'],
        [('declaration macros', 'client/contract_macro/src/lib.rs states, channels'), ('ids', PR + 'states/id.rs StateId::new; channels/mod.rs ChannelId::new')],
        'Verus contracts on the macros\' real expansion of each declaration', 'For each declaration, all obligations discharged for every contract handle. The declarations themselves are a fixed set (bounded); the macros are not proved for every declaration.'),
'F01': ('The C interface does what the Rust interface does', 'Each exported C function on states, keyframes, channels, ids, contract data and baselines gives and changes exactly what the Rust function it stands for gives and changes, for every base type. A value passed in or read back through C is the value itself, a returned reference is to the very item in the baseline, and lists keep their length and order.',
        ['inputs', 'histories'], 'all values of the 14 base types, all handles that resolve, all states of a baseline', 'The C functions are written once in macros and stamped out per type; no test calls them, and a swapped argument or a wrong accessor compiles.',
        ['client/rust/src/baseline.rs', 'client/rust/src/object.rs', CO, PR + 'mod.rs', PR + 'states/mod.rs', PR + 'states/id.rs', PR + 'states/handle.rs', PR + 'channels/mod.rs', PR + 'channels/channel.rs', PR + 'channels/handle.rs', 'crates/rsharp/rust/src/rvec.rs', 'crates/rsharp/rust/src/string.rs', 'demos/unity_states/rust/src/lib.rs', 'client/contract_example/rust/src/lib.rs', 'client/contract_example/rust/src/states.rs'],
        [('baseline functions', 'client/rust/src/baseline.rs c_api'), ('states and ids', PR + 'states/mod.rs, states/id.rs c_api'), ('channels and keyframes', PR + 'channels/channel.rs, channels/mod.rs c_api'), ('contract data', CO + ' c_api'), ('lists and strings', 'crates/rsharp/rust/src/rvec.rs, string.rs'), ('example contracts', 'demos/unity_states/rust/src/lib.rs, client/contract_example/rust/src/lib.rs')],
        'Verus contracts on the real C functions, expanded with c_api, one instance per base type', 'All obligations discharged for the functions of baselines, states, keyframes, channels, ids, contract data, lists, strings and the two example contracts, for all inputs. Bounded: freeing boxes, and the stamped C symbols themselves, which are called against the Rust interface.'),
}
NA_MORE = {}
