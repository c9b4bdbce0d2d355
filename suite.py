"""Which harnesses decide which property, within which bounds. See DESIGN.md."""
CRATES = ["core", "capi", "serial"]
COMMON_ASSUMPTIONS = [
    "one thread of control (C25: several); encoded is the optimised LLVM IR (opt-level 1, fat LTO, overflow checks and debug assertions on, panic=abort) of the "
    "harness linked with /repo's crates, their dependencies and the standard library",
    "the allocator never fails and never hands an address out twice; fresh memory is filled with 0xA5",
    "stand-ins: getrandom gives fixed hash seeds, the clock is a counter, getenv finds nothing, write to stderr is swallowed, futex calls return at once",
    "hash maps therefore see one iteration order per key set (C02's orders are checked through the arena's own iterators)",
    "byte strings and lists have the lengths stated in the bounds",
]
SUITE = {}


def prop(id, *hs, assumptions=()):
    SUITE[id] = {"harnesses": list(hs), "assumptions": list(assumptions)}


def H(entry, bounds, reach=(), crate="core", **kw):
    return dict(entry=entry, bounds=bounds, reach=list(reach), crate=crate, **kw)


def deep(q, t, bounds, reach, **kw):
    """The same harness at two depths: (entry, depth) for each tier."""
    return [H(q[0], bounds % q[1], reach, tiers=Q, big=True, **kw), H(t[0], bounds % t[1], reach, tiers=T, big=True, **kw)]


Q, T = ("quick",), ("thorough",)

# ---- generational arena ----
_r = ["slot reused", "stale remove", "stale index", "two live"]
prop("C01", *deep(("h_c01_history5", 5), ("h_c01_history6", 6),
                  "every history of %d operations (insert, try_insert, insert_with, remove, get/get_mut/index, clear, retain, drain, reserve), any u32 "
                  "values, every handle issued so far probed after each, capacity 0-3 at the start", _r),
     H("h_c01_large", "7-40 entries (several growths), two removals and a write at 5 places, up to 3 insertions", ["large"], big=True),
     H("h_c01_owned", "values that own memory, values of no size", ["owned"]),
     H("h_c01_forged", "any slot and generation (64 bits each) against arenas of up to 3 entries with reuse", ["forged handle"]))
prop("C02", *deep(("h_c02_history3", 3), ("h_c02_history5", 5),
                  "every history of %d operations, then every way to walk: forwards, backwards, mixed, mutable; size, membership, exact hints", 
                  ["several entries visited", "slot reused", "stale index", "written while iterating"]),
     *deep(("h_c02_history4", 4), ("h_c02_history4", 4), "every history of %d operations and every way to walk the arena", 
           ["reserved", "several entries visited", "slot reused", "stale index", "stale remove", "written while iterating"]),
     *deep(("h_c02_iterators3", 3), ("h_c02_iterators4", 4), "arenas of up to %d entries with any gaps: nth, nth_back, last, count, skip, rev, step_by, "
           "fold, rfold of all four iterators, from either end, any steps", ["several entries visited"]),
     H("h_c02_large", "arenas of 7-40 entries", ["large", "reserved", "several entries visited", "written while iterating"], big=True),
     H("h_c02_handles", "any three handles (128 bits each): total order, equality, hash", ["a chain", "equal handles"]))

# ---- stores ----
prop("C03", H("h_c03_types", "each of the 28 types in each position among up to 3 fields of its own and 4 other types; any value", ["verified"], big=True),
     H("h_c03_values", "each type, two objects, any value with strings and lists of length 0-2", ["verified"], big=True),
     *deep(("h_c03_shapes3", (3, 3)), ("h_c03_shapes4", (4, 4)), "up to %d fields of any of 4 types, %d objects of two contracts", ["verified"]),
     H("h_c03_lookup", "each type: bound handles, dynamic ids, foreign and out-of-range ids", ["looked up"]),
     H("h_c03_many", "a contract of 28 states and 28 channels", ["verified"]),
     H("h_c03_crowd", "12 objects of two contracts", ["verified"]),
     H("h_c03_forged_ids", "ids of any index (64 bits) and any contract handle (128 bits), states and channels, two contracts", ["bound", "refused"]),
     H("h_c03_reused_contract", "ids of an unregistered contract whose slot another (or the same) has taken", ["contract slot reused"]),
     H("h_c03_object_any", "Object::state/channel with any index (64 bits)", ["asked"]),
     H("h_c03_object_lookup", "Object::state/channel with own and foreign contracts' ids", ["foreign id"]))
prop("C04", H("h_c04_types", "each type, states and channels, each way to write, among twin fields and objects; any values", ["written"], big=True),
     *deep(("h_c04_writes3", 3), ("h_c04_writes4", 4), "every sequence of %d writes to any field of two objects (states, channels, warps)", ["warped"]),
     H("h_c04_many", "any field of objects with 28 states and 28 channels", ["written"]),
     H("h_c04_crowd", "any of 12 objects", ["written"]),
     H("h_c04_reused", "writes after slots were freed and reused, through live and stale handles", ["stale write"], big=True))
prop("C05", H("h_c05_pairs", "every declared type against every supplied type, states and channels, at positions 0-2 among matching fields of related types", ["refused"], big=True),
     *deep(("h_c05_counts1", (1, 3)), ("h_c05_counts2", (2, 3)), "up to %d declared fields of each kind, up to %d supplied, any of 4 types",
           ["accepted", "too few channels", "too many states"]),
     H("h_c05_many", "28 states and 28 channels, one mistyped, missing, repeated or swapped at any place", ["refused"], big=True),
     H("h_c05_leak", "refused creations in a store with objects: contents unchanged, no field stored", ["refused"]),
     H("h_c05_instances", "contract instances for dead, foreign and forged handles", ["accepted", "refused"]))
_r = ["removal as another contract", "stale removal"]
prop("C06", H("h_c06_types", "each type: fields of the removed object gone, its twin's kept, slots reused", ["removed", "removal as another contract"], big=True),
     *deep(("h_c06_history5", 5), ("h_c06_history7", 7), "every history of %d creations and removals of up to 2 contracts", _r),
     H("h_c06_crowd", "two of 12 objects removed, two created", ["removed"], big=True),
     H("h_c06_many", "objects with 28 states and 28 channels", ["removed"]),
     H("h_c06_forged", "any object handle (128 bits)", ["removed", "refused"]),
     H("h_c06_reclaimed", "repeated create/remove: arena slots and heap blocks do not grow", ["cycled"]))
_r = ["refused creation", "refused registration", "refused unregistration", "unregistered with objects"]
prop("C07", *deep(("h_c07_history5", 5), ("h_c07_history6", 6), "every history of %d register/unregister/create/remove over 4 contract kinds, two sharing an identity", _r),
     H("h_c07_identities", "every two of 9 identities (names, prefixes, each version part, parts over 255): registered, unregistered, used crosswise",
       ["same identity", "different identity"]),
     H("h_c07_identity_eq", "any two identities: names of 0-3 bytes, any versions", ["same identity", "different identity"]),
     H("h_c07_crowd", "12 objects of two contracts, one contract unregistered", ["swept"]),
     H("h_c07_many", "8 contracts with 0-2 objects each, any one unregistered", ["registered again"]),
     H("h_c07_sweep", "several objects per contract, some removed before, one contract unregistered", []),
     H("h_c07_forged", "any contract handle (128 bits)", ["unregistered", "refused"]),
     H("h_c07_types", "each type: fields swept with their contract", ["swept"], big=True))
prop("C08", *deep(("h_c08_history4", 4), ("h_c08_history6", 6), "every history of %d operations on either store of a realm, at any time", ["both stores used"]),
     H("h_c08_crossed", "every operation on one store through handles of the other", ["crossed"], big=True))

# ---- typed and dynamic views ----
prop("C09", H("h_c09_states", "each type: typed and dynamic state handle, live, stale and forged; any values", ["state compared", "unresolved state"], big=True),
     H("h_c09_channels", "each type: typed and dynamic channel handle", ["channel compared", "unresolved channel"], big=True),
     H("h_c09_empty", "each type against a store that has no arena for it", ["unresolved channel", "unresolved state"], big=True),
     H("h_c09_back", "every pair of types: handles and ids convert back to their own type only", ["same type", "other type"]))
prop("C10", H("h_c10_roundtrip", "each type through every conversion and view, lengths 0-2", ["converted"]),
     H("h_c10_long", "texts (beyond ASCII) and lists of 8 lengths from 3 to 24", ["converted"]),
     H("h_c10_write", "each type: writes through mutable views", ["written"]),
     H("h_c10_unwrap", "every pair of types: unwraps as its own type only", ["own type", "other type"]),
     H("h_c10_blanket", "borrowing through references and boxes", ["written"]))
prop("C11", H("h_c11_same_type", "each type: every comparison form, both sides, lengths 0-2, NaN and signed zeros", ["equal", "different"], big=True),
     H("h_c11_other_type", "every pair of different types", ["compared"], big=True),
     H("h_c11_long", "texts (beyond ASCII) and lists of 5 lengths from 3 to 17, or one longer", ["equal", "different"], big=True),
     H("h_c11_empty", "empty lists and strings of every pair of types", ["compared"]))
prop("C12", *deep(("h_c12_walk3", 3), ("h_c12_walk4", 4), "every sequence of %d next/nth/skip steps with any argument over contracts of 0-3 fields",
                  ["skipped some", "skipped beyond the end"]),
     H("h_c12_types", "each type in each position", ["skipped beyond the end", "skipped some"], big=True),
     H("h_c12_many", "contracts of 9-40 fields", ["beyond", "found", "skipped beyond the end", "skipped some"], big=True),
     H("h_c12_lookup", "positional lookup with any index", ["found", "beyond"]))

# ---- channels, tweens, time ----
prop("C13", *deep(("h_c13_sorted4", 4), ("h_c13_sorted6", 6), "every sequence of up to %d keyframes, any times but NaN (ties, infinities, signed zeros)",
                  ["equal times", "reordered"]),
     H("h_c13_long1", "24 keyframes in 4 patterns with one arbitrary time among them", ["sorted"], big=True),
     H("h_c13_repeats3", "up to 3 keyframes, any values and times, alike or not: as many of each as were given", ["twice the same"], tiers=Q),
     H("h_c13_repeats4", "up to 4 keyframes, likewise", ["twice the same"], tiers=T),
     H("h_c13_any_time", "up to 4 keyframes, NaN included: none lost or altered", ["not a number"]),
     H("h_c13_edit", "up to 3 keyframes, one replaced by any other", ["edited"]),
     H("h_c13_types", "each type, two keyframes, any values and distinct times", ["in order", "out of order"], big=True),
     H("h_c13_stored", "3 keyframes, seen through an object in a store", ["stored"]))
prop("C14", H("h_c14_jump", "8 value types, any values, any progress from 0 (f64 and f32)", ["before the jump", "after the jump"]),
     H("h_c14_ends", "8 integer types, every start and target, progress 0 and 1 (f64 and f32)", ["upwards", "downwards"]),
     H("h_c14_monotone_narrow", "8- and 16-bit integers, every start and target, every two progresses in [0,1] (f64 and f32)", ["compared"], big=True, qtimeout=120000),
     H("h_c14_monotone_32", "32-bit integers, likewise", ["compared"], big=True, qtimeout=120000),
     H("h_c14_monotone_64", "64-bit integers, every start and target, every two f64 progresses in [0,1]", ["compared"], big=True, qtimeout=120000),
     H("h_c14_rounding", "wide integers, every start and target, 6 progresses at which products round", ["compared"], big=True),
     H("h_c14_between8", "8-bit integers: within the interval, product encoded exactly", ["upwards", "downwards"], big=True, tiers=T),
     H("h_c14_between", "16- to 64-bit integers: within the interval, product encoded exactly", ["upwards", "downwards"], big=True, tiers=T, qtimeout=120000),
     assumptions=["for unsat answers floating-point products and integer conversions may be replaced by variables with valid lemmas (monotone, exact at 0 and 1); "
                  "every other answer comes from the exact encoding"])
prop("C15", H("h_c15_add", "every two 32-bit tick values", ["above the range", "below the range"]),
     H("h_c15_sub", "every two 32-bit tick values", ["above the range", "below the range"]),
     H("h_c15_scale", "every 32-bit tick value and scale", ["above the range", "below the range", "rounded down from a negative fraction"]),
     H("h_c15_unit", "every tick value, unit scale", ["unit"]),
     H("h_c15_secs", "every tick value", ["truncated from a negative"]),
     H("h_c15_scale_float", "every scale", ["converted"]),
     H("h_c15_order", "every two tick values", ["compared"]))
prop("C16", H("h_c16_warp", "every parent time, offset and scale (32 bits each)", ["negative scale", "above the range", "difference below the range"], big=True),
     H("h_c16_monotone", "every two parent times and offset, 8 scales (the general case follows from h_c16_warp's exact formula)", ["compared"], big=True),
     H("h_c16_identity", "new objects in fresh and reused slots, every parent time", ["slot reused"]),
     H("h_c16_object", "a warp set on one of two objects, any values", ["warped"]))

# ---- engine ----
_r = ["applied", "closed", "full", "nothing pending", "rejected", "timed out"]
prop("C17", *deep(("h_c17_tick", 2), ("h_c17_tick4", 4), "%d ticks of any amounts from any time", ["above the range"]),
     *deep(("h_c17_queue5", 5), ("h_c17_queue7", 7), "every sequence of %d send/try_apply/apply_timeout/tick/disconnect steps, then draining; unbounded and capacity 0, 1, 2", _r),
     H("h_c17_capacity", "16 capacities from 0 to 100, filled to the brim twice", ["full", "applied", "nothing pending"]),
     H("h_c17_long", "33 pending collactions across queue blocks, unbounded and bounded", ["applied", "full", "nothing pending"]))
prop("C18", *deep(("h_c18_collaction3", 3), ("h_c18_collaction4", 4),
                  "every collaction of %d actions: assert/write on 3 fields, through stale handles, of mismatched data, channel actions; any values", ["applied", "rolled back"]),
     *deep(("h_c18_rollback4", 4), ("h_c18_rollback6", 6), "%d writes to two fields with an assertion or a failing action at any place", ["applied", "rolled back"]),
     *deep(("h_c18_undo5", 5), ("h_c18_undo7", 7), "%d writes and assertions that hold, in any order over two fields, then an action that fails", ["rolled back"]),
     H("h_c18_undo4", "4 of them, then one of 4 last actions", ["applied", "rolled back"], big=True),
     H("h_c18_two", "two collactions in a row (2 actions, then 1)", ["two applied", "rolled back"], big=True),
     H("h_c18_long", "9-33 actions, failing at the end, in the middle or not", ["applied", "rolled back"]),
     H("h_c18_empty", "the empty collaction", ["empty"]),
     H("h_c18_types", "each of the 28 types: write, assert, failing action", ["applied", "rejected"], big=True),
     H("h_c18_pairs", "every pair of different types of handle and data", ["rejected"], big=True),
     H("h_c18_forged", "a write through any handle (128 bits)", ["applied", "rejected"]))

# ---- contract macros ----
prop("C19", H("h_c19_lists", "4 contracts: every single type in two orders, 18 fields of repeated types, one field, none", ["lists compared"]),
     H("h_c19_accessors", "the same contracts, any contract handle (128 bits)", ["accessors compared"]),
     H("h_c19_behaviour", "the same contracts, two objects, one field rewritten; any values", ["state written", "channel written"], big=True),
     assumptions=["the macros are checked through the code they generate for these contracts"])

# ---- foreign interface ----
_r = ["text copied", "not text"]
prop("C20", *deep(("h_c20_utf8_4", 4), ("h_c20_utf8_6", 6), "every byte sequence of length 0-%d", _r, crate="capi"),
     H("h_c20_utf8_long", "17-24 bytes, two neighbouring ones arbitrary at any place", _r, crate="capi", big=True),
     *deep(("h_c20_utf16_3", 3), ("h_c20_utf16_5", 5), "every sequence of 0-%d 16-bit units", _r, crate="capi"),
     H("h_c20_utf16_long", "5-8 units, two neighbouring ones arbitrary at any place", _r, crate="capi"),
     H("h_c20_rust_views", "borrowed and owned conversions, texts of 0-2 characters", ["converted"], crate="capi"))
_r = ["read out of range", "stored", "stored out of range"]
prop("C21", *deep(("h_c21_history4", 4), ("h_c21_history6", 6), "every history of %d push/get/set with any index and items, 3 item types", _r, crate="capi"),
     H("h_c21_types", "each of the 14 item types: two pushes, a store, an access out of range", ["two items"], crate="capi"),
     H("h_c21_long", "20 pushes (growth), one item arbitrary", ["grown"], crate="capi"))
prop("C22", H("h_c22_fields", "each of 14 types: two objects with twin fields, one written; any values", ["written"], crate="capi", big=True),
     H("h_c22_channel_write", "each type: a keyframe edited through the exclusive view", ["written"], crate="capi", big=True),
     H("h_c22_invalid", "each type: dead, foreign, forged and out-of-range handles and ids in every function taking one", ["refused"], crate="capi", big=True),
     H("h_c22_values", "each type: states, keyframes, values, ids made, read, written and released", ["made and released"], crate="capi"),
     H("h_c22_channels", "each type: channels of two keyframes, any values and times but NaN", ["channel made"], crate="capi"),
     H("h_c22_channels_long", "channels of 0-3 keyframes, any times but NaN", ["channel made"], crate="capi"),
     H("h_c22_id", "any identity: names of 0-3 bytes, any versions", ["told"], crate="capi"),
     *deep(("h_c22_identity4", 4), ("h_c22_identity6", 6), "every history of %d creations and removals of two contracts: identities, versions, object lists",
           ["none left", "object queried"], crate="capi"))
prop("C23", H("h_c23_ball", "two ball objects, any arguments; one field rewritten, one object removed, then unregistered", 
              ["created", "registered twice", "removed twice", "unregistered"], crate="capi", big=True),
     H("h_c23_ball_cycles", "four register/create/remove/unregister cycles", ["cycled"], crate="capi"),
     H("h_c23_example", "two example objects, any arguments, texts of 0-2 characters", ["registered twice", "removed twice", "unregistered"], crate="capi", big=True),
     H("h_c23_both", "both contracts in one store", ["other contract unregistered", "other contract's object"], crate="capi"))

# ---- serialisation ----
_r = ["round trip"]
prop("C24", H("h_c24_values", "two objects of 15 fields covering all 14 primitive types, any values, texts of up to 2 bytes", _r, crate="serial"),
     H("h_c24_links", "2 objects of two references each, any targets among 4 objects (cycles, themselves)", _r, crate="serial"),
     H("h_c24_links3", "3 objects, targets among 5", _r, crate="serial", big=True),
     *deep(("h_c24_history3", 3), ("h_c24_history5", 5), "4 objects and every history of %d further creations, removals, writes and re-registrations",
           _r, crate="serial"),
     H("h_c24_many", "54 objects with 265 fields", _r, crate="serial"),
     H("h_c24_orders", "three contracts in any order when serialised, registered and restored, either kind of store", _r, crate="serial"),
     H("h_c24_again", "what was read back is changed and goes round again", _r, crate="serial"),
     H("h_c24_part", "only some contracts serialised or restored", ["part of a store"], crate="serial"),
     H("h_c24_missing", "references, any, to objects and contracts that are not restored", ["refused", "restored"], crate="serial"),
     H("h_c24_other", "12 contracts that differ from a serialised one in name, version, number, order, names or types of fields", ["others refused"],
       crate="serial"),
     H("h_c24_reused", "a buffer builder with content left over", _r, crate="serial"),
     assumptions=["stand-ins, as the originals are not available offline: flatc (harness/serialize/build.rs writes the accessors from the repository's "
                  "schemas) and the crates flatbuffers (own byte format), bimap, dynpath",
                  "contracts with state fields of primitive types: the serialiser covers neither list fields nor channels"])

# ---- several threads ----
def R(entry, bounds, reach=(), **kw):
    return H(entry, bounds, ["all applied"] + list(reach), threads=True, big=True, **kw)


_w, _n = "applied while others wait", "nothing pending"
prop("C25", R("h_c25_one", "1 producer of 3, the engine; 3 preemptions at any points", [_w, _n]),
     R("h_c25_two", "2 producers of 2 collactions each, the engine polling; 2 preemptions at any points", [_w, _n]),
     R("h_c25_two3", "the same, 3 preemptions", [_w, _n]),
     R("h_c25_three", "3 producers of 1, 2, 1; 2 preemptions", [_w, _n]),
     R("h_c25_three3", "the same, 3 preemptions", [_w, _n], tiers=T),
     R("h_c25_bad", "2 producers, one of them only sends what is rejected; 2 preemptions", ["rejected", _n]),
     R("h_c25_block", "2 producers across the queue's internal block boundary; 2 preemptions", [_w, _n]),
     R("h_c25_block3", "the same, 3 preemptions", [_w, _n], tiers=T),
     R("h_c25_full1", "2 producers that do not wait, room for one; 2 preemptions", ["full", _n]),
     R("h_c25_full2", "2 producers that do not wait, room for two, one producer's rejected; 2 preemptions", ["full", "rejected"]),
     R("h_c25_full3", "room for one, 3 preemptions", ["full", _n]),
     R("h_c25_room", "2 producers that wait, room for one; 2 preemptions", [_n]),
     R("h_c25_handover", "2 producers that wait, no room at all (handing over); 2 preemptions", [_n]),
     R("h_c25_wait", "2 producers, an engine that waits; 2 preemptions", [_w]),
     R("h_c25_wait_room", "the same, room for one", [_w]),
     R("h_c25_wait_handover", "the same, no room at all"),
     assumptions=["threads switch at atomic instructions, pauses, yields, futex calls, joins and ends only, and see one order of memory accesses "
                  "(sequential consistency); beyond the preemptions stated, the next runnable thread in cyclic order goes on",
                  "every futex wait may wake at any time (it returns at once after the other threads had their turn)"])

HOOK_COMMITS = ["3c07305"]
NOT_APPLICABLE = {
    "C26": "lives in bevy systems (scheduler, ECS storage, threads, type-erased pointers); the encoding of the bevy runtime is out of reach",
    "C27": "the generator works on constant tables and template files at build time: there is no input to make symbolic, so a solver has nothing to decide",
}
