"""Which harnesses decide which property, and how they are split."""

# processes a harness is split into
SHARDS = {
    "h_C01_insert": 8,
    "h_C02_remove": 8,
    "h_C03_restrict": 8,
}
# harness -> [(function, its summary)]
T = "normalize_interval::tine_tree::TineTree::<T>::"
INSERT = (T + "union_in_place", "tree_insert")
REMOVE = (T + "minus_in_place", "tree_remove")
I = "normalize_interval::tine_tree::"
PIECES = [
    (T + "interval_iter", "pieces"),
    ("<" + I + "TineTree<T> as std::iter::IntoIterator>::into_iter", "into_pieces"),
] + [
    ("<%s as std::iter::%s" % (ty, m), c)
    for ty in (I + "Iter<'t, T>", I + "IntoIter<T>")
    for m, c in (("Iterator>::next", "piece_next"), ("DoubleEndedIterator>::next_back", "piece_next_back"))
]
RESTRICT = (T + "intersect_in_place", "tree_restrict")
COMPLEMENT = (T + "complement", "tree_complement")
INTERSECT = (T + "intersect", "tree_intersect")
CONTRACTS = {
    "h_C01_union": [INSERT] + PIECES,
    "h_C02_minus": [REMOVE] + PIECES,
    "h_C04_intersect": [INSERT] + PIECES,
    "h_C08_collect": [INSERT],
    "h_C08_from": [INSERT],
}
SELECTION = [INSERT, REMOVE, RESTRICT, COMPLEMENT, INTERSECT] + PIECES
for h in ("S01_complement S02_union S02_add S03_minus S03_remove S04_intersect S04_restrict S04_shared S04_apart S05_one "
          "S05_intervals S05_points S05_extend S07_borrowing S07_consuming S07_borrowing_order S07_consuming_order "
          "S08_iter S08_by_ref S08_into_iter").split():
    CONTRACTS["h_" + h] = SELECTION
V = "std::vec::"
CONTRACTS["h_R09_union_all"] = CONTRACTS["h_E05_raw_interval_RawInterval_T_union_all"] = [
    (V + "Vec::<T, A>::push", "vec_push"),
    ("<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "elems_mut_of"),
    ("<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "elems_slice"),
    ("core::slice::<impl [T]>::iter_mut", "elems_mut"),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::next", "elems_mut_next"),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::find", "elems_mut_find"),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::for_each", "elems_mut_for_each"),
    ("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "taken"),
    ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "taken_next"),
]
_D = "<impl serde::Deserialize<'de> for "
DESERIALIZE = [
    ("normalize_interval::raw_interval::_::" + _D + "normalize_interval::raw_interval::RawInterval<T>>::deserialize", "deser_raw"),
    ("normalize_interval::bound::_::" + _D + "normalize_interval::bound::Bound<T>>::deserialize", "deser_bound"),
    ("normalize_interval::tine::_::" + _D + "normalize_interval::tine::Tine<T>>::deserialize", "deser_tine"),
    ("serde::de::impls::" + _D + "std::vec::Vec<T>>::deserialize", "deser_vec"),
    ("serde::de::impls::" + _D + "std::collections::BTreeSet<T>>::deserialize", "deser_set"),
    ("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "vec_items"),
    ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "vec_items_next"),
]
REPLAY = [(f, {"deser_vec": "replay_vec", "deser_set": "replay_set", "vec_items": "replay_items", "vec_items_next": "replay_next"}[c])
          for f, c in DESERIALIZE[3:]]
for h in "ask complement union minus intersect equal change collect pieces next".split():
    CONTRACTS["h_X01_selection_" + h] = SELECTION
CONTRACTS["h_E04_tree_back"] = CONTRACTS["h_E04_selection_back"] = REPLAY + SELECTION
CONTRACTS["h_E03_interval"] = DESERIALIZE
CONTRACTS["h_E03_tree"] = CONTRACTS["h_E03_selection"] = DESERIALIZE + SELECTION
# summary -> the harnesses that prove it
LEMMAS = {
    "tree_insert": ["h_C01_insert"],
    "tree_remove": ["h_C02_remove"],
    "tree_restrict": ["h_C03_restrict"],
    "tree_complement": ["h_C05_complement"],
    "tree_intersect": ["h_C04_intersect"],
    "pieces": ["h_C07_borrowing", "h_C07_borrowing_order"],
    "into_pieces": ["h_C07_consuming", "h_C07_consuming_order"],
}
# what they say about canonical sets, used where the element type is discrete
DISCRETE_LEMMAS = {
    "tree_insert": ["h_S00_insert"],
    "pieces": ["h_S00_borrowed_pieces"],
    "into_pieces": ["h_S00_owned_pieces"],
}


def lemmas(harness, used):
    out = []
    if harness.startswith("h_X01"):
        # trees know nothing about their elements but the order: they cannot step
        return out
    for c in used:
        out += LEMMAS.get(c, [])
        if harness[2] in "NISE":
            out += DISCRETE_LEMMAS.get(c, [])
    return out


# property -> extra settings
PLAN = {
    "E01": {"rules": ["encapsulation"]},
    "E03": {"features": ("serde",)},
    "E04": {"features": ("serde",)},
    "E05": {"rules": ["operations"], "only": ("panic", "undefined behaviour", "repeats without an end")},
}

ASSUMPTIONS = [
    "comparison and cloning of the element type follow their contracts; clones compare equal",
    "the standard library's collections, options and iterator adaptors behave as documented (modelled, not entered, where listed in DESIGN.md)",
    "the compiler's intermediate representation of /repo is what runs; allocation does not fail",
]


SPECIFIC = {
    "E01": (" Rules over the type-checked program list every public field, constructor and implementation through which "
            "outside code could reach the representation; a harness is generated for each public function that returns or "
            "changes an interval or selection, with arbitrary arguments, and its result must be in normal form."),
    "E03": (" The input is any sequence of markers or any raw interval a format could hand over."),
    "E04": (" The calls the serializers make are recorded in abstract form and handed back to the deserializers."),
    "E05": (" A harness is generated for each public function, with arbitrary arguments; every panic and every loop from "
            "whose states no path leads to an end is a violation. Functions whose documentation names a panic, and those "
            "listed under left_to_other_properties, are not called."),
    "N03": (" For the builtin integers every width is analysed over ranges of values, with the overflow checks of the MIR "
            "as obligations."),
    "X01": (" The number of steps to a neighbouring value is counted along each path, and may not depend on how many values "
            "lie inside an interval."),
}


def explain(prop):
    return ("Abstract interpretation of the compiler's MIR of /repo, monomorphised over an opaque ordered element type: "
            "values are known only by their position relative to each other and to one witness point, ordered sets by an "
            "unbounded summary between the markers looked at. Every branch is followed in both directions unless the order "
            "facts rule it out, until no new abstract state appears. Each obligation is one evaluation of a specification "
            "check in one abstract state; no code is run and no solver is used. A violation that shows only where a set is "
            "summarised is looked for again among sets spelled out marker by marker (at most 4, then 6), and reported as "
            "undecided if none of those shows it." + SPECIFIC.get(prop, ""))

NOT_APPLICABLE = {
}
# Undecided harnesses are run again for marker sets of at most this size, each
# spelled out, and without the summaries that are proved as lemmas.
SMALL = 4
NOT_SMALL = []
# Violations seen where sets are summarised are looked for among sets of at most
# so many markers, for at most so many seconds.
CONFIRM = [(4, 400), (6, 200)]


def models(harness):
    """The contracts of a harness that are models rather than summaries."""
    return [(f, c) for f, c in CONTRACTS.get(harness, []) if c.split("_")[0] in ("vec", "elems", "taken", "deser", "replay")
            or c == "taken"]


CLAIMED = "R01 R02 R03 R04 R05 R06 R07 R08 R09 R10 R11 R12 N01 N02 N03 I01 I02 I03 I04 I05 T01 T02 T03 C01 C02 C03 C04 C05 C06 C07 C08 S01 S02 S03 S04 S05 S06 S07 S08 E01 E02 E03 E04 E05 X01".split()


def technique(prop):
    rules = PLAN.get(prop, {}).get("rules")
    if prop == "E05":
        return ("abstract interpretation of compiler MIR: one generated harness for each public function, panics and inescapable "
                "loops as obligations",
                "Covers every argument and marker sets of any size, given a lawful Ord and Clone; a loop is reported when no "
                "abstract path leaves it, so termination is not proved where the way out depends on a value.")
    if rules and not PLAN[prop].get("mir", True):
        return ("rules over the type-checked program: " + ", ".join(rules),
                "Sound for safe code outside the crate; trusts the compiler's type checker and the rule's reading of it.")
    if rules:
        return ("visibility rules over the type-checked program, with abstract interpretation of compiler MIR of every public "
                "function that hands out or changes a value",
                "Sound for safe code outside the crate; trusts the compiler's type checker, the rules' reading of it and the "
                "analyzer.")
    return ("abstract interpretation of compiler MIR over order and marker-set domains, run to a fixpoint",
            "Holds for every element type and value and for marker sets of any size, given a lawful Ord and Clone; "
            "trusts the analyzer, the compiler's MIR and the models of standard-library containers (DESIGN.md).")
