#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording of all
properties can be reviewed in one place)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
ALL = "every element type with a lawful order (only comparison and cloning are assumed), and "
FIN = "every finite ordered element type with lawful predecessor/successor, and "
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RAW, BND, INT, NRM, SEL, TIN, TRE = ["src/raw_interval.rs"], ["src/bound.rs"], ["src/interval.rs"], ["src/normalize.rs"], ["src/selection.rs"], ["src/tine.rs"], ["src/tine_tree.rs"]

p("R01", "Raw interval construction denotes exactly the requested points",
  "Building a raw interval from two bounds (or with the open, half-open and closed constructors) yields an interval whose members are exactly the points satisfying both bounds; inverted bounds yield the empty interval, and equal bounds yield the single point when at least one side includes it and the empty interval otherwise. Proper intervals produced this way always have their lower value strictly below their upper value. No construction panics.",
  ["inputs"], ALL + "every pair of bounds and every probe point",
  "Tests construct intervals from three fixed i32 values; the claim ranges over every bound pair, order relation and probe point.",
  RAW, [("RawInterval::new", "src/raw_interval.rs"), ("RawInterval::open/left_open/right_open/closed", "src/raw_interval.rs")])
p("R02", "Raw interval membership, bounds and extrema describe one point set",
  "For every raw interval, membership of a point is exactly what its lower and upper bound say: the empty interval has no bounds and no members, an unbounded side never rejects a point, and finite bounds admit their own value only when inclusive. Infimum and supremum are the values of the finite bounds and absent otherwise. Emptiness and fullness queries agree with this.",
  ["inputs"], ALL + "every raw interval variant and every probe point",
  "Tests probe a few integers against fixed intervals; nothing relates membership to the bound accessors for all variants and orders.",
  RAW + BND, [("RawInterval::contains", "src/raw_interval.rs"), ("RawInterval::lower_bound/upper_bound/infimum/supremum", "src/raw_interval.rs")])
p("R03", "Raw interval complement is the exact set complement",
  "The pieces returned by complementing a raw interval contain a point exactly when the interval does not. The pieces are well formed, non-empty, pairwise disjoint and in ascending order.",
  ["inputs"], ALL + "every raw interval and every probe point",
  "The complement is only spot-checked for a few values in doc tests.",
  RAW, [("RawInterval::complement", "src/raw_interval.rs")])
p("R04", "Raw interval intersection is the exact set intersection",
  "Intersecting two raw intervals yields a well-formed raw interval that contains a point exactly when both inputs do. Two raw intervals report that they intersect exactly when that intersection is not the empty interval.",
  ["inputs"], ALL + "every pair of raw intervals in every relative position and every probe point",
  "The test matrix enumerates fixed small integers; it checks variants, not every coincidence of endpoints and never the point sets.",
  RAW + BND, [("RawInterval::intersect/intersects", "src/raw_interval.rs"), ("Bound::greatest_intersect/least_intersect", "src/bound.rs")])
p("R05", "Raw interval union covers exactly both inputs and merges touching ones",
  "The pieces returned by the union of two raw intervals together contain a point exactly when at least one input does, and no piece is empty. A single piece is returned exactly when one input is empty or the inputs overlap or meet at a shared endpoint that at least one of them includes; the adjacency query reports such shared endpoints between an upper and a lower bound.",
  ["inputs"], ALL + "every pair of raw intervals in every relative position and every probe point",
  "Tests sample fixed integer endpoints and never check point membership of the pieces.",
  RAW + BND, [("RawInterval::union/is_adjacent_to", "src/raw_interval.rs"), ("Bound::is_union_adjacent_to", "src/bound.rs")])
p("R06", "Raw interval difference removes exactly the other interval's points",
  "The pieces returned by subtracting one raw interval from another together contain a point exactly when the first input does and the second does not. No piece is empty, and the pieces are well formed, disjoint and ascending.",
  ["inputs"], ALL + "every pair of raw intervals in every relative position and every probe point",
  "Tests sample fixed integer endpoints and never check point membership of the pieces.",
  RAW, [("RawInterval::minus", "src/raw_interval.rs")])
p("R07", "Raw interval enclosure and closure are the smallest covering intervals",
  "Enclosing two raw intervals yields the interval that contains a point exactly when the point is neither below both inputs nor above both inputs, so it covers both and adds only the gap between them. Taking the closure keeps every point, turns each finite exclusive bound into the inclusive bound at the same value and changes nothing else.",
  ["inputs"], ALL + "every pair of raw intervals in every relative position and every probe point",
  "Minimality and coverage are universally quantified over points and positions; the test matrix samples fixed integers.",
  RAW + BND, [("RawInterval::enclose/closure", "src/raw_interval.rs"), ("Bound::least_union/greatest_union", "src/bound.rs")])
p("R08", "Bulk enclosure and intersection equal the fold over any sequence",
  "For any sequence of raw intervals, the bulk enclosure is the smallest interval covering all of them (the empty interval for an empty sequence) and the bulk intersection contains exactly the points common to all of them (every point for an empty sequence).",
  ["inputs"], ALL + "every finite sequence of raw intervals, of any length, and every probe point",
  "No test exercises the bulk operations beyond a single fixed call; sequence length is unbounded.",
  RAW, [("RawInterval::enclose_all/intersect_all", "src/raw_interval.rs")])
p("R09", "Bulk union of raw intervals neither loses nor invents points",
  "For any sequence of raw intervals, the pieces returned by the bulk union together contain a point exactly when some interval of the sequence does. No returned piece is empty.",
  ["inputs"], ALL + "every finite sequence of raw intervals and every probe point",
  "No test exercises the bulk union beyond fixed calls; sequence length is unbounded.",
  RAW, [("RawInterval::union_all", "src/raw_interval.rs")])
p("R10", "Printed raw intervals parse back to the same interval",
  "Printing any well-formed raw interval in interval notation and parsing the text gives back an equal interval of the same kind, so different intervals never print the same text; neither printing nor parsing panics. This holds for every element type whose own text round-trips, is not empty or a lone minus sign, and has no interval punctuation or surrounding white space. Text made of interval punctuation and element texts is either rejected or parsed to a well-formed interval.",
  ["inputs"], "every well-formed raw interval over any element type whose text round-trips, and every text of up to five notation words",
  "Tests parse a fixed list of strings; printing and parsing are never checked against each other for all kinds of interval.",
  RAW, [("Display for RawInterval", "src/raw_interval.rs"), ("FromStr for RawInterval", "src/raw_interval.rs")])
p("R11", "Bound combination picks the bound with the right point set",
  "Read as upper bounds, the least-intersect combination admits a point exactly when both bounds do and the greatest-union combination admits it exactly when at least one does; read as lower bounds, greatest-intersect and least-union do the same. The result is always one of the two given bounds, and the order of the arguments does not change the admitted points.",
  ["inputs"], ALL + "every pair of bounds and every probe point",
  "Doc tests combine a few fixed integer bounds; ties between inclusive and exclusive bounds and infinite bounds are not covered for every order.",
  BND, [("Bound::least_union/least_intersect/greatest_union/greatest_intersect", "src/bound.rs")])
p("R12", "Bound queries and conversions keep the bound's kind and value",
  "Mapping a bound's value or transferring its kind to another value keeps whether it is inclusive, exclusive or infinite, and the value accessors, fallbacks and queries of a bound expose exactly the stored value and kind. Converting a value into a bound gives the inclusive bound at that value, and the default bound is the inclusive one at the default value.",
  ["inputs"], "every bound and every value or fallback value",
  "Doc tests call these with a handful of fixed integers.",
  BND, [("Bound::map/map_or/map_or_else/transfer/unwrap_or/unwrap_or_else/as_ref/as_mut", "src/bound.rs")])

p("N01", "Normalization keeps the point set and reaches a unique form",
  "Normalizing any raw interval over a finite element type, including ones written with inverted or touching bounds, keeps exactly the same member points. The result is always the empty interval, a single point, or a closed interval whose lower value is strictly below its upper value, so two raw intervals with the same points normalize to the same value.",
  ["inputs"], FIN + "every raw interval and every probe point",
  "Normalization is only checked on a few integer intervals away from the extremes of the type; adjacent, inverted and extreme endpoints are unbounded in number.",
  NRM, [("Normalize::normalize", "src/normalize.rs")])
p("N02", "Denormalization keeps the point set and reaches the broadest open form",
  "Denormalizing any normalized interval keeps exactly the same member points and yields the widest description of them: each end is either an exclusive bound just outside the set or unbounded when the set reaches the end of the type. Denormalizing any other well-formed raw interval also keeps its points, and normalizing the result gives the same value as normalizing the original.",
  ["inputs"], FIN + "every well-formed raw interval and every probe point",
  "Only exercised indirectly through selections with small integers; extremes of the type and half-bounded intervals are never reached.",
  NRM, [("Normalize::denormalize", "src/normalize.rs")])
p("N03", "Builtin integers step to their immediate neighbours without overflow",
  "For every builtin integer type and every value, the successor is the value plus one and is absent exactly at the type's maximum, and the predecessor is the value minus one and is absent exactly at the type's minimum. The declared minimum and maximum are those of the type, and stepping never panics or wraps.",
  ["inputs"], "all twelve builtin integer types and every value of each",
  "No test steps at or near the extremes of any type, and the value space of the wide types cannot be enumerated.",
  NRM, [("Finite for u8..i128, usize, isize", "src/normalize.rs")])

p("I01", "Every interval value is in normal form with the requested points",
  "Every way to obtain an interval over a finite element type (constructors, conversions from raw intervals, points and ranges, the default value) yields exactly the points asked for. The value is always empty, a single point, or a closed interval with lower strictly below upper, so equal point sets compare equal. None of them panics.",
  ["inputs"], FIN + "every argument to every constructor or conversion and every probe point",
  "Constructor doc tests use a few small integers; extremes, adjacent and inverted arguments are not covered.",
  INT + NRM, [("Interval constructors", "src/interval.rs"), ("From<RawInterval>/From<T>/From<Range*> for Interval", "src/interval.rs")])
p("I02", "Interval set operations are exact and stay in normal form",
  "Intersection, union, difference, complement, enclosure and closure of intervals contain a point exactly when the corresponding set operation does (enclosure: the points between the least and greatest member of either), and the intersects query is true exactly when the two share a point. Every interval they produce is in normal form.",
  ["inputs"], FIN + "every pair of intervals in every relative position and every probe point",
  "Doc tests use fixed small integers, and nothing checks point membership or the extremes of the type.",
  INT + RAW + NRM, [("Interval::intersect/union/minus/complement/enclose/closure/intersects", "src/interval.rs")])
p("I03", "Interval iteration yields every member exactly once from both ends",
  "Iterating an interval, taking points from the front and the back in any interleaving, yields exactly its members: front points ascend one step at a time, back points descend one step at a time, and the two never overlap or skip a member. Once exhausted it keeps returning nothing from both ends, and it never panics, including at the extremes of the type.",
  ["histories"], FIN + "every interval and every interleaving of front and back steps",
  "The number of interleavings and lengths is unbounded; tests collect a few short i32 intervals from the front.",
  INT, [("interval::Iter::next/next_back", "src/interval.rs")])
p("I04", "Interval queries agree with its set of points",
  "An interval is reported empty exactly when it has no member, degenerate exactly when it has one, and proper exactly when it has at least two; membership, lower/upper bound, infimum and supremum all describe that same set with least and greatest member as inclusive bounds. Intervals over finite types are always reported bounded on both sides and closed, left-closed and right-closed exactly when they have a member, open exactly when they have none, and never left-open, right-open, half-open, half-closed or half-bounded.",
  ["inputs"], FIN + "every interval and every probe point",
  "Tests check single fixed intervals; emptiness after normalization depends on the step structure of the type.",
  INT, [("Interval queries", "src/interval.rs")])

p("I05", "Interval size, adjacency and emptiness conversion describe its points",
  "The size of an interval is its greatest member less its least member, and absent exactly for the empty interval. Two intervals are reported adjacent exactly when one ends at the value where the other starts, in either order and never when one of them is empty, and converting to a non-empty interval gives back the same interval, or nothing exactly when it has no member.",
  ["inputs"], FIN + "every interval and every pair of intervals in every relative position",
  "Doc tests check one or two fixed intervals for each.",
  INT + RAW, [("Interval::size/is_adjacent_to/into_non_empty", "src/interval.rs"), ("RawInterval::is_adjacent_to", "src/raw_interval.rs")])

p("T01", "The order of boundary markers is total and follows the number line",
  "Comparing two boundary markers orders them by the value they sit on, with the unbounded start before everything and the unbounded end after everything. Markers on the same value compare as equal whatever their kind, and the comparison is total and consistent in both directions.",
  ["inputs"], ALL + "every pair of markers",
  "The ordering is never tested directly; it must hold for every pair of kinds and values because the tree's search relies on it.",
  TIN, [("Ord/PartialOrd for Tine", "src/tine.rs")])
p("T02", "Converting a raw interval to markers and a tree keeps its points",
  "A raw interval turned into boundary markers yields its lower and upper boundary (or a single point marker, or nothing) with unchanged inclusiveness, and a tree built from one well-formed raw interval contains exactly that interval's points. Inverting a marker swaps inside and outside at that boundary, so that inverting twice gives the original marker.",
  ["inputs"], ALL + "every well-formed raw interval, every marker and every probe point",
  "Tests build trees from a few integer intervals only.",
  TIN + TRE, [("Tine::from_raw_interval/invert", "src/tine.rs"), ("TineTree::from_raw_interval", "src/tine_tree.rs")])
p("T03", "Merging two boundary markers at one value is exact around that value",
  "Merging two boundary markers that sit on the same value by union, intersection or difference gives the marker that describes membership just below, at and just above the value after that set operation. Nothing is returned exactly when no marker is needed there: membership is then the same just below, at and just above the value.",
  ["inputs"], "every pair of marker kinds on one value that describe boundaries of two sets",
  "Only the pairs that arise in a few tree tests are executed; the table has 108 entries.",
  TIN, [("Tine::union/intersect/minus", "src/tine.rs")])

p("C01", "Adding an interval to a tree adds exactly its points",
  "Adding any well-formed raw interval to any well-formed tree gives a well-formed tree that contains a point exactly when the tree or the interval contained it. The union of two trees likewise contains exactly the points of either, without changing the inputs, and neither operation panics.",
  ["inputs", "histories"], ALL + "every well-formed tree of any size, every interval or second tree and every probe point",
  "Trees and positions are unbounded; tests use at most three intervals over small integers.",
  TRE + TIN, [("TineTree::union_in_place/union", "src/tine_tree.rs")])
p("C02", "Removing an interval from a tree removes exactly its points",
  "Removing any well-formed raw interval from any well-formed tree gives a well-formed tree that contains a point exactly when the tree did and the interval did not. The difference of two trees likewise contains exactly the points of the first that are not in the second, and neither operation panics.",
  ["inputs", "histories"], ALL + "every well-formed tree of any size, every interval or second tree and every probe point",
  "Trees and positions are unbounded; tests use at most two intervals over small integers.",
  TRE + TIN, [("TineTree::minus_in_place/minus", "src/tine_tree.rs")])
p("C03", "Intersecting a tree with an interval keeps exactly the common points",
  "Intersecting any well-formed tree in place with any well-formed raw interval gives a well-formed tree that contains a point exactly when both did. It never panics, whatever the relative position of the interval and the tree's pieces, including gaps and shared endpoints.",
  ["inputs", "histories"], ALL + "every well-formed tree of any size, every interval and every probe point",
  "Trees and positions are unbounded; tests use at most two intervals over small integers.",
  TRE + TIN, [("TineTree::intersect_in_place", "src/tine_tree.rs")])
p("C04", "Intersecting two trees keeps exactly the common points",
  "The intersection of two well-formed trees is a well-formed tree that contains a point exactly when both inputs do, however many pieces of one overlap a piece of the other. The inputs are unchanged and the operation never panics.",
  ["inputs"], ALL + "every pair of well-formed trees of any size and every probe point",
  "The number and overlap pattern of pieces is unbounded; tests never intersect two multi-piece trees.",
  TRE, [("TineTree::intersect", "src/tine_tree.rs")])
p("C05", "Complementing a tree inverts membership of every point",
  "The complement of any well-formed tree is a well-formed tree that contains a point exactly when the original does not, including for empty, full, half-unbounded and single-point trees. It never panics.",
  ["inputs"], ALL + "every well-formed tree of any size and every probe point",
  "Trees are unbounded in size; only a few fixed trees are complemented.",
  TRE + TIN, [("TineTree::complement", "src/tine_tree.rs"), ("Tine::invert", "src/tine.rs")])
p("C06", "Tree queries agree with its set of points",
  "For any well-formed tree, the membership query is true exactly for the points of its pieces, emptiness and fullness are reported exactly when it has no boundaries or covers the whole line, and the reported lower and upper bounds are those of its first and last piece. Enclosure is the smallest single interval covering it and closure is the same interval with inclusive finite bounds.",
  ["inputs"], ALL + "every well-formed tree of any size and every probe point",
  "Trees are unbounded in size; tests query a few fixed trees.",
  TRE, [("TineTree::contains/is_empty/is_full/lower_bound/upper_bound/enclose/closure", "src/tine_tree.rs")])
p("C07", "Iterating a tree's pieces is exact, ordered and works from both ends",
  "Taking pieces from the front and the back of a tree in any interleaving yields well-formed non-empty raw intervals that are pairwise disjoint, ascending at the front, descending at the back and never crossing, and a point lies in some yielded piece exactly when the tree contains it. This holds for borrowing and consuming iteration, and neither ever panics.",
  ["histories"], ALL + "every well-formed tree of any size and every interleaving of front and back steps",
  "Interleavings and sizes are unbounded; tests only iterate forward.",
  TRE, [("tine_tree::Iter/IntoIter next/next_back", "src/tine_tree.rs")])
p("C08", "Collecting intervals into a tree contains exactly their points",
  "Building a tree from any sequence of well-formed raw intervals, in any order and with any overlaps, gives a well-formed tree that contains a point exactly when some interval of the sequence does.",
  ["inputs"], ALL + "every finite sequence of raw intervals of any length and every probe point",
  "Sequence length and order are unbounded; tests collect at most a few intervals.",
  TRE, [("FromIterator<RawInterval>/From<Iterator> for TineTree", "src/tine_tree.rs")])

p("S01", "Selection complement is exact and stays canonical",
  "The complement of any selection contains a point exactly when the selection does not. The result is in the canonical form, so complementing twice gives a value equal to the original, and it never panics.",
  ["inputs"], FIN + "every selection of any size and every probe point",
  "Selections are unbounded; tests complement a few small integer selections and compare them only with themselves.",
  SEL + TRE + NRM, [("Selection::complement", "src/selection.rs")])
p("S02", "Selection union is exact and stays canonical",
  "The union of two selections contains a point exactly when at least one of them does, and adding one interval to a selection in place adds exactly its points. Results are in the canonical form (adjacent pieces merged), so selections with equal points compare equal, and neither operation panics.",
  ["inputs", "histories"], FIN + "every pair of selections of any size, every interval and every probe point",
  "Selections are unbounded; tests use a few fixed integer intervals.",
  SEL + TRE + NRM, [("Selection::union/union_in_place", "src/selection.rs")])
p("S03", "Selection difference is exact and stays canonical",
  "Subtracting one selection from another keeps exactly the points of the first that are not in the second, and removing one interval in place removes exactly its points. Results are in the canonical form, so selections with equal points compare equal, and neither operation panics.",
  ["inputs", "histories"], FIN + "every pair of selections of any size, every interval and every probe point",
  "Selections are unbounded; tests use a few fixed integer intervals.",
  SEL + TRE + NRM, [("Selection::minus/minus_in_place", "src/selection.rs")])
p("S04", "Selection intersection is exact and stays canonical",
  "The intersection of two selections contains exactly their common points, restricting a selection to one interval in place keeps exactly the points inside it, and the intersects query is true exactly when the two selections share a point. Results are in the canonical form, so selections with equal points compare equal, and none of them panics.",
  ["inputs", "histories"], FIN + "every pair of selections of any size, every interval and every probe point",
  "Selections are unbounded; tests intersect a few fixed integer selections.",
  SEL + TRE + NRM, [("Selection::intersect/intersect_in_place/intersects", "src/selection.rs")])
p("S05", "Building selections from intervals or points keeps exactly their points",
  "A selection made from one interval, collected from any sequence of intervals or points in any order, or extended with more intervals contains exactly the points given. The result is in the canonical form whatever the order and grouping of the input, so equal point sets give equal selections; the empty, default and full selections contain no and every point.",
  ["inputs", "histories"], FIN + "every finite sequence of intervals or points of any length and every probe point",
  "Sequence length, order and adjacency pattern are unbounded; tests collect a few fixed sequences.",
  SEL + NRM, [("From<Interval>/FromIterator/Extend/new/full for Selection", "src/selection.rs")])
p("S06", "Selection queries agree with its set of points",
  "For any selection, membership, emptiness and fullness are reported exactly according to its set of points; lower and upper bound are the least and greatest member as inclusive bounds and absent for the empty selection. The left-bounded, right-bounded and bounded queries are consistent with one another, and enclosure is the smallest interval containing the selection.",
  ["inputs"], FIN + "every selection of any size and every probe point",
  "Selections are unbounded; tests query a few fixed integer selections.",
  SEL + TRE, [("Selection queries", "src/selection.rs")])
p("S07", "Selection interval iteration yields the maximal runs in order",
  "Iterating a selection's intervals, from the front and the back in any interleaving, yields normalized non-empty intervals that are disjoint, ascending at the front, descending at the back and separated by at least one absent point. A point lies in some yielded interval exactly when the selection contains it, for borrowing and consuming iteration, and neither ever panics.",
  ["histories"], FIN + "every selection of any size and every interleaving of front and back steps",
  "Sizes and interleavings are unbounded; tests iterate forward over a few intervals.",
  SEL + TRE, [("selection::IntervalIter/IntoIntervalIter", "src/selection.rs")])
p("S08", "Selection point iteration yields every member exactly once from both ends",
  "Iterating a selection's points, from the front and the back in any interleaving, yields exactly its members: front points strictly ascend, back points strictly descend, the two never cross, and no member is skipped or repeated. Once exhausted it keeps returning nothing, for borrowing and consuming iteration, and neither ever panics.",
  ["histories"], FIN + "every selection of any size and every interleaving of front and back steps",
  "Sizes and interleavings are unbounded; no test mixes both ends.",
  SEL + INT, [("selection::Iter/IntoIter", "src/selection.rs")])

p("E01", "Outside code can never put an interval or selection into an unnormalized state",
  "Safe outside code has no way to reach or replace the representation inside an interval, a selection or a tree: no public field, mutable reference, conversion or constructor hands out or accepts it without normalization. Operations that take their inputs by shared reference leave them unchanged, because the library holds no interior mutability, global state or unsafe code.",
  ["programs"], "every safe program using the public interface with default features",
  "Tests are programs themselves; that no program can break the encapsulation is a statement about all programs.",
  ["src/interval.rs", "src/selection.rs", "src/tine_tree.rs", "src/lib.rs"], [("private representation fields", "src/interval.rs"), ("private representation fields", "src/selection.rs"), ("forbid(unsafe_code)", "src/lib.rs")])
p("E02", "Equality and hashing compare the whole representation consistently",
  "Two bounds, markers or raw intervals are equal exactly when they have the same kind and equal values, and two trees exactly when they hold the same markers; two intervals or two selections over a finite type are equal exactly when they have the same points. Equal values hash equally, cloning yields an equal value, and none of these comparisons panics.",
  ["inputs"], "every pair of values of the public data types",
  "Equality is used by every test as the oracle but never itself checked; hash agreement is quantified over all pairs.",
  ["src/bound.rs", "src/raw_interval.rs", "src/interval.rs", "src/tine.rs", "src/tine_tree.rs", "src/selection.rs"], [("PartialEq/Eq/Hash/Clone implementations", "src/*.rs")])
p("E03", "Deserialized intervals and selections are in normal form",
  "With the optional serialization feature, deserializing any input either fails or yields an interval or selection in the same normal form that the constructors guarantee, so that equality by point set, iteration and set operations keep working on it.",
  ["inputs", "configurations"], "every serialized input with the serialization feature enabled",
  "No test enables the feature; hostile or hand-written inputs are unbounded.",
  ["src/interval.rs", "src/selection.rs", "src/tine_tree.rs"], [("Deserialize for Interval/Selection/TineTree", "src/interval.rs")])
p("E04", "Serialized values deserialize back to equal values",
  "With the optional serialization feature, every bound, tine, interval, tree and selection can be serialized, and deserializing it again, through any format that hands back the data it was given, gives an equal value.",
  ["inputs", "configurations"], "every value and every format that keeps the data it is given",
  "No test enables the feature.",
  ["src/interval.rs", "src/selection.rs", "src/tine_tree.rs"], [("Serialize/Deserialize", "src/interval.rs")])
p("E05", "No public operation panics or runs for ever",
  "Whatever values they are called with, the public operations on bounds, raw intervals, trees, intervals and selections, and every step of the iterators they return, come back: none panics, other than where its documentation says so, and none repeats for ever. Trees ask that the intervals given to them have ordered ends; single markers (tines) are covered by their own properties.",
  ["inputs", "histories"], "every public function and trait method, with every argument, and every interleaving of steps of the iterators returned",
  "The library's own assertions and unreachable arms encode invariants that the tests visit for a handful of values.",
  BND + RAW + INT + TRE + SEL, [("assertions, expect and unreachable arms", "src/tine_tree.rs"), ("tree intersection loop", "src/tine_tree.rs"), ("iterators", "src/selection.rs")])
p("X01", "No operation walks through the single points of an interval",
  "Building, normalizing, querying, comparing and combining intervals and selections, and each single step of iterating them, takes a number of successor and predecessor steps that does not depend on how many points lie inside the intervals involved, so every operation other than running through the points with an iterator stays usable on intervals of billions of points.",
  ["inputs"], FIN + "every interval, every selection of any size and every operation on them",
  "Cost is not observed by any test, and tests use intervals of a few points.",
  INT + SEL + NRM + RAW, [("Interval operations", "src/interval.rs"), ("Selection operations", "src/selection.rs"), ("Normalize", "src/normalize.rs")])
with open(OUT, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
