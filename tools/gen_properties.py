#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))
RAW="src/raw_interval.rs"; BND="src/bound.rs"; TIN="src/tine.rs"; TRE="src/tine_tree.rs"
INT="src/interval.rs"; SEL="src/selection.rs"; NRM="src/normalize.rs"
treestate=[("tine set","ordered set of boundary markers; two neighbours may share one excluded point",TRE)]

p("C01","Raw intervals: complement, intersection, union and difference are exact",
"For any two raw intervals over an ordered type with their end points in ascending order, as the constructors produce them, whatever mixture of open, closed, half-bounded, point, empty and full they are, the intervals returned by complement, intersection, union and difference together contain exactly the points that set theory says they contain, reading the type as a dense line (points between and beyond the stored values count too). The intervals returned by complement, union and difference are non-empty, pairwise disjoint, and no two of them together form one interval, and the overlap test is true exactly when the two intervals have a common point.",
["inputs"],"all pairs of raw intervals of every kind and every relative position of their end points",
"The suite samples one hand-picked pair per kind combination and compares results as unordered sets; it never checks point membership and does not cover every coincidence of the four end points.",
[RAW,BND],[("complement/intersect/union/minus/intersects",RAW),("bound merge tables",BND)],observe=["RawInterval set operations"])

p("C02","Raw intervals: enclosure and closure are the tightest possible; adjacency",
"The enclosure of two raw intervals contains both and is contained in every interval that contains both (an empty operand contributes nothing), and the closure is the smallest closed interval containing the interval. Two non-empty intervals are reported adjacent exactly when an upper bound of one and a lower bound of the other are at the same finite point and at least one of those two bounds includes it; this relation is symmetric and never true of an empty interval.",
["inputs"],"all raw intervals and all pairs of them",
"Tests use a fixed pair per kind combination; minimality over all candidate intervals and symmetry are universally quantified.",
[RAW,BND],[("enclose/closure/is_adjacent_to",RAW),("least_union/greatest_union/is_union_adjacent_to",BND)],observe=["RawInterval::enclose, closure, is_adjacent_to"])

p("C03","Raw intervals: construction, membership and bound accessors agree",
"A raw interval built from any two bounds contains exactly the points satisfying both bounds, is the empty interval when the bounds are out of order or are two equal excluded points, and is a single point when the bounds are equal and at least one includes the point. Its reported lower and upper bounds, infimum and supremum, and empty/full tests describe exactly the points its membership test accepts, and rebuilding it from its reported bounds gives an equal interval.",
["inputs"],"all pairs of bounds (included, excluded, absent) over every order of the two points, and every probe point",
"Tests check three end-point orders for a few bound kinds and never quantify membership over probe points.",
[RAW,BND],[("new/open/left_open/right_open/closed",RAW),("contains, lower_bound, upper_bound, infimum, supremum",RAW)],observe=["RawInterval constructors and queries"])

p("C04","Normalizing or denormalizing an interval never changes the points it holds",
"For a finite type, normalizing any raw interval and denormalizing any raw interval both leave its set of contained values of the type unchanged, in every combination and repetition. All raw intervals that contain the same values have one common normalized form (the empty interval, a single point, or a closed interval with distinct ordered ends), and denormalizing a normalized interval gives one common open or unbounded form from which normalizing recovers it.",
["inputs"],"all raw intervals over a finite type, including those touching the minimum and maximum of the type and those that contain no value of the type",
"No test exercises denormalization directly, nor intervals with no value between their ends, nor the extremes of the type.",
[NRM],[("normalize/denormalize",NRM)],observe=["Normalize for RawInterval"])

p("C05","Bulk raw-interval operations equal the fold of the pairwise operations",
"For every finite sequence of raw intervals in any order, the bulk intersection contains exactly the points common to all of them (everything, for an empty sequence), the bulk union's intervals are non-empty and together contain exactly the points contained in at least one of them (and are pairwise disjoint and never two of them together one interval, when only two intervals, or intervals in ascending order of their lower bounds, are given), and the bulk enclosure is the smallest interval containing all of them (empty, for an empty sequence).",
["inputs","histories"],"all sequences of raw intervals up to a length, in every order",
"The bulk operations have no tests at all.",
[RAW],[("enclose_all/intersect_all/union_all",RAW)],observe=["RawInterval::*_all"])

p("C06","Interval notation: formatting then parsing is the identity; parsing is total",
"Over an integer type, formatting any raw interval and parsing the text gives back an equal interval, and distinct well-formed intervals format differently. Parsing a text never panics: it yields exactly the interval the notation denotes (with reversed or coinciding end points treated as by the constructors) when the text is a bare value, the empty-set sign, or a bracketed pair of values or infinities, and an error for every other text.",
["inputs"],"all raw intervals, and all texts up to a length over the notation's alphabet",
"Eleven round-trip samples exist; no malformed text is ever parsed.",
[RAW],[("Display/FromStr",RAW)],observe=["to_string / from_str"])

p("C07","Interval tree: any history of in-place operations holds the exact point set",
"Starting from the empty tree or any single interval, after any sequence of in-place unions, intersections and differences with arbitrary raw intervals, the tree contains exactly the points that the same sequence of set operations yields on the dense line, and no operation panics.",
["histories","inputs"],"all sequences of in-place operations, of any length, whose arguments range over all raw intervals on a fixed set of end points",
"Tests apply a single operation to one-interval trees, or a few aggregation sequences; multi-interval states, shared excluded points and boundary coincidences are not reached.",
[TRE,TIN],[("union_in_place/intersect_in_place/minus_in_place",TRE),("tine merge tables",TIN)],treestate,["TineTree in-place operations"])

p("C08","Interval tree: complement, union, intersection, difference of trees are exact",
"For any two interval trees, however they were built, complement, union, intersection and difference return a tree containing exactly the points set theory says it contains on the dense line, without panicking and regardless of how many intervals either operand has.",
["inputs","histories"],"all pairs of reachable trees over a fixed set of end points",
"Tests only ever combine single-interval operands.",
[TRE,TIN],[("complement/union/intersect/minus",TRE)],treestate,["TineTree set operations"])

p("C09","Interval tree: one representation per point set",
"Two interval trees that contain the same points are equal, hash equally, and list the same intervals, whatever operations and order produced them. The listed intervals are non-empty, in strictly ascending order, pairwise disjoint, and never two of them together form one interval.",
["histories","inputs"],"all pairs of histories reaching the same point set; all reachable trees",
"Tests compare a result with one expected list as an unordered set; they never compare two histories.",
[TRE,TIN],[("in-place merge logic",TRE),("tine merge tables",TIN),("derived Eq/Hash",TRE)],treestate,["==, Hash, interval_iter, collect"])

p("C10","Interval tree: queries describe exactly the points held",
"For every reachable interval tree, membership, emptiness, fullness, lower bound and upper bound agree with the points it holds; the enclosing interval is the smallest interval containing all its points and the closure the smallest closed one.",
["inputs","histories"],"all reachable trees and all probe points",
"Tests do not query trees with several intervals or infinite ends.",
[TRE],[("contains/is_empty/is_full/lower_bound/upper_bound/enclose/closure",TRE)],treestate,["TineTree queries"])

p("C11","Interval tree: iterators yield each interval once from both ends in any mix",
"The borrowing and the owning iterator of an interval tree yield its intervals in ascending order from the front and in descending order from the back; under every interleaving of front and back calls each interval is yielded exactly once, the two ends meet without overlap or loss, and once exhausted the iterator keeps returning nothing from both ends without panicking.",
["histories","inputs"],"all reachable trees and all interleavings of next and next_back",
"No test calls next_back on a tree, nor mixes directions.",
[TRE],[("Iter/IntoIter next and next_back with saved shared tines",TRE)],
[("saved boundary","an excluded point shared by two neighbouring intervals, handed from one call to the next",TRE)],["Iterator and DoubleEndedIterator"])

p("C12","Interval: equal exactly when holding the same points, however constructed",
"For a finite type, every constructor and conversion (bounds, open, closed, half-open, unbounded, point, full, empty, standard ranges, raw intervals) gives an interval holding exactly the values its description says (a half-open constructor given equal ends holds that one value, as documented; a standard range holds exactly the range's values), with both bounds included and in order, or empty when there are none. Two intervals compare equal, and hash equally, if and only if they hold the same values.",
["inputs"],"all constructor argument combinations, including reversed, equal, neighbouring and extreme end points of the type",
"Doc-tests sample one value per constructor; none covers neighbouring end points (no value between), single-value results or the extremes.",
[INT,NRM,RAW],[("normalizing constructors and From conversions",INT),("normalize",NRM)],observe=["Interval constructors, ==, Hash, bounds"])

p("C13","Interval: set operations are exact on the values of a finite type",
"For any two intervals over a finite type, complement, union, intersection, difference, enclosure and closure return intervals which together hold exactly the values set theory says (the enclosure being the smallest interval holding both operands' values), the pieces returned by one operation are pairwise disjoint, and every returned interval is in normal form, so it equals an interval directly constructed with the same values. The overlap test is true exactly when a value is shared, and the adjacency test exactly when the greatest value of one is the least value of the other.",
["inputs"],"all pairs of intervals over a finite type, including those at the extremes of the type",
"Doc-tests sample one pair per operation.",
[INT,RAW,NRM],[("complement/union/intersect/minus/enclose/closure",INT)],observe=["Interval set operations"])

p("C14","Interval: predicates and accessors agree with the values held",
"For every interval over a finite type, membership, emptiness, single-value and several-values tests, least and greatest value, bounds, non-empty conversion and size (greatest minus least, where representable) agree with the values it holds. Because finite-type intervals are normalized, every interval reports itself closed and bounded on both sides and never half-open or half-bounded, only the empty one also reports itself open, and every non-empty one is left-closed and right-closed.",
["inputs"],"all intervals over a finite type however constructed, and all probe values",
"Doc-tests sample one or two intervals per predicate.",
[INT],[("is_* predicates, bound accessors, size",INT)],observe=["Interval predicates"])

p("C15","Interval: iteration yields every value once, from either end in any mix",
"Iterating an interval over a finite type yields exactly the values it holds, ascending from the front and descending from the back; under every interleaving of front and back calls each value is yielded exactly once, and the iterator then returns nothing forever, including for intervals touching the extremes of the type and the empty interval.",
["histories","inputs"],"all intervals and all interleavings of next and next_back",
"Doc-tests iterate one interval forward and once reversed.",
[INT],[("Iter::next/next_back",INT)],[("inner","the interval of values not yet yielded",INT)],["Interval iterators"])

p("C16","Selection: any history of in-place operations holds the exact value set",
"Starting from any selection over a finite type, after any sequence of in-place unions, intersections and differences with arbitrary intervals, and of extensions with intervals, the selection holds exactly the values that the same sequence of set operations yields, and no operation panics.",
["histories","inputs"],"all sequences of in-place operations, of any length, with all intervals over a small finite type as arguments",
"Doc-tests apply one operation to a one-interval selection; there is no unit test of selections.",
[SEL,TRE,NRM,TIN],[("denormalize before tree operation, renormalize after",SEL)],treestate,["Selection in-place operations"])

p("C17","Selection: complement, union, intersection and difference are exact",
"For any two selections over a finite type, however built, complement, union, intersection and difference hold exactly the values set theory says, and the overlap test is true exactly when the two selections share a value; no operation panics, whatever the number of intervals in either.",
["inputs","histories"],"all pairs of selections over a small finite type, reached by different histories",
"Doc-tests combine one pair of single-interval selections per operation.",
[SEL,TRE,TIN],[("complement/intersect/union/minus/intersects",SEL)],treestate,["Selection set operations"])

p("C18","Selection: one representation per value set, listed as maximal intervals",
"Two selections over a finite type holding the same values are equal and hash equally, whatever sequence of constructions and operations (in-place or not) produced them. Their listed intervals are non-empty, ascending, disjoint and maximal: between the end of one and the start of the next lies at least one value not held.",
["histories","inputs"],"all pairs of histories reaching the same value set",
"Tests never compare selections produced by different histories.",
[SEL,NRM,TRE],[("denormalized storage",SEL),("derived Eq/Hash",SEL)],treestate,["==, Hash, interval_iter"])

p("C19","Selection: queries describe exactly the values held",
"For every reachable selection over a finite type, membership, emptiness, fullness, lower and upper bound agree with the values it holds; the enclosing interval and the closure are the smallest interval holding all its values. Every selection reports itself bounded on both sides and not half-bounded; infimum and supremum depend only on the values held, and each is the extreme value held or its neighbour outside (or nothing, when the selection is empty or reaches that extreme of the type).",
["inputs","histories"],"all reachable selections and all probe values",
"Doc-tests query one- or two-interval selections once.",
[SEL,TRE],[("contains/is_empty/is_full/bounds/enclose/closure",SEL)],treestate,["Selection queries"])

p("C20","Selection: iterators yield each value or interval once from both ends in any mix",
"Borrowing and owning iteration over a selection's values, and over its intervals, yields exactly the values (or maximal intervals) held, ascending from the front and descending from the back. Under every interleaving of front and back calls each item is yielded exactly once in that order, and the iterator then returns nothing forever without panicking.",
["histories","inputs"],"all reachable selections and all interleavings of next and next_back on all four iterators",
"No test iterates a selection backwards or in both directions.",
[SEL,TRE,INT],[("Iter/IntoIter/IntervalIter/IntoIntervalIter",SEL)],
[("current","partially consumed interval(s) of the value iterators",SEL)],["Selection iterators"])

p("C21","Collecting values or intervals gives the same selection in any order",
"Collecting any finite sequence of values, or of intervals (overlapping, touching, duplicate or empty ones included), into a selection or an interval tree, or extending one with it, gives the union of the items: the result does not depend on the order, grouping or repetition of the items, and converting an interval equals collecting it alone.",
["inputs","histories"],"all sequences of intervals or values up to a length, in every order and split between collecting and extending",
"Only a few aggregation orders are tested, on trees only.",
[SEL,TRE],[("FromIterator, Extend, From",SEL),("From/FromIterator for trees",TRE)],treestate,["collect, extend, from"])

p("C22","Built-in integers: predecessor and successor walk the whole type in order",
"For every built-in integer type, the declared minimum and maximum are the type's own, the successor of each value other than the maximum is the next greater value and its predecessor leads back, and only the maximum has no successor and only the minimum no predecessor; no step panics or wraps. Interval construction, set operations and selection operations over these types are exact at and next to the extremes and zero.",
["inputs"],"all values of the small integer types, and all values near the extremes, zero and byte or word limits of the wide ones",
"Doc-tests use i32 mid-range values only.",
[NRM,INT,SEL],[("std_integer_countable_impl",NRM)],observe=["Finite for integers; Interval/Selection over integers"])

p("C23","Bounds: merging two bounds gives the bound of the union or intersection",
"Reading each bound as the half-line it limits, the lower-bound and upper-bound union merges denote the union of the two half-lines and the intersection merges their intersection, at every pair of bound kinds and point orders, symmetrically in their arguments. Querying, mapping, defaulting or transferring a bound keeps its kind and applies exactly to its point.",
["inputs"],"all pairs of bounds over all point orders",
"The merge operations have no direct tests.",
[BND],[("least_union/least_intersect/greatest_union/greatest_intersect",BND),("map/transfer/unwrap family",BND)],observe=["Bound methods"])

p("C24","Boundary markers: total order and exact merging at a shared point",
"Boundary markers are totally preordered by position: the two infinities come first and last, all markers at one point compare equal, otherwise the points decide. Combining two markers at the same point by union, intersection or difference describes exactly which of the point's left side, the point itself and its right side are covered (nothing being returned exactly when the result is no boundary), and inverting a finite marker swaps covered and uncovered.",
["inputs"],"all pairs and triples of boundary markers",
"Markers are only tested indirectly, through single-interval trees.",
[TIN],[("Ord, union/intersect/minus/invert, from_raw_interval",TIN)],observe=["Tine methods"])

p("C25","Serialization round-trips values; read intervals are always normalized",
"With the serialization feature on, serializing any bound, raw interval, interval, interval tree or selection and reading it back gives an equal value that behaves identically, and equal selections serialize identically. Reading an interval of a finite type from any serialized raw bounds gives the same normalized interval as constructing it from those bounds.",
["inputs","histories"],"all reachable values over a small type, through a self-describing text format",
"The feature has no tests at all; it is only type-checked.",
[INT,SEL,TRE,TIN,BND,RAW],[("serde derives and transparent wrappers",INT+", "+SEL+", "+TRE)],observe=["serde Serialize/Deserialize"])

p("C26","Set laws hold across interval, tree and selection layers",
"The layers agree: performing an operation on intervals and collecting the pieces into a selection, performing it on the selections directly, and performing it in place all give equal selections. Consequently double complement, De Morgan, difference-as-intersection-with-complement, and union and intersection commutativity, associativity, idempotence and absorption hold as equalities of selections.",
["inputs","histories"],"all pairs and triples of selections and all pairs of intervals over a small finite type",
"Tests never compare one layer with another, and laws quantify over pairs and triples.",
[SEL,INT,TRE],[("Selection operators built on tree operators, Interval operators on raw ones",SEL)],treestate,["== between results of different API paths"])

p("C27","Work follows the number of intervals, never the number of values held",
"Over a finite type of any width, constructing, normalizing and denormalizing, comparing, hashing, querying and combining intervals and selections (in place or not), listing a selection's intervals, and every single step of value iteration from either end, its size hint included, take a number of comparisons, copies and predecessor or successor steps that depends on how many intervals are involved and not on how many values lie between their ends: intervals spanning a whole 64-bit-wide type are handled like ones of five values.",
["inputs","histories"],"all intervals, all pairs of them, all selections and pairs of them on an arrangement of end points, at two widths",
"Tests use ranges of a few values, on which walking the values costs nothing noticeable.",
[INT,SEL,NRM],[("Normalize for RawInterval",NRM),("Iter::next/next_back",INT),("operations through the interval tree",SEL)],treestate,["comparisons, copies, pred and succ calls made by each operation"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
