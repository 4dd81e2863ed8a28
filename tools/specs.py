"""What each check covers, for the driver and the evidence files."""

COMMON = [
    "rustc, the standard library and the matrixmultiply/num/rand dependencies are trusted except where the property is observed through them",
    "values outside the stated alphabets and sizes beyond the stated bounds are not explored",
]

SPECS = {
    "C03": {
        "level": "model_checking",
        "technique": "explicit-state exploration of write/read histories on the real objects against a reference model",
        "note": "Exhaustive within bounds on the real code: all contents over two values reachable by any mix of 8 write routes on objects of up to 5 (thorough 6) elements, all write sequences up to depth 3 (4), every layout x storage x size kind x scalar type; storage is compared completely, including gaps and guard zones, after each history.",
        "bounds": ("objects <= 5 elements to a fixpoint; sequences depth <= 3; sweeps over 17 larger shapes", "objects <= 6 elements to a fixpoint; sequences depth <= 4; sweeps over all shapes <= 24x24 and larger ones"),
        "assumptions": COMMON,
    },
}

def _s(technique, note, quick, thorough, assumptions=(), level="model_checking", **kw):
    return dict(level=level, technique=technique, note=note, bounds=(quick, thorough), assumptions=COMMON + list(assumptions), **kw)


SPECS.update({
    "C01": _s("exhaustive enumeration of layouts, dimensions and positions, and of interleaved query pairs, on the real layouts against a reference numbering",
        "Complete for every layout kind and every dimension within the bounds: both conversions at every stored position, the derived index layout, and interleavings of the queries of pairs of layouts (no hidden state). Beyond the bounds, boundary dimensions up to the largest representable ones are probed at their edges, and every row boundary of huge triangles whose count fits.",
        "all matrices <= 20x20, vectors <= 600, triangles <= 160; boundary dimensions to 2^64", "all matrices <= 48x48, vectors <= 5000, triangles <= 420; more row boundaries of huge triangles"),
    "C02": _s("exhaustive enumeration of layouts, dimensions, stride pairs and positions on the real layouts against reference addresses",
        "Complete for every layout kind, dimension and stride pair within the bounds: every position's location by both routes, reported strides, injectivity where strides do not overlap, dense coverage for packed layouts.",
        "all matrices <= 16x16 with every stride of a list, vectors <= 300, triangles <= 120; boundary dimensions", "all matrices <= 40x40, vectors <= 3000, triangles <= 320",
        ["strides that themselves overlap are explored for address agreement, not for injectivity"]),
    "C04": _s("exhaustive enumeration of access positions on every kind of object with monitored storage",
        "Every kind of object (layouts, storages, blocks, split blocks, wrappers, expressions) x every position in a window around the object and every combination of an alphabet of huge indices, through every checked route; all ordered pairs of accesses on small objects. Storage is monitored: a refused access reads nothing and changes nothing, including guard zones. Run with and without overflow checks.",
        "objects <= 3x3 and some larger, windows of 2 past the end, 20 huge values squared", "objects <= 6x6"),
    "C05": _s("exhaustive enumeration of construction requests on the real constructors against a reference decision of which must be granted",
        "Every constructor and macro, every small dimension, every storage length around the exact need of every layout and stride, and products of boundary dimensions and strides whose count or extent is not representable; granted objects are compared completely with the reference. Every sequence of three uses of 12 macro forms whose argument answers differently at every evaluation.",
        "dimensions <= 12x12 and larger ones, storage lengths need-3..need+3, boundary values around 2^16, 2^32, 2^63, 2^64", "dimensions <= 32x32, more wrapped storage",
        ["requests that are representable but exceed the machine's memory are not made"]),
    "C06": _s("exhaustive enumeration of blocks of blocks on the real views against a reference window",
        "Every block of every block (depth 2 quick, 3 thorough for small parents) of every parent kind, every read route and every out-of-window access; every block request over an alphabet containing the parent's edges and huge values, granted exactly as the reference says; pairs of simultaneous blocks. Parents have guard zones.",
        "parents <= 4x4, all blocks to depth 2 or 3, larger parents with edge blocks", "parents <= 5x5, depth 3"),
    "C07": _s("explicit-state exploration of histories of mutable blocks and writes on the real objects against a reference model",
        "Fixpoint over contents reachable by block-write-release histories on small parents, all write sequences through nested mutable blocks by every route, all requests over an edge alphabet; the parent's whole storage including gaps and guards is compared after every history.",
        "parents <= 3x3 (fixpoints on fewer elements), nesting depth 3, sequences <= 3", "parents <= 4x4, longer sequences"),
    "C08": _s("exhaustive exploration of operation interleavings over the four blocks on the real split against a reference model",
        "Every split point (inside, edges, outside, wrapping) of every small row-major matrix; all operation sequences to a depth over the four blocks and all interleavings of four per-block programs; own-block visibility, isolation from siblings and final parent contents compared after every operation.",
        "matrices <= 4x4, sequences <= 3, all interleavings of programs of 1-2 operations", "matrices <= 5x5, sequences <= 4, longer programs",
        ["data races under real threads are outside: the blocks are driven from one thread"]),
    "C09": _s("exhaustive enumeration of expression forms, shapes, storage combinations and value tuples against scalar arithmetic",
        "30 expression forms (owned/borrowed, scalar left/right, nested) x all small shapes x storage classes x four scalar types, and all value tuples over an alphabet with zeros, signed zeros, infinities, NaN, subnormals, by every read route and by evaluation; and every expression tree of up to four operators; compared bit for bit.",
        "dimensions <= 4x4 and some larger, value alphabet^3 for the operands; 282 trees of up to 4 operators (all operand ownerships and scalar sides up to 2)", "dimensions <= 8x8, larger alphabets; the same trees",
        ["expression trees of more than four operators are not explored"]),
    "C10": _s("exhaustive enumeration of expression forms and element reads on monitored storage with a counting allocator",
        "Every expression form over monitored operands: construction makes no access and no allocation, each single read touches exactly its operand elements, operands changed between reads are seen, and each evaluation reads every occurrence's elements exactly once, allocates only the result and leaves operands unchanged; for 30 forms and for every expression tree of up to four operators.",
        "dimensions <= 3x3 and four larger, 7 scalar pairs; 282 trees", "dimensions <= 6x6 and five larger, 49 scalar pairs; 282 trees",
        ["accesses through raw pointers are not counted (none are made today): for those only values and operand contents are compared"]),
})

SPECS.update({
    "C11": _s("explicit-state exploration of evaluation and write histories on the real objects against a reference model",
        "Five worlds (row-major, column-major, both strided, triangular) x 4 scalar types: every source (matrix, every block, nested and mutable blocks, wrappers, sums, scalar products) is evaluated and both sides are then written element by element with full comparison; all histories of evaluate / re-evaluate / write source / write result to a depth, compared after every operation.",
        "dimensions 0..4 squared plus 4 larger; every block of them; histories to depth 4 at 2x2 and 3 at 3x3", "dimensions 0..8 squared plus 5 larger; histories to depth 5 at 2x2 and 4 at 3x3"),
    "C12": _s("exhaustive enumeration of shape combinations on the real operations against a reference decision of which must be refused",
        "Every combination of target and factor dimensions, of operand kinds (owned, strided, sub-block, slice) and shapes for in-place products, allocating products and sums; after a refusal the factors, the target, its surrounding storage and guard zones are unchanged.",
        "all dimensions 0..4 for products, {1,2,6,12} for equal element counts, 0..5 for allocating products, 0..4 for sums, empty operands of enormous dimension", "0..7, {1,2,3,4,6,8,12,24}, 0..9, 0..7",
        ["operand kinds rotate over the shape combinations in the product spaces (9 mixes) instead of forming a full cross product"]),
    "C13": _s("exhaustive enumeration of operand kinds, dimensions, scalar pairs and contents on the real product against exact integer arithmetic",
        "Every combination of operand kinds for every small dimension, every scalar pair of an alphabet, all contents of small factors over 2-3 values, all sequences of products over a pool of three matrices (targets feeding later factors), and sizes at the edges of the implementation's blocking. Data is exactly representable, so equality is exact.",
        "dimensions 0..6 cubed (0..10 for vectors), sizes at edges up to 1025, contents over 2-3 values, sequences of 2", "dimensions 0..9 cubed (0..20), all three dimensions beyond edges up to 300, sequences of 3",
        ["large sizes are explored at the edges of blocking thresholds, not all"]),
    "C14": _s("exhaustive enumeration of operand frames, perturbations and product programs on the real product with complete comparison of memory",
        "For every combination of operand kinds and dimension: factors and everything around the target (frame, stride gaps, guard zones) compared bitwise after the product; every row of the left and column of the right factor replaced (by NaN and other values) in turn, with only the corresponding target row or column allowed to differ; all programs of products among the four blocks of a split matrix.",
        "dimensions 0..4 cubed (0..8 for vectors) plus 7 larger; programs of 2 products in splits of matrices up to 4x4", "0..7 cubed (0..14) plus 13 larger; splits up to 6x6",
        ["reads of the factors that do not influence a result are not observed"]),
    "C15": _s("exhaustive enumeration of operand kinds, dimensions, contents and call sequences on the real allocating product against exact arithmetic",
        "Every kind of both operands at every dimension, all contents over 2-3 values of small factors, all pairs of a job pool executed in sequence with all earlier results kept and rechecked, results written to with operands rechecked and vice versa.",
        "dimensions 0..8 cubed (0..20 for vectors), edges up to 1025", "dimensions 0..14 cubed (0..60), all edges up to 1025"),
    "C16": _s("exhaustive enumeration of window bounds on every kind of object against a reference model of the storage",
        "Every window inside and just outside the storage and all pairs over huge bounds, read and write, on every kind of object and every (nested, mutable) block; all pairs of writing windows with every element read back by every route; matrices on pointers at every offset and stride of a list. Storage and guard zones are compared completely.",
        "dimensions 0..3 squared plus vectors, 2 scalar types", "dimensions 0..4 squared plus larger ones, 4 scalar types",
        ["windows of strided blocks legitimately contain elements of the parent between the block's own"]),
    "C17": _s("explicit-state exploration of apply-to-all passes, with a panic at every call, against a reference model",
        "Every kind of object: all subsets of written elements, a panic at every call (before or after its write), all pairs of passes over four actions per element, callables with and without state over runs of equal elements, passes in every nested mutable block; number, order, identity and value of the visited elements and the complete storage compared each time.",
        "dimensions 0..5 squared; subsets to 6 elements; pairs of passes to 3 elements", "dimensions 0..8 squared; subsets to 10 elements; pairs of passes to 4 elements"),
    "C18": _s("exhaustive enumeration of generator answer sequences and failures on the real filling against the distribution itself",
        "The generator is the environment: all sequences of its answers over four symbols (accepted +, accepted -, tail, wedge) to a length and over seven (also zero, far tail, repeated) to a shorter one, a failure at every answer, histories of fillings, all nested mutable blocks, every kind of object and 4 scalar types. The elements, the number and kind of answers drawn, and all surrounding storage are compared with samples taken directly from the distribution on an equal generator.",
        "answer sequences of length 6 for up to 4 elements and 2-4 for larger; dimensions 0..5 squared plus 5 larger", "answer sequences of length 8, 6 and 4; dimensions 0..8 squared plus 5 larger",
        ["rand_mat!/rand_vector! draw from the thread's own generator: only their shape and that no element is zero are checked"]),
    "C19": _s("explicit-state exploration of wrapped accesses and write histories at every wrapping depth against a reference model",
        "Matrices, vectors, triangles, strided and fixed ones and blocks under 0-3 shared, 0-3 mutable and mixed wrappers: everything readable including numbering, every refused access, all histories of writes over depth x element x route, sums, scalar products and evaluations with wrapped operands, wrappers around expressions; monitored storage shows a wrapped access touches exactly what an unwrapped one does.",
        "dimensions 0..4 squared plus larger, histories of 2 wrapped writes", "dimensions 0..7 squared plus larger, histories of 3"),
    "C20": _s("exhaustive enumeration of argument pairs and of generator and distribution answer sequences against the standard library",
        "Two-argument arctangent on all pairs of a bit-pattern alphabet (every exponent, extreme mantissas, signed zeros, infinities, NaNs), bit for bit; complex arguments refused. Drawing scalars: all answer sequences to a length for three distributions, scripted distributions with every draw count and failing at every sample, all sequences of scalar types from one generator.",
        "f32: every exponent x 4 mantissas x sign, squared; f64: every second exponent x 3 mantissas, squared; answers to length 6", "f32: 9 mantissas; f64: every exponent x 4 mantissas; answers to length 7"),
    "C21": _s("explicit-state exploration of a model of ownership; every program it generates is compiled against the crate and the compiler's verdict compared with the model's",
        "All programs up to a length over a matrix, its views and the views of its views: creating, reading, writing, assigning, moving, products and sums, leaving a scope, and every pair or triple of operand types. The states explored are those of the model; each of its traces is one program, replayed on the library's signatures by the compiler (type and borrow checking, no execution). Both verdicts are compared: conflicting programs must be rejected because of the conflict, the others accepted.",
        "programs of up to 3 statements over 9 kinds of matrices (4 over 3 of them), owned or behind references", "programs of up to 4 statements over 9 kinds of matrices (5 over 2 of them), all scalar types",
        ["the type and borrow checker of rustc is trusted to apply the library's signatures"]),
    "C22": _s("exhaustive enumeration of operand contents over alphabets of inexact values, scalars, shapes and storages, on the real products against a twice-precise reference",
        "All contents of small factors over up to 11 values whose products round, all inner products of up to 3 (4) terms over 12, 11, 7 values in one product each, every pair of scalars including magnitudes 2^+-640 apart, factors of which one is huge and the other tiny, every shape within the bounds with all storages of factors and targets, sizes around and beyond blocking thresholds; also the allocating product. Reference and bound are computed in twice the precision of f64. Values outside the alphabets are not explored: the bound is decided for the enumerated contents only.",
        "sizes <= 7 (vectors 16) squared, contents of up to 8 elements, thresholds to 1025, some sizes to 70000", "sizes <= 10 (30), one more value, every threshold +-1 to 2049",
        ["the bound is 2(k+8) (complex: 4(k+8)) unit roundoffs, at least twice the textbook one, so that a reordered summation stays inside"]),
    "C23": _s("stateless exploration of the real code under a controlled scheduler: all re-entries, all abandonments, all schedules of two threads up to a bound of switches, and interruption at machine instructions",
        "18 groups of operations on disjoint objects (quadrants of one matrix, shared read-only operands, own ones), with storage, layouts, generators and callables supplied by the client: every operation inside of every callback of every other (also two deep), every operation after every other was abandoned at every callback, all sequences, all schedules of two threads with the given number of switches at callbacks; in the optimised build every operation is also single-stepped while a second thread executes all the others after every instruction, or the same one after one. Every result and all elements are compared with those of the operation alone. Which types can be moved to or shared between threads is decided for a list of matrices, views, wrappers and expressions.",
        "5 sizes of matrices for f64 (2 for the other types); one switch (two for equal operations on 2x2); two-deep re-entry for one size; interruption once per distinct instruction; sequences of 2-3", "all sizes and types; two switches; interruption at every executed instruction; sequences of 3",
        ["instructions inside of the C library are not interrupted; two threads never execute at the same instant, so hardware reordering is not explored"]),
})

# Spaces that several checks share (see DESIGN.md, section 2); the evidence lists them by name with their counts.
_SHARED = {
    "stride classes": ("C03 C04 C06 C07 C16 C17 C18".split(), "every class of strides (packed, gapped by rows, between elements or both, in either orientation)"),
    "thresholds": ("C03 C04 C06 C07 C08 C09 C10 C11 C14 C16 C17 C18 C19".split(), "objects of sizes around 2^k and blocking sizes with boundary positions probed"),
    "large": ("C13 C14 C15 C22".split(), "products large in all three dimensions at once (up to 140x260x101)"),
}
for _ids, _text in _SHARED.values():
    for _i in _ids:
        SPECS[_i] = dict(SPECS[_i], bounds=tuple(b + "; " + _text for b in SPECS[_i]["bounds"]))
