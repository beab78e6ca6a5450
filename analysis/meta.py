"""what each check does, for MANIFEST.json and the evidence files"""
COMMON_ASSUMPTIONS = [
    "the MIR rustc (nightly, default features, lib and bin targets) builds from the current tree is the program that runs",
    "models of the standard library, petgraph, num, ordered_float, rustc_hash and itertools functions it calls (analysis/models.py) are right",
    "functions with no model, or loops outside the recognised forms, make an obligation undecided (never an alarm); undecided obligations are printed and counted",
]
SUMM = ("abstract interpretation of the type-checked MIR into function summaries (value numbering over terms, polynomials and "
        "comprehensions; loops by fixpoint forms), summaries compared with the specification by normal form")
RI = "; where normal forms differ textually, terms are separated by random interpretation"
IND = "; loops kept as transition systems are checked by a one-step inductive invariant"
META = {}


def m(pid, technique, note, explanation, assumptions=()):
    META[pid] = {"technique": technique, "note": note, "explanation": explanation, "assumptions": list(assumptions), "rule": technique}


RIPS = "Distances are symmetric with zero diagonal; simplices are given by ascending vertex lists of the same point set."
NOTE = ("Static: nothing of the program is executed. Obligations decided by normal form hold for every input under the stated "
        "assumptions; those decided by random interpretation of the summary terms are complete for disagreement (a reported difference is "
        "a real difference of the terms) but agree only with the confidence of the number of interpretations. ")

m("C12", "MIR function summaries vs specification terms (abstract interpretation, normal forms), plus a rule on wrapping arithmetic",
  NOTE + "Covers the public encode, decode, dimension and equality functions of the simplex index.",
  "Summaries of encoding, decoding, dimension and equality of simplex indices are computed from MIR and compared with the positional "
  "code; every arithmetic operation reachable from the encoder is checked to signal overflow.", [RIPS])
m("C13", SUMM + RI, NOTE + "Covers the boundary column for every simplex and the matrix builder.",
  "The summary of the boundary column is compared with the alternating sum of facets.", [RIPS])
m("C14", SUMM + RI + IND, NOTE + "Covers the coboundary column, the cofacet iterator (every step from every consistent state) and the builder.",
  "The summary of the coboundary column is compared with the signed list of cofacets; the iterator's step function is checked to preserve "
  "the list of cofacets a state stands for.", [RIPS])
m("C15", SUMM + RI, NOTE + "Covers both filtration functions and both enriched columns.",
  "Summaries of the filtration values and enriched columns are compared with diameters.", [RIPS])
m("C16", SUMM + RI + "; recursion by an inductive contract",
  NOTE + "The recursive enumeration is checked against its contract under the hypothesis that recursive calls satisfy it.",
  "The summary of the basis builder is compared with the sorted lists of all simplices; the recursion is checked against its contract.", [RIPS])

m("C01", "MIR function summaries vs field axioms: exhaustive over the finite fields' summaries, random interpretation for the rationals",
  NOTE + "For the finite fields the summary of each operation is evaluated on every pair of valid elements, so the verdict is complete; "
  "for the rationals the summary is compared with exact fractions by random interpretation.",
  "Summaries of add, mul, neg, inverse and one of every provided field are compared with the field's tables.",
  ["integer overflow of the rationals' machine integers is outside the property's bound"])

ROWFV = "Two terms compared in one column with equal rows have equal filtration values (the filtration is a function of the row)."
m("C02", SUMM + RI, NOTE + "Covers every comparison method an entry has, its conversions, scaling and cloning.",
  "Summaries of the comparison, conversion, scaling and cloning functions of column entries are compared with the order (filtration, row).")
m("C03", SUMM + RI + IND,
  NOTE + "The popping loop is checked to preserve the formal sum of the column one step at a time; a loop written in a shape the invariant "
  "does not fit is decided by comparing the recursive summary as a whole. The library's binary heap is modelled as a priority multiset.",
  "Every operation of heap columns is summarised and compared with the formal sum of its terms; popping is checked by an invariant.", [ROWFV])
MATRIX = "The wrapped matrix is an arbitrary unknown one: its columns, filtration values and basis elements are functions of the arguments they are asked for."
m("C04", SUMM + RI,
  NOTE + "Every adaptor is built through its public constructor around an unknown matrix; each method of what the constructor returns is summarised "
  "and compared with the wrapped matrix, as is every forwarding implementation for references and smart pointers.",
  "Summaries of column, filtration_value, column_with_filtration and basis of every adaptor are compared with those of the wrapped matrix.", [MATRIX])
m("C05", SUMM + RI,
  NOTE + "Covers reversing and un-reversing of matrices and bases, in every dimension, and both ways back.",
  "Summaries of the reversing adaptors' methods are compared with the wrapped matrix turned around.", [MATRIX])
m("C06", SUMM + RI,
  NOTE + "Columns are compared as formal sums over an unknown field; the comparison of two matrices is decided against equality of formal sums.",
  "Summaries of product, sum and eq_on_col are compared with linear algebra on unknown factors.", [MATRIX])
m("C07", SUMM + RI + "; every implementation in the workspace is enumerated",
  NOTE + "Implementations that use the default method are covered by the obligation on the default; each one that overrides it is compared with "
  "its own column and filtration.",
  "The enriched column of every implementation is compared with its plain column and its row filtration.", [MATRIX])
m("C11", SUMM + RI + "; a guard dataflow over MIR with interprocedural summaries",
  NOTE + "The cached column is summarised from an arbitrary cache that holds true columns, so the statement covers every history of calls by "
  "induction; the dataflow covers every function of the workspace that touches an interior-mutable cell.",
  "The summary of a cached column (its result, the cache it leaves behind, what it asks of the wrapped matrix) is compared with the wrapped "
  "column; a dataflow checks that no cell is accessed against a live guard and that no guard is held by a returned iterator.", [MATRIX])
m("C27", SUMM + RI + "; every implementation in the workspace is enumerated",
  NOTE + "Every basis is summarised over an arbitrary stored list; loops over dimensions are followed through their extracted transitions. The basis of "
  "the Python bindings delegates to Python objects and stays undecided.",
  "Summaries of element, size, in_dimension and the reverse lookup of every basis are compared with the stored list.",
  ["elements of a basis are pairwise different"])
m("C28", SUMM + RI,
  NOTE + "Every constructor is summarised, and the columns and basis of what it returns are compared with what it was given; positions and keys "
  "that were not given have to panic.",
  "Summaries of the columns and bases of stored matrices, built by each constructor, are compared with the given columns.")
COMPLEX = ("The boundary is a graded chain complex over a field whose bases list every dimension in the order of its rows; dimension_order and "
           "reverse_order are given as documented.")
FOLLOW = (" The extracted transition systems of the nested loops are followed symbolically over sampled complexes (an interpretation of the summary's "
          "terms; the program is not run) and the resulting values judged by the defining property.")
m("C08", SUMM + "; the summary's nested transition systems are interpreted over sampled complexes and judged by R = DV reduced, V unitriangular",
  NOTE + FOLLOW,
  "The summary of the standard algorithm (two nested transition systems over the reduction matrix, the pivot map and the two working columns) "
  "is interpreted and its result judged by the definition of a reduction.", [COMPLEX])
m("C09", SUMM + "; the summary's nested transition systems are interpreted over sampled complexes and judged by the definition of clearing",
  NOTE + FOLLOW,
  "The summaries of the clearing algorithm, of the columns of the matrix it returns and of its cycle test are interpreted together and "
  "judged by: R = DV reduced, V unitriangular off the cleared columns, cleared columns are reduced columns of their partners, the diagram "
  "is that of R.", [COMPLEX])
m("C10", SUMM + RI + "; nested transition systems interpreted over sampled complexes",
  NOTE + FOLLOW,
  "The summaries of reading off a diagram, of reducing and reading off at once and of clearing are compared with the diagram computed from "
  "the reduced matrix.", [COMPLEX])

DIGRAPH = ("Digraph filtrations are sampled up to 6 vertices (edges present, absent, at ties and without self-loops); a vertex has no edge to itself.")
m("C17", SUMM + RI,
  NOTE + "The boundary and coboundary columns of every kind of cell are summarised over an arbitrary digraph filtration; loops over vertices are kept as "
  "comprehensions. The coboundary's map of bridges is summarised as built by the code.",
  "The summaries of the path-homology boundary and coboundary columns are compared with the signed boundary of the path complex and its transpose.", [DIGRAPH])
m("C18", SUMM + RI,
  NOTE + "Ties between bridges, shortcuts and missing edges are part of every interpretation.",
  "The chosen bridges, the times attached to two-cells in coboundary columns and the filtration values of both matrices are compared with the times at "
  "which all paths of a cell are present.", [DIGRAPH])
m("C19", SUMM + RI,
  NOTE + "Iteration over the hash container of grounded edges is interpreted in an arbitrary order.",
  "The summaries of the bases and of the filtration values of nodes and edges are compared with the sorted lists of grounded cells.", [DIGRAPH])
m("C20", SUMM + "; library functions of other properties replaced by their contracts, the summary's terms interpreted over sampled digraphs and diagrams",
  NOTE + "Building the matrices and reducing them are replaced by their contracts (obligations of C08-C10, C17-C19), with an arbitrary diagram, so the "
  "verdict is about what the Python functions themselves do with it: dimensions, births, deaths, representatives, the deletion of bars.",
  "The summaries of the Python entry points, under those contracts, are interpreted over sampled digraphs and arbitrary diagrams; every bar they "
  "return is compared with the bar its pairing stands for.", [DIGRAPH])
m("C21", SUMM + RI,
  NOTE + "petgraph's graphs and Dijkstra's algorithm are modelled by their specification.",
  "The summaries of the functions that turn the input graph into a filtration are compared with shortest-path times, over sampled graphs with and "
  "without paths.", [DIGRAPH])
m("C26", SUMM + "; library functions of other properties replaced by their contracts, the printed lines interpreted over sampled matrices and diagrams",
  NOTE + "Building and reducing the matrix are replaced by their contracts (C08-C16) with an arbitrary diagram; format strings are decoded from the "
  "compiled templates.",
  "The lines the program prints are summarised as terms over the input and the diagram and compared with the bars of that diagram; the matrix that "
  "is reduced is compared with the reversed coboundary matrix of the input by normal form.", [RIPS])
m("C22", "every integer conversion in MIR is enumerated and its operand bounded by interval analysis of function summaries, in every calling context up to "
  "the public functions; summaries of the Python functions interpreted with narrow types of parametric width",
  NOTE + "A conversion whose operand is neither bounded nor shown to be exceeded is reported as undecided. Widths of the 8 and 16 bit types are "
  "interpreted as 1 and 2 bits in the rule on the Python functions, so that sampled digraphs exceed them. Arithmetic of the coefficient fields is C01's.",
  "All conversions between integer types that can change a value, and conversions to graph indices, are listed from MIR; each is bounded by its "
  "operand's summary; vertices given to Python functions are followed to the matrices.")
m("C23", "every unsafe operation in MIR is enumerated; pointer-origin dataflow with a layout and lifetime rule for reinterpreted references; values given to "
  "unchecked constructors decided from function summaries, in every calling context up to the public functions",
  NOTE + "Unsafe operations with no rule are reported as undecided; code generated by the expansions of pyo3's macros and by format macros is not analysed. "
  "Coefficients of a prime field take the values 1 to P-1 for every P, prime or not (the constructors keep to that: C01, C25).",
  "Unsafe calls, raw pointer dereferences and transmutes are listed from MIR; each value must be non-zero, not NaN, present, in bounds or the path "
  "impossible; each reinterpreted reference must have the same layout as, and the lifetime of, the reference it comes from.")
m("C25", "field visibility, function signatures and mutable borrows from the type-checked program; constructors' summaries evaluated over finite domains; "
  "compile-fail witnesses against the crates' metadata, each with a compiling twin",
  NOTE + "Constructors of rationals are evaluated on sampled fractions small enough not to overflow (C01's precondition). A witness whose twin no longer "
  "type-checks is reported as undecided.",
  "The guarded types' fields are private; every safe function the outside can call that yields a coefficient of a finite field or a rational yields "
  "a valid one for every modulus sampled; none gives a mutable reference into a guarded type or takes a reduction matrix's stored columns; the "
  "programs of analysis/witness that confuse indices, fields, filtrations or bases are rejected by the type checker.")
m("C24", "sources of nondeterminism enumerated from MIR and followed by dataflow with control dependence; summaries that iterate hash containers interpreted "
  "under several orders of iteration, all else equal",
  NOTE + "The relational interpretation covers the public functions other properties have summaries of; a hash iteration outside them that the local "
  "rule does not follow is reported as undecided. Caches behind shared state and threads are undecided.",
  "No clock, random number, identity, address, environment variable or counter reaches a result, a parameter, a call or the end of a function; every "
  "iteration of a hash container is in a function whose results (as sets, maps, multisets where documented as unordered, sequences elsewhere) are the same "
  "under three orders of iteration.", [DIGRAPH])
