#!/usr/bin/env python3
"""writes properties.jsonl (kept as code so that it is easy to review)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


COL, FLD = "phlite/src/columns.rs", "phlite/src/fields.rs"
MOD, ADA, COM, IMP = ["phlite/src/matrices/%s.rs" % x for x in ("mod", "adaptors", "combinators", "implementors")]
RED, STD, CLR = ["phlite/src/reduction/%s.rs" % x for x in ("mod", "standard", "clearing")]
RL, RH, RC, RM = ["phlite_rips/src/%s.rs" % x for x in ("lib", "homology", "cohomology", "main")]
GL, GB, GC = ["phlite_grpph/src/%s.rs" % x for x in ("lib", "boundary", "coboundary")]

p("C01", "Coefficient arithmetic is exact field arithmetic",
  "For every provided coefficient field (the field with 2 elements, the prime fields with 3, 5, 7, 11 and 13 elements, and the rationals) addition, multiplication, additive inverse, multiplicative inverse and the unit agree with the field's arithmetic on all non-zero elements. A sum that is zero is reported as the absence of a coefficient and a non-zero sum never is. Results are again valid, normalised non-zero elements.",
  ["inputs"], "every pair of non-zero elements of every provided field (for the rationals: every pair in lowest terms small enough that products of two of their numerators and denominators fit the machine integers)",
  "The tests add and multiply in the fields with 2 and 3 elements only; inverse tables for 5..13 and rational arithmetic are never evaluated.",
  [FLD], [("Add/Mul/NonZeroCoefficient/Invertible implementations", FLD), ("multiplicative inverse tables", FLD)])
p("C02", "Column entries are ordered by filtration value and then row",
  "Comparing two column entries compares their filtration values first and their row indices second, whatever the coefficients are; the ordering is consistent with equality of rows within one matrix. Converting an entry to and from a (coefficient, row, filtration) triple and scaling an entry by a coefficient keep every component in its place.",
  ["inputs"], "every pair of entries, every filtration and row type",
  "Tests only sort columns with trivial filtrations, so the filtration half of the order is never distinguished.",
  [COL], [("Ord/PartialOrd/PartialEq for ColumnEntry", COL), ("From conversions and Mul for ColumnEntry", COL)])
p("C03", "A heap column behaves as the formal sum of the entries added to it",
  "Adding entries in any order and multiplicity makes a column stand for their formal sum. Popping the pivot removes and returns the largest entry with non-zero total coefficient, carrying that total, its own row and its own filtration value, and leaves the column standing for the rest; it returns nothing exactly when the sum is zero. Draining or sorting therefore lists every non-zero term exactly once in descending order, and inspecting the pivot by cloning leaves the sum unchanged.",
  ["inputs", "histories"], "every sequence of additions and pops, every field, every multiset of entries including repeated and cancelling rows",
  "Tests exercise columns with a few distinct rows; cancellation of several consecutive rows and repeated rows in larger heaps depend on the heap's history.",
  [COL], [("BHCol::pop_pivot", COL), ("BHCol::add_entry/add_entries/add_tuple(s)", COL), ("BHCol::drain_sorted/to_sorted_vec/clone_pivot", COL)],
  state=[("heap", "multiset of unsummed entries ordered as in C02", COL)])
p("C04", "Adaptors do not change the matrix they wrap",
  "Giving a matrix a filtration, a trivial filtration, a column basis, a cache or a consolidation, restricting it to the columns of one dimension, indexing it by position in its basis, or putting it behind a reference or smart pointer yields a matrix with the same columns, the same row filtration and the same basis, except for the one aspect the adaptor documents as changed. A consolidated column is the same formal sum with each row listed once.",
  ["inputs", "programs"], "every wrapped matrix, every column, every nesting of adaptors",
  "Adaptors are generic over every matrix a user writes; the tests instantiate a handful on small fixed matrices.",
  [ADA, MOD], [("MatrixOracle/HasRowFiltration/HasColBasis implementations of every adaptor", ADA), ("implementations for &M, Rc, Arc, Box", MOD)])
p("C05", "Reversing a matrix or basis reverses order only, and un-reversing undoes it",
  "Reversing a matrix keeps every column's coefficients and rows and turns the order of rows, columns and filtration values around; reversing a basis lists the same elements from last to first, in every dimension. Un-reversing a reversed matrix or basis gives back the original columns, filtration values and elements in the original positions.",
  ["inputs", "programs"], "every matrix, every basis of every size, every index in range, every dimension",
  "Tests use one or two reversed matrices; positions near the ends of a basis and the un-reversed filtration are not compared.",
  [ADA], [("ReverseMatrix, ReverseBasis", ADA), ("UnreverseMatrix, UnreverseBasis", ADA)])
p("C06", "Products and sums of matrices are the linear-algebra product and sum",
  "Each column of a product is the combination of the left factor's columns prescribed by the right factor's column, each column of a sum is the sum of the two columns, as formal sums over the field. The product keeps the left factor's row filtration and the right factor's column basis. Comparing two matrices on a column says they are equal exactly when the two columns are equal as formal sums.",
  ["inputs", "programs"], "every pair of composable matrices, every column, every field",
  "Tests multiply two fixed matrices over the field with two elements, where neither coefficient products nor their order can go wrong.",
  [COM, MOD], [("Product::column / column_with_filtration, matrix_col_product!", COM), ("Sum::column", COM), ("MatrixOracle::eq_on_col", MOD)])
p("C07", "A column with filtration values agrees with the column and the row filtration",
  "For every matrix in the workspace, the column enriched with filtration values lists the same rows with the same coefficients as the plain column, and attaches to each row the value the matrix's row filtration gives it. Building a heap column collects exactly these entries.",
  ["inputs"], "every matrix type of the library and of both applications, every column",
  "Efficient overrides exist precisely where the value is computed differently from the default; a mismatch only shows on particular simplices or cells.",
  [MOD, ADA, COM, RC, GC], [("HasRowFiltration::column_with_filtration default and overrides", MOD), ("build_bhcol/empty_bhcol", MOD)])
p("C08", "The standard algorithm keeps R = DV and makes progress at every step",
  "While the standard algorithm reduces a column, the working column always equals the boundary matrix applied to the working reduction column, each step adds the same multiple of an earlier reduced column to both and cancels the current pivot, and a step only happens when an earlier column has that pivot. On completion every column of the returned reduction matrix has coefficient one on its own element and only earlier elements otherwise, and each recorded pivot belongs to the column stored for it.",
  ["inputs"], "every boundary matrix, filtration, basis and field",
  "Tests reduce two fixed complexes over the field with two elements; the invariant is about every intermediate state and the coefficients matter only over other fields.",
  [STD], [("standard_algo reduction loop", STD), ("low_inverse bookkeeping", STD)])
p("C09", "Clearing keeps R = DV and clears only columns that are paired",
  "Each reduction step adds the same multiple of an earlier reduced column to the working column and to its reduction column so that the pivot cancels. A saved column without pivot is essential, one with a pivot is paired with it and the pivot's own column is marked as cleared, and columns already cleared or reduced are skipped. The columns of the returned matrix are the stored combination plus the diagonal unit, or, for a cleared column, the reduced column of its partner; a column is reported as a cycle exactly when its reduced column is zero.",
  ["inputs", "histories"], "every boundary or coboundary matrix split by dimension, every field, every dimension order that follows the complex",
  "Tests run two examples over the field with two elements; the stored representation, the cleared case and the coefficients are not observed.",
  [CLR], [("CRMBuilder::reduce_column/save_column/reduce_dimension", CLR), ("ClearedReductionMatrix::column, col_is_cycle", CLR), ("build_with_diagram", CLR)])
p("C10", "Every basis element is classified exactly once in the diagram",
  "Reading off a diagram pairs the pivot of each non-zero reduced column with that column, reports as essential exactly the elements whose reduced column is zero and which are nobody's pivot, and visits the columns so that births are seen before the deaths that pair them. Computing the reduction and the diagram together gives the same result as doing the two steps separately.",
  ["inputs"], "every reduced matrix, both complex directions",
  "The tests look at the pairings of a few complexes in one direction.",
  [STD, CLR, RED], [("read_off_diagram", STD), ("standard_algo_with_diagram", STD), ("CRMBuilder::save_column diagram update", CLR)])
p("C11", "Caching columns is invisible apart from speed",
  "A cached matrix returns for each column exactly the entries of the underlying column, on the first and on every later request, in any order of requests. Requests may be nested: asking for columns while iterating over another never panics, and the underlying matrix is asked at most once per column.",
  ["inputs", "histories"], "every sequence and nesting of column requests on every wrapped matrix",
  "No test asks for a second column while the first is alive; the failure is a run-time borrow panic that only a particular interleaving shows.",
  [ADA], [("WithCachedCols::column", ADA)], state=[("cache", "columns computed so far", ADA)])
p("C12", "Simplex indices encode vertex sets without loss",
  "Encoding a non-empty list of vertices of a point set and decoding it gives the same vertices back in the same order, distinct simplices on the same points never share an index, and the dimension reported is the number of vertices minus one. A simplex whose index does not fit is refused rather than encoded as something else.",
  ["inputs"], "every point-set size and every list of vertices",
  "Tests use at most a dozen points, where nothing overflows and few digits are used.",
  [RL], [("RipsIndex::from_indices / to_vec / dimension", RL)])
p("C13", "The Rips boundary of a simplex is the alternating sum of its facets",
  "For every simplex of dimension at least one the boundary column lists each facet exactly once, with the sign given by the position of the removed vertex; the boundary of a vertex is empty. The matrix built for a point set carries the Rips basis as its columns.",
  ["inputs"], "every finite symmetric distance matrix, every simplex, every field",
  "Tests run over the field with two elements where signs vanish and check counts of bars only.",
  [RH, RL], [("RipsBoundary::column", RH), ("build_rips_boundary_matrix", RH)])
p("C14", "The Rips coboundary of a simplex lists every cofacet once, with the dual sign",
  "For every simplex the coboundary column lists each simplex with one extra vertex exactly once, with the sign the boundary of that cofacet gives the original simplex. The cofacet iteration reports the vertex that was inserted and ends after the last one.",
  ["inputs"], "every finite symmetric distance matrix, every simplex, every field, every stage of the iteration",
  "Tests run over the field with two elements and check counts of bars; the inserted vertex and sign are never compared.",
  [RC, RL], [("RipsCoboundary::column", RC), ("CoboundaryIterator", RC), ("build_rips_coboundary_matrix", RC)])
p("C15", "The Rips filtration value of a simplex is its diameter",
  "The filtration value of a simplex is the largest pairwise distance among its vertices, zero for a vertex, in the boundary and in the coboundary matrix alike. The efficient enriched coboundary column gives every cofacet its own diameter.",
  ["inputs"], "every finite symmetric distance matrix with zero diagonal, every simplex",
  "Tests use generic points on circles, where many wrong maxima coincide with the right one.",
  [RH, RC, RL], [("HasRowFiltration for RipsBoundary/RipsCoboundary", RH + ", " + RC), ("max_pairwise_distance", RL)])
p("C16", "The Rips bases list every simplex up to the dimension bound once, in order",
  "For every point set and every dimension bound, including zero, the basis of each dimension up to the bound lists each simplex of that dimension exactly once with its diameter, sorted by diameter and then index. No simplex above the bound is listed and building the bases never panics.",
  ["inputs"], "every finite symmetric distance matrix, every dimension bound",
  "Tests use bound 1 or 2 on fixed inputs.",
  [RL], [("build_rips_bases, add_cofacets", RL), ("MultiDimRipsBasisWithFilt / SingleDimRipsBasisWithFilt", RL)])
p("C17", "The path-homology boundary and coboundary are dual with consistent signs",
  "In grounded persistent path homology the boundary of an edge is target minus source, of a double edge the sum of its two edges, of a directed triangle the alternating sum of its edges and of a long square the difference of its two paths. The coboundary of a node or edge lists each edge or two-cell that has it in its boundary exactly once with exactly that coefficient.",
  ["inputs"], "every digraph filtration without self-loops, every node and edge, every field",
  "The library tests run over the field with two elements or only print; signs and multiplicities are unobserved.",
  [GB, GC], [("GrPPHBoundary::column", GB), ("produce_node_total_coboundary, produce_edge_total_coboundary", GC)])
p("C18", "Two-cells enter at the right time and use the earliest bridge",
  "The bridge chosen for an ordered pair of vertices is the one whose two-step path appears first (smallest vertex on ties), and exists exactly when such a path appears strictly before the direct edge. The time attached to every two-cell in a coboundary is the time at which all paths of the cell are present, and equals the filtration value the boundary and coboundary matrices report for it.",
  ["inputs"], "every digraph filtration, every pair and path of vertices, including ties and missing edges",
  "Tests use one weighted graph and complete or cyclic graphs; ties between bridges and shortcuts matter only on particular weights.",
  [GC, GB], [("build_primary_bridge_map", GC), ("two_path_time, two_path_to_two_cell_in_filtration, produce_long_squares_with_primary_bridge", GC), ("filtration_value", GC + ", " + GB)])
p("C19", "Grounding: graph edges are born at zero and the bases list every cell once",
  "Every edge of the input graph has filtration value zero and every other edge its shortest-path time, in the bases, the coboundary columns and the filtration values of both matrices. The bases list every node once and every edge that is in the graph or has a finite time once, sorted by time and then cell.",
  ["inputs"], "every digraph filtration, edge set and number of vertices",
  "Tests count bars on two families of graphs.",
  [GC, GB], [("build_basis", GC), ("HasRowFiltration::filtration_value", GC + ", " + GB), ("produce_node_total_coboundary", GC)])
p("C20", "The Python functions report each bar in its dimension, birth before death",
  "Every essential class is reported once under its dimension with its birth time; every pairing with different times is reported once, under the dimension of its birth cell, as (birth time, death time), and pairings with equal times are left out. The variant with representatives reports the same bars and one cycle, a list of graph edges, for every finite one-dimensional bar of positive length.",
  ["inputs"], "every digraph, both entry points",
  "No Rust test calls the Python entry points.",
  [GL], [("grpph, grpph_with_involution", GL)])
p("C21", "Input graphs are turned into shortest-path times faithfully",
  "The time of an ordered pair of distinct vertices is the length of a shortest path along edges of finite weight and is absent when there is none; a vertex has no time to itself. Edges of infinite weight do not contribute to paths but are still edges of the graph for grounding.",
  ["inputs"], "every list of weighted edges over every number of vertices",
  "No Rust test builds a filtration from weighted edges.",
  [GL], [("build_filtration, build_edge_set", GL)])
p("C22", "Vertex and index conversions never alias distinct values",
  "Wherever a vertex number or index is converted to a narrower or differently signed integer type, the value is unchanged or the conversion is refused. Two distinct vertices, simplices or positions are therefore never silently identified.",
  ["inputs"], "every integer conversion on every path of the workspace's own code",
  "Truncation only shows on inputs far larger than any test.",
  [GL, GC, RL, FLD], [("every integer cast in the workspace", GL + ", " + GC + ", " + RL + ", " + FLD)])
p("C23", "Unsafe code relies only on facts that hold for every input",
  "Every unchecked construction of a non-zero number or non-NaN float in the workspace is given a value that is non-zero or not NaN on every path, and every reinterpretation of a basis reference goes to a layout-transparent wrapper of the same type with the same lifetime. No safe call can therefore cause undefined behaviour.",
  ["inputs", "programs"], "every unsafe operation, every path leading to it, every instantiation",
  "Undefined behaviour need not show in a test at all.",
  [FLD, ADA, GC, GB], [("NonZeroU8::new_unchecked", FLD), ("NotNan::new_unchecked", GC + ", " + GB), ("pointer casts in ReverseBasis/UnreverseBasis", ADA)])
p("C24", "Results are deterministic functions of the input",
  "No result of a computation depends on the iteration order of a hash container, on time, randomness, threads, addresses or the environment, other than the order of elements in collections documented as unordered. Repeating a computation therefore gives the same matrices, bases and diagrams.",
  ["inputs", "histories"], "every computation of the libraries, every hash seed and process",
  "One test run sees one hash seed.",
  [MOD, STD, CLR, GL, GC, RL], [("hash containers and their iterations", MOD + ", " + STD + ", " + CLR + ", " + GL)])
p("C25", "Invariants of the core types cannot be broken from outside",
  "Code outside the library cannot create a coefficient of a finite field or a rational other than through the field operations' own constructors, nor reach into a heap column, a reduction matrix or a simplex index to change it, and a zero coefficient cannot be represented. Programs that multiply or add matrices with mismatched indices or fields, or reduce a non-square or unfiltered matrix, do not type-check.",
  ["programs"], "every safe program using the crates' public interface",
  "A test cannot show that a program does not compile.",
  [FLD, COL, CLR, RL, COM], [("field visibility and constructors of ZP, Q, BHCol, ClearedReductionMatrix, RipsIndex", FLD + ", " + COL + ", " + CLR + ", " + RL), ("trait bounds of product, sum, standard_algo, build_with_diagram", COM + ", " + STD + ", " + CLR)])
p("C26", "The Rips command line reports the bars of the diagram of its input matrix",
  "The program reads the distance matrix from standard input and reduces its reversed coboundary up to the requested dimension. For every pairing longer than its fixed reporting threshold it prints the dimension, birth and death values of that pairing, and for every essential class its dimension and birth value, all taken from the matrix that was reduced.",
  ["inputs"], "every distance matrix and dimension bound given to the program",
  "The program has no tests.",
  [RM], [("main of phlite_rips", RM)])
p("C27", "Column bases enumerate their elements consistently",
  "Every basis returns, for each position below its size, the element stored there, sub-bases by dimension concatenate in order to the whole basis, and the reverse lookup maps each element to its position. Basis sizes count exactly the elements.",
  ["inputs"], "every basis type of the workspace, every position in range, every distribution of elements over dimensions, including empty dimensions",
  "Tests access bases through whole reductions of fixed examples; empty dimensions do not occur.",
  [MOD, IMP, RL, GC], [("ColBasis / SplitByDimension implementations", MOD + ", " + IMP + ", " + RL + ", " + GC), ("construct_reverse_lookup", MOD)])
p("C28", "Stored matrices return exactly the columns they were given",
  "A matrix constructed from lists or maps of columns returns each column with the entries, coefficients and order it was given, whichever constructor was used; the all-ones constructor gives every listed row the unit coefficient. Asking for a column that was not given panics rather than returning another one, and the attached basis is the range of column positions.",
  ["inputs"], "every list or map of columns, every constructor, every column",
  "Tests construct only all-ones matrices over the field with two elements.",
  [IMP], [("VecVecMatrix, MapVecMatrix, StandardBasis", IMP)])
p("C29", "Barcodes are numerically correct and stable under perturbation",
  "The barcode computed for a point cloud or digraph equals the barcode of its filtration over the field, and a perturbation of the input by at most epsilon moves it by at most epsilon.",
  ["inputs"], "every point cloud and digraph, every perturbation",
  "It relates two whole runs over real-valued inputs.",
  [STD, CLR, RL, GL], [("the whole pipeline", STD + ", " + CLR)])
p("C30", "Memory and time stay proportional to the sparse work requested",
  "Columns are computed lazily, only when asked for, and the cost of a reduction step is proportional to the entries it adds.",
  ["inputs"], "every matrix and every sequence of requests",
  "Cost depends on the whole run.",
  [MOD, ADA, COM], [("lazy iterators", MOD + ", " + ADA + ", " + COM)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
