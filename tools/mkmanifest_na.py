"""Why a property is not claimed."""
NA = {
 "N01": "convergence quantifies over real-valued iterate sequences; its structural preconditions are claimed as C11, C12, C13, C19",
 "N02": "equality with an argmin over real vectors; only its units, index and aliasing clauses are structural (C13, C15, C24)",
 "N03": "nearest-point optimality is a numerical fact; no structural clause beyond C13 and C20",
 "N04": "differentiation identities between sampled real functions: deciding them means evaluating or symbolically solving the formulas; the structural clauses are C13, C14, C17, C21",
 "N05": "equality of two numerical maps for every block content; the structural part (index spaces, units) is C13 and C15",
 "N06": "an expectation over samples of weighted sums; only the bookkeeping (memory and average updated by the same correction) is structural and claimed in C16",
 "N07": "an inequality over real matrices; only dimension and replication behaviour is structural (C13, C14)",
 "N08": "the taut-string invariants relate array indices to sums of real data; bounding them needs a relational numeric argument outside this family",
}
