NA = {
 "C30": "Operator-identity equality of a whole contraction quantifies over the semantics of Fock-space operators and over loops of data-dependent length; no static argument in reach relates the complete algorithm to the operator identity. Its ingredients (C12, C13, C17, C20, C26-C28) are claimed separately.",
 "C31": "Uniqueness of canonical forms is a statement about all pairs of equivalent terms (a graph-isomorphism question) and the implemented canonicalisation is a heuristic; it is not visible in the shape of the code. Consistency of the relabelling is claimed as C23.",
 "C32": "Numerical equality of executed generated code quantifies over array contents and the semantics of an external library. The structural clauses are claimed as C18 and C24.",
 "C33": "Termination within a combinatorial cost bound quantifies over run-time sizes; no static cost analysis in reach bounds the backtracking search.",
}
EFF = "; interprocedural effect and lock-set analysis"
TAB = "; consistency rules over the type-checked syntax tree"
for p in ("C01","C05","C06","C07","C08","C12","C13","C17","C18","C19","C20","C21","C22","C23","C25","C26","C27","C28","C29"): c(p)
for p in ("C02", "C14", "C16"): c(p, GVN + TAB)
for p in ("C03", "C11"): c(p, GVN + EFF)
c("C10"); c("C04"); c("C24", GVN + " (Python helpers translated to the same representation)" + TAB)
c("C15", GVN + " of the exported bindings; return-policy rules")
c("C09", "interprocedural lock-set and effect analysis of everything the worker tasks reach")
