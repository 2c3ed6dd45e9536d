"""Functions with a specification of their own.  Inside other functions a call of one of them stays an uninterpreted
operation; every other function (also one a later change introduces) is looked into.  Comparisons of objects are
uninterpreted everywhere except where the orderings themselves are the subject."""
COMPARISONS = {"operator<", "operator==", "operator!=", "operator>", "operator<=", "operator>=", "operator<=>"}
FUNCTIONS = """
get_unique_index get_unique_tensor_indices Equation::compile
Expression::canonicalize Expression::adjoint Expression::reindex Expression::str Expression::latex Expression::to_manybody_equation
make_operator_expr make_expression Expression::is_vacuum_normal_ordered Expression::vacuum_normal_ordered
canonicalize_indices make_indices_from_str make_index_from_str remap num_indices_per_space symmetry_factor
canonicalize_sqops commutator_factor
SymbolicTerm::canonicalize SymbolicTerm::reindex SymbolicTerm::adjoint SymbolicTerm::str SymbolicTerm::latex SymbolicTerm::compile
SymbolicTerm::tensor_connectivity SymbolicTerm::is_vacuum_normal_ordered SymbolicTerm::is_creation_then_annihilation SymbolicTerm::is_labeled_term
SymbolicTerm::simplify operator_product operator_product_1 operator_product_2 operator_product_3 operator_product_4
recursive_vacuum_normal_order SymbolicTerm::vacuum_normal_order
Tensor::signature Tensor::indices Tensor::reindex Tensor::str Tensor::latex Tensor::compile Tensor::canonicalize Tensor::adjoint Tensor::symmetry_factor make_tensor make_tensor_from_str
Index::str Index::latex Index::compile SQOperator::str SQOperator::latex SQOperator::compile SQOperator::adjoint SQOperator::normal_ordered_less
ElementaryContraction::spaces_in_elementary_contraction ElementaryContraction::num_ops ElementaryContraction::str CompositeContraction::str
GraphMatrix::num_ops GraphMatrix::operator+= GraphMatrix::operator-= GraphMatrix::adjoint GraphMatrix::str to_string signature
Operator::factor Operator::str Operator::adjoint do_operators_commute make_diag_operator sum_num_ops
OperatorExpression::add2 OperatorExpression::canonicalize OperatorExpression::str make_diag_operator_expression bch_series OperatorExpression::adjoint commutator
OperatorProduct::num_ops OperatorProduct::canonicalize OperatorProduct::str
WickTheorem::contract is_ops_permutation_valid do_contractions_commute graph_less WickTheorem::canonicalize_contraction_graph
WickTheorem::generate_composite_contractions WickTheorem::generate_contractions_backtrack WickTheorem::process_contraction WickTheorem::construct_candidates
WickTheorem::make_move WickTheorem::unmake_move WickTheorem::generate_elementary_contractions WickTheorem::elementary_contractions_occupied
WickTheorem::elementary_contractions_unoccupied WickTheorem::elementary_contractions_general
WickTheorem::process_contractions WickTheorem::process_contractions_threads WickTheorem::process_single_contraction contraction_signature
WickTheorem::evaluate_contraction WickTheorem::contraction_tensors_sqops WickTheorem::elements_vec_to_pos WickTheorem::combinatorial_factor
factorial binomial permutation_sign integer_partitions
split findall split_indices join trim string_to_space_type string_to_field_type
OrbitalSpaceInfo::str Product<SQOperator>::adjoint Product<Operator>::adjoint
rational::str rational::latex rational::compile rational::repr integer_from_digits make_rational_from_str
has_no_adjacent_identical_terms
wpy::pysplit wpy::pysplit_ws wpy::pysplitlines wpy::pystrip wpy::pyupper wpy::pylower wpy::pyreplace wpy::fmt wpy::pyproduct wpy::distinct
""".split()
ANCHORS = set(FUNCTIONS) | COMPARISONS
# stand-ins without a meaning of their own (spec/py.h): never to be looked into
OPAQUE = {x for x in FUNCTIONS if x.startswith("wpy::")} | {x[5:] for x in FUNCTIONS if x.startswith("wpy::")}
