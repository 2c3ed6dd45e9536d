#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

H = "wicked/helpers/"; A = "wicked/algebra/"; D = "wicked/diagrams/"; API = "wicked/api/"

p("C01", "Rational arithmetic is exact and always in canonical form",
  "For all rationals, +, -, *, / and unary minus (and their in-place forms, including with an operand aliased to the target) return the exact mathematical result in lowest terms with a strictly positive denominator. Two rationals compare equal exactly when they have the same value. A zero denominator or a division by zero is rejected with an exception and leaves the operand as it was.",
  ["inputs"], "all numerators, all denominators of either sign, all aliasings of the operands",
  "The tests evaluate a dozen small positive fractions; sign, aliasing, non-reduced and zero-divisor combinations are infinitely many.",
  [H+"rational.h", H+"rational.cc", API+"rational_api.cc"],
  [("arithmetic operators and reduction to lowest terms", H+"rational.cc"), ("normalising constructor", H+"rational.cc")],
  [("numerator/denominator", "canonical pair", H+"rational.h")], ["rational operators in Python", "coefficients of every expression"])

p("C02", "Coefficients never lose precision on the way to the result",
  "Every combinatorial number, weight and coefficient that contributes to a returned expression, equation or phase is computed and carried in exact integers or rationals at full width: no floating-point step and no integer conversion that can drop bits lies on the way. Only the explicit conversions to a float or to generated code are exempt.",
  ["inputs"], "all operator ranks, contraction sizes and scalar factors",
  "Loss only shows for numbers beyond 32 or 53 bits (13 identical legs, large prefactors); the tests stay far below.",
  [H+"rational.cc", H+"rational.h", H+"combinatorics.cc", D+"operator.cc", D+"wick_theorem_process_contractions.cc", API+"rational_api.cc"],
  [("exact scalar type and the conversions into it", H+"rational.h"), ("integer combinatorics feeding the scalar type", H+"combinatorics.h")])

p("C03", "Orbital-space registration is all-or-nothing and reset is complete",
  "A rejected attempt to add an orbital space (duplicate label, index already owned by a space, unknown elementary space) raises an exception and leaves the registry observably unchanged; an accepted one registers label, field type, space type, indices and elementary spaces together. Resetting forgets every label, index and space. Nothing but adding and resetting ever changes the registry.",
  ["histories", "inputs"], "every sequence of accepted and rejected registrations, resets and computations",
  "The tests register valid spaces once and compute; they never continue after a rejected registration.",
  [H+"orbital_space.cc", H+"orbital_space.h", API+"orbital_space_api.cc"],
  [("validation before commit in add_space", H+"orbital_space.cc"), ("reset", H+"orbital_space.cc")],
  [("space list, label map, index map", "the registry; all three must agree", H+"orbital_space.h")])

p("C04", "No input reaches memory outside a container",
  "Whatever spaces, indices, operators and expressions a user builds, including indices of spaces that do not exist, more spaces than are supported, very long operator strings and terms without tensors, an operation either works or raises an exception; it never reads or writes outside a container, takes an element of an empty one, or dereferences a past-the-end iterator.",
  ["inputs", "histories"], "all user-supplied index spaces and positions, numbers of spaces, operator counts and tensor counts",
  "Out-of-bounds accesses need indices, sizes or stale objects that no test constructs, and often go unnoticed when they do happen.",
  [H+"orbital_space.cc", A+"index.cc", A+"tensor.cc", A+"symbolic_term.cc", A+"equation.cc", D+"graph_matrix.cc", D+"graph_matrix.h", D+"wick_theorem_composite_contractions.cc"],
  [("bounds-checked look-ups by space", H+"orbital_space.cc"), ("fixed-capacity graph matrix", D+"graph_matrix.h"), ("backtracking stack", D+"wick_theorem_composite_contractions.cc")])

p("C05", "Every ordering used for sorting or as a map key is a strict weak order",
  "Each comparison by which indices, operators, tensors, terms, products or contraction patterns are sorted or stored is irreflexive, asymmetric and transitive, with transitive incomparability, and where the same type has an equality, two objects are equivalent under the ordering exactly when they compare equal. Hence like terms always meet and sorting is well defined.",
  ["inputs"], "all pairs and triples of objects",
  "The order laws quantify over all triples; a violation shows only as an occasional unmerged term or a crash inside the sort.",
  [A+"index.cc", A+"sqoperator.cc", A+"tensor.cc", A+"symbolic_term.cc", H+"product.hpp", D+"graph_matrix.cc", D+"operator.cc", D+"wick_theorem_canonicalize_graph.cc"],
  [("operator< / operator== pairs", "index, sqoperator, tensor, symbolic_term, graph_matrix, operator, product"), ("explicit comparators passed to sort and to the is-sorted test", A+"symbolic_term.cc, "+D+"wick_theorem_canonicalize_graph.cc")])

p("C06", "The adjoint reverses products, flips every operator and keeps coefficients",
  "The adjoint of an operator product lists the adjoints of the factors in reverse order; the adjoint of a second-quantized operator keeps its index and exchanges creation and annihilation; the adjoint of a sum keeps every coefficient; tensors keep label and indices and toggle conjugation. Taking the adjoint twice gives back the original object.",
  ["inputs"], "all operators, products, terms and expressions",
  "The involution and order-reversal laws range over all products; tests compare a few printed examples.",
  [H+"product.hpp", A+"sqoperator.cc", A+"tensor.cc", A+"symbolic_term.cc", A+"expression.cc", D+"graph_matrix.cc", D+"operator.cc", D+"operator_expression.h"],
  [("adjoint at every level", "product.hpp, sqoperator.cc, tensor.cc, symbolic_term.cc, expression.cc, graph_matrix.cc, operator.cc, operator_expression.h")])

p("C07", "Expressions obey vector-space and algebra laws and store no zero terms",
  "Expressions are sparse linear combinations: adding accumulates the coefficient of an equal term, and a term whose coefficient is or becomes zero is not stored. Sum, difference, negation, scalar multiplication and division, dot product and product are the (bi)linear operations they claim to be, the product keeping the left factor on the left, and each is also correct when both operands are the same object.",
  ["inputs", "histories"], "all expressions, scalars including zero, and aliasings",
  "Cancellation, zero scalars and self-application combine in ways a handful of examples does not reach.",
  [H+"algebra.hpp", H+"helpers.h", H+"product.hpp", D+"operator_expression.cc", A+"expression.cc"],
  [("accumulating insert with zero elimination", H+"helpers.h"), ("vector-space operators", H+"algebra.hpp")],
  [("terms", "map from basis element to non-zero coefficient", H+"algebra.hpp")])

p("C08", "Every sign produced by reordering is the right one and reaches the coefficient",
  "Whenever indices, operators or tensors are reordered, the phase returned is the parity of the permutation of the fermionic objects that were exchanged (in symbolic operator strings exchanges with bosons give +1, and symmetric tensors give +1; the diagrammatic engine is fermionic throughout), and the caller multiplies that phase into the coefficient of the term it belongs to. No returned phase is discarded.",
  ["inputs"], "all operator strings, index lists and tensor symmetries",
  "A lost or wrong sign shows only for odd permutations in particular term shapes.",
  [A+"index.cc", A+"sqoperator.cc", A+"tensor.cc", A+"symbolic_term.cc", A+"expression.cc", D+"operator_product.cc", D+"operator_expression.cc", D+"wick_theorem_canonicalize_graph.cc", D+"wick_theorem_process_contractions.cc", H+"combinatorics.cc"],
  [("phase-returning canonicalisation calls and their callers", "index.cc, sqoperator.cc, tensor.cc, symbolic_term.cc, expression.cc, operator_expression.cc")])

p("C09", "Multithreaded contraction is free of data races",
  "While contractions are evaluated by several threads, every object reachable by more than one of them is either only read or is accessed under one common lock (or atomically); this includes the contraction engine's own members, the orbital-space registry, function-local and global variables. The result is therefore the same for every interleaving.",
  ["schedules"], "all interleavings of the worker threads and of the thread that collects results",
  "A race is schedule-dependent; a green run says nothing about the other interleavings.",
  [D+"wick_theorem_process_contractions.cc", D+"wick_theorem.h", D+"wick_theorem_canonicalize_graph.cc", H+"orbital_space.cc"],
  [("asynchronous task per contraction and what it may write", D+"wick_theorem_process_contractions.cc")],
  [("timers_", "shared statistics written by the tasks", D+"wick_theorem.h")])

p("C10", "Single-threaded and multithreaded evaluation compute the same expression",
  "For every product of operators, factor and rank window, contracting in single-threaded mode and in multithreaded mode gives equal expressions: both select the same contractions, evaluate each in the same way with the same signs and factors, and add up all results.",
  ["inputs", "configurations"], "all inputs under both values of the threading switch",
  "The tests run essentially one mode; agreement is required for every input.",
  [D+"wick_theorem_process_contractions.cc", D+"wick_theorem.cc"],
  [("the two step-3 implementations and their dispatch", D+"wick_theorem_process_contractions.cc, "+D+"wick_theorem.cc")])

p("C11", "A contraction result does not depend on what was computed before",
  "The expression returned by a contraction depends only on the factor, the operators, the rank window, the registered orbital spaces and the options in force: never on earlier contractions, printing or timing. Options change only through their setters, and no computation keeps results in static, global or member storage that a later computation reads.",
  ["histories"], "all sequences of calls on one or several engine objects",
  "Leftover state shows only in particular call sequences on a reused object.",
  [D+"wick_theorem.cc", D+"wick_theorem.h", D+"wick_theorem_elementary_contractions.cc", D+"wick_theorem_composite_contractions.cc", A+"symbolic_term.cc"],
  [("re-initialisation at the start of every contraction", D+"wick_theorem.cc")],
  [("elementary_contractions_, contractions_", "per-call working storage", D+"wick_theorem.h")])

p("C12", "Exactly the contractions inside the requested rank window are returned",
  "A contraction contributes to the result exactly when the number of operators it leaves uncontracted lies between the minimum and the maximum rank, both included; the cumulant limit admits density cumulants up to and including the requested level; the factor passed in multiplies every term.",
  ["inputs"], "all rank windows, including degenerate and empty ones, all cumulant limits",
  "Tests use a few windows such as (0,4); off-by-one effects need boundary values.",
  [D+"wick_theorem_composite_contractions.cc", D+"wick_theorem_process_contractions.cc", D+"wick_theorem_elementary_contractions.cc", D+"wick_theorem.cc"],
  [("rank filter at generation and at evaluation", "wick_theorem_composite_contractions.cc, wick_theorem_process_contractions.cc"), ("cumulant cap", D+"wick_theorem_elementary_contractions.cc")])

p("C13", "Each admissible set of elementary contractions is generated exactly once",
  "The enumeration visits every multiset of elementary contractions that fits into the available operators once and only once: a candidate is offered exactly when every operator still has the legs it needs, choices are made in non-decreasing order so that no multiset is repeated but repetitions within one are allowed, and after exploring a choice the bookkeeping is restored exactly.",
  ["inputs"], "all operator products and all sets of elementary contractions",
  "Missing or repeated contractions appear only with particular leg multiplicities.",
  [D+"wick_theorem_composite_contractions.cc", D+"graph_matrix.cc"],
  [("backtracking with make/unmake", D+"wick_theorem_composite_contractions.cc"), ("leg-count arithmetic", D+"graph_matrix.cc")])

p("C14", "Errors surface as ordinary exceptions and never kill the interpreter",
  "Every failure is reported by throwing an exception derived from the standard exception class, so that Python sees it as a normal exception; the library never terminates the process, never throws non-exception objects, never silently swallows an error, and never goes on after failing to parse its input.",
  ["inputs"], "all malformed strings, unsupported operations and internal inconsistencies",
  "Error paths are many and mostly untested; a call to exit() ends the test process itself.",
  ["wicked/"],
  [("throw sites, catch sites and process-ending calls in the whole library", "wicked/"), ("pattern-match results checked before use", "index.cc, tensor.cc, rational.cc")])

p("C15", "Python-level operators and queries do not modify their operands",
  "Through the Python interface, every arithmetic and comparison operator and every query leaves its operands unchanged, and only the documented mutators (in-place addition, add, set, canonicalize and the option setters) modify the object they are called on and nothing else. Each Python operator performs the arithmetic it is named after, with its operands in the order written.",
  ["inputs", "histories"], "all objects and all bound functions, including operands that are the same object",
  "Tests look at results, hardly ever at the operands afterwards.",
  ["wicked/api/"],
  [("bindings and the constness/by-value passing of what they call", "wicked/api/*.cc")])

p("C16", "Every kind of field, space, operator and symmetry is handled in every table",
  "Each enumerated kind (field type, space type, operator type, symmetry, print level) has an entry in every table that converts it to or from text, distinct kinds have distinct texts, each kind can be named from Python under its own name, and no look-up of a kind can create or return an empty entry.",
  ["inputs", "configurations"], "all values of each enumeration and all tables and bindings over it",
  "A missing or swapped entry matters only for the rarely used kinds (bosons, symmetric tensors).",
  [H+"orbital_space.cc", H+"orbital_space.h", API+"sqoperator_api.cc", API+"tensor_api.cc", API+"wick_theorem.cc"],
  [("conversion tables", H+"orbital_space.cc"), ("enumeration bindings", "wicked/api/*.cc")])

p("C17", "Only legal elementary contractions are formed, and all legal ones are",
  "For an occupied space exactly the creation-left-of-annihilation pairs between different operators are contracted, for an unoccupied space exactly the annihilation-left-of-creation pairs, and for a general space exactly the balanced groups of k creation and k annihilation legs (k at least one, up to the cumulant limit) touching at least two operators; legs never exceed what an operator has, all belong to one space, and every space is treated according to its type.",
  ["inputs"], "all operator products, spaces and cumulant limits",
  "Legality is required for all leg counts; tests cover a few small products.",
  [D+"wick_theorem_elementary_contractions.cc", H+"combinatorics.cc"],
  [("three generators and their dispatch by space type", D+"wick_theorem_elementary_contractions.cc")])

p("C18", "Generated einsum code uses one letter per index and never runs out silently",
  "In a compiled einsum equation two index positions carry the same letter exactly when they are the same index, the letters of each tensor follow its upper then its lower indices, the output letters follow the left-hand side, each tensor is named with its label and its space letters in the same order, and running out of letters or having no left-hand tensor raises an exception.",
  ["inputs"], "all equations, numbers of indices and index labels",
  "Letter collisions need particular index labels or more indices than the alphabet holds.",
  [A+"equation.cc"],
  [("letter allocation", A+"equation.cc")])

p("C19", "Splitting an expression into many-body equations loses and invents nothing",
  "Every term of the expression appears in exactly one equation, with its coefficient and its tensors unchanged; the left-hand tensor carries the term's creation operators as lower and annihilation operators as upper indices (the latter reversed), is antisymmetric, and is filed under a key that lists the upper and lower space labels.",
  ["inputs"], "all expressions with any mixture of operators",
  "Tests look at selected keys for a few methods.",
  [A+"expression.cc", A+"equation.cc", A+"tensor.cc"],
  [("conversion to equations", A+"expression.cc")])

p("C20", "Vacuum normal ordering applies the (anti)commutation relations exactly",
  "Each step exchanges one adjacent out-of-order pair a b with the factor -1 exactly if both are fermionic (+1 otherwise), and adds the contracted term, with unchanged coefficient, exactly if the two are of opposite type and of the same space: with a delta tensor of the two indices when they differ (or nothing when that is excluded by option) and without when they coincide. The remaining operators keep their order, tensors are kept, repeated adjacent fermionic operators give zero, and already ordered terms are returned unchanged.",
  ["inputs"], "all operator strings and both values of the option",
  "The rule is applied recursively to arbitrary strings; tests cover a few short ones.",
  [A+"symbolic_term_normal_order.cc", A+"expression_normal_order.cc", A+"sqoperator.cc", H+"helpers.h"],
  [("recursive ordering step", A+"symbolic_term_normal_order.cc"), ("commutator factor", A+"sqoperator.cc")])

p("C21", "Combinatorial numbers are mathematically correct",
  "Factorials, binomial coefficients, permutation signs and per-space symmetry factors have their mathematical values for every argument that fits the result type, and intermediate steps divide without remainder.",
  ["inputs"], "all arguments",
  "Values are only exercised indirectly and for small arguments.",
  [H+"combinatorics.cc", A+"index.cc", A+"tensor.cc"],
  [("combinatorial helpers", H+"combinatorics.cc")])

p("C22", "Whatever the library prints for terms can be read back by its own parser",
  "For spaces labelled by letters and tensors labelled by word characters, the text produced for indices, tensors, operators and coefficients of expressions lies within the syntax accepted by the corresponding parser, adjacent parts are separated so that they cannot run together, and the parser assigns each captured part to the role it was printed from (creation to creation, upper to upper, sign and numerator and denominator to themselves).",
  ["inputs"], "all labels, indices, coefficients and term positions",
  "Failures depend on particular labels or single-digit coefficients in first position.",
  [A+"expression.cc", A+"tensor.cc", A+"index.cc", A+"sqoperator.cc", H+"rational.cc"],
  [("printers", "str() functions"), ("parser expressions", A+"expression.cc, "+A+"tensor.cc, "+A+"index.cc, "+H+"rational.cc")])

p("C23", "Canonical relabelling never merges or splits indices",
  "Putting a term into canonical form renames its indices consistently: distinct indices stay distinct, equal ones stay equal, each keeps its space, and indices carried by operators are renamed together with the tensors; reapplied to an expression it combines like terms and stores the combined result.",
  ["inputs"], "all terms, including ones with indices that appear only on operators",
  "A collision needs an operator index absent from all tensors or other unusual index patterns.",
  [A+"symbolic_term.cc", A+"tensor.cc", A+"sqoperator.cc", A+"expression.cc"],
  [("index renaming in canonicalisation", A+"symbolic_term.cc"), ("simultaneous substitution", A+"tensor.cc, "+A+"sqoperator.cc")])

p("C24", "Python helper functions agree with the compiled core they drive",
  "Every function, method and keyword the Python helper module uses exists in the compiled interface with compatible arguments; operator generation lists each ordered choice of creation and annihilation spaces once; the einsum helper labels the result after the left-hand side and uses one letter per index.",
  ["inputs", "programs"], "all arguments of the helper functions",
  "Dynamic attribute errors and wrong operands show only on the branches that execute.",
  ["wicked/utils.py", "wicked/__init__.py", "wicked/api/"],
  [("Python helpers", "wicked/utils.py"), ("bindings", "wicked/api/*.cc")])

p("C25", "Commutators and the BCH series have the right terms, signs and weights",
  "The commutator of A and B is AB minus BA with the factors in that order, nested commutators associate to the left, and the order-n BCH series is the sum for k from 0 to n of the k-fold commutator with B divided by k factorial.",
  ["inputs"], "all operators and truncation orders",
  "Tests evaluate low orders for specific operators.",
  [D+"operator_expression.cc", API+"operator_api.cc"],
  [("commutator and series", D+"operator_expression.cc")])

p("C26", "Contraction weights count equivalent leg choices exactly",
  "The coefficient of a contraction is the product of the input factor, one over the factorials of every operator's leg counts, the number of ways of choosing the contracted legs (a binomial per operator, space and leg type, with legs already used removed) divided by the factorial of the multiplicity of each repeated elementary contraction, and the signs of the reorderings.",
  ["inputs"], "all operator products and contraction patterns",
  "Multiplicities of three and more and mixed leg types are outside the tested examples.",
  [D+"wick_theorem_process_contractions.cc", D+"operator.cc"],
  [("combinatorial factor", D+"wick_theorem_process_contractions.cc"), ("operator prefactor", D+"operator.cc")])

p("C27", "Contracted legs become the right deltas and density tensors",
  "Evaluating a contraction substitutes the annihilator's index by the creator's for occupied pairs and the creator's by the annihilator's for unoccupied pairs, and introduces for a general space an antisymmetric density tensor with the creation indices above and the reversed annihilation indices below, named after one-body density or hole density according to which operator comes first, or after the cumulant level; pairs with the annihilator first contribute a minus sign; uncontracted operators keep creation before annihilation.",
  ["inputs"], "all operator products and contraction patterns",
  "Placement and naming depend on leg positions and ranks that the tests sample sparsely.",
  [D+"wick_theorem_process_contractions.cc"],
  [("evaluation of one contraction", D+"wick_theorem_process_contractions.cc")])

p("C28", "Graph canonicalisation only applies permitted, correctly signed rearrangements",
  "When diagrams are canonicalised, operators are exchanged only if no pairwise contraction between them fixes their order, the sign is the product over exchanged pairs of minus one to the product of their operator counts, contractions are permuted together with the operators they act on, and the returned operators, contractions and sign all come from the same rearrangement.",
  ["inputs"], "all operator products and contraction patterns",
  "Wrong exchanges cancel or vanish in symmetric examples and show only for particular diagrams.",
  [D+"wick_theorem_canonicalize_graph.cc", D+"operator_product.cc", D+"operator.cc"],
  [("permutation filter, ordering of graphs, construction of the result", D+"wick_theorem_canonicalize_graph.cc")])

p("C29", "Operator constructors build exactly the operators described by their text",
  "Building an operator from component strings gives, for each component, one creation leg per marked label and one annihilation leg per unmarked label in the labelled space; symbolic operators pair each leg with a fresh index of its space and carry a matching tensor, coefficient and ordering flag; a component listed again adds up unless uniqueness is requested.",
  ["inputs"], "all component lists and labels",
  "Tests use the common one- and two-body operators.",
  [D+"operator_expression.cc", D+"operator.cc", A+"expression.cc"],
  [("operator factories", "operator_expression.cc, operator.cc, expression.cc")])

p("C30", "Contraction implements Wick's theorem",
  "For every product of operators the contracted expression equals, as an operator identity, the part of the product within the requested rank window.",
  ["inputs"], "all operator products, all reference states",
  "The identity quantifies over all products and Fock-space matrix elements.",
  [D], [("the whole contraction engine", D)])
p("C31", "Canonical forms are unique",
  "Two terms that differ only by renaming of dummy indices, order of tensors, or tensor symmetry always have the same canonical form, and canonicalising twice changes nothing.",
  ["inputs"], "all pairs of equivalent terms",
  "Uniqueness quantifies over all equivalent pairs.",
  [A+"symbolic_term.cc"], [("tensor scoring and relabelling", A+"symbolic_term.cc")])
p("C32", "Generated code evaluates to the value of the equation",
  "Executing the generated tensor code on any arrays gives numerically the value of the symbolic equation.",
  ["inputs", "programs"], "all equations and array contents",
  "Numerical equality over all arrays cannot be sampled exhaustively.",
  [A+"equation.cc", "wicked/utils.py"], [("code generation", A+"equation.cc")])
p("C33", "Every computation terminates within the documented combinatorial cost",
  "Contractions, canonicalisation and integer partitions terminate for every input, with work bounded by the number of contraction patterns.",
  ["inputs"], "all inputs",
  "Termination and cost bounds quantify over all inputs.",
  [D, H+"combinatorics.cc"], [("backtracking and permutation loops", D)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
