// Instantiates every member of the repository's class templates, so that the analysis sees their resolved bodies.
// This unit is only parsed, never compiled into anything that runs.
#include "helpers/algebra.hpp"
#include "helpers/product.hpp"
#include "algebra/expression.h"
#include "diagrams/operator.h"
#include "diagrams/operator_product.h"
#include "diagrams/operator_expression.h"
#include "diagrams/contraction.h"
template class Algebra<Expression, SymbolicTerm, scalar_t>;
template class Algebra<OperatorExpression, OperatorProduct, scalar_t>;
template class Product<SQOperator>;
template class Product<Operator>;
