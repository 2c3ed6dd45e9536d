// Reference meaning of bindings that handle Python objects themselves.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "diagrams/operator.h"
#include "diagrams/operator_expression.h"

namespace py = pybind11;
namespace spec {
//@ C15,C29,C25 api commutator
OperatorExpression api_commutator(py::args args) {
  OperatorExpression result;
  int k = 0;
  for (const auto &x : args) {
    OperatorExpression &y = py::cast<OperatorExpression &>(x);
    if (k > 0) result = commutator(result, y);
    else result = y;
    k++;
  }
  return result;
}
} // namespace spec
