// The whole binding (src/main.cpp), built on the tracing number type: numbers
// going in may be proxies, numbers coming out of traced nodes are proxies.
#include <bits/stdc++.h>
#include <pybind11/functional.h>
#include <pybind11/operators.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "csym.hpp"
#undef double
#undef int64_t
namespace csym {
std::vector<Node> nodes;
std::vector<Decision> log;
long budget = 4000000;
std::vector<PyObject*> inputs;     // proxies behind INPUT nodes, in order
PyObject* sym_type = nullptr;
PyObject* from_node = nullptr;
}
namespace pybind11 { namespace detail {
template <>
struct type_caster<Sym> {
  PYBIND11_TYPE_CASTER(Sym, const_name("float"));
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (csym::sym_type &&
        PyObject_IsInstance(src.ptr(), csym::sym_type) == 1) {
      object v = src.attr("v");
      double d = PyFloat_AsDouble(v.ptr());
      value = Sym(d, csym::make(csym::INPUT, -1, -1, d));
      Py_INCREF(src.ptr());
      csym::inputs.push_back(src.ptr());
      return true;
    }
    if (!convert && !PyFloat_Check(src.ptr()) && !PyLong_Check(src.ptr()))
      return false;
    double d = PyFloat_AsDouble(src.ptr());
    if (d == -1 && PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    value = Sym(d);
    return true;
  }
  static handle cast(Sym const& s, return_value_policy, handle) {
    if (s.n < 0 || !csym::from_node) return PyFloat_FromDouble(s.v);
    PyObject* r = PyObject_CallFunction(csym::from_node, "i", s.n);
    if (!r) throw error_already_set();
    return r;
  }
};
}}
#define double Sym
#define int64_t SymI
#include <mapbox/geometry/multi_polygon.hpp>
#include <mapbox/geometry/wagyu/build_local_minima_list.hpp>
#include <mapbox/geometry/wagyu/wagyu.hpp>
#undef int64_t                     // indices in the glue code stay integers
#include MAIN_CPP
#undef double
CSYM_EPILOGUE
extern "C" {
void csym_setup(PyObject* type, PyObject* callback) {
  Py_INCREF(type);
  Py_INCREF(callback);
  csym::sym_type = type;
  csym::from_node = callback;
}
void csym_reset() {
  csym::nodes.clear();
  csym::log.clear();
  for (auto* o : csym::inputs) Py_DECREF(o);
  csym::inputs.clear();
}
int csym_n_nodes() { return (int)csym::nodes.size(); }
const void* csym_nodes() { return csym::nodes.data(); }
int csym_n_log() { return (int)csym::log.size(); }
const void* csym_log() { return csym::log.data(); }
int csym_n_inputs() { return (int)csym::inputs.size(); }
PyObject* csym_input(int i) {
  Py_INCREF(csym::inputs[i]);
  return csym::inputs[i];
}
}
