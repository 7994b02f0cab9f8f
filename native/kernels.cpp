// Floating point kernels of the headers under C names: their LLVM IR is
// translated for the solver, their native code replays counterexamples.
#include <cstdint>
#include <cmath>
#include <limits>
#include <mapbox/geometry/wagyu/config.hpp>
#include <mapbox/geometry/wagyu/util.hpp>
#include <mapbox/geometry/wagyu/ring_util.hpp>
#include <mapbox/geometry/wagyu/intersect_util.hpp>
namespace w = mapbox::geometry::wagyu;
extern "C" {
bool k_equal(double x, double y) { return w::values_are_equal(x, y); }
bool k_zero(double x) { return w::value_is_zero(x); }
bool k_greater_equal(double x, double y) { return w::greater_than_or_equal(x, y); }
bool k_greater(double x, double y) { return w::greater_than(x, y); }
bool k_less(double x, double y) { return w::less_than(x, y); }
double k_min(double x) { return w::round_towards_min<double>(x); }
double k_max(double x) { return w::round_towards_max<double>(x); }
double k_round(double x) { return w::wround<double>(x); }
}
