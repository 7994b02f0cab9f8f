// C interface over the wagyu headers of the working tree, built twice: with
// the tracing number type (-DTRACE) and with double.
#include <bits/stdc++.h>
#ifdef TRACE
#include "csym.hpp"
namespace csym {
std::vector<Node> nodes;
std::vector<Decision> log;
long budget = 4000000;
}
#endif
#ifdef INTERRUPT
// a request arrives right before one of the checks for it
#define USE_WAGYU_INTERRUPT
#include <mapbox/geometry/wagyu/interrupt.hpp>
static double interrupt_at;
static long ticks = -1;
static bool requested = false;
static void tick() {
  if (ticks < 0) return;
  if (!requested && interrupt_at == double(ticks)) {
    requested = true;
    mapbox::geometry::wagyu::interrupt_request();
  }
  ++ticks;
}
#define interrupt_check() (tick(), interrupt_check())
#endif
#include <mapbox/geometry/wagyu/wagyu.hpp>
#ifdef CLIP
#include <mapbox/geometry/wagyu/quick_clip.hpp>
#endif
#ifdef TRACE
#undef double
#undef int64_t
CSYM_EPILOGUE
using num = Sym;
#else
using num = double;
#endif
namespace mg = mapbox::geometry;
namespace mw = mapbox::geometry::wagyu;

static std::vector<double> in_values, out_values;
static std::vector<int> out_nodes, out_sizes;
static std::string message;

static num input(double v) {
#ifdef TRACE
  return Sym(v, csym::make(csym::INPUT, -1, -1, v));
#else
  return v;
#endif
}
static void emit(num const& x) {
#ifdef TRACE
  out_values.push_back(x.v);
  out_nodes.push_back(x.n);
#else
  out_values.push_back(x);
  out_nodes.push_back(-1);
#endif
}
static void reset() {
#ifdef TRACE
  csym::nodes.clear();
  csym::log.clear();
#endif
  out_values.clear();
  out_nodes.clear();
  out_sizes.clear();
  message.clear();
}

using Ring = mg::linear_ring<num>;
static std::vector<std::pair<Ring, int>> read_rings(int n, const int* sizes,
                                                    const int* kinds,
                                                    const double* coords) {
  std::vector<std::pair<Ring, int>> r;
  for (int i = 0; i < n; ++i) {
    Ring ring;
    for (int j = 0; j < sizes[i]; ++j, coords += 2) {
      num x = input(coords[0]), y = input(coords[1]);
      ring.push_back(mg::point<num>(x, y));
    }
    r.emplace_back(std::move(ring), kinds[i]);
  }
  return r;
}
static void emit_multipolygon(mg::multi_polygon<num> const& mp) {
  out_sizes.push_back((int)mp.size());
  for (auto const& p : mp) {
    out_sizes.push_back((int)p.size());
    for (auto const& r : p) {
      out_sizes.push_back((int)r.size());
      for (auto const& q : r) {
        emit(q.x);
        emit(q.y);
      }
    }
  }
}
template <class F>
static int guarded(F f) {
  try {
    f();
    return 0;
  } catch (
#ifdef TRACE
      csym::Budget const&
#else
      std::bad_alloc const&
#endif
  ) {
    message = "step budget exceeded";
    return 2;
  } catch (std::exception const& e) {
    message = e.what();
    return 1;
  } catch (...) {
    message = "unknown exception";
    return 1;
  }
}

extern "C" {
// operations: a list of (op, subject fill, clip fill) executed in order
int run_ops(int nrings, const int* sizes, const int* kinds,
            const double* coords, int close_rings, int reverse, int nops,
            const int* ops) {
  reset();
  return guarded([&] {
    auto rings = read_rings(nrings, sizes, kinds, coords);
    mw::wagyu<num> w;
    w.reverse_rings(reverse != 0);
    for (auto& r : rings) {
      if (close_rings && !r.first.empty()) r.first.push_back(r.first.front());
      out_sizes.push_back(w.add_ring(r.first, (mw::polygon_type)r.second));
    }
    for (int i = 0; i < nops; ++i) {
      mg::multi_polygon<num> mp;
      w.execute((mw::clip_type)ops[3 * i], mp, (mw::fill_type)ops[3 * i + 1],
                (mw::fill_type)ops[3 * i + 2]);
      emit_multipolygon(mp);
    }
  });
}
#ifdef CLIP
// the rings clipped by a box, given as one polygon and as one polygon each
int run_clip(int nrings, const int* sizes, const int* kinds,
             const double* coords, const double* box, int close_rings,
             int fill) {
  reset();
  return guarded([&] {
    auto rings = read_rings(nrings, sizes, kinds, coords);
    num a = input(box[0]), b = input(box[1]), c = input(box[2]),
        d = input(box[3]);
    mg::box<num> frame{mg::point<num>(a, b), mg::point<num>(c, d)};
    mg::polygon<num> one;
    mg::multi_polygon<num> many;
    for (auto& r : rings) {
      if (close_rings && !r.first.empty()) r.first.push_back(r.first.front());
      one.push_back(r.first);
      many.emplace_back();
      many.back().push_back(r.first);
    }
    emit_multipolygon(mw::clip(one, frame, (mw::fill_type)fill));
    emit_multipolygon(mw::clip(many, frame, (mw::fill_type)fill));
  });
}
#endif
#ifdef INTERRUPT
// interrupted at the given check; kind 0: an operation before the one whose
// result is returned, 1: the adding of the rings, which start again after
// clearing, 2: an operation before the last ring is added
int run_interrupted(int nrings, const int* sizes, const int* kinds,
                    const double* coords, int close_rings, double at,
                    int kind, const int* first, const int* op) {
  reset();
  return guarded([&] {
    auto rings = read_rings(nrings, sizes, kinds, coords);
    interrupt_at = input(at);
    ticks = -1;
    requested = false;
    mw::interrupt_reset();
    mw::wagyu<num> w;
    for (auto& r : rings)
      if (close_rings && !r.first.empty()) r.first.push_back(r.first.front());
    auto add = [&](size_t from, size_t to) {
      for (size_t i = from; i < to; ++i)
        w.add_ring(rings[i].first, (mw::polygon_type)rings[i].second);
    };
    auto interrupted = [&](std::function<void()> f) {
      bool raised = false;
      ticks = 0;
      try {
        f();
      } catch (std::runtime_error const& e) {
        ticks = -1;
        raised = true;
        if (!requested || std::string(e.what()) != "Wagyu interrupted") throw;
      }
      ticks = -1;
      if (requested && !raised)
        throw std::runtime_error("the request to interrupt has no effect");
      return raised;
    };
    auto execute = [&](const int* o) {
      mg::multi_polygon<num> mp;
      w.execute((mw::clip_type)o[0], mp, (mw::fill_type)o[1],
                (mw::fill_type)o[2]);
      return mp;
    };
    size_t early = kind == 2 && nrings ? nrings - 1 : nrings;
    if (kind == 1) {
      if (interrupted([&] { add(0, nrings); })) {
        w.clear();
        add(0, nrings);
      }
    } else {
      add(0, early);
      interrupted([&] { execute(first); });
      add(early, nrings);
    }
    emit_multipolygon(execute(op));
  });
}
#endif
const char* error_message() { return message.c_str(); }
int n_out() { return (int)out_values.size(); }
const double* get_out_values() { return out_values.data(); }
const int* get_out_nodes() { return out_nodes.data(); }
int n_sizes() { return (int)out_sizes.size(); }
const int* get_sizes() { return out_sizes.data(); }
#ifdef TRACE
int n_nodes() { return (int)csym::nodes.size(); }
const void* get_nodes() { return csym::nodes.data(); }
int n_log() { return (int)csym::log.size(); }
const void* get_log() { return csym::log.data(); }
void set_budget(long b) { csym::budget = b; }
#endif
}
