// C08: interpolated vectors against a list-of-points model, over every short sequence of operations
// on an owning, a mapped and a read-only mapped object.
#include "InterpolatingVector.hpp"
#include "Mathfunctions.hpp"
#include "make_schema.hpp"
#include "mc.hpp"
#include <memory>
#include <optional>

using Aux::ConstMappedInterpolatingVector;
using Aux::InterpolatingVector;
using Aux::InterpolatingVector_Base;
using Aux::MappedInterpolatingVector;
using Eigen::Index;
using Eigen::VectorXd;
using Times = std::vector<double>;

struct ListModel {
  Times t;
  int inner = 0;
  std::vector<double> v; // t.size() * inner
  bool same_structure(ListModel const &o) const { return inner == o.inner && t == o.t; }
  std::vector<double> at(std::size_t i) const {
    auto b = v.begin() + static_cast<long>(i) * inner;
    return {b, b + inner};
  }
  // nullopt: outside
  std::optional<std::vector<double>> operator()(double x) const {
    if (x > t.back() + Aux::EPSILON || x < t.front() - Aux::EPSILON) return {};
    if (x >= t.back()) return at(t.size() - 1);
    if (x <= t.front()) return at(0);
    std::size_t k = 1;
    while (t[k] < x) ++k;
    auto a = at(k - 1), b = at(k);
    double l = (x - t[k - 1]) / (t[k] - t[k - 1]);
    for (std::size_t j = 0; j < a.size(); ++j) a[j] = a[j] + l * (b[j] - a[j]);
    return a;
  }
};

static void compare(mc::Explorer &ex, std::string const &who, InterpolatingVector_Base const &o, ListModel const &m) {
  auto n = static_cast<Index>(m.t.size());
  auto total = static_cast<Index>(m.v.size());
  ex.expect(o.size() == n, "size", who + ": size " + std::to_string(o.size()) + " model " + std::to_string(n));
  ex.expect(o.get_inner_length() == m.inner, "inner-length", who + ": inner length " + std::to_string(o.get_inner_length()) + " model " + std::to_string(m.inner));
  ex.expect(o.get_total_number_of_values() == total, "total", who + ": total number of values");
  VectorXd all = o.get_allvalues();
  VectorXd pts = o.get_interpolation_points();
  ex.expect(all.size() == total && pts.size() == n, "total", who + ": sizes of bulk accessors");
  for (Index i = 0; i < total; ++i)
    ex.expect(all[i] == m.v[static_cast<std::size_t>(i)], "values", who + ": value " + std::to_string(i) + " is " + mc::num(all[i]) + " model " + mc::num(m.v[static_cast<std::size_t>(i)]));
  for (Index i = 0; i < n; ++i) {
    auto k = static_cast<std::size_t>(i);
    ex.expect(pts[i] == m.t[k] && o.interpolation_point_at_index(i) == m.t[k], "points", who + ": interpolation point " + std::to_string(i));
    VectorXd x = o.vector_at_index(i);
    auto y = m.at(k);
    for (int j = 0; j < m.inner; ++j) ex.expect(x.size() == m.inner && x[j] == y[static_cast<std::size_t>(j)], "vector-at-index", who + ": vector at index " + std::to_string(i));
  }
  for (Index bad : {Index(-1), n, n + 1})
    if (m.inner > 0) ex.expect(mc::throws([&] { (void)o.vector_at_index(bad); }), "index-unchecked", who + ": vector_at_index(" + std::to_string(bad) + ") of " + std::to_string(n) + " points was accepted");
  if (m.t.empty()) return;
  std::vector<double> q;
  for (std::size_t i = 0; i < m.t.size(); ++i) {
    q.push_back(m.t[i]);
    q.push_back(m.t[i] + 1e-10);
    q.push_back(m.t[i] - 1e-10);
    if (i) {
      q.push_back(0.5 * (m.t[i] + m.t[i - 1]));
      q.push_back(0.875 * m.t[i] + 0.125 * m.t[i - 1]);
      q.push_back(0.0625 * m.t[i] + 0.9375 * m.t[i - 1]);
    }
  }
  for (double d : {0.001, 0.5, 100.0}) {
    q.push_back(m.t.front() - d);
    q.push_back(m.t.back() + d);
  }
  for (double x : q) {
    auto want = m(x);
    VectorXd got;
    bool threw = mc::throws([&] { got = o(x); });
    ex.expect(threw == !want.has_value(), "range", who + ": evaluation at " + mc::num(x) + (threw ? " was refused" : " outside the points was accepted"));
    if (threw) continue;
    ex.expect(got.size() == m.inner, "interpolation", who + ": evaluation has wrong length");
    for (int j = 0; j < m.inner; ++j) {
      double w = (*want)[static_cast<std::size_t>(j)];
      ex.expect(mc::close(got[j], w, 1e-12, 1e-11), "interpolation", who + ": value at " + mc::num(x) + " component " + std::to_string(j) + " is " + mc::num(got[j]) + " expected " + mc::num(w));
    }
  }
}

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  std::vector<Times> const grids = {{0, 1, 2}, {-1, 0.5, 4}, {2}, {0, 1, 2, 2.5}};

  ex.scenario("operations", [&] {
    int depth = 1 + ex.choose(ex.pick(3, 4), "number of operations");
    auto grid = ex.choose(3, "points of A");
    int inner = 1 + ex.choose(2, "inner length");
    int mgrid = ex.flag("other points for M") ? (grid + 1) % 3 : grid;
    std::vector<int> first;
    double fresh = 1.0;
    auto next = [&] { return fresh += 1.25 * ((static_cast<long>(fresh * 8) % 3) - 0.5); };
    auto fill = [&](ListModel &m) {
      for (auto &x : m.v) x = next();
    };
    auto blank = [&](Times const &t) {
      ListModel m{t, inner, {}};
      m.v.resize(t.size() * static_cast<std::size_t>(inner));
      return m;
    };
    auto vecd = [](std::vector<double> const &v) { return VectorXd(Eigen::Map<VectorXd const>(v.data(), static_cast<Index>(v.size()))); };
    ListModel a = blank(grids[static_cast<std::size_t>(grid)]), b = blank(grids[static_cast<std::size_t>(grid)]), m = blank(grids[static_cast<std::size_t>(mgrid)]), c = m;
    fill(a), fill(b), fill(m), fill(c);
    InterpolatingVector A(a.t, inner), B(vecd(b.t), inner);
    std::vector<double> mstore = m.v, cstore = c.v, cstore2(c.v.size());
    MappedInterpolatingVector M(m.t, inner, mstore.data(), static_cast<Index>(mstore.size()));
    ConstMappedInterpolatingVector C(vecd(c.t), inner, cstore.data(), static_cast<Index>(cstore.size()));
    A.set_values_in_bulk(vecd(a.v));
    B.set_values_in_bulk(vecd(b.v));
    double *cpos = cstore.data();
    (void)cpos;
    std::string hist;
    for (int d = 0; d < depth; ++d) {
      int op = ex.choose(22, "operation");
      if (d == 0) ex.split();
      hist += std::to_string(op) + ",";
      ex.note("op " + std::to_string(op));
      InterpolatingVector_Base *tgt = nullptr;
      ListModel *tm = nullptr;
      auto pick = [&](int k) { k == 0 ? (tgt = &A, tm = &a) : (tgt = &M, tm = &m); };
      switch (op) {
        case 0:
        case 1: { // write one timestep
          pick(op);
          int i = ex.choose(static_cast<int>(tm->t.size()) + 2, "index") - 1;
          VectorXd x(inner);
          for (int j = 0; j < inner; ++j) x[j] = next();
          bool bad = i < 0 || i >= static_cast<int>(tm->t.size());
          ex.expect(mc::throws([&] { tgt->mut_timestep(i) = x; }) == bad, "index-unchecked", "mut_timestep index check");
          if (!bad)
            for (int j = 0; j < inner; ++j) tm->v[static_cast<std::size_t>(i * inner + j)] = x[j];
          break;
        }
        case 2:
        case 3: { // bulk
          pick(op - 2);
          int off = ex.choose(3, "size offset") - 1;
          std::vector<double> v(tm->v.size() + static_cast<std::size_t>(off));
          for (auto &x : v) x = next();
          bool threw = mc::throws([&] { tgt->set_values_in_bulk(vecd(v)); });
          ex.expect(threw == (off != 0), "bulk-size", "set_values_in_bulk with " + std::to_string(v.size()) + " values for " + std::to_string(tm->v.size()));
          if (!off) tm->v = v;
          break;
        }
        case 4:
        case 5:
          pick(op - 4);
          tgt->setZero();
          std::fill(tm->v.begin(), tm->v.end(), 0.0);
          break;
        case 6:
        case 7: { // move the first or the last point and write it
          pick(op - 6);
          int where = ex.choose(4, "point and direction");
          auto i = where < 2 ? tm->t.size() - 1 : 0;
          auto other = where < 2 ? (i ? i - 1 : 0) : (tm->t.size() > 1 ? 1 : 0);
          VectorXd x(inner);
          for (int j = 0; j < inner; ++j) x[j] = next();
          double gap = other == i ? (i ? -1.0 : 1.0) : tm->t[other] - tm->t[i];
          double nt = where % 2 ? tm->t[i] + 0.25 * gap : tm->t[i] - 0.75 * std::copysign(1.0, gap);
          tgt->push_to_index(static_cast<Index>(i), nt, x);
          tm->t[i] = nt;
          for (int j = 0; j < inner; ++j) tm->v[i * static_cast<std::size_t>(inner) + static_cast<std::size_t>(j)] = x[j];
          break;
        }
        case 8: // owning copy assignment, any structure
          A = B;
          a = b;
          break;
        case 9:
          A = static_cast<InterpolatingVector_Base const &>(M);
          a = m;
          break;
        case 10:
          A = static_cast<InterpolatingVector_Base const &>(C);
          a = c;
          break;
        case 11:
        case 12: { // mapped assignment keeps the mapping and needs the same structure
          InterpolatingVector_Base const &src = op == 11 ? static_cast<InterpolatingVector_Base const &>(A) : C;
          ListModel const &sm = op == 11 ? a : c;
          bool bad = !m.same_structure(sm);
          ex.expect(mc::throws([&] { M = src; }) == bad, "assign-structure", "assignment to a mapped vector of different structure");
          if (!bad) m.v = sm.v;
          break;
        }
        case 13: { // assignment through the base class
          InterpolatingVector_Base &base = A;
          bool bad = !a.same_structure(m);
          ex.expect(mc::throws([&] { base = M; }) == bad, "assign-structure", "base class assignment of different structure");
          if (!bad) a.v = m.v;
          break;
        }
        case 14: { // copies are independent
          InterpolatingVector D(A);
          InterpolatingVector E(static_cast<InterpolatingVector_Base const &>(M));
          compare(ex, "copy of A", D, a);
          compare(ex, "copy of M", E, m);
          D.setZero();
          E.setZero();
          break;
        }
        case 15: { // moving
          InterpolatingVector D(std::move(A));
          compare(ex, "moved A", D, a);
          InterpolatingVector E;
          E = std::move(D);
          compare(ex, "move assigned A", E, a);
          A = E;
          break;
        }
        case 16: { // interpolation onto other points
          Times t;
          double lo = a.t.front(), hi = a.t.back();
          t = a.t.size() == 1 ? Times{lo} : Times{lo, 0.25 * lo + 0.75 * hi, hi};
          auto D = InterpolatingVector::construct_and_interpolate_from(vecd(t), inner, A);
          ListModel dm = blank(t);
          for (std::size_t i = 0; i < t.size(); ++i) {
            auto x = *a(t[i]);
            for (int j = 0; j < inner; ++j) {
              ex.expect(mc::close(D.vector_at_index(static_cast<Index>(i))[j], x[static_cast<std::size_t>(j)], 1e-12, 1e-12), "interpolate-from", "interpolation onto a finer grid");
              dm.v[i * static_cast<std::size_t>(inner) + static_cast<std::size_t>(j)] = D.vector_at_index(static_cast<Index>(i))[j];
            }
          }
          B = D;
          b = dm;
          break;
        }
        case 17: { // replace the storage behind the read-only mapping
          int off = ex.choose(2, "wrong size");
          for (auto &x : cstore2) x = next();
          bool threw = mc::throws([&] { C.reset_values(cstore2.data(), static_cast<Index>(cstore2.size()) - off); });
          ex.expect(threw == (off != 0), "bulk-size", "reset_values with a wrong size");
          if (!off) {
            c.v = cstore2;
            std::swap(cstore, cstore2);
          }
          break;
        }
        case 18: // the read-only mapping cannot be written through
          ex.expect(mc::throws([&] { C.mut_timestep(0) = VectorXd::Zero(inner); }) && mc::throws([&] { C.setZero(); })
                        && mc::throws([&] { C.set_values_in_bulk(vecd(c.v)); })
                        && mc::throws([&] { C.push_to_index(0, 0.0, VectorXd::Zero(inner)); }),
                    "const-written", "writing through a read-only mapping was accepted");
          break;
        case 19: { // writes into the mapped storage are seen
          mstore[0] = next();
          m.v[0] = mstore[0];
          break;
        }
        case 20: { // self assignment
          A = *&A;
          M = static_cast<InterpolatingVector_Base const &>(M);
          break;
        }
        default: { // wrong storage sizes at construction
          for (int off : {-1, 1}) {
            std::vector<double> st(m.v.size() + 1);
            auto n = static_cast<Index>(m.v.size()) + off;
            ex.expect(mc::throws([&] { MappedInterpolatingVector X(m.t, inner, st.data(), n); }) && mc::throws([&] { MappedInterpolatingVector X(vecd(m.t), inner, st.data(), n); })
                          && mc::throws([&] { ConstMappedInterpolatingVector X(m.t, inner, st.data(), n); })
                          && mc::throws([&] { ConstMappedInterpolatingVector X(vecd(m.t), inner, st.data(), n); }),
                      "storage-size", "mapped storage of a wrong size was accepted");
          }
        }
      }
      if (d + 1 < depth) continue; // shorter histories are executions of their own
      compare(ex, "A", A, a);
      compare(ex, "B", B, b);
      compare(ex, "M", M, m);
      compare(ex, "C", C, c);
      ex.expect(mstore == m.v, "mapping-lost", "the mapped storage does not hold the values");
      ex.expect(cstore == c.v, "const-written", "the read-only storage changed");
      std::vector<std::pair<InterpolatingVector_Base const *, ListModel const *>> all = {{&A, &a}, {&B, &b}, {&M, &m}, {&C, &c}};
      for (auto &x : all)
        for (auto &y : all) {
          bool eq = x.second->same_structure(*y.second) && x.second->v == y.second->v;
          ex.expect((*x.first == *y.first) == eq && (*x.first != *y.first) == !eq, "equality", "comparison of two vectors disagrees with their contents");
          ex.expect(Aux::have_same_structure(*x.first, *y.first) == x.second->same_structure(*y.second), "equality", "structure comparison is wrong");
        }
      ex.state(hist + std::to_string(grid) + std::to_string(inner) + std::to_string(mgrid));
    }
    ex.nontrivial();
  });

  // every increasing set of points of very different sizes, asked at, next to, between and outside them
  ex.scenario1("times of any size", [&] {
    std::vector<double> const alphabet = {-1.7e9, -86400.5, -3, -1e-3, 0, 2e-3, 1, 7.3, 3600.1, 1234567.25, 1.7e9};
    Times t;
    std::size_t at = 0;
    int n = 1 + ex.choose(ex.pick(4, 5), "number of points");
    for (int i = 0; i < n; ++i) {
      auto left = static_cast<int>(alphabet.size() - at) - (n - 1 - i);
      at += static_cast<std::size_t>(ex.choose(left, "next point"));
      t.push_back(alphabet[at++]);
    }
    int inner = 1 + ex.choose(2, "inner length");
    ex.state(mc::vec(t) + std::to_string(inner));
    ex.nontrivial();
    ListModel m{t, inner, {}};
    for (int i = 0; i < n * inner; ++i) m.v.push_back(3.0 * i - i * i + 0.5);
    InterpolatingVector O(t, inner);
    O.set_values_in_bulk(Eigen::Map<VectorXd const>(m.v.data(), n * inner));
    auto ask = [&](double x, bool in, std::string const &where) {
      VectorXd got;
      bool threw = mc::throws([&] { got = O(x); });
      ex.expect(threw == !in, "range", "points " + mc::vec(t) + ": evaluation at " + mc::num(x) + ", " + where + (threw ? ", was refused" : ", was accepted"));
      if (threw) return;
      double c = std::min(std::max(x, t.front()), t.back());
      auto want = *m(c);
      for (int j = 0; j < inner; ++j) {
        double w = want[static_cast<std::size_t>(j)];
        ex.expect(mc::close(got[j], w, 1e-7, 1e-7), "interpolation", "points " + mc::vec(t) + ": value at " + mc::num(x) + ", " + where + ", is " + mc::num(got[j]) + " expected " + mc::num(w));
      }
    };
    for (std::size_t i = 0; i < t.size(); ++i) {
      ask(t[i], true, "a point");
      ask(std::nextafter(t[i], 1e300), true, "just after a point");
      ask(std::nextafter(t[i], -1e300), true, "just before a point");
      if (!i) continue;
      for (double l : {0.5, 0.25, 0.99, 0.03}) ask(t[i - 1] + l * (t[i] - t[i - 1]), true, "between points");
    }
    auto far = [](double x) { return 1e-8 + 1e-13 * std::abs(x); };
    for (double k : {1.0, 10.0, 1e3, 1e7, 1e20}) {
      ask(t.front() - k * far(t.front()), false, "before the first point");
      ask(t.back() + k * far(t.back()), false, "after the last point");
    }
  });

  // every order in which points can be given, from vectors and from json
  ex.scenario1("order of points", [&] {
    Times base = {0, 1.5, 2, 4};
    int n = 1 + ex.choose(4, "number of points");
    Times t;
    std::vector<bool> used(4, false);
    for (int i = 0; i < n; ++i) {
      std::vector<int> left;
      for (int k = 0; k < n; ++k)
        if (!used[static_cast<std::size_t>(k)]) left.push_back(k);
      int k = left[static_cast<std::size_t>(ex.choose(static_cast<int>(left.size())))];
      used[static_cast<std::size_t>(k)] = true;
      t.push_back(base[static_cast<std::size_t>(k)]);
    }
    bool sorted = std::is_sorted(t.begin(), t.end());
    int how = ex.choose(4, "source");
    int inner = 1 + ex.choose(2, "inner length");
    if (!sorted) ex.nontrivial();
    ex.state(std::to_string(how) + std::to_string(inner) + mc::vec(t));
    ListModel m{t, inner, {}};
    for (int i = 0; i < n * inner; ++i) m.v.push_back(3.0 * i - i * i);
    Eigen::Map<VectorXd const> tv(t.data(), n), vv(m.v.data(), n * inner);
    std::unique_ptr<InterpolatingVector_Base> o;
    bool threw;
    if (how == 0) {
      threw = mc::throws([&] {
        o = std::make_unique<InterpolatingVector>(t, inner);
        o->set_values_in_bulk(vv);
      });
    } else if (how == 1) {
      if (!sorted) { // a refusal may be an assertion here
        int rc = mc::in_child([&] { InterpolatingVector X(tv, inner); });
        ex.expect(rc == 1 || rc == 2, "unsorted-accepted", "unsorted points given as an Eigen vector were accepted: " + mc::vec(t));
        return;
      }
      threw = mc::throws([&] {
        o = std::make_unique<InterpolatingVector>(tv, inner);
        o->set_values_in_bulk(vv);
      });
    } else {
      char const *name = how == 2 ? "time" : "x";
      nlohmann::json j = {{"id", "c"}, {"data", nlohmann::json::array()}};
      for (int i = 0; i < n; ++i) {
        nlohmann::json vals = nlohmann::json::array();
        for (int k = 0; k < inner; ++k) vals.push_back(m.v[static_cast<std::size_t>(i * inner + k)]);
        j["data"].push_back({{name, t[static_cast<std::size_t>(i)]}, {"values", vals}});
      }
      auto schema = how == 2 ? Aux::schema::make_boundary_schema(inner) : Aux::schema::make_initial_schema(std::nullopt, inner, {});
      nlohmann::json const before = j;
      threw = mc::throws([&] { o = std::make_unique<InterpolatingVector>(InterpolatingVector::construct_from_json(j, schema)); });
      ex.expect(j == before, "json-changed", "reading changed the json");
    }
    ex.expect(threw == !sorted, sorted ? "sorted-refused" : "unsorted-accepted", (sorted ? "sorted points were refused: " : "unsorted points were accepted: ") + mc::vec(t));
    if (!threw) compare(ex, "constructed", *o, m);
  });

  // json with missing or superfluous parts is refused, never misread, and never crashes
  ex.scenario1("malformed json", [&] {
    int inner = 1 + ex.choose(2);
    bool time = ex.flag();
    char const *name = time ? "time" : "x";
    int n = 1 + ex.choose(3, "entries");
    nlohmann::json j = {{"id", "c"}, {"data", nlohmann::json::array()}};
    for (int i = 0; i < n; ++i) {
      nlohmann::json vals = nlohmann::json::array();
      for (int k = 0; k < inner; ++k) vals.push_back(i + 0.5 * k);
      j["data"].push_back({{name, 1.0 * i}, {"values", vals}});
    }
    int at = ex.choose(n, "entry");
    int kind = ex.choose(13, "defect");
    auto &e = j["data"][static_cast<std::size_t>(at)];
    switch (kind) {
      case 0: j["data"] = nlohmann::json::array(); break;
      case 1: j.erase("data"); break;
      case 2: j["data"] = 5; break;
      case 3: e.erase("values"); break;
      case 4: e.erase(name); break;
      case 5: e["values"].push_back(1.0); break;
      case 6: e["values"].erase(0); break;
      case 7: e["values"][0] = "one"; break;
      case 8: e[name] = "zero"; break;
      case 9: e = 3.0; break;
      case 10: e["values"] = 3.0; break;
      case 11: e["values"][0] = nullptr; break;
      default: e[name] = nullptr; break;
    }
    auto schema = time ? Aux::schema::make_boundary_schema(inner) : Aux::schema::make_initial_schema(std::nullopt, inner, {});
    int rc = mc::in_child([&] { auto v = InterpolatingVector::construct_from_json(j, schema); });
    ex.state(j.dump());
    ex.nontrivial();
    ex.expect(rc == 1, rc == 2 ? "malformed-crash" : "malformed-accepted", std::string(rc == 2 ? "crash on " : "no error for ") + j.dump());
  });
  return ex.finish();
}
