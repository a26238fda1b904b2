// C01: Newtonsolver::solve is honest.  The equation system is an adversary: residuals and
// Jacobians are chosen lazily, once per distinct state, from a small alphabet that contains
// converged, stuck, exploding, NaN and infinite answers and singular matrices, so that every
// function over the visited states is explored.
#include "Newtonsolver.hpp"
#include "mc.hpp"
#include "scripted_problem.hpp"

using Eigen::MatrixXd;
using Eigen::VectorXd;
static double const nan_ = std::numeric_limits<double>::quiet_NaN();
static double const inf_ = std::numeric_limits<double>::infinity();
static double const tol = 1e-6;

using Key = std::vector<double>;
static Key key(Eigen::Ref<VectorXd const> const &v) { return Key(v.data(), v.data() + v.size()); }
struct KeyLess {
  bool operator()(Key const &a, Key const &b) const {
    for (std::size_t i = 0; i < a.size(); ++i) {
      double x = std::isnan(a[i]) ? inf_ : a[i], y = std::isnan(b[i]) ? inf_ : b[i];
      if (std::isnan(a[i]) != std::isnan(b[i])) return std::isnan(b[i]);
      if (x != y) return x < y;
    }
    return false;
  }
};

static void adversary(mc::Explorer &ex, int dim, std::vector<VectorXd> const &alphabet, std::vector<MatrixXd> const &jacs,
                      int depth, std::vector<int> const &maxits, int jacdepth) {
  bool newjac = ex.flag("newjac");
  bool full = ex.flag("full jacobian");
  int maxit = ex.of(maxits);
  ex.split();
  std::map<Key, VectorXd, KeyLess> fmemo;
  std::map<Key, MatrixXd, KeyLess> jmemo;
  std::vector<Key> order;
  int fallback = -1;
  ScriptedProblem p;
  p.f = [&](double, double, auto const &, auto const &ns, auto const &) -> VectorXd {
    auto k = key(ns);
    order.push_back(k);
    auto it = fmemo.find(k);
    if (it != fmemo.end()) return it->second;
    VectorXd r;
    if (static_cast<int>(fmemo.size()) < depth) {
      r = ex.of(alphabet, "residual");
    } else {
      if (fallback < 0) fallback = ex.choose(3, "tail");
      r = fallback == 0 ? VectorXd(VectorXd::Constant(dim, tol / 4)) : fallback == 1 ? VectorXd(VectorXd::Ones(dim)) : VectorXd(VectorXd::Constant(dim, nan_));
    }
    fmemo[k] = r;
    return r;
  };
  p.dnew = [&](double, double, auto const &, auto const &ns, auto const &) -> MatrixXd {
    auto k = key(ns);
    auto it = jmemo.find(k);
    if (it != jmemo.end()) return it->second;
    MatrixXd m = static_cast<int>(jmemo.size()) < jacdepth ? ex.of(jacs, "jacobian") : jacs[0];
    jmemo[k] = m;
    return m;
  };
  Solver::Newtonsolver solver(tol, maxit);
  VectorXd x = VectorXd::Constant(dim, 1.0), last = x, c(0);
  VectorXd const x0 = x;
  if (!newjac) solver.evaluate_state_derivative_triplets(p, 0, 1, last, x, c);
  Solver::Solutionstruct s;
  bool threw = false;
  try {
    s = solver.solve(x, p, newjac, full, 0, 1, last, c);
  } catch (std::exception const &) {
    threw = true;
  }
  for (auto const &k : order) ex.state(k.data(), k.size(), fmemo.size());
  if (order.size() > 1) ex.nontrivial();
  if (threw) return; // an explicit failure is always honest
  auto it = fmemo.find(key(x));
  std::string what = "returned state " + mc::vec(x) + " success=" + std::to_string(s.success) + " residual=" + mc::num(s.residual)
                     + " iterations=" + std::to_string(s.used_iterations);
  bool moved = false;
  for (int i = 0; i < dim; ++i) moved = moved || !(x[i] == x0[i]);
  if (it == fmemo.end()) {
    ex.expect(!s.success, "success-unevaluated", "success was reported for a state at which the equations were never evaluated: " + what);
    return;
  }
  double n = it->second.norm();
  bool solved = n <= tol;
  if (s.success) {
    ex.expect(solved, "false-success", "success reported, but the norm of the equations at the returned state is " + mc::num(n) + ": " + what);
    ex.expect(mc::close(s.residual, n, 1e-12), "residual-wrong", "reported residual is not the residual of the returned state (" + mc::num(n) + "): " + what);
  } else {
    ex.expect(!solved, "false-failure", "failure reported although the returned state solves the equations: " + what);
  }
  ex.expect(s.used_iterations <= maxit && s.used_iterations >= 0, "too-many-iterations", what);
  ex.expect(!(fmemo[key(x0)].norm() <= tol) || (!moved && s.success && s.used_iterations == 0), "moved-from-solution",
            "the start already solved the equations, but: " + what);
}

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  auto V1 = [](double a) { return VectorXd(VectorXd::Constant(1, a)); };
  auto V2 = [](double a, double b) { VectorXd v(2); v << a, b; return v; };
  auto M1 = [](double a) { return MatrixXd(MatrixXd::Constant(1, 1, a)); };
  auto M2 = [](double a, double b, double c, double d) { MatrixXd m(2, 2); m << a, b, c, d; return m; };

  ex.scenario("adversary-1d", [&] {
    adversary(ex, 1, {V1(tol / 2), V1(1.0), V1(-0.3), V1(nan_), V1(inf_), V1(0.05), V1(1.5 * tol)}, {M1(1), M1(-2), M1(0), M1(nan_)},
              ex.pick(4, 5), {0, 1, 2, 3}, 2);
  });
  ex.scenario("adversary-2d", [&] {
    adversary(ex, 2, {V2(0.9 * tol, 0.9 * tol), V2(0.5 * tol, 0.5 * tol), V2(1, 0), V2(0.1, nan_), V2(0, -0.2), V2(-inf_, 0)},
              {M2(1, 0, 0, 1), M2(2, 1, 1, 1), M2(1, 1, 1, 1)}, ex.pick(4, 5), {1, 2, 3}, 2);
  });

  // every regular affine system is solved, every inconsistent one is refused; the solver object is
  // reused, and what it did before must not matter
  ex.scenario("affine-reuse", [&] {
    std::vector<double> e = {-1, 0, 2};
    auto draw = [&](MatrixXd &A, VectorXd &b, bool small) {
      A.resize(2, 2);
      if (small) {
        A = ex.of(std::vector<MatrixXd>{M2(1, 0, 0, 1), M2(0, 1, 2, 0), M2(3, 1, 0, 0), M2(-1, 2, 2, 1)});
        b = V2(1, -2);
      } else {
        for (int i = 0; i < 4; ++i) A(i / 2, i % 2) = ex.of(e);
        b = ex.of(std::vector<VectorXd>{V2(0, 0), V2(1, -2), V2(1e3, 5)});
      }
    };
    MatrixXd A1, A2;
    VectorXd b1, b2;
    bool newjac = ex.flag(), full = ex.flag();
    bool history = ex.flag();
    if (history) draw(A1, b1, true);
    ex.split();
    draw(A2, b2, false);
    auto problem = [](MatrixXd const &A, VectorXd const &b) {
      ScriptedProblem p;
      p.f = [A, b](double, double, auto const &, auto const &ns, auto const &) -> VectorXd { return A * ns - b; };
      p.dnew = [A](double, double, auto const &, auto const &, auto const &) -> MatrixXd { return A; };
      return p;
    };
    auto p2 = problem(A2, b2);
    Solver::Newtonsolver solver(1e-9, 5);
    VectorXd c(0), last = V2(0, 0);
    if (history) {
      auto p1 = problem(A1, b1);
      VectorXd x = V2(0, 0);
      solver.evaluate_state_derivative_triplets(p1, 0, 1, last, x, c);
      mc::throws([&] { solver.solve(x, p1, newjac, full, 0, 1, last, c); });
    } else {
      solver.evaluate_state_derivative_triplets(p2, 0, 1, last, last, c);
    }
    VectorXd x = V2(7, -3);
    Solver::Solutionstruct s;
    bool threw = mc::throws([&] { s = solver.solve(x, p2, newjac, full, 0, 1, last, c); });
    double det = A2.determinant();
    ex.state(x.data(), 2, 1);
    std::string what = "A=" + mc::vec(Eigen::Map<VectorXd>(A2.data(), 4)) + " b=" + mc::vec(b2) + " x=" + mc::vec(x) + (threw ? " (exception)" : "");
    if (std::abs(det) > 0.5) {
      ex.nontrivial();
      ex.expect(!threw && s.success, "affine-not-solved", "a regular affine system was not solved: " + what);
      VectorXd exact = A2.inverse() * b2;
      ex.expect((x - exact).norm() <= 1e-6 * (1 + exact.norm()), "affine-wrong", "wrong solution, expected " + mc::vec(exact) + ": " + what);
    } else if (!threw && s.success) {
      ex.expect((A2 * x - b2).norm() <= 1e-9, "false-success", "success on a singular system without solving it: " + what);
    }
  });

  // damping: scalar problems on which the undamped method overshoots or diverges
  ex.scenario1("damped", [&] {
    struct F { std::string name; std::function<double(double)> f, d; std::vector<double> starts; };
    std::vector<F> fs = {
        {"atan(x)", [](double x) { return std::atan(x); }, [](double x) { return 1 / (1 + x * x); }, {-20, -3, -1.5, 0.5, 2, 10}},
        {"x^3-8", [](double x) { return x * x * x - 8; }, [](double x) { return 3 * x * x; }, {0.1, 1, 5, 100}},
        {"exp(x)-2", [](double x) { return std::exp(x) - 2; }, [](double x) { return std::exp(x); }, {-4, 0, 3, 10}},
        {"x/sqrt(1+x^2)", [](double x) { return x / std::sqrt(1 + x * x); }, [](double x) { return std::pow(1 + x * x, -1.5); }, {-5, -2, 1.5, 8}},
        {"log(x)", [](double x) { return x > 0 ? std::log(x) : nan_; }, [](double x) { return 1 / x; }, {0.01, 0.5, 2, 2.5}},
    };
    auto const &F = fs[static_cast<std::size_t>(ex.choose(static_cast<int>(fs.size())))];
    double start = ex.of(F.starts);
    bool newjac = ex.flag();
    ex.nontrivial();
    ScriptedProblem p;
    std::vector<std::pair<double, double>> evals;
    p.f = [&](double, double, auto const &, auto const &ns, auto const &) -> VectorXd {
      evals.push_back({ns[0], F.f(ns[0])});
      return VectorXd::Constant(1, F.f(ns[0]));
    };
    p.dnew = [&](double, double, auto const &, auto const &ns, auto const &) -> MatrixXd { return MatrixXd::Constant(1, 1, F.d(ns[0])); };
    Solver::Newtonsolver solver(1e-8, 60);
    VectorXd x = V1(start), c(0), last = x;
    if (!newjac) solver.evaluate_state_derivative_triplets(p, 0, 1, last, x, c);
    Solver::Solutionstruct s;
    std::string err;
    bool threw = mc::throws([&] { s = solver.solve(x, p, newjac, true, 0, 1, last, c); }, &err);
    for (auto const &e : evals) ex.state(&e.first, 1, 2);
    ex.expect(!threw && s.success && std::abs(F.f(x[0])) <= 1e-8, "damped-fails",
              F.name + " from " + mc::num(start) + " ended at " + mc::num(x[0]) + (threw ? " with " + err : "") + " success=" + std::to_string(s.success));
  });
  return ex.finish();
}
