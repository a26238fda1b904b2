// C03: the derivatives every component reports are the derivatives of its equations.
#include "netgen.hpp"
#include "Costcomponent.hpp"
using namespace net;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using Sp = Eigen::SparseMatrix<double>;

/// Fourth order central differences; the step is small against the distance to any kink.
static M numeric(std::function<V(V const &)> const &f, V const &x, V const &h, M &scale) {
  V f0 = f(x);
  M J(f0.size(), x.size());
  scale = M::Zero(f0.size(), x.size());
  for (Eigen::Index j = 0; j < x.size(); ++j) {
    auto g = [&](double k) {
      V y = x;
      y[j] += k * h[j];
      return f(y);
    };
    V a = g(1), b = g(-1), c = g(2), d = g(-2);
    J.col(j) = (8 * (a - b) - (c - d)) / (12 * h[j]);
    scale.col(j) = (a.cwiseAbs() + b.cwiseAbs()) / h[j];
  }
  return J;
}

struct Checker {
  mc::Explorer &ex;
  std::string what;
  void compare(std::string const &name, M const &got, M const &want, M const &scale) {
    ex.expect((got.rows() == want.rows() && got.cols() == want.cols()), "derivative", what + ": " + name + " has the wrong size");
    for (Eigen::Index i = 0; i < want.rows(); ++i)
      for (Eigen::Index j = 0; j < want.cols(); ++j) {
        double tol = 2e-6 * std::max(std::abs(want(i, j)), std::abs(got(i, j))) + 1e-13 * scale(i, j) + 1e-9;
        if (!ex.tick(std::abs(got(i, j) - want(i, j)) <= tol))
          ex.fail("derivative", what + ": " + name + " (" + std::to_string(i) + "," + std::to_string(j) + ") is " + mc::num(got(i, j)) + " instead of " + mc::num(want(i, j)));
      }
  }
  /// assembles with both handlers, the second on top of a matrix built at another state
  M assemble(std::string const &name, Eigen::Index rows, Eigen::Index cols, std::function<void(Aux::Matrixhandler &, int)> const &put, bool transposed = false) {
    Sp t(rows, cols), c(rows, cols);
    Aux::Triplethandler<> h(t);
    put(h, 0);
    h.set_matrix();
    {
      Aux::Triplethandler<> h2(c);
      put(h2, 1);
      h2.set_matrix();
    }
    c.makeCompressed();
    auto nnz = c.nonZeros();
    Aux::Coeffrefhandler<> h3(c);
    put(h3, 0);
    h3.set_matrix();
    ex.expect((c.nonZeros() == nnz && t.nonZeros() == nnz), "pattern", what + ": the sparsity pattern of " + name + " depends on the state");
    M a = t, b = c;
    ex.expect((a - b).cwiseAbs().maxCoeff() <= 1e-12 * (1 + a.cwiseAbs().maxCoeff()), "handlers", what + ": " + name + " differs between fresh assembly and update");
    if (transposed) {
      Sp tt(cols, rows);
      Aux::Triplethandler<Aux::Transposed> ht(tt);
      put(ht, 0);
      ht.set_matrix();
      M at = M(tt).transpose();
      ex.expect((a - at).cwiseAbs().maxCoeff() == 0, "handlers", what + ": transposed " + name + " differs");
    }
    return a;
  }
};

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  auto run = [&](Spec const &s, double level) {
    auto in = input(s);
    auto p = problem(in);
    auto n = p->get_number_of_states();
    auto m = p->get_number_of_controls_per_timepoint();
    auto k = p->get_number_of_constraints_per_timepoint();
    V base = V::Zero(n);
    p->set_initial_values(base, in.initial);
    // states: perturb every entry differently; flows get a prescribed level and alternate in sign
    // flows are recognised by finding which entries the initial data gave as flow
    auto in2 = in;
    for (auto &[type, list] : in2.initial["connections"].items())
      for (auto &c : list)
        for (auto &d : c["data"]) d["values"][1] = d["values"][1].get<double>() + 1000;
    V marked = base;
    p->set_initial_values(marked, in2.initial);
    auto flow = [&](Eigen::Index i) { return std::abs(marked[i] - base[i]) > 1; };
    auto state = [&](int which) {
      V x = base;
      for (Eigen::Index i = 0; i < n; ++i) {
        double w = std::sin(1.0 + 3 * static_cast<double>(i) + 7 * which);
        if (flow(i)) x[i] = level * (1 + 0.1 * w) * ((which + i / 2) % 3 == 1 ? -1 : 1);
        else x[i] = base[i] * (1 + 0.02 * w) + (std::abs(base[i]) < 1e-9 ? 0.1 * w : 0);
      }
      return x;
    };
    V x1 = state(0), x0 = state(1), u(m), other = state(2);
    for (Eigen::Index i = 0; i < m; ++i) u[i] = 0.3 + 0.2 * static_cast<double>(i);
    V u2 = u.array() + 0.7;
    V h(n);
    for (Eigen::Index i = 0; i < n; ++i) h[i] = 1e-3 * std::max(std::abs(x1[i]), flow(i) ? 1e-4 : 1e-2);
    V hl(n), hu = V::Constant(m, 1e-3);
    for (Eigen::Index i = 0; i < n; ++i) hl[i] = 1e-3 * std::max(std::abs(x0[i]), flow(i) ? 1e-4 : 1e-2);
    double t0 = 600, t1 = 2400;
    p->prepare_timestep(t0, t1, x0, u);
    auto F = [&](V const &last, V const &now, V const &c) {
      V r = V::Zero(n);
      p->evaluate(r, t0, t1, last, now, c);
      return r;
    };
    Checker ck{ex, s.describe() + " flow level " + mc::num(level)};
    ex.note(ck.what);
    ex.state(ck.what);
    ex.nontrivial();
    M sc;
    M J = numeric([&](V const &y) { return F(x0, y, u); }, x1, h, sc);
    ck.compare("d/d new state", ck.assemble("d/d new state", n, n, [&](Aux::Matrixhandler &hd, int w) { p->d_evaluate_d_new_state(hd, t0, t1, x0, w ? other : x1, u); }, true), J, sc);
    J = numeric([&](V const &y) { return F(y, x1, u); }, x0, hl, sc);
    ck.compare("d/d last state", ck.assemble("d/d last state", n, n, [&](Aux::Matrixhandler &hd, int w) { p->d_evaluate_d_last_state(hd, t0, t1, w ? other : x0, x1, u); }, true), J, sc);
    // controls of both signs, none and large ones
    std::vector<V> const points = {u, V(-1.5 * u), V(V::Zero(m)), V(V::LinSpaced(m, -40, 25))};
    auto const u_usual = u;
    if (m) for (auto const &at : points) {
      u = at;
      J = numeric([&](V const &y) { return F(x0, x1, y); }, u, hu, sc);
      ck.compare("d/d control", ck.assemble("d/d control", n, m, [&](Aux::Matrixhandler &hd, int w) { p->d_evaluate_d_control(hd, t0, t1, x0, x1, w ? u2 : u); }), J, sc);
    }
    u = u_usual;
    auto one = [](double d) { return V(V::Constant(1, d)); };
    J = numeric([&](V const &y) { return one(p->evaluate_cost(t1, y, u)); }, x1, h, sc);
    ck.compare("d cost/d state", ck.assemble("d cost/d state", 1, n, [&](Aux::Matrixhandler &hd, int w) { p->d_evaluate_cost_d_state(hd, t1, w ? other : x1, u); }), J, sc);
    J = numeric([&](V const &y) { return one(p->evaluate_penalty(t1, y, u)); }, x1, h, sc);
    ck.compare("d penalty/d state", ck.assemble("d penalty/d state", 1, n, [&](Aux::Matrixhandler &hd, int w) { p->d_evaluate_penalty_d_state(hd, t1, w ? other : x1, u); }), J, sc);
    if (m) for (auto const &at : points) {
      u = at;
      J = numeric([&](V const &y) { return one(p->evaluate_cost(t1, x1, y)); }, u, hu, sc);
      ck.compare("d cost/d control", ck.assemble("d cost/d control", 1, m, [&](Aux::Matrixhandler &hd, int w) { p->d_evaluate_cost_d_control(hd, t1, x1, w ? u2 : u); }), J, sc);
      J = numeric([&](V const &y) { return one(p->evaluate_penalty(t1, x1, y)); }, u, hu, sc);
      ck.compare("d penalty/d control", ck.assemble("d penalty/d control", 1, m, [&](Aux::Matrixhandler &hd, int w) { p->d_evaluate_penalty_d_control(hd, t1, x1, w ? u2 : u); }), J, sc);
    }
    u = u_usual;
    if (k) {
      auto C = [&](V const &y, V const &c) {
        V r = V::Zero(k);
        p->evaluate_constraint(r, t1, y, c);
        return r;
      };
      // a constraint on the pressure at a node: every attached edge gives the same pressure
      J = numeric([&](V const &y) { return C(y, u); }, x1, h, sc);
      ck.compare("d constraint/d state", ck.assemble("d constraint/d state", k, n, [&](Aux::Matrixhandler &hd, int w) { p->d_evaluate_constraint_d_state(hd, t1, w ? other : x1, u); }), J, sc);
      if (m) for (auto const &at : points) {
        u = at;
        J = numeric([&](V const &y) { return C(x1, y); }, u, hu, sc);
        ck.compare("d constraint/d control", ck.assemble("d constraint/d control", k, m, [&](Aux::Matrixhandler &hd, int w) { p->d_evaluate_constraint_d_control(hd, t1, x1, w ? u2 : u); }), J, sc);
      }
    }
  };
  ex.scenario("gas 2 nodes", [&] {
    auto s = gas_network(ex, 2, false);
    run(s, ex.of(std::vector<double>{40, 0.005, 0.018, 90}));
  });
  ex.scenario("gas 3 nodes", [&] {
    auto s = gas_network(ex, 3, false);
    run(s, ex.of(std::vector<double>{40, 0.005}));
  });
  ex.scenario("gas star", [&] { run(gas_star(ex, false), 40); });
  ex.scenario("power star", [&] { run(power_star(ex), 1); });
  ex.scenario("pipe regimes", [&] {
    auto s = pipe_network(ex);
    Gaslaw g{s.edges[0].extra["diameter"]["value"].get<double>() / 1000, s.edges[0].extra["roughness"]["value"].get<double>()};
    run(s, ex.of(std::vector<double>{0, 10, 1700, 2400, 3000, 3500, 4500, 1e4, 1e6, 3e7}) / g.re(1));
  });
  ex.scenario("power", [&] { run(power_network(ex), 1); });
  ex.scenario("gas and power", [&] {
    auto s = coupled_network(ex);
    run(s, ex.of(std::vector<double>{90, 30, 5, 66}));
  });
  return ex.finish();
}
