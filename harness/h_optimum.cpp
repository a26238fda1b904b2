// C13: when an optimization reports success, its solution respects all bounds and constraints,
// satisfies the first order conditions of the control problem and is reported truthfully.
#include "Adaptor.hpp"
#include "opt.hpp"
using opt::V;
using opt::M;

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  ex.scenario("optimum", [&] {
    using L = std::vector<double>;
    static std::vector<L> const grids = {{0, 1, 2}, {0, 0.5, 2}, {0, 0.5, 1, 1.5}};
    L states = grids[static_cast<std::size_t>(ex.choose(ex.pick(2, 3)))];
    L controls = ex.of(std::vector<L>{states, {0, states.back()}, {-1, 0.7, states.back() + 1}});
    int subset = 1 + ex.choose((1 << (states.size() - 1)) - 1);
    L constraints;
    for (std::size_t i = 1; i < states.size(); ++i)
      if (subset >> (i - 1) & 1) constraints.push_back(states[i]);
    opt::Dynamics d;
    d.n = 1 + ex.choose(2);
    d.m = 1 + ex.choose(ex.pick(1, 2));
    d.k = ex.choose(3);
    d.weight_penalty = 0.05;
    ex.split();
    double const lo = ex.of(L{-5, 0.2, -0.1}), hi = ex.of(L{5, 0.5});
    int band = d.k ? ex.choose(3) : 0;
    opt::Setup s(d, states, controls, constraints);
    s.lower.setConstant(lo);
    s.upper.setConstant(hi);
    s.initial_controls.setConstant(ex.flag() ? lo + 0.1 * (hi - lo) : 0.5 * (lo + hi));
    // feasible by construction: around the values of some admissible controls
    V inside = V::LinSpaced(s.lower.size(), 0.3 * lo + 0.7 * hi, 0.6 * lo + 0.4 * hi).cwiseMin(1.0), g = s.constraint(inside);
    if (band == 1) s.constraint_lower = g.array() - 0.05, s.constraint_upper = g.array() + 100;
    if (band == 2) s.constraint_lower = g.array() - 0.1, s.constraint_upper = g.array() + 0.2;
    auto what = s.describe() + " bounds " + mc::num(lo) + ".." + mc::num(hi) + " band " + std::to_string(band);
    ex.note(what);
    auto optimizer = s.make();
    Optimization::IpoptAdaptor a(std::move(optimizer));
    auto status = a.optimize();
    if (status != Ipopt::Solve_Succeeded) {
      ex.count("no optimum found");
      return;
    }
    ex.nontrivial();
    V u = a.get_solution();
    ex.expect(u.size() == s.lower.size(), "size", what + ": wrong number of controls");
    ex.expect(u.allFinite(), "size", what + ": solution " + mc::vec(u));
    for (Eigen::Index i = 0; i < u.size(); ++i)
      ex.expect((u[i] >= lo - 1e-6 && u[i] <= hi + 1e-6), "bounds", what + ": control " + std::to_string(i) + " is " + mc::num(u[i]));
    V r = s.constraint(u);
    for (Eigen::Index i = 0; i < r.size(); ++i)
      ex.expect((r[i] >= s.constraint_lower[i] - 1e-5 && r[i] <= s.constraint_upper[i] + 1e-5), "constraints",
                what + ": constraint " + std::to_string(i) + " is " + mc::num(r[i]) + " outside " + mc::num(s.constraint_lower[i]) + ".." + mc::num(s.constraint_upper[i]));
    double J = s.objective(u);
    ex.expect(mc::close(a.get_objective_value(), J, 1e-7, 1e-7), "report", what + ": objective " + mc::num(a.get_objective_value()) + " instead of " + mc::num(J));
    ex.expect(mc::close(a.get_cost_value(), s.cost(u), 1e-7, 1e-7), "report", what + ": cost " + mc::num(a.get_cost_value()) + " instead of " + mc::num(s.cost(u)));
    ex.expect(mc::close(a.get_penalty_value(), s.penalty(u), 1e-7, 1e-7), "report", what + ": penalty " + mc::num(a.get_penalty_value()) + " instead of " + mc::num(s.penalty(u)));
    // first order conditions: the gradient is balanced by active bounds and constraints of the right sign
    V grad = s.gradient(u);
    M jac = s.jacobian(u);
    std::vector<V> normals; // directions in which the objective must not be improvable
    double act = 2e-4;
    for (Eigen::Index i = 0; i < u.size(); ++i) {
      if (u[i] - lo < act) normals.push_back(V::Unit(u.size(), i));
      if (hi - u[i] < act) normals.push_back(-V::Unit(u.size(), i));
    }
    for (Eigen::Index i = 0; i < r.size(); ++i) {
      if (r[i] - s.constraint_lower[i] < act) normals.push_back(jac.row(i).transpose());
      if (s.constraint_upper[i] - r[i] < act) normals.push_back(-jac.row(i).transpose());
    }
    // nearest point of the cone of the normals to the gradient, by enumeration of its faces
    double best = grad.norm();
    std::size_t faces = std::min<std::size_t>(normals.size(), 12);
    for (unsigned f = 1; f < (1u << faces); ++f) {
      std::vector<V> use;
      for (std::size_t i = 0; i < faces; ++i)
        if (f >> i & 1) use.push_back(normals[i]);
      if (static_cast<Eigen::Index>(use.size()) > u.size()) continue;
      M N(u.size(), static_cast<Eigen::Index>(use.size()));
      for (std::size_t i = 0; i < use.size(); ++i) N.col(static_cast<Eigen::Index>(i)) = use[i];
      V l = N.colPivHouseholderQr().solve(grad);
      if (l.minCoeff() < -1e-4) continue;
      best = std::min(best, (N * l - grad).norm());
    }
    ex.expect(best <= 2e-3 * (1 + grad.norm()), "stationary", what + ": at the reported optimum " + mc::vec(u) + " the objective can be improved: gradient " + mc::vec(grad) + ", remaining " + mc::num(best));
    if (!normals.empty()) ex.count("with active bounds or constraints");
    ex.state(what);
  });
  return ex.finish();
}
