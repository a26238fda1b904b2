// C11: objective, constraints, gradient and constraint Jacobian of the optimizer are those of the
// discretized control problem, for every relation of the three time grids.
#include "netgen.hpp"
#include "Optimization_helpers.hpp"
#include "opt.hpp"
using opt::V;
using opt::M;

static M dense(Optimization::ImplicitOptimizer &o, V const &values, bool *duplicate, bool *outside) {
  auto nnz = o.get_no_nnz_in_jacobian();
  Eigen::VectorX<Ipopt::Index> r(nnz), c(nnz);
  o.supply_constraint_jacobian_indices(r, c);
  M m = M::Zero(o.get_total_no_constraints(), o.get_total_no_controls());
  M seen = m;
  for (Eigen::Index i = 0; i < nnz; ++i) {
    if (r[i] < 0 || r[i] >= m.rows() || c[i] < 0 || c[i] >= m.cols()) {
      *outside = true;
      continue;
    }
    if (seen(r[i], c[i])++ > 0) *duplicate = true;
    m(r[i], c[i]) += values[i];
  }
  return m;
}

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  auto compare = [&](std::string const &what, char const *key, V const &a, V const &b, double tol) {
    ex.expect(a.size() == b.size(), key, what + ": wrong size");
    double scale = 1 + b.cwiseAbs().maxCoeff();
    for (Eigen::Index i = 0; i < a.size(); ++i)
      ex.expect(std::abs(a[i] - b[i]) <= tol * scale, key, what + ": entry " + std::to_string(i) + " is " + mc::num(a[i]) + " instead of " + mc::num(b[i]));
  };
  ex.scenario("grids", [&] {
    using L = std::vector<double>;
    static std::vector<L> const grids = {{0, 1}, {0, 1, 2}, {0, 0.5, 2, 3}, {0, 1, 2, 3, 4}, {0, 0.25, 0.5, 1.75}, {0, 0.1, 0.2, 0.3, 0.4, 0.5}};
    L states = grids[static_cast<std::size_t>(ex.choose(ex.pick(5, 6)))];
    double end = states.back();
    L mid = {0, 0.3 * end, 0.55 * end, end};
    L fine;
    for (std::size_t i = 0; i + 1 < states.size(); ++i) {
      fine.push_back(states[i]);
      fine.push_back(0.5 * (states[i] + states[i + 1]));
    }
    fine.push_back(end);
    L skip = {0};
    if (states.size() > 2) skip.push_back(states[1]);
    if (states.size() > 4) skip.push_back(states[3]);
    skip.push_back(end);
    L late = states;
    late.push_back(end + 1);
    late.push_back(end + 3);
    std::vector<L> cgrids = {states, {0, end}, mid, fine, skip, {-1, end + 1}, {-2, -1, 0, 0.6 * end, end + 2}, late, {0, states[1] + 4e-4, end + 1e-3}, {0, states[1] * (1 - 1e-4), states[1] + 3e-5, std::max(end, states[1] + 1e-4)}};
    L controls = ex.of(cgrids);
    int subset = 1 + ex.choose((1 << (states.size() - 1)) - 1);
    L constraints;
    for (std::size_t i = 1; i < states.size(); ++i)
      if (subset >> (i - 1) & 1) constraints.push_back(states[i]);
    ex.split();
    opt::Dynamics d;
    d.n = 1 + ex.choose(2);
    d.m = 1 + ex.choose(2);
    d.k = ex.choose(3);
    d.hollow = ex.flag();
    double shift = ex.of(ex.thorough() ? L{0, 1e5, -3} : L{0, 4096});
    d.t0 = shift;
    for (auto *g : {&states, &controls, &constraints})
      for (auto &t : *g) t += shift;
    opt::Setup s(d, states, controls, constraints);
    auto what = s.describe();
    ex.note(what);
    auto o = s.make();
    auto nu = o->get_total_no_controls(), ng = o->get_total_no_constraints();
    ex.expect((nu == s.initial_controls.size() && ng == s.constraint_lower.size()), "sizes", what + ": " + std::to_string(nu) + " controls, " + std::to_string(ng) + " constraints");
    compare(what + ": initial controls", "initial", o->get_initial_controls(), s.initial_controls, 0);
    compare(what + ": lower bounds", "initial", o->get_lower_bounds(), s.lower, 0);
    compare(what + ": upper bounds", "initial", o->get_upper_bounds(), s.upper, 0);
    if (ng) {
      compare(what + ": constraint lower bounds", "initial", o->get_constraint_lower_bounds(), s.constraint_lower, 0);
      compare(what + ": constraint upper bounds", "initial", o->get_constraint_upper_bounds(), s.constraint_upper, 0);
    }
    int first = ex.choose(2); // gradient or Jacobian first
    for (int point = 0; point < 2; ++point) {
      V u = point ? V(s.initial_controls.reverse() * 1.7 - V::LinSpaced(nu, 0.1, 0.9)) : s.initial_controls;
      o->new_x();
      double J = 0, c = 0, p = 0;
      V g(ng), grad(nu), values = V::Constant(o->get_no_nnz_in_jacobian(), std::nan(""));
      ex.expect((o->evaluate_objective(u, J) && o->evaluate_cost(u, c) && o->evaluate_penalty(u, p)), "fails", what + ": evaluation fails");
      if (ng) ex.expect(o->evaluate_constraints(u, g), "fails", what + ": constraints fail");
      if (!ng) ex.expect(o->evaluate_objective_gradient(u, grad), "fails", what + ": derivatives fail");
      else if (first) ex.expect((o->evaluate_constraint_jacobian(u, values) && o->evaluate_objective_gradient(u, grad)), "fails", what + ": derivatives fail");
      else ex.expect((o->evaluate_objective_gradient(u, grad) && o->evaluate_constraint_jacobian(u, values)), "fails", what + ": derivatives fail");
      ex.expect(mc::close(c, s.cost(u), 1e-9, 1e-9), "objective", what + ": cost " + mc::num(c) + " instead of " + mc::num(s.cost(u)));
      ex.expect(mc::close(p, s.penalty(u), 1e-9, 1e-9), "objective", what + ": penalty " + mc::num(p) + " instead of " + mc::num(s.penalty(u)));
      ex.expect(mc::close(J, s.objective(u), 1e-9, 1e-9), "objective", what + ": objective " + mc::num(J) + " instead of " + mc::num(s.objective(u)));
      compare(what + ": gradient", "gradient", grad, s.gradient(u), 3e-7);
      if (ng) {
        compare(what + ": constraints", "constraints", g, s.constraint(u), 1e-9);
        bool dup = false, out = false;
        M jac = dense(*o, values, &dup, &out), ref = s.jacobian(u);
        ex.expect((!dup && !out), "structure", what + ": positions of the constraint Jacobian are out of range or repeated");
        compare(what + ": constraint Jacobian", "jacobian", V(jac.reshaped()), V(ref.reshaped()), 3e-7);
        compare(what + ": whole matrix", "jacobian", V(o->get_constraint_jacobian().whole_matrix().reshaped()), V(jac.reshaped()), 0);
      }
      auto &st = o->get_current_full_state();
      auto x = s.trajectory(u);
      ex.expect(st.size() == static_cast<Eigen::Index>(x.size()), "states", what + ": wrong number of states");
      for (std::size_t i = 0; i < x.size(); ++i) compare(what + ": state", "states", st.vector_at_index(static_cast<Eigen::Index>(i)), x[i], 1e-9);
    }
    ex.nontrivial();
    ex.state(what);
  });
  // which controls make up the control of a time
  ex.scenario("controls of a time", [&] {
    using L = std::vector<double>;
    double const shift = ex.of(L{0, 1000, -7, 1e5});
    L points = ex.of(std::vector<L>{{0, 1}, {0, 1, 2}, {0, 0.001, 0.0015, 3}, {0, 1e-5, 1, 1 + 1e-6}, {0, 3600, 7200, 86400}});
    for (auto &t : points) t += shift;
    auto at = static_cast<std::size_t>(ex.choose(static_cast<int>(points.size())));
    double const off = ex.of(L{0, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 5e-4, 2e-3, 0.3});
    bool relative = ex.flag();
    double time = points[at];
    if (relative && at + 1 < points.size()) time += off * (points[at + 1] - points[at]);
    else if (relative) time -= off * (points[at] - points[at - 1]);
    else time += ex.flag() ? off : -off;
    auto what = "time " + mc::num(time) + " among " + mc::vec(opt::vec(points));
    ex.note(what);
    if (time < points.front() || time > points.back()) { // refused, up to rounding
      if (time < points.front() || time - points.back() > 1e-5)
        ex.expect(mc::throws([&] { Optimization::compute_index_lambda(opt::vec(points), time); }), "outside", what + " is accepted");
      return;
    }
    auto [upper, lambda] = Optimization::compute_index_lambda(opt::vec(points), time);
    ex.expect((upper >= 0 && upper < static_cast<Eigen::Index>(points.size()) && lambda >= 0 && lambda <= 1 && (upper > 0 || lambda == 1)), "weights", what + ": index " + std::to_string(upper) + ", weight " + mc::num(lambda));
    auto u = static_cast<std::size_t>(upper);
    // relative to the interval, up to the rounding of the times themselves
    double got = lambda == 1 ? points[u] : lambda * points[u] + (1 - lambda) * points[u - 1];
    ex.expect(std::abs(got - time) <= 4e-16 * (std::abs(shift) + std::abs(time)) + 1e-15, "weights", what + ": index " + std::to_string(upper) + " with weight " + mc::num(lambda) + " belongs to the time " + mc::num(got));
    ex.nontrivial();
    ex.state(what);
  });
  // real networks: the optimizer's own objective and constraints, differentiated numerically
  auto real = [&](net::Spec const &spec, double dt, int steps) {
    auto in = net::input(spec);
    auto p = net::problem(in);
    auto m = p->get_number_of_controls_per_timepoint(), k = p->get_number_of_constraints_per_timepoint();
    if (m == 0) ex.skip();
    std::vector<double> states, controls = {0, dt * steps}, constraints;
    int grid = ex.choose(ex.pick(2, 3));
    for (int i = 0; i <= steps; ++i) states.push_back(dt * i);
    if (grid == 1) controls = states;
    if (grid == 2) controls = {0, 0.4 * dt, 1.3 * dt, dt * steps};
    for (int i = 1; i <= steps; ++i) constraints.push_back(dt * i);
    V init(p->get_number_of_states());
    p->set_initial_values(init, in.initial);
    Aux::InterpolatingVector c(opt::vec(controls), m), g(opt::vec(constraints), k);
    p->set_initial_controls(c, in.control);
    if (k) g.setZero();
    nlohmann::json settings = {{"use_simplified_newton", false}, {"maximal_number_of_newton_iterations", 100}, {"tolerance", 1e-9}, {"retries", 0},
                               {"start_time", 0.0}, {"end_time", dt * steps}, {"desired_delta_t", dt}};
    V u0 = c.get_allvalues();
    Optimization::ImplicitOptimizer o(std::move(p), std::make_unique<Optimization::ControlStateCache>(Model::Timeevolver::make_pointer_instance(settings)), opt::vec(states), opt::vec(controls), opt::vec(constraints), init,
                                      c, c, c, g, g);
    auto what = spec.describe() + "control grid " + std::to_string(grid);
    ex.note(what);
    bool ok = true;
    auto objective = [&](V const &u) {
      double J = 0;
      o.new_x();
      ok &= o.evaluate_objective(u, J);
      return J;
    };
    auto constraint = [&](V const &u) {
      V r(o.get_total_no_constraints());
      if (!k) return r;
      o.new_x();
      ok &= o.evaluate_constraints(u, r);
      return r;
    };
    V grad(u0.size()), values(o.get_no_nnz_in_jacobian());
    o.new_x();
    if (!o.evaluate_objective_gradient(u0, grad)) {
      ex.count("not solved");
      ex.skip();
    }
    if (k) ex.expect(o.evaluate_constraint_jacobian(u0, values), "fails", what + ": constraint Jacobian fails");
    bool dup = false, out = false;
    M jac = k ? dense(o, values, &dup, &out) : M(0, u0.size());
    double h = 2e-3;
    for (Eigen::Index j = 0; j < u0.size(); ++j) {
      auto at = [&](double s) {
        V w = u0;
        w[j] += s * h;
        return w;
      };
      double fd = (8 * (objective(at(1)) - objective(at(-1))) - (objective(at(2)) - objective(at(-2)))) / (12 * h);
      V cd = (8 * (constraint(at(1)) - constraint(at(-1))) - (constraint(at(2)) - constraint(at(-2)))) / (12 * h);
      if (!ok) {
        ex.count("not solved");
        ex.skip();
      }
      ex.expect(std::abs(fd - grad[j]) <= 1e-5 * (1 + std::abs(fd)), "gradient", what + ": gradient entry " + std::to_string(j) + " is " + mc::num(grad[j]) + " instead of " + mc::num(fd));
      if (!k) continue;
      for (Eigen::Index i = 0; i < cd.size(); ++i)
        ex.expect(std::abs(cd[i] - jac(i, j)) <= 2e-4 * (1 + cd.cwiseAbs().maxCoeff()), "jacobian", what + ": derivative of constraint " + std::to_string(i) + " with respect to control " + std::to_string(j) + " is " + mc::num(jac(i, j)) + " instead of " + mc::num(cd[i]));
    }
    ex.nontrivial();
    ex.state(what);
  };
  auto controlled = [](net::Spec const &s) {
    for (auto const &e : s.edges)
      if (e.type == "Compressorstation" || e.type == "Controlvalve") return true;
    return false;
  };
  ex.scenario("gas 2 nodes", [&] {
    auto s = net::gas_network(ex, 2);
    if (!controlled(s) || s.edges[0].initial[0].second[1] == 0) ex.skip();
    real(s, 1800, 2);
  });
  ex.scenario("gas 3 nodes", [&] {
    auto s = net::gas_network(ex, 3);
    // quick: a pipe and one controlled edge
    if (!controlled(s) || s.edges[0].initial[0].second[1] == 0) ex.skip();
    if (!ex.thorough() && (s.edges.size() > 2)) ex.skip();
    for (auto &n : s.nodes)
      if (n.type == "Sink") {
        n.type = "ConstraintSink";
        real(s, 1800, 2);
        return;
      }
    ex.skip();
  });
  ex.scenario("gas star", [&] {
    auto s = net::gas_star(ex);
    if (!controlled(s) || s.nodes[0].type != "ConstraintSink") ex.skip();
    if (!ex.thorough())
      for (auto &e : s.edges)
        if (e.type == "Controlvalve") ex.skip();
    real(s, 1800, 2);
  });
  ex.scenario("gas and power", [&] {
    auto s = net::coupled_network(ex);
    if (!controlled(s)) ex.skip();
    real(s, 1800, 2);
  });
  return ex.finish();
}
