// A small smooth control problem for the optimizer, and an independent computation of everything
// the optimizer reports about it.
#pragma once
#include "ControlStateCache.hpp"
#include "ImplicitOptimizer.hpp"
#include "Initialvalues.hpp"
#include "InterpolatingVector.hpp"
#include "Matrixhandler.hpp"
#include "OptimizableObject.hpp"
#include "Timeevolver.hpp"
#include "mc.hpp"

namespace opt {
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using R = Eigen::Ref<V const>;

/// x' = -A x - 0.1 x^3 + B u + coupling, discretized implicitly with a part of the last state.
struct Dynamics {
  int n = 1, m = 1, k = 1; // states, controls, constraints
  double weight_cost = 1, weight_penalty = 1;
  bool hollow = false; // cost and constraints do not depend on everything
  M A() const {
    M a(n, n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) a(i, j) = i == j ? 1.0 + 0.3 * i : 0.2 - 0.5 * (i > j);
    return a;
  }
  M B() const {
    M b(n, m);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < m; ++j) b(i, j) = 1.0 + 0.5 * i - 0.7 * j;
    return b;
  }
  V E(double lt, double nt, V const &l, V const &x, V const &u) const {
    double dt = nt - lt;
    V r = x - l + dt * (A() * x - B() * u);
    for (int i = 0; i < n; ++i) r[i] += dt * (0.1 * x[i] * x[i] * x[i] + 0.05 * l[i] * l[i] + 0.2 * x[i] * u[0] + 0.1 * std::sin(nt - t0)
                                      + 0.04 * u[m - 1] * (l[i] * x[i] + u[m - 1]));
    return r;
  }
  M Enew(double lt, double nt, V const &l, V const &x, V const &u) const {
    double dt = nt - lt;
    M d = M::Identity(n, n) + dt * A();
    for (int i = 0; i < n; ++i) d(i, i) += dt * (0.3 * x[i] * x[i] + 0.2 * u[0] + 0.04 * u[m - 1] * l[i]);
    return d;
  }
  M Elast(double lt, double nt, V const &l, V const &x, V const &u) const {
    M d = -M::Identity(n, n);
    for (int i = 0; i < n; ++i) d(i, i) += (nt - lt) * (0.1 * l[i] + 0.04 * u[m - 1] * x[i]);
    return d;
  }
  M Eu(double lt, double nt, V const &l, V const &x, V const &u) const {
    double dt = nt - lt;
    M d = -dt * B();
    for (int i = 0; i < n; ++i) d(i, 0) += dt * 0.2 * x[i];
    for (int i = 0; i < n; ++i) d(i, m - 1) += dt * 0.04 * (l[i] * x[i] + 2 * u[m - 1]);
    return d;
  }
  double cost(double t, V const &x, V const &u) const {
    double c = 0.3 * u.squaredNorm() + 0.1 * (t - t0) * u[m - 1];
    if (!hollow) c += x.squaredNorm() + x[0] * u[0] + 0.07 * (t - t0) * x[n - 1];
    return weight_cost * c;
  }
  V cost_x(double t, V const &x, V const &u) const {
    if (hollow) return V::Zero(n);
    V d = 2 * x;
    d[0] += u[0];
    d[n - 1] += 0.07 * (t - t0);
    return weight_cost * d;
  }
  V cost_u(double t, V const &x, V const &u) const {
    V d = 0.6 * u;
    d[m - 1] += 0.1 * (t - t0);
    if (!hollow) d[0] += x[0];
    return weight_cost * d;
  }
  double at(double t) const { return 1 + 0.2 * (t - t0); }
  double penalty(double t, V const &x, V const &u) const {
    return weight_penalty * at(t) * (std::pow(x[n - 1], 4) + 0.2 * std::pow(u[0], 3) + 0.1 * x[0] * u[m - 1]);
  }
  V penalty_x(double t, V const &x, V const &u) const {
    V d = V::Zero(n);
    d[n - 1] = 4 * std::pow(x[n - 1], 3);
    d[0] += 0.1 * u[m - 1];
    return weight_penalty * at(t) * d;
  }
  V penalty_u(double t, V const &x, V const &u) const {
    V d = V::Zero(m);
    d[0] = 0.6 * u[0] * u[0];
    d[m - 1] += 0.1 * x[0];
    return weight_penalty * at(t) * d;
  }
  V constraint(double t, V const &x, V const &u) const {
    V g(k);
    for (int i = 0; i < k; ++i) g[i] = (1 + i) * x[i % n] * x[i % n] + (hollow ? 0.0 : 0.5) * u[i % m] * (1 + 0.1 * u[i % m] + 0.1 * (t - t0) + 0.06 * x[i % n]) + 0.1 * (i + 1) * (t - t0);
    return g;
  }
  M constraint_x(V const &x, V const &u) const {
    M d = M::Zero(k, n);
    for (int i = 0; i < k; ++i) d(i, i % n) += 2 * (1 + i) * x[i % n] + (hollow ? 0.0 : 0.03) * u[i % m];
    return d;
  }
  M constraint_u(double t, V const &x, V const &u) const {
    M d = M::Zero(k, m);
    for (int i = 0; i < k; ++i) d(i, i % m) += (hollow ? 0.0 : 0.5) * (1 + 0.2 * u[i % m] + 0.1 * (t - t0) + 0.06 * x[i % n]);
    return d;
  }
  double t0 = 0;
  /// controls at or above this value make the simulation fail
  double forbidden = 50;
  /// controls at or above this value make the simulation fail only at the time 1.5 or from a high initial state
  double sensitive = 50;
  /// controls at or below this value can be simulated, but the equations of the first time step have a singular derivative at their solution
  double degenerate = -50;
  bool singular(double lt, double nt, V const &l, V const &x, V const &u) const {
    return u.minCoeff() <= degenerate && lt == t0 && E(lt, nt, l, x, u).norm() <= 1e-10;
  }
};
} // namespace opt

class Mock_OptimizableObject : public Model::OptimizableObject {
  using R = Eigen::Ref<Eigen::VectorXd const>;

public:
  opt::Dynamics d;
  bool sparse = false;     // leave entries that are always zero out of the matrices
  static inline long evaluations = 0;
  explicit Mock_OptimizableObject(opt::Dynamics _d) : d(_d) {
    set_state_indices(0);
    set_control_indices(0);
    set_constraint_indices(0);
  }
  void setup() override {}
  void put(Aux::Matrixhandler &h, Eigen::MatrixXd const &a) const {
    for (int i = 0; i < a.rows(); ++i)
      for (int j = 0; j < a.cols(); ++j) h.add_to_coefficient(i, j, a(i, j));
  }
  void evaluate(Eigen::Ref<Eigen::VectorXd> r, double lt, double nt, R const &l, R const &x, R const &u) const override {
    ++evaluations;
    if (u.maxCoeff() >= d.forbidden || (u.maxCoeff() >= d.sensitive && (nt == d.t0 + 1.5 || (lt == d.t0 && l[0] > 0.8)))) throw std::runtime_error("controls out of range");
    r = d.E(lt, nt, l, x, u);
  }
  void d_evaluate_d_new_state(Aux::Matrixhandler &h, double lt, double nt, R const &l, R const &x, R const &u) const override {
    Eigen::MatrixXd m = d.Enew(lt, nt, l, x, u);
    if (d.singular(lt, nt, l, x, u)) m.setZero();
    put(h, m);
  }
  void d_evaluate_d_last_state(Aux::Matrixhandler &h, double lt, double nt, R const &l, R const &x, R const &u) const override { put(h, d.Elast(lt, nt, l, x, u)); }
  void d_evaluate_d_control(Aux::Matrixhandler &h, double lt, double nt, R const &l, R const &x, R const &u) const override { put(h, d.Eu(lt, nt, l, x, u)); }
  Eigen::Index set_state_indices(Eigen::Index i) override {
    state_startindex = i;
    return state_afterindex = i + d.n;
  }
  Eigen::Index set_control_indices(Eigen::Index i) override {
    control_startindex = i;
    return control_afterindex = i + d.m;
  }
  Eigen::Index set_constraint_indices(Eigen::Index i) override {
    constraint_startindex = i;
    return constraint_afterindex = i + d.k;
  }
  void add_results_to_json(nlohmann::json &) override {}
  void json_save(double, R const &) override {}
  void set_initial_values(Eigen::Ref<Eigen::VectorXd>, nlohmann::json const &) const override {}
  void set_initial_controls(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, nlohmann::json &) const override {}
  void set_constraint_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_constraint_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  double evaluate_cost(double t, R const &x, R const &u) const override { return d.cost(t, x, u); }
  void d_evaluate_cost_d_state(Aux::Matrixhandler &h, double t, R const &x, R const &u) const override { put(h, d.cost_x(t, x, u).transpose()); }
  void d_evaluate_cost_d_control(Aux::Matrixhandler &h, double t, R const &x, R const &u) const override { put(h, d.cost_u(t, x, u).transpose()); }
  double evaluate_penalty(double t, R const &x, R const &u) const override { return d.penalty(t, x, u); }
  void d_evaluate_penalty_d_state(Aux::Matrixhandler &h, double t, R const &x, R const &u) const override { put(h, d.penalty_x(t, x, u).transpose()); }
  void d_evaluate_penalty_d_control(Aux::Matrixhandler &h, double t, R const &x, R const &u) const override { put(h, d.penalty_u(t, x, u).transpose()); }
  void evaluate_constraint(Eigen::Ref<Eigen::VectorXd> g, double t, R const &x, R const &u) const override {
    if (d.k) g = d.constraint(t, x, u);
  }
  void d_evaluate_constraint_d_state(Aux::Matrixhandler &h, double, R const &x, R const &u) const override { put(h, d.constraint_x(x, u)); }
  void d_evaluate_constraint_d_control(Aux::Matrixhandler &h, double t, R const &x, R const &u) const override { put(h, d.constraint_u(t, x, u)); }

private:
  std::string componentclass() const override { return "c"; }
  std::string componenttype() const override { return "t"; }
  std::string id() const override { return "i"; }
};

namespace opt {
inline V vec(std::vector<double> const &v) { return Eigen::Map<V const>(v.data(), static_cast<Eigen::Index>(v.size())); }

/// Everything the optimizer is built from.
struct Setup {
  Dynamics d;
  std::vector<double> states, controls, constraints; // times
  V initial_state, initial_controls, lower, upper, constraint_lower, constraint_upper;
  Setup(Dynamics _d, std::vector<double> s, std::vector<double> c, std::vector<double> g) : d(_d), states(s), controls(c), constraints(g) {
    initial_state = V::LinSpaced(d.n, 0.6, -0.4);
    auto nu = static_cast<Eigen::Index>(c.size()) * d.m, ng = static_cast<Eigen::Index>(g.size()) * d.k;
    initial_controls = V::LinSpaced(nu, 0.3, 0.8);
    lower = V::LinSpaced(nu, -4, -3);
    upper = V::LinSpaced(nu, 5, 7);
    constraint_lower = V::LinSpaced(ng, -100, -90);
    constraint_upper = V::LinSpaced(ng, 100, 130);
  }
  static Aux::InterpolatingVector series(std::vector<double> const &t, Eigen::Index inner, V const &values) {
    Aux::InterpolatingVector v(vec(t), inner);
    if (values.size()) v.set_values_in_bulk(values);
    return v;
  }
  std::unique_ptr<Model::Timeevolver> evolver() const {
    nlohmann::json s = {{"use_simplified_newton", false}, {"maximal_number_of_newton_iterations", 50}, {"tolerance", d.degenerate > -50 ? 1e-10 : 1e-13}, {"retries", 0},
                        {"start_time", states.front()}, {"end_time", states.back()}, {"desired_delta_t", 1}};
    return Model::Timeevolver::make_pointer_instance(s);
  }
  std::unique_ptr<Optimization::ImplicitOptimizer> make(bool = false) const {
    return std::make_unique<Optimization::ImplicitOptimizer>(
        std::make_unique<Mock_OptimizableObject>(d), std::make_unique<Optimization::ControlStateCache>(evolver()), vec(states), vec(controls), vec(constraints), initial_state,
        series(controls, d.m, initial_controls), series(controls, d.m, lower), series(controls, d.m, upper), series(constraints, d.k, constraint_lower),
        series(constraints, d.k, constraint_upper));
  }
  std::string describe() const {
    auto list = [](std::vector<double> const &v) {
      std::string s = "{";
      for (auto x : v) s += mc::num(x) + " ";
      return s + "}";
    };
    return std::to_string(d.n) + " states at " + list(states) + ", " + std::to_string(d.m) + " controls at " + list(controls) + ", " + std::to_string(d.k) + " constraints at " + list(constraints) + (d.hollow ? " (hollow)" : "");
  }
  // ---------------------------------------------------------------- the reference
  V control_at(V const &u, double t) const {
    auto seg = [&](std::size_t i) -> V { return u.segment(static_cast<Eigen::Index>(i) * d.m, d.m); };
    if (t >= controls.back()) return seg(controls.size() - 1);
    for (std::size_t i = 0; i + 1 < controls.size(); ++i)
      if (t <= controls[i + 1]) {
        double w = (t - controls[i]) / (controls[i + 1] - controls[i]);
        return (1 - w) * seg(i) + w * seg(i + 1);
      }
    return seg(0);
  }
  std::vector<V> trajectory(V const &u) const {
    std::vector<V> x = {initial_state};
    for (std::size_t i = 1; i < states.size(); ++i) {
      V y = x.back(), c = control_at(u, states[i]);
      for (int it = 0; it < 60; ++it) {
        V step = d.Enew(states[i - 1], states[i], x.back(), y, c).partialPivLu().solve(d.E(states[i - 1], states[i], x.back(), y, c));
        y -= step;
        if (step.norm() < 1e-16) break;
      }
      x.push_back(y);
    }
    return x;
  }
  double weight(std::size_t i) const {
    double w = 0;
    if (i > 0) w += 0.5 * (states[i] - states[i - 1]);
    if (i + 1 < states.size()) w += 0.5 * (states[i + 1] - states[i]);
    return w;
  }
  double cost(V const &u) const {
    auto x = trajectory(u);
    double s = 0;
    for (std::size_t i = 1; i < states.size(); ++i) s += weight(i) * d.cost(states[i], x[i], control_at(u, states[i]));
    return s;
  }
  double penalty(V const &u) const {
    auto x = trajectory(u);
    double s = 0;
    for (std::size_t i = 1; i < states.size(); ++i) s += weight(i) * d.penalty(states[i], x[i], control_at(u, states[i]));
    return s;
  }
  double objective(V const &u) const { return cost(u) + penalty(u); }
  V constraint(V const &u) const {
    auto x = trajectory(u);
    V g(static_cast<Eigen::Index>(constraints.size()) * d.k);
    for (std::size_t i = 0, c = 0; i < states.size() && c < constraints.size(); ++i)
      if (states[i] == constraints[c]) g.segment(static_cast<Eigen::Index>(c++) * d.k, d.k) = d.constraint(states[i], x[i], control_at(u, states[i]));
    return g;
  }
  template <typename F> M difference(F &&f, V const &u) const {
    double h = 2e-3;
    M r;
    for (Eigen::Index j = 0; j < u.size(); ++j) {
      auto at = [&](double s) {
        V w = u;
        w[j] += s * h;
        return f(w);
      };
      V col = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h);
      if (j == 0) r.resize(col.size(), u.size());
      r.col(j) = col;
    }
    return r;
  }
  V gradient(V const &u) const {
    return difference([&](V const &w) { return V::Constant(1, objective(w)); }, u).row(0).transpose();
  }
  M jacobian(V const &u) const {
    return difference([&](V const &w) { return constraint(w); }, u);
  }
};
} // namespace opt
