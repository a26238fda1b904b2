// A Controlcomponent whose equations are supplied by the harness.
#pragma once
#include "Controlcomponent.hpp"
#include "Matrixhandler.hpp"
#include <functional>

struct ScriptedProblem : public Model::Controlcomponent {
  using V = Eigen::Ref<Eigen::VectorXd const>;
  std::function<Eigen::VectorXd(double, double, V const &, V const &, V const &)> f;
  std::function<Eigen::MatrixXd(double, double, V const &, V const &, V const &)> dnew, dlast, dcontrol;
  std::function<void(double, double, V const &, V const &)> prepare;

  void setup() override {}
  void evaluate(Eigen::Ref<Eigen::VectorXd> r, double lt, double nt, V const &ls, V const &ns, V const &c) const override {
    r = f(lt, nt, ls, ns, c);
  }
  static void put(Aux::Matrixhandler &h, Eigen::MatrixXd const &m) {
    for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j) h.add_to_coefficient(i, j, m(i, j));
  }
  void d_evaluate_d_new_state(Aux::Matrixhandler &h, double lt, double nt, V const &ls, V const &ns, V const &c) const override {
    put(h, dnew(lt, nt, ls, ns, c));
  }
  void d_evaluate_d_last_state(Aux::Matrixhandler &h, double lt, double nt, V const &ls, V const &ns, V const &c) const override {
    if (dlast) put(h, dlast(lt, nt, ls, ns, c));
  }
  void d_evaluate_d_control(Aux::Matrixhandler &h, double lt, double nt, V const &ls, V const &ns, V const &c) const override {
    if (dcontrol) put(h, dcontrol(lt, nt, ls, ns, c));
  }
  void prepare_timestep(double lt, double nt, V const &ls, V const &c) override {
    if (prepare) prepare(lt, nt, ls, c);
  }
  Eigen::Index set_control_indices(Eigen::Index n) override { return n; }
  void set_initial_controls(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, nlohmann::json &) const override {}
  std::string componentclass() const override { return "c"; }
  std::string componenttype() const override { return "t"; }
  std::string id() const override { return "i"; }
};
