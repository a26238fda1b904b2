// C04: every component owns its own part of the state, control and constraint vectors, every
// equation is set exactly once by evaluation, and what the input files say about a component
// reaches that component.
#include "Edge.hpp"
#include "Constraintcomponent.hpp"
#include "Node.hpp"
#include "Optimization_helpers.hpp"
#include "netgen.hpp"
using namespace net;
using V = Eigen::VectorXd;

static mc::Explorer *EX;
static std::string WHAT;
static std::string describe_tiles(std::vector<std::pair<Eigen::Index, Eigen::Index>> const &t) {
  std::string s;
  for (auto [a, b] : t) s += "[" + std::to_string(a) + "," + std::to_string(b) + ") ";
  return s;
}
static void tiling(char const *name, std::vector<std::pair<Eigen::Index, Eigen::Index>> t, Eigen::Index from, Eigen::Index count) {
  std::sort(t.begin(), t.end());
  Eigen::Index next = from;
  for (auto [a, b] : t) {
    EX->expect((a == next && b >= a), "layout", WHAT + ": " + name + " ranges " + describe_tiles(t) + "do not tile the vector from " + std::to_string(from));
    next = b;
  }
  EX->expect(next == from + count, "layout", WHAT + ": " + name + " ranges " + describe_tiles(t) + "do not cover " + std::to_string(count) + " entries");
}

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  EX = &ex;
  auto run = [&](Spec s) {
    // distinct initial values and controls for every component
    int number = 0;
    for (auto &e : s.edges) {
      ++number;
      for (auto &[x, v] : e.initial) {
        v[0] = 50 + number + (x > 0 ? 0.25 : 0);
        v[1] = 3 * number + (x > 0 ? 0.5 : 0);
      }
      if (!e.control.empty()) e.control = {{0, {0.1 * number}}, {1000, {0.2 * number}}, {3000, {0.7 * number}}};
    }
    for (auto &n : s.nodes)
      for (auto &[x, v] : n.initial) {
        ++number;
        v[0] = 1 + 0.01 * number;
        v[1] = 0.02 * number;
      }
    // lengths at, shortly behind and between multiples of the desired step
    double const length = ex.choose(2) ? 20.0007 : 0;
    for (auto &e : s.edges)
      if (e.type == "Pipe" && length > 0) {
        e.extra["length"] = measure(length, "km");
        e.initial.back().first = length * 1000;
      }
    auto in = input(s);
    int order = length > 0 ? 0 : ex.choose(3);
    WHAT = s.describe() + "order " + std::to_string(order);
    ex.note(WHAT);
    ex.state(WHAT);
    ex.nontrivial();
    auto reorder = [&](json &j, int k) {
      for (auto &[cls, types] : j.items())
        for (auto &[type, list] : types.items()) {
          if (k == 1) std::reverse(list.begin(), list.end());
          if (k == 2) std::rotate(list.begin(), list.begin() + 1, list.end());
        }
    };
    if (order) {
      reorder(in.topology, order);
      reorder(in.initial, 3 - order);
      reorder(in.control, order);
    }
    // entries of components that do not exist are not used
    in.initial["nodes"]["PQnode"].push_back(series("stranger", {{0, {77, 77}}}, "x"));
    in.control["connections"]["Compressorstation"].push_back(series("stranger", {{0, {77}}, {1, {77}}}, "time"));

    auto p = problem(in);
    std::vector<std::pair<Eigen::Index, Eigen::Index>> st, ct, kt;
    auto collect = [&](auto *c) {
      if (auto x = dynamic_cast<Model::Statecomponent const *>(c)) {
        st.push_back({x->get_state_startindex(), x->get_state_afterindex()});
        ex.expect(x->get_number_of_states() == st.back().second - st.back().first, "layout", WHAT + ": a component's number of states is not its range");
      }
      if (auto x = dynamic_cast<Model::Controlcomponent const *>(c)) ct.push_back({x->get_control_startindex(), x->get_control_afterindex()});
      if (auto x = dynamic_cast<Model::Constraintcomponent const *>(c)) kt.push_back({x->get_constraint_startindex(), x->get_constraint_afterindex()});
    };
    for (auto *n : p->get_network().get_nodes()) collect(n);
    for (auto *e : p->get_network().get_edges()) collect(e);
    auto n = p->get_number_of_states(), m = p->get_number_of_controls_per_timepoint(), k = p->get_number_of_constraints_per_timepoint();
    tiling("state", st, 0, n);
    tiling("control", ct, 0, m);
    tiling("constraint", kt, 0, k);
    Eigen::Index controls_wanted = 0, constraints_wanted = 0, states_wanted = 0;
    for (auto const &e : s.edges) {
      controls_wanted += !e.control.empty();
      if (e.type == "Pipe") states_wanted += 2 * (1 + static_cast<Eigen::Index>(std::ceil(e.extra["length"]["value"].get<double>() * 1000 / e.extra["desired_delta_x"].get<double>() - 1e-9)));
      else if (e.type == "Gaspowerconnection") states_wanted += 2;
      else if (e.type != "Transmissionline") states_wanted += 4;
    }
    for (auto const &c : s.nodes) {
      constraints_wanted += c.type == "ConstraintSink";
      if (c.extra.contains("G")) states_wanted += 2;
    }
    ex.expect((n == states_wanted && m == controls_wanted && k == constraints_wanted), "layout", WHAT + ": " + std::to_string(n) + " states, " + std::to_string(m) + " controls, " + std::to_string(k) + " constraints");

    // initial values reach their component: seen in the results of the initial state
    V x0 = V::Constant(n, std::nan(""));
    p->set_initial_values(x0, in.initial);
    ex.expect(x0.allFinite(), "initial", WHAT + ": initial values leave entries unset: " + mc::vec(x0));
    {
      auto p2 = problem(in);
      p2->json_save(0, x0);
      json out;
      p2->add_results_to_json(out);
      auto find = [&](char const *cls, Component const &c) -> json const & {
        for (auto const &e : out[cls][c.type])
          if (e["id"] == c.id) return e["data"][0];
        ex.fail("initial", WHAT + ": no output for " + c.id);
      };
      for (auto const &e : s.edges) {
        if (e.type == "Transmissionline") continue;
        auto const &d = find("connections", e);
        for (std::size_t i = 0; i < d["pressure"].size(); ++i) {
          double x = d["pressure"][i]["x"];
          auto want = at(e.initial, x);
          ex.expect((mc::close(d["pressure"][i]["value"], want[0], 1e-9) && mc::close(d["flow"][i]["value"], want[1], 1e-9)), "initial",
                    WHAT + ": " + e.id + " at x=" + mc::num(x) + " starts with " + d["pressure"][i]["value"].dump() + ", " + d["flow"][i]["value"].dump() + " instead of " + mc::vec(want));
        }
      }
      for (auto const &c : s.nodes)
        if (c.extra.contains("G")) {
          auto const &d = find("nodes", c);
          auto want = c.initial[0].second;
          ex.expect((mc::close(d["V"], want[0], 1e-12) && mc::close(d["phi"], want[1], 1e-12)), "initial", WHAT + ": " + c.id + " starts with " + d.dump() + " instead of " + mc::vec(want));
        }
    }
    // leaving out any one component is an error
    for (auto const &c : s.edges) {
      if (c.initial.empty()) continue;
      auto less = in.initial;
      auto &list = less["connections"][c.type];
      for (std::size_t i = 0; i < list.size(); ++i)
        if (list[i]["id"] == c.id) {
          list.erase(i);
          break;
        }
      V y(n);
      ex.expect(mc::throws([&] { p->set_initial_values(y, less); }), "missing-initial", WHAT + ": no initial values for " + c.id + " were accepted");
    }
    // controls and bounds reach their component
    std::vector<double> const times = {0, 400, 1000, 2000, 3000};
    V tv = Eigen::Map<V const>(times.data(), 5);
    V u(m), u_late(m);
    if (m) {
      for (int which = 0; which < 3; ++which) {
        Aux::InterpolatingVector c(tv, m);
        for (Eigen::Index i = 0; i < 5; ++i) c.mut_timestep(i).setConstant(std::nan(""));
        if (which == 0) p->set_initial_controls(c, in.control);
        if (which == 1) p->set_lower_bounds(c, in.control);
        if (which == 2) p->set_upper_bounds(c, in.control);
        json saved;
        p->save_controls_to_json(c, saved);
        for (auto const &e : s.edges) {
          if (e.control.empty()) continue;
          json const *found = nullptr;
          for (auto const &j : saved["connections"][e.type])
            if (j["id"] == e.id) {
              ex.expect(!found, "controls", WHAT + ": " + e.id + " is saved twice");
              found = &j;
            }
          ex.expect((found && (*found)["data"].size() == 5), "controls", WHAT + ": controls of " + e.id + " are not saved: " + saved.dump());
          for (std::size_t i = 0; i < 5; ++i) {
            auto const &d = (*found)["data"][i];
            ex.expect((d["time"].get<double>() == times[i] && d["values"].size() == 1 && !d["values"][0].is_null() && mc::close(d["values"][0], at(e.control, times[i])[0], 1e-12)),
                      "controls", WHAT + ": control of " + e.id + " at " + mc::num(times[i]) + " became " + d.dump() + " instead of " + mc::num(at(e.control, times[i])[0]));
          }
        }
        u = c(0.0);
        u_late = c(3000.0);
      }
    }
    // bounds of the constraints reach their component, at every time
    if (k) {
      std::vector<std::pair<Eigen::Index, Component const *>> owners; // in the order of the vector
      json lower, upper;
      auto bounds = [&](int number, bool up) -> Series { return {{0, {up ? 70. + number : 40. - number}}, {700, {up ? 75. + number : 30. + number}}, {3000, {up ? 90. : 20. - number}}}; };
      int number = 0;
      for (auto const &c : s.nodes)
        if (c.type == "ConstraintSink") {
          ++number;
          for (auto [j, up] : {std::pair{&lower, false}, {&upper, true}}) (*j)["nodes"]["ConstraintSink"].push_back(series(c.id, bounds(number, up), "time"));
          auto *node = p->get_network().get_node_by_id(c.id);
          owners.push_back({dynamic_cast<Model::Constraintcomponent const *>(node)->get_constraint_startindex(), &c});
        }
      for (auto *j : {&lower, &upper}) {
        if (order) reorder(*j, order);
        (*j)["nodes"]["ConstraintSink"].push_back(series("stranger", {{0, {77}}, {3000, {78}}}, "time"));
      }
      Aux::InterpolatingVector cl(tv, m), cu(tv, m), gl(tv, k), gu(tv, k);
      for (auto *v : {&cl, &cu, &gl, &gu})
        for (Eigen::Index i = 0; i < 5; ++i) v->mut_timestep(i).setConstant(std::nan(""));
      Optimization::initialize_bounds(*p, cl, in.control, cu, in.control, gl, lower, gu, upper);
      number = 0;
      for (auto [index, c] : owners) {
        ++number;
        for (Eigen::Index i = 0; i < 5; ++i)
          for (bool up : {false, true}) {
            double got = (up ? gu : gl).vector_at_index(i)[index], want = at(bounds(number, up), tv[i])[0];
            ex.expect(mc::close(got, want, 1e-12), "constraint-bounds", WHAT + ": " + (up ? "upper" : "lower") + " constraint bound of " + c->id + " at " + mc::num(tv[i]) + " became " + mc::num(got) + " instead of " + mc::num(want));
          }
      }
      if (m) {
        Aux::InterpolatingVector direct(tv, m);
        p->set_upper_bounds(direct, in.control);
        ex.expect((cl.get_allvalues() == direct.get_allvalues() && cu.get_allvalues() == direct.get_allvalues()), "controls", WHAT + ": bounds of the controls differ from the given ones");
      }
      for (bool up : {false, true}) {
        auto less = up ? upper : lower;
        auto &list = less["nodes"]["ConstraintSink"];
        for (std::size_t i = 0; i < list.size(); ++i)
          if (list[i]["id"] == owners[0].second->id) {
            list.erase(i);
            break;
          }
        Aux::InterpolatingVector g(tv, k);
        ex.expect(mc::throws([&] { up ? p->set_constraint_upper_bounds(g, less) : p->set_constraint_lower_bounds(g, less); }), "missing-initial", WHAT + ": no constraint bounds for " + owners[0].second->id + " were accepted");
      }
    }
    // every equation is set, once, by evaluation, whatever the vector held before
    auto F = [&](Model::Networkproblem &q, V const &last, V const &now, V const &c, double fill) {
      V r = V::Constant(last.size(), fill);
      q.evaluate(r, 100, 700, last, now, c);
      return r;
    };
    V x1 = x0.array() * 1.01 + 0.003;
    p->prepare_timestep(100, 700, x0, u);
    V r1 = F(*p, x0, x1, u, std::nan("")), r2 = F(*p, x0, x1, u, 1e9);
    ex.expect(r1.allFinite(), "unset-equation", WHAT + ": evaluation leaves equations unset: " + mc::vec(r1));
    ex.expect((r1 - r2).cwiseAbs().maxCoeff() == 0, "unset-equation", WHAT + ": evaluation depends on what the vector held before");
    bool stochastic = false;
    for (auto const &c : s.nodes) stochastic |= c.type == "StochasticPQnode";
    // every equation and every unknown takes part
    Eigen::SparseMatrix<double> J(n, n);
    Aux::Triplethandler<> h(J);
    p->d_evaluate_d_new_state(h, 100, 700, x0, x1, u);
    h.set_matrix();
    Eigen::MatrixXd D = J;
    for (Eigen::Index i = 0; i < n; ++i) {
      ex.expect(D.row(i).cwiseAbs().maxCoeff() > 0, "empty-equation", WHAT + ": equation " + std::to_string(i) + " does not depend on the state");
      bool connected = D.col(i).cwiseAbs().maxCoeff() > 0;
      ex.expect((connected || s.nodes.size() == 1), "free-unknown", WHAT + ": unknown " + std::to_string(i) + " appears in no equation");
    }
    // constraints
    if (k) {
      V c1 = V::Constant(k, std::nan("")), c2 = V::Constant(k, 1e9);
      p->evaluate_constraint(c1, 700, x1, u);
      p->evaluate_constraint(c2, 700, x1, u);
      ex.expect((c1.allFinite() && (c1 - c2).cwiseAbs().maxCoeff() == 0), "unset-constraint", WHAT + ": constraints are left unset");
    }
    // the same network placed behind others in larger vectors behaves the same
    if (!stochastic) {
      auto q = raw_problem(in);
      q->init(7, 2, 3);
      ex.expect((q->get_state_startindex() == 7 && q->get_state_afterindex() == 7 + n && q->get_number_of_states() == n), "offset", WHAT + ": wrong state range behind others");
      V X0 = V::Constant(n + 9, std::nan("")), X1 = X0, U = V::Constant(m + 5, std::nan(""));
      q->set_initial_values(X0, in.initial);
      ex.expect((X0.segment(7, n) - x0).cwiseAbs().maxCoeff() == 0, "offset", WHAT + ": initial values differ behind others");
      for (Eigen::Index i = 0; i < 7; ++i) ex.expect(std::isnan(X0[i]), "offset", WHAT + ": initial values are written to others' entries");
      ex.expect((std::isnan(X0[n + 7]) && std::isnan(X0[n + 8])), "offset", WHAT + ": initial values are written to others' entries");
      X1.segment(7, n) = x1;
      U.segment(2, m) = u;
      V R = V::Constant(n + 9, 5);
      q->evaluate(R, 100, 700, X0, X1, U);
      ex.expect((R.segment(7, n) - r1).cwiseAbs().maxCoeff() == 0, "offset", WHAT + ": equations differ behind others");
      ex.expect(((R.head(7).array() == 5).all() && (R.tail(2).array() == 5).all()), "offset", WHAT + ": others' equations are overwritten");
      Eigen::SparseMatrix<double> L(n + 9, n + 9);
      Aux::Triplethandler<> g(L);
      q->d_evaluate_d_new_state(g, 100, 700, X0, X1, U);
      g.set_matrix();
      Eigen::MatrixXd E = L;
      ex.expect((E.block(7, 7, n, n) - D).cwiseAbs().maxCoeff() == 0, "offset", WHAT + ": derivatives differ behind others");
      E.block(7, 7, n, n).setZero();
      ex.expect(E.cwiseAbs().maxCoeff() == 0, "offset", WHAT + ": derivatives of others' equations are written");
      if (k) {
        V K = V::Constant(k + 4, 5), c1(k);
        p->evaluate_constraint(c1, 700, x1, u);
        q->evaluate_constraint(K, 700, X1, U);
        ex.expect(((K.segment(3, k) - c1).cwiseAbs().maxCoeff() == 0 && (K.head(3).array() == 5).all() && K[k + 3] == 5), "offset", WHAT + ": constraints differ behind others");
      }
      if (m) ex.expect(q->evaluate_cost(700, X1, U) == p->evaluate_cost(700, x1, u), "offset", WHAT + ": cost differs behind others");
    }
  };
  ex.scenario("gas 2 nodes", [&] { run(gas_network(ex, 2, false)); });
  ex.scenario("gas 3 nodes", [&] { run(gas_network(ex, 3, true)); });
  ex.scenario("gas star", [&] { run(gas_star(ex)); });
  ex.scenario("power star", [&] { run(power_star(ex)); });
  ex.scenario("power", [&] { run(power_network(ex)); });
  ex.scenario("gas and power", [&] { run(coupled_network(ex)); });
  return ex.finish();
}
