// Independent check of a whole simulation result (the json a user gets) against the physics.
#pragma once
#include "net.hpp"

namespace net {

struct End {
  double p, q;
};

struct Results {
  mc::Explorer &ex;
  Spec const &s;
  json const &out;
  std::vector<double> times;
  double tol = 2e-6;
  std::string what;
  std::map<std::string, std::vector<double>> const *constraints = nullptr;

  json const &entry(char const *cls, Component const &c) {
    json const *found = nullptr;
    ex.expect((out.contains(cls) && out[cls].contains(c.type)), "result-missing", what + ": no results for " + c.type + " " + c.id);
    for (auto const &e : out[cls][c.type])
      if (e.value("id", "") == c.id) {
        ex.expect(!found, "result-duplicate", what + ": " + c.id + " has two results");
        found = &e;
      }
    ex.expect(found != nullptr, "result-missing", what + ": no results for " + c.type + " " + c.id);
    auto const &d = (*found)["data"];
    ex.expect(d.size() == times.size(), "result-times", what + ": " + c.id + " has " + std::to_string(d.size()) + " result times instead of " + std::to_string(times.size()));
    for (std::size_t i = 0; i < times.size(); ++i)
      ex.expect(mc::close(d[i]["time"].get<double>(), times[i], 1e-12, 1e-9), "result-times", what + ": " + c.id + " result " + std::to_string(i) + " is at time " + d[i]["time"].dump());
    return d;
  }
  bool near(double a, double b, double scale = 0) { return std::isfinite(a) && std::isfinite(b) && std::abs(a - b) <= tol * (1 + std::max({std::abs(a), std::abs(b), scale})); }

  void gas() {
    std::map<std::string, json const *> data;
    for (auto const &e : s.edges)
      if (e.type != "Transmissionline") data[e.id] = &entry("connections", e);
    for (std::size_t k = 1; k < times.size(); ++k) {
      double t = times[k];
      auto when = what + " at time " + mc::num(t) + ": ";
      std::map<std::string, std::pair<End, End>> ends;
      for (auto const &e : s.edges) {
        if (e.type == "Transmissionline") continue;
        auto const &d = (*data[e.id])[k];
        auto const &p = d["pressure"], &q = d["flow"];
        std::size_t n = p.size();
        ex.expect((n >= 1 && q.size() == n), "result-shape", when + e.id + " has " + std::to_string(n) + " pressures and " + std::to_string(q.size()) + " flows");
        auto P = [&](std::size_t i) { return p[i]["value"].get<double>(); };
        auto Q = [&](std::size_t i) { return q[i]["value"].get<double>(); };
        ends[e.id] = {{P(0), Q(0)}, {P(n - 1), Q(n - 1)}};
        if (e.type == "Gaspowerconnection") {
          ex.expect(n == 1, "result-shape", when + e.id + " has " + std::to_string(n) + " points");
          continue;
        }
        if (e.type == "Pipe") {
          pipe_check(e, k, (*data[e.id])[k - 1], d, when);
          continue;
        }
        ex.expect(n == 2, "result-shape", when + e.id + " has " + std::to_string(n) + " points");
        double u = e.control.empty() ? 0 : at(e.control, t)[0];
        double jump = e.type == "Compressorstation" ? u : e.type == "Controlvalve" ? -u : 0;
        ex.expect(near(P(1), P(0) + jump), "short-pressure", when + e.type + " " + e.id + " goes from " + mc::num(P(0)) + " to " + mc::num(P(1)) + " bar with control " + mc::num(u));
        ex.expect(near(Q(1), Q(0)), "short-flow", when + e.type + " " + e.id + " takes in " + mc::num(Q(0)) + " and gives out " + mc::num(Q(1)));
      }
      for (auto const &n : s.nodes) {
        if (n.extra.contains("G")) continue;
        double balance = 0, p = std::nan(""), scale = 0;
        int attached = 0;
        for (auto const &e : s.edges) {
          if (e.type == "Transmissionline") continue;
          if (e.from != n.id && e.to != n.id) continue;
          End x = e.from == n.id ? ends[e.id].first : ends[e.id].second;
          balance += e.from == n.id ? -x.q : x.q;
          scale = std::max(scale, std::abs(x.q));
          if (attached++) ex.expect(near(x.p, p), "node-pressure", when + "edges at " + n.type + " " + n.id + " have pressures " + mc::num(p) + " and " + mc::num(x.p));
          p = x.p;
        }
        if (!attached) continue;
        if (n.type == "ConstraintSink" && constraints) {
          auto c = constraints->find(n.id);
          ex.expect(c != constraints->end(), "constraint-value", when + n.id + " has no constraint");
          ex.expect(near(c->second.at(k), p), "constraint-value", when + "the constraint of " + n.id + " is " + mc::num(c->second.at(k)) + " but its pressure is " + mc::num(p) + " bar");
        }
        if (n.type == "Pressureboundarynode") {
          double want = at(n.boundary, t)[0];
          ex.expect(near(p, want), "prescribed-pressure", when + n.id + " has pressure " + mc::num(p) + " instead of the prescribed " + mc::num(want));
        } else {
          // flow into the node minus flow out of the network at the node is zero
          double v = n.boundary.empty() ? 0 : at(n.boundary, t)[0];
          double outflow = n.type == "Source" ? -v : v;
          if (n.type == "Innode") outflow = 0;
          ex.expect(near(balance, outflow, scale), "flow-balance", when + n.type + " " + n.id + " receives " + mc::num(balance) + " while " + mc::num(outflow) + " is taken out");
        }
      }
      for (auto const &e : s.edges)
        if (e.type == "Gaspowerconnection") {
          double q = ends[e.id].first.q, a = e.extra["gas2power_q_coeff"], b = e.extra["power2gas_q_coeff"];
          double kappa = 60, r = q / kappa;
          double want = q > kappa ? a * q : q < -kappa ? b * q : q * (0.5 * (a + b) - 0.75 * (b - a) * r + 0.25 * (b - a) * r * r * r);
          double P = power(s.node(e.to), k).first;
          ex.expect(near(P, want), "gas-power", when + e.id + " with flow " + mc::num(q) + " feeds power " + mc::num(P) + " instead of " + mc::num(want));
        }
    }
  }

  void pipe_check(Component const &e, std::size_t k, json const &last, json const &now, std::string const &when) {
    auto len = e.extra["length"]["value"].get<double>() * 1000;
    double want_dx = e.extra["desired_delta_x"];
    std::size_t n = now["pressure"].size();
    auto segments = static_cast<std::size_t>(std::ceil(len / want_dx - 1e-9));
    ex.expect(n == segments + 1, "result-shape", when + "pipe " + e.id + " has " + std::to_string(n) + " points");
    ex.expect(last["pressure"].size() == n, "result-shape", when + "pipe " + e.id + " changes its number of points");
    double dx = len / static_cast<double>(segments), dt = times[k] - times[k - 1];
    Gaslaw g{e.extra["diameter"]["value"].get<double>() / 1000, e.extra["roughness"]["value"].get<double>()};
    struct St {
      double rho, q;
    };
    auto st = [&](json const &d, std::size_t i) { return St{Gaslaw::density(d["pressure"][i]["value"].get<double>() * 1e5), d["flow"][i]["value"].get<double>()}; };
    double A = g.area();
    for (std::size_t i = 0; i < n; ++i) {
      for (char const *f : {"pressure", "flow"})
        ex.expect(mc::close(now[f][i]["x"].get<double>(), dx * static_cast<double>(i), 1e-9, 1e-9), "result-x", when + "point " + std::to_string(i) + " of pipe " + e.id + " is at " + now[f][i]["x"].dump());
      if (i + 1 == n) break;
      St ll = st(last, i), lr = st(last, i + 1), l = st(now, i), r = st(now, i + 1);
      double m1 = 0.5 * (l.rho + r.rho - ll.rho - lr.rho) * dx, m2 = dt * g.rho0 / A * (r.q - l.q);
      // a residual of the code (1e-9) times dx is what may be left
      double mtol = 1e-6 * dx + 1e-9 * dt * g.rho0 / A * (std::abs(l.q) + std::abs(r.q));
      ex.expect(std::abs(m1 + m2) <= mtol, "pipe-mass", when + "segment " + std::to_string(i) + " of pipe " + e.id + " stores " + mc::num(m1) + " but receives " + mc::num(-m2));
      auto flux = [&](St x) { return A / g.rho0 * Gaslaw::pressure(x.rho) + g.rho0 / A * x.q * x.q / x.rho; };
      double f = dt / dx * (flux(r) - flux(l)), fr = -0.5 * dt * (g.friction(l.rho, l.q) + g.friction(r.rho, r.q));
      double in = 0.5 * (l.q + r.q - ll.q - lr.q);
      double scale = std::abs(in) + std::abs(f) + std::abs(fr) + dt / dx * flux(l) * 1e-8;
      ex.expect(std::abs(in + f + fr) <= 1e-6 + 1e-6 * scale, "pipe-momentum", when + "segment " + std::to_string(i) + " of pipe " + e.id + ": inertia " + mc::num(in) + " + pressure gradient " + mc::num(f) + " + friction " + mc::num(fr) + " is not zero");
    }
  }

  std::map<std::string, json const *> nodedata;
  json const &nd(Component const &n) {
    auto &p = nodedata[n.id];
    if (!p) p = &entry("nodes", n);
    return *p;
  }
  std::pair<double, double> power(Component const &n, std::size_t k) {
    auto V = [&](Component const &c) { return nd(c)[k]["V"].get<double>(); };
    auto phi = [&](Component const &c) { return nd(c)[k]["phi"].get<double>(); };
    double vi = V(n), P = n.extra["G"].get<double>() * vi * vi, Q = -n.extra["B"].get<double>() * vi * vi;
    for (auto const &e : s.edges) {
      if (e.type != "Transmissionline" || (e.from != n.id && e.to != n.id)) continue;
      auto const &o = s.node(e.from == n.id ? e.to : e.from);
      double G = e.extra["G"], B = e.extra["B"], d = phi(n) - phi(o), vk = V(o);
      P += vi * vk * (G * std::cos(d) + B * std::sin(d));
      Q += vi * vk * (G * std::sin(d) - B * std::cos(d));
    }
    return {P, Q};
  }
  void electric() {
    for (auto const &n : s.nodes) {
      if (!n.extra.contains("G")) continue;
      auto const &d = nd(n);
      for (std::size_t k = 1; k < times.size(); ++k) {
        auto when = what + " at time " + mc::num(times[k]) + ": " + n.type + " " + n.id + " ";
        auto [P, Q] = power(n, k);
        double V = d[k]["V"], phi = d[k]["phi"];
        auto b = at(n.boundary, times[k]);
        if (n.type == "Vphinode" || n.type == "ExternalPowerplant") {
          ex.expect(near(V, b[0]) && near(phi, b[1]), "prescribed-voltage", when + "has V " + mc::num(V) + " phi " + mc::num(phi) + " instead of " + mc::vec(b));
        } else if (n.type == "PVnode") {
          ex.expect(near(P, b[0]) && near(V, b[1]), "prescribed-pv", when + "has P " + mc::num(P) + " V " + mc::num(V) + " instead of " + mc::vec(b));
        } else if (n.type == "PQnode") {
          ex.expect(near(P, b[0]) && near(Q, b[1]), "prescribed-pq", when + "has P " + mc::num(P) + " Q " + mc::num(Q) + " instead of " + mc::vec(b));
        }
        double rp = d[k]["P"], rq = d[k]["Q"];
        ex.expect(near(rp, P) && near(rq, Q), "reported-power", when + "reports P " + mc::num(rp) + " Q " + mc::num(rq) + " where voltages and angles give " + mc::num(P) + ", " + mc::num(Q));
        if (n.type == "StochasticPQnode")
          ex.expect(near(d[k]["P_deviation"].get<double>(), P - b[0]) && near(d[k]["Q_deviation"].get<double>(), Q - b[1]), "reported-power", when + "reports wrong deviations");
      }
    }
  }
};

struct Simulation {
  bool ok = false;
  std::string error;
  json out;
  std::vector<double> times;
  Eigen::VectorXd last;
  std::map<std::string, std::vector<double>> constraints; // constraint values over time by the component they belong to
};
/// Simulates with the real code exactly as the command line program does.
inline Simulation simulate(Input const &in, double dt, int steps, bool simplified, int retries = 0, double start = 0, double tolerance = 1e-9) {
  Simulation r;
  for (int i = 0; i <= steps; ++i) r.times.push_back(start + dt * i);
  try {
    auto p = problem(in);
    json settings = {{"use_simplified_newton", simplified}, {"maximal_number_of_newton_iterations", 100}, {"tolerance", tolerance}, {"retries", retries},
                     {"start_time", start}, {"end_time", r.times.back()}, {"desired_delta_t", dt}};
    auto ev = Model::Timeevolver::make_instance(settings);
    Eigen::VectorXd init(p->get_number_of_states());
    p->set_initial_values(init, in.initial);
    Aux::InterpolatingVector states(Aux::make_from_start_delta_end(start, dt, r.times.back()), p->get_number_of_states());
    Aux::InterpolatingVector controls;
    if (p->get_number_of_controls_per_timepoint() > 0) {
      controls = Aux::InterpolatingVector(Aux::make_from_start_delta_end(start, dt, r.times.back()), p->get_number_of_controls_per_timepoint());
      p->set_initial_controls(controls, in.control);
    }
    ev.simulate(init, controls, *p, states);
    for (Eigen::Index i = 0; i < states.size(); ++i) p->json_save(states.interpolation_point_at_index(i), states.vector_at_index(i));
    auto nc = p->get_number_of_constraints_per_timepoint();
    if (nc > 0) {
      // which component an index belongs to is learned from bounds that carry a mark per component
      Aux::InterpolatingVector marks(Aux::make_from_start_delta_end(start, dt, r.times.back()), nc);
      std::vector<std::string> ids;
      json bounds;
      for (auto &[type, list] : in.topology["nodes"].items())
        if (type == "ConstraintSink")
          for (auto &c : list) {
            bounds["nodes"][type].push_back(series(c["id"], {{start, {1.0 + static_cast<double>(ids.size())}}, {r.times.back(), {1.0 + static_cast<double>(ids.size())}}}, "time"));
            ids.push_back(c["id"]);
          }
      p->set_constraint_lower_bounds(marks, bounds);
      for (Eigen::Index i = 0; i < states.size(); ++i) {
        Eigen::VectorXd c = Eigen::VectorXd::Constant(nc, std::nan("")), u = controls.size() ? Eigen::VectorXd(controls(r.times[static_cast<std::size_t>(i)])) : Eigen::VectorXd();
        p->evaluate_constraint(c, r.times[static_cast<std::size_t>(i)], states.vector_at_index(i), u);
        for (Eigen::Index k = 0; k < nc; ++k) r.constraints[ids.at(static_cast<std::size_t>(marks.vector_at_index(0)[k] - 0.5))].push_back(c[k]);
      }
    }
    r.last = states.vector_at_index(states.size() - 1);
    p->add_results_to_json(r.out);
    r.ok = true;
  } catch (std::exception const &e) {
    r.error = e.what();
  }
  return r;
}
} // namespace net
