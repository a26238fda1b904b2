// Descriptions of small networks, their json input in any order, the real problem built from
// it, and an independent reference for the equations of every component.
#pragma once
#include "Full_factory.hpp"
#include "InterpolatingVector.hpp"
#include "Matrixhandler.hpp"
#include "Net.hpp"
#include "Netfactory.hpp"
#include "Networkproblem.hpp"
#include "Timeevolver.hpp"
#include "mc.hpp"

namespace net {
using json = nlohmann::json;
using Series = std::vector<std::pair<double, std::vector<double>>>; // (time or x, values)

struct Component {
  std::string id, type;
  json extra = json::object();
  Series boundary; // nodes
  Series initial;
  Series control;
  std::string from, to; // edges
};

struct Spec {
  std::vector<Component> nodes, edges;

  Component const &node(std::string const &id) const {
    for (auto const &n : nodes)
      if (n.id == id) return n;
    throw std::logic_error("no node " + id);
  }
  Component &node(std::string const &id) { return const_cast<Component &>(static_cast<Spec const *>(this)->node(id)); }
  std::string describe() const {
    std::string s;
    for (auto const &n : nodes) s += n.type + " " + n.id + "; ";
    for (auto const &e : edges) s += e.type + " " + e.id + " " + e.from + "->" + e.to + "; ";
    return s;
  }
};

inline json series(std::string const &id, Series const &s, char const *key) {
  json j;
  j["id"] = id;
  j["data"] = json::array();
  for (auto const &[t, v] : s) j["data"].push_back({{key, t}, {"values", v}});
  return j;
}

struct Input {
  json topology = {{"nodes", json::object()}, {"connections", json::object()}};
  json boundary = topology, initial = topology, control = topology;
};

inline Input input(Spec const &s) {
  Input in;
  auto put = [&](char const *cls, Component const &c) {
    json t = c.extra;
    t["id"] = c.id;
    if (!c.from.empty()) {
      t["from"] = c.from;
      t["to"] = c.to;
    }
    in.topology[cls][c.type].push_back(t);
    if (!c.boundary.empty()) in.boundary[cls][c.type].push_back(series(c.id, c.boundary, "time"));
    if (!c.initial.empty()) in.initial[cls][c.type].push_back(series(c.id, c.initial, "x"));
    if (!c.control.empty()) in.control[cls][c.type].push_back(series(c.id, c.control, "time"));
  };
  for (auto const &n : s.nodes) put("nodes", n);
  for (auto const &e : s.edges) put("connections", e);
  return in;
}

/// The real problem. The factories for empty defaults are shared, as building them is expensive.
inline std::unique_ptr<Model::Networkproblem> raw_problem(Input const &in, json const &defaults = json::object()) {
  json p;
  p["topology_json"] = in.topology;
  p["boundary_json"] = in.boundary;
  if (defaults.empty()) {
    static Model::Componentfactory::Full_factory factory(json::object());
    return std::make_unique<Model::Networkproblem>(Model::build_net(p, factory));
  }
  Model::Componentfactory::Full_factory factory(defaults);
  return std::make_unique<Model::Networkproblem>(Model::build_net(p, factory));
}
inline std::unique_ptr<Model::Networkproblem> problem(Input const &in, json const &defaults = json::object()) {
  auto p = raw_problem(in, defaults);
  p->init();
  return p;
}

// ---------------------------------------------------------------- building blocks
inline Component gasnode(std::string const &id, std::string const &type, Series const &boundary = {}) {
  Component c;
  c.id = id;
  c.type = type;
  c.boundary = boundary;
  return c;
}
inline json measure(double v, char const *unit) { return {{"value", v}, {"unit", unit}}; }

struct Pipedata {
  double length_km = 10, diameter_mm = 600, roughness_m = 1e-5, delta_x = 10000;
};
inline Component edge(std::string const &id, std::string const &type, std::string const &from, std::string const &to) {
  Component c;
  c.id = id;
  c.type = type;
  c.from = from;
  c.to = to;
  return c;
}
inline Component pipe(std::string const &id, std::string const &from, std::string const &to, Pipedata d, double p0, double p1, double q) {
  auto c = edge(id, "Pipe", from, to);
  c.extra = {{"length", measure(d.length_km, "km")}, {"diameter", measure(d.diameter_mm, "mm")},
             {"roughness", measure(d.roughness_m, "m")}, {"desired_delta_x", d.delta_x},
             {"balancelaw", "Isothermaleulerequation"}, {"scheme", "Implicitboxscheme"}};
  c.initial = {{0, {p0, q}}, {d.length_km * 1000, {p1, q}}};
  return c;
}
inline Component shortedge(std::string const &id, std::string const &type, std::string const &from, std::string const &to, double p0,
                           double p1, double q, Series const &control = {}) {
  auto c = edge(id, type, from, to);
  c.initial = {{0, {p0, q}}, {1, {p1, q}}};
  c.control = control;
  return c;
}
inline Component powernode(std::string const &id, std::string const &type, double G, double B, Series const &boundary, double V = 1,
                           double phi = 0) {
  Component c;
  c.id = id;
  c.type = type;
  c.extra = {{"G", G}, {"B", B}};
  c.boundary = boundary;
  c.initial = {{0, {V, phi}}};
  return c;
}
inline Component line(std::string const &id, std::string const &from, std::string const &to, double G, double B) {
  auto c = edge(id, "Transmissionline", from, to);
  c.extra = {{"G", G}, {"B", B}};
  return c;
}
inline Component gaspower(std::string const &id, std::string const &from, std::string const &to, double g2p, double p2g, double p, double q) {
  auto c = edge(id, "Gaspowerconnection", from, to);
  c.extra = {{"gas2power_q_coeff", g2p}, {"power2gas_q_coeff", p2g}};
  c.initial = {{0, {p, q}}};
  return c;
}

// ---------------------------------------------------------------- reference physics
/// straight-line value at t; the points are few
inline std::vector<double> at(Series const &s, double t) {
  if (s.size() == 1 || t <= s.front().first) return s.front().second;
  for (std::size_t i = 1; i < s.size(); ++i)
    if (t <= s[i].first) {
      double w = (t - s[i - 1].first) / (s[i].first - s[i - 1].first);
      auto v = s[i].second;
      for (std::size_t k = 0; k < v.size(); ++k) v[k] = (1 - w) * s[i - 1].second[k] + w * v[k];
      return v;
    }
  return s.back().second;
}

struct Gaslaw {
  static constexpr double bar = 1e5, rho0 = 0.785, eta = 1e-5, T = 283.15, Tc = 192.033, pc = 46.4512e5, pi = 3.14159265358979323846;
  static double c2() { return 1.01325e5 * T / (1.005 * 273.15 * rho0); }
  static double alpha() { return 0.257 / pc - 0.533 * Tc / (pc * T); }
  static double pressure(double rho) { return c2() * rho / (1 - alpha() * c2() * rho); }
  static double density(double p) { return p / (c2() * (1 + alpha() * p)); }
  double D, k;
  double area() const { return pi * D * D / 4; }
  double re(double q) const { return D / (area() * eta) * rho0 * std::abs(q); }
  double swamee(double Re) const {
    double l = std::log10(k / (3.7 * D) + 5.74 / std::pow(Re, 0.9));
    return 0.25 / (l * l);
  }
  double dswamee(double Re) const {
    double a = k / (3.7 * D) + 5.74 / std::pow(Re, 0.9);
    double l = std::log(a) / std::log(10.0);
    double dl = 1 / (a * std::log(10.0)) * 5.74 * -0.9 * std::pow(Re, -1.9);
    return -0.5 / (l * l * l) * dl;
  }
  /// cubic that continues 64/Re at 2000 and Swamee-Jain at 4000 with its slope
  double lambda(double Re) const {
    if (Re <= 2000) return 64 / Re;
    if (Re >= 4000) return swamee(Re);
    double h = 2000, t = (Re - 2000) / h;
    double f0 = 64 / 2000., f1 = swamee(4000), m0 = -64 / (2000. * 2000.), m1 = dswamee(4000);
    return (2 * t * t * t - 3 * t * t + 1) * f0 + (t * t * t - 2 * t * t + t) * h * m0 + (-2 * t * t * t + 3 * t * t) * f1 +
           (t * t * t - t * t) * h * m1;
  }
  double friction(double rho, double q) const {
    if (q == 0) return 0;
    return -rho0 / (2 * area() * D) * lambda(re(q)) * std::abs(q) * q / rho;
  }
};
} // namespace net
