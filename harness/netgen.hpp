// Bounded families of networks, enumerated by the explorer.
#pragma once
#include "results.hpp"

namespace net {

/// Cycles of edges other than pipes, and pressure nodes joined without a pipe, have no unique solution.
inline bool well_posed(Spec const &s) {
  std::map<std::string, std::string> up;
  std::function<std::string(std::string)> root = [&](std::string a) { return up.count(a) ? root(up[a]) : a; };
  std::string press = "#pressure";
  auto join = [&](std::string a, std::string b) {
    a = root(a), b = root(b);
    if (a == b) return false;
    up[a] = b;
    return true;
  };
  for (auto const &n : s.nodes)
    if (n.type == "Pressureboundarynode" && !join(n.id, press)) return false;
  for (auto const &e : s.edges)
    if (e.type != "Pipe" && e.type != "Gaspowerconnection" && e.type != "Transmissionline" && !join(e.from, e.to)) return false;
  return true;
}

/// 2 nodes: one or two parallel edges; 3 nodes: path or triangle. All edge types, orientations,
/// node types, positions of the pressure node, flow regimes.
inline Spec gas_network(mc::Explorer &ex, int n, bool solvable = true) {
  Spec s;
  std::vector<std::string> ids = n == 2 ? std::vector<std::string>{"nb", "na"} : std::vector<std::string>{"nb", "nc", "na"};
  std::vector<std::pair<int, int>> links;
  if (n == 2)
    links = ex.flag() ? std::vector<std::pair<int, int>>{{0, 1}, {0, 1}} : std::vector<std::pair<int, int>>{{0, 1}};
  else
    links = ex.flag() ? std::vector<std::pair<int, int>>{{0, 1}, {1, 2}, {2, 0}} : std::vector<std::pair<int, int>>{{0, 1}, {1, 2}};
  std::vector<std::string> types = {"Pipe", "Shortpipe", "Compressorstation", "Controlvalve"};
  std::vector<std::string> const eids = {"e2", "e1", "e3"};
  double const base = ex.of(ex.thorough() ? std::vector<double>{50, 0, 0.008, -20} : std::vector<double>{50, 0});
  double const p0 = 60;
  for (std::size_t i = 0; i < links.size(); ++i) {
    auto [a, b] = links[i];
    auto type = ex.of(types);
    // the closing edge of a triangle has a fixed direction in the quick tier
    if (!(links.size() == 3 && i == 2 && !ex.thorough()) && ex.flag()) std::swap(a, b);
    if (type == "Pipe") {
      Pipedata d;
      d.length_km = i == 1 ? 15.0007 : 8;
      s.edges.push_back(pipe(eids[i], ids[static_cast<std::size_t>(a)], ids[static_cast<std::size_t>(b)], d, p0, p0, base));
    } else {
      Series control;
      if (type != "Shortpipe") control = {{0, {0.03}}, {2700, {0.06}}, {4000, {0.01}}};
      s.edges.push_back(shortedge(eids[i], type, ids[static_cast<std::size_t>(a)], ids[static_cast<std::size_t>(b)], p0, p0, base, control));
    }
  }
  ex.split();
  int press = ex.choose(n);
  std::vector<std::string> kinds = {"Innode", "Source", "Sink"};
  if (ex.thorough() || n == 2) kinds.insert(kinds.end(), {"ConstraintSink", "Pressureboundarynode"});
  for (int i = 0; i < n; ++i) {
    auto kind = i == press ? std::string("Pressureboundarynode") : ex.of(kinds);
    Series b;
    if (kind == "Pressureboundarynode") b = {{0, {p0}}, {2700, {p0 + (i == press ? 0.5 : 0.3)}}, {5000, {p0 - 0.2}}};
    else if (kind != "Innode") b = {{0, {base}}, {1000, {base * 1.2}}, {5000, {base * 0.7 + 0.001}}};
    s.nodes.push_back(gasnode(ids[static_cast<std::size_t>(i)], kind, b));
  }
  if (solvable && !well_posed(s)) ex.skip();
  return s;
}

/// Three or four gas edges (and their leaves) around one node, which is the only place where more than two meet.
inline Spec gas_star(mc::Explorer &ex, bool solvable = true) {
  Spec s;
  int k = ex.of(std::vector<int>{3, 4});
  std::vector<std::string> const types = k == 3 || ex.thorough() ? std::vector<std::string>{"Pipe", "Shortpipe", "Compressorstation", "Controlvalve"} : std::vector<std::string>{"Pipe", "Shortpipe"};
  std::vector<std::string> const leaf = {"l3", "z1", "l1", "l0"}, eids = {"e2", "e4", "e1", "e3"};
  double const p0 = 60;
  bool zero = ex.thorough() && ex.flag();
  std::vector<double> q = {0, zero ? 0 : 20, zero ? 0 : 35, zero ? 0 : -10.0}; // into the leaf
  for (int i = 1; i < k; ++i) q[0] -= q[static_cast<std::size_t>(i)];
  for (int i = 0; i < k; ++i) {
    auto u = static_cast<std::size_t>(i);
    auto type = ex.of(types);
    bool outward = !(k == 3 || i < 2 || ex.thorough()) || ex.flag();
    auto a = outward ? "c" : leaf[u], b = outward ? leaf[u] : "c";
    double f = outward ? q[u] : -q[u];
    if (type == "Pipe") {
      Pipedata d;
      d.length_km = 8 + i;
      s.edges.push_back(pipe(eids[u], a, b, d, p0, p0, f));
    } else {
      Series control;
      if (type != "Shortpipe") control = {{0, {0.03 + 0.01 * i}}, {2700, {0.06}}, {4000, {0.01}}};
      s.edges.push_back(shortedge(eids[u], type, a, b, p0, p0, f, control));
    }
    if (i == 0) ex.split();
  }
  bool at_centre = ex.flag();
  auto kind = at_centre ? "Pressureboundarynode" : ex.of(ex.thorough() ? std::vector<std::string>{"Innode", "Source", "ConstraintSink"} : std::vector<std::string>{"Innode", "ConstraintSink"});
  Series const pressure = {{0, {p0}}, {2700, {p0 + 0.5}}, {5000, {p0 - 0.2}}};
  s.nodes.push_back(gasnode("c", kind, kind == std::string("Innode") ? Series{} : at_centre ? pressure : Series{{0, {3}}, {5000, {5}}}));
  for (int i = 0; i < k; ++i) {
    auto u = static_cast<std::size_t>(i);
    if (i == 0 && !at_centre) s.nodes.push_back(gasnode(leaf[u], "Pressureboundarynode", pressure));
    else {
      double b = i % 2 ? q[u] : -q[u];
      s.nodes.push_back(gasnode(leaf[u], i % 2 ? "Sink" : "Source", {{0, {b}}, {1000, {b * 1.2}}, {5000, {b * 0.7 + 0.001}}}));
    }
  }
  if (solvable && !well_posed(s)) ex.skip();
  return s;
}

/// Three power lines around one node of every type.
inline Spec power_star(mc::Explorer &ex) {
  Spec s;
  std::vector<std::string> const leaf = {"m3", "z1", "m1"};
  static std::vector<std::pair<double, double>> const lines = {{-0.4, 8}, {-1.5, 20}, {0, 5}};
  double G = 0.02, B = 0.03;
  auto any = ex.thorough() ? std::vector<std::string>{"PQnode", "PVnode", "Vphinode"} : std::vector<std::string>{"PQnode", "PVnode"};
  for (std::size_t i = 0; i < 3; ++i) {
    auto [g, b] = lines[i];
    bool flip = ex.flag();
    s.edges.push_back(flip ? line("l" + std::to_string(9 - i), "c", leaf[i], g, b) : line("l" + std::to_string(9 - i), leaf[i], "c", g, b));
    G -= g, B -= b;
    if (i == 0) ex.split();
    auto type = i == 0 ? std::string("Vphinode") : ex.of(any);
    double load = i == 1 ? 0.2 : -0.15;
    Series v = type == "Vphinode" ? Series{{0, {1, 0}}, {4000, {1.01, 0.02}}} : type == "PVnode" ? Series{{0, {load, 1}}, {4000, {load * 1.2, 1.01}}} : Series{{0, {load, 0.1}}, {4000, {load * 1.3, 0.05}}};
    s.nodes.push_back(powernode(leaf[i], type, -g + 0.01, -b, v));
  }
  auto type = ex.of(std::vector<std::string>{"PQnode", "PVnode", "Vphinode"});
  s.nodes.push_back(powernode("c", type, G, B, type == "Vphinode" ? Series{{0, {1, 0.01}}, {4000, {0.99, 0}}} : Series{{0, {0.1, type == "PVnode" ? 1.0 : 0.05}}, {4000, {0.12, type == "PVnode" ? 1.005 : 0.06}}}));
  return s;
}

/// One pipe in every friction regime, direction, geometry and discretization.
inline Spec pipe_network(mc::Explorer &ex) {
  Spec s;
  Pipedata d;
  d.length_km = ex.of(std::vector<double>{0.5, 10, 45});
  d.diameter_mm = ex.of(std::vector<double>{300, 900});
  d.roughness_m = ex.of(std::vector<double>{1e-6, 5e-4});
  d.delta_x = ex.of(std::vector<double>{10000, 3100});
  ex.split();
  Gaslaw g{d.diameter_mm / 1000, d.roughness_m};
  double perRe = 1 / g.re(1);
  double Re = ex.of(std::vector<double>{0, 500, 1900, 2100, 3000, 3900, 4100, 1e5, 5e6});
  double sign = ex.flag() ? -1 : 1, q = sign * Re * perRe;
  bool reversed = ex.flag();
  double p0 = ex.of(std::vector<double>{60, 20});
  bool change = ex.flag();
  s.nodes.push_back(gasnode("n1", "Pressureboundarynode", {{0, {p0}}, {10000, {p0}}}));
  s.nodes.push_back(gasnode("n2", "Sink", {{0, {q}}, {10000, {change ? q * 1.3 + 10 * perRe : q}}}));
  double f = reversed ? -q : q;
  double rho = Gaslaw::density(p0 * 1e5), qmax = std::abs(q) * 1.3;
  if (Re * 1.3 > 2000 && std::abs(g.friction(rho, qmax)) * d.length_km * 1000 * g.rho0 / g.area() > 0.25 * p0 * 1e5) ex.skip(); // no such flow
  s.edges.push_back(reversed ? pipe("pp", "n2", "n1", d, p0, p0, f) : pipe("pp", "n1", "n2", d, p0, p0, f));
  return s;
}

inline Spec power_network(mc::Explorer &ex) {
  Spec s;
  int n = ex.of(std::vector<int>{1, 2, 3}) ;
  std::vector<std::string> ids = {"k2", "k1", "k3"};
  std::vector<std::pair<int, int>> links;
  if (n == 2) links = {{0, 1}};
  if (n == 2 && ex.flag()) links.push_back({0, 1});
  if (n == 3) links = {{0, 1}, {1, 2}};
  if (n == 3 && ex.flag()) links.push_back({2, 0});
  std::vector<double> G(3, 0), B(3, 0);
  static std::vector<std::pair<double, double>> const lines = {{-0.4, 8}, {-1.5, 20}, {0, 5}};
  for (std::size_t i = 0; i < links.size(); ++i) {
    auto [a, b] = links[i];
    auto [g, bb] = lines[i];
    if (ex.flag()) std::swap(a, b);
    s.edges.push_back(line("l" + std::to_string(9 - i), ids[static_cast<std::size_t>(a)], ids[static_cast<std::size_t>(b)], g, bb));
    for (int k : {a, b}) {
      G[static_cast<std::size_t>(k)] -= g;
      B[static_cast<std::size_t>(k)] -= bb;
    }
  }
  ex.split();
  double shunt = ex.of(std::vector<double>{0, 0.05});
  int slack = ex.choose(n);
  double load = ex.of(std::vector<double>{0.1, -0.3});
  for (int i = 0; i < n; ++i) {
    auto u = static_cast<std::size_t>(i);
    auto type = i == slack ? std::string("Vphinode") : ex.of(std::vector<std::string>{"PQnode", "PVnode", "Vphinode", "StochasticPQnode"});
    Series b;
    if (type == "Vphinode") b = {{0, {1.0, 0.0}}, {1500, {1.02, 0.05 * i}}, {4000, {0.98, -0.03}}};
    else if (type == "PVnode") b = {{0, {load, 1.0}}, {1500, {load * 1.4, 1.01}}, {4000, {load / 2, 0.99}}};
    else b = {{0, {load, 0.4 * load}}, {1500, {load * 1.3, load * 0.2}}, {4000, {load / 2, -load / 3}}};
    auto c = powernode(ids[u], type, G[u] + shunt, B[u] + shunt / 2, b);
    if (type == "StochasticPQnode") c.extra.update(json{{"stability_parameter", 1.0}, {"cut_off_factor", 0.3}, {"sigma_P", 0.02}, {"theta_P", 0.3}, {"sigma_Q", 0.02}, {"theta_Q", 0.3}, {"number_of_stochastic_steps", 400}});
    s.nodes.push_back(c);
  }
  return s;
}

inline Spec coupled_network(mc::Explorer &ex) {
  Spec s;
  // pressure node - edge - gas node - connection - plant = load
  double load = ex.of(std::vector<double>{0.2, 1.3, 0, -0.3, -1.0});
  double q0 = load == 0 ? 0 : load / 0.01;
  auto type = ex.of(std::vector<std::string>{"Pipe", "Shortpipe", "Compressorstation"});
  bool rev = ex.flag();
  ex.split();
  double f = rev ? -q0 : q0;
  auto a = rev ? "gn" : "ga", b = rev ? "ga" : "gn";
  if (type == "Pipe") s.edges.push_back(pipe("ge", a, b, Pipedata{}, 60, 60, f));
  else s.edges.push_back(shortedge("ge", type, a, b, 60, 60, f, type == "Shortpipe" ? Series{} : Series{{0, {0.1}}, {4000, {0.3}}}));
  s.nodes.push_back(gasnode("ga", "Pressureboundarynode", {{0, {60}}, {4000, {61}}}));
  auto kind = ex.of(std::vector<std::string>{"Innode", "Sink", "Source"});
  s.nodes.push_back(gasnode("gn", kind, kind == "Innode" ? Series{} : Series{{0, {5}}, {4000, {7}}}));
  double a1 = ex.of(std::vector<double>{0.01, 0.02}), b1 = ex.of(std::vector<double>{0.01, 0.012});
  s.edges.push_back(gaspower("gp", "gn", "pl", a1, b1, 60, q0));
  bool two = ex.flag(); // a second connection and plant
  int dir = ex.choose(2);
  s.edges.push_back(dir ? line("tl", "pl", "pq", -0.4, 8) : line("tl", "pq", "pl", -0.4, 8));
  Series v = {{0, {1, 0}}, {4000, {1.01, 0.02}}};
  s.nodes.push_back(powernode("pl", "ExternalPowerplant", 0.4, -8, v));
  bool pv = ex.flag();
  double l0 = -load;
  s.nodes.push_back(powernode("pq", pv ? "PVnode" : "PQnode", two ? 1.9 : 0.4, two ? -28 : -8, {{0, {l0, pv ? 1.0 : 0.1}}, {4000, {l0 * 1.1, pv ? 1.01 : 0.12}}}));
  if (two) {
    s.nodes.push_back(powernode("pk", "ExternalPowerplant", 1.5, -20, v));
    s.edges.push_back(line("tm", "pk", "pq", -1.5, 20));
    s.edges.push_back(gaspower("go", "gn", "pk", 0.015, 0.015, 60, 0));
  }
  return s;
}
} // namespace net
