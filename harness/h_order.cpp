// C06: how a network is written down does not change what happens in it.
#include "netgen.hpp"
using namespace net;

static void permute(json &j, int k) {
  for (auto &[cls, types] : j.items())
    for (auto &[type, list] : types.items()) {
      if (k & 1) std::reverse(list.begin(), list.end());
      if (k & 2) std::rotate(list.begin(), list.begin() + static_cast<long>(list.size() / 2), list.end());
    }
}
/// results by component: (class, id, time index) -> numbers
static std::map<std::string, std::vector<double>> table(json const &out) {
  std::map<std::string, std::vector<double>> t;
  for (auto const &[cls, types] : out.items())
    for (auto const &[type, list] : types.items())
      for (auto const &c : list)
        for (auto const &d : c["data"]) {
          auto &v = t[c["id"].get<std::string>()];
          for (auto f : {"pressure", "flow"})
            if (d.contains(f))
              for (auto const &x : d[f]) v.push_back(x["value"]);
          for (auto f : {"P", "Q", "V", "phi"})
            if (d.contains(f)) v.push_back(d[f]);
        }
  return t;
}

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  auto compare = [&](std::string const &what, std::map<std::string, std::vector<double>> const &a, std::map<std::string, std::vector<double>> const &b, double tol) {
    ex.expect(a.size() == b.size(), "components", what + ": results for " + std::to_string(b.size()) + " instead of " + std::to_string(a.size()) + " components");
    for (auto const &[id, v] : a) {
      auto it = b.find(id);
      ex.expect((it != b.end() && it->second.size() == v.size()), "components", what + ": other results for " + id);
      for (std::size_t i = 0; i < v.size(); ++i)
        if (!ex.tick(std::abs(v[i] - it->second[i]) <= tol * (1 + std::abs(v[i])))) ex.fail("result-differs", what + ": number " + std::to_string(i) + " of " + id + " is " + mc::num(it->second[i]) + " instead of " + mc::num(v[i]));
    }
  };
  auto run = [&](Spec s, double dt, int steps, std::vector<int> const &rewritings) {
    // a tolerance above the rounding of the largest term, pressure gradient times time step
    double tolerance = 1e-8;
    for (auto const &e : s.edges)
      if (e.type == "Pipe") {
        double d = e.extra["diameter"]["value"].get<double>() / 1000, l = e.extra["length"]["value"].get<double>() * 1000;
        double dx = l / std::ceil(l / e.extra["desired_delta_x"].get<double>());
        tolerance = std::max(tolerance, 5e-14 * dt / dx * d * d * 6e6);
      }
    // Newton's method may stall where the friction law has a kink; then the other variant has to work
    auto simulate = [&](Input const &in, double, int, bool simplified, double start = 0) {
      auto r = net::simulate(in, dt, steps, simplified, 0, start, tolerance);
      if (!r.ok) {
        ex.count("one solver variant failed");
        r = net::simulate(in, dt, steps, !simplified, 0, start, tolerance);
      }
      return r;
    };
    for (auto &c : s.nodes)
      if (c.type == "StochasticPQnode") ex.skip();
    int how = ex.of(rewritings);
    bool simplified = how % 2;
    auto in = input(s);
    auto a = simulate(in, dt, steps, simplified);
    if (!a.ok) {
      ex.count("not solved");
      ex.skip();
    }
    auto base = table(a.out);
    ex.nontrivial();
    if (how < 3) { // order of the entries of every file
      auto b = in;
      permute(b.topology, how + 1);
      permute(b.boundary, (how + 1) % 3 + 1);
      permute(b.initial, 3 - how);
      permute(b.control, how + 1);
      // a group that is empty need not be there; the topology is nothing without its groups
      for (auto *j : {&b.boundary, &b.initial, &b.control})
        for (auto cls : {"nodes", "connections"})
          if (how < 2 and j->contains(cls) and (*j)[cls].empty()) j->erase(cls);
      std::string what = s.describe() + "entries reordered";
      ex.note(what);
      auto r = simulate(b, dt, steps, simplified);
      ex.expect(r.ok, "not-solved", what + ": simulation failed: " + r.error);
      compare(what, base, table(r.out), 1e-7);
    } else if (how == 3) { // names
      Spec t = s;
      std::map<std::string, std::string> name, back;
      int i = 0;
      // reverses the alphabetical order, adds prefixes of one another and odd characters
      std::vector<std::string> all;
      for (auto &c : t.nodes) all.push_back(c.id);
      for (auto &c : t.edges) all.push_back(c.id);
      std::sort(all.rbegin(), all.rend());
      for (auto &id : all) {
        name[id] = std::string(static_cast<std::size_t>(1 + i++), 'A') + (i % 3 ? "" : " 10/\"x\"");
        back[name[id]] = id;
      }
      for (auto &c : t.nodes) c.id = name[c.id];
      for (auto &c : t.edges) {
        c.id = name[c.id];
        c.from = name[c.from];
        c.to = name[c.to];
      }
      std::string what = s.describe() + "renamed to " + t.describe();
      ex.note(what);
      auto r = simulate(input(t), dt, steps, simplified);
      ex.expect(r.ok, "not-solved", what + ": simulation failed: " + r.error);
      std::map<std::string, std::vector<double>> renamed;
      for (auto &[id, v] : table(r.out)) renamed[back.count(id) ? back[id] : id] = v;
      compare(what, base, renamed, 2e-6);
    } else if (how == 4) { // edges that have no inherent direction are turned round
      Spec t = s;
      for (auto &c : t.edges) {
        if (c.type != "Pipe" && c.type != "Shortpipe" && c.type != "Transmissionline") continue;
        std::swap(c.from, c.to);
        if (c.type == "Transmissionline") continue;
        auto i0 = c.initial[0].second, i1 = c.initial[1].second;
        c.initial[0].second = {i1[0], -i1[1]};
        c.initial[1].second = {i0[0], -i0[1]};
      }
      std::string what = s.describe() + "edges turned round";
      ex.note(what);
      auto r = simulate(input(t), dt, steps, simplified);
      ex.expect(r.ok, "not-solved", what + ": simulation failed: " + r.error);
      auto turned = table(r.out);
      for (auto &c : t.edges)
        if (c.type == "Pipe" || c.type == "Shortpipe") {
          auto &v = turned[c.id];
          std::size_t per = v.size() / static_cast<std::size_t>(steps + 1), half = per / 2;
          for (std::size_t k = 0; k < v.size(); k += per) {
            std::reverse(v.begin() + static_cast<long>(k), v.begin() + static_cast<long>(k + half));
            std::reverse(v.begin() + static_cast<long>(k + half), v.begin() + static_cast<long>(k + per));
            for (std::size_t i = k + half; i < k + per; ++i) v[i] = -v[i];
          }
        }
      compare(what, base, turned, 2e-6);
    } else if (how == 5) { // the same day at another date
      Spec t = s;
      double shift = 86400.0 * 365;
      for (auto &c : t.nodes)
        for (auto &[x, v] : c.boundary) x += shift;
      for (auto &c : t.edges)
        for (auto &[x, v] : c.control) x += shift;
      std::string what = s.describe() + "a year later";
      ex.note(what);
      auto r = simulate(input(t), dt, steps, simplified, shift);
      ex.expect(r.ok, "not-solved", what + ": simulation failed: " + r.error);
      compare(what, base, table(r.out), 2e-6);
    } else { // a second, unconnected copy beside it
      Spec t = s;
      for (auto c : s.nodes) {
        c.id += "_copy";
        t.nodes.push_back(c);
      }
      for (auto c : s.edges) {
        c.id = "copy_" + c.id;
        c.from += "_copy";
        c.to += "_copy";
        t.edges.push_back(c);
      }
      std::string what = s.describe() + "together with an unconnected copy";
      ex.note(what);
      auto r = simulate(input(t), dt, steps, simplified);
      ex.expect(r.ok, "not-solved", what + ": simulation failed: " + r.error);
      auto both = table(r.out);
      std::map<std::string, std::vector<double>> first, second;
      for (auto &[id, v] : both) {
        if (id.size() > 5 && id.substr(id.size() - 5) == "_copy") second[id.substr(0, id.size() - 5)] = v;
        else if (id.rfind("copy_", 0) == 0) second[id.substr(5)] = v;
        else first[id] = v;
      }
      compare(what, base, first, 2e-6);
      compare(what, base, second, 2e-6);
    }
    ex.state(s.describe() + std::to_string(how));
  };
  std::vector<int> const all = {0, 1, 2, 3, 4, 5, 6}, some = ex.thorough() ? all : std::vector<int>{1, 4};
  ex.scenario("gas 2 nodes", [&] { run(gas_network(ex, 2), 1800, 2, all); });
  ex.scenario("gas 3 nodes", [&] {
    auto s = gas_network(ex, 3);
    // the flow regime near zero is left to the other checks: Newton's path through it depends on rounding
    if (s.edges[0].initial[0].second[1] == 0) ex.skip();
    run(s, 1800, 2, some);
  });
  ex.scenario("gas star", [&] { run(gas_star(ex), 1800, 1, some); });
  ex.scenario("power star", [&] { run(power_star(ex), 900, 1, all); });
  ex.scenario("power", [&] { run(power_network(ex), 900, 2, all); });
  ex.scenario("gas and power", [&] { run(coupled_network(ex), 1800, 1, all); });
  return ex.finish();
}
