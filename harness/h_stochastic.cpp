// C19: the random process of stochastic power nodes is stable, cut off, and reproducible from its seed.
#include "Normaldistribution.hpp"
#include "Stochastic.hpp"
#include "results.hpp"
using namespace net;

namespace {
/// answers every request for a sample with each value of the alphabet
struct Scripted {
  mc::Explorer &ex;
  std::vector<double> const &alphabet;
  std::vector<double> deviations, drawn;
  double get_sample(double sd) {
    double z = ex.of(alphabet) * sd;
    deviations.push_back(sd);
    drawn.push_back(z);
    return z;
  }
};
using Seed = std::array<std::uint32_t, Aux::pcg_seed_count>;
std::vector<Seed> const seeds = {{1, 2, 3, 4, 5, 6, 7, 8}, {8, 7, 6, 5, 4, 3, 2, 1}, {0, 0, 0, 0, 0, 0, 0, 0}, {4294967295u, 0, 1, 0, 0, 0, 0, 0}, {1, 2, 3, 4, 5, 6, 7, 9}};

struct Parameters {
  double a = 1, c = 0.2, sigma_P = 0.01, theta_P = 0.3, sigma_Q = 0.02, theta_Q = 0.4;
  int n = 20;
};
Component stochastic(std::string const &id, Parameters const &p, Series const &b, double V = 1, double phi = 0) {
  auto c = powernode(id, "StochasticPQnode", 1, -10, b, V, phi);
  c.extra.update({{"stability_parameter", p.a}, {"cut_off_factor", p.c}, {"sigma_P", p.sigma_P}, {"theta_P", p.theta_P}, {"sigma_Q", p.sigma_Q}, {"theta_Q", p.theta_Q}, {"number_of_stochastic_steps", p.n}});
  return c;
}
Spec grid(std::vector<Component> const &nodes) {
  Spec s;
  s.nodes = nodes;
  s.nodes.push_back(powernode("slack", "Vphinode", 2, -20, {{0, {1, 0}}, {100, {1, 0}}}));
  for (auto const &n : nodes) s.edges.push_back(line("l" + n.id, n.id, "slack", -1, 10));
  return s;
}
json const &of_node(json const &out, std::string const &id) {
  for (auto const &e : out.at("nodes").at("StochasticPQnode"))
    if (e.at("id") == id) return e;
  throw std::logic_error("no results of " + id);
}
double power0(Spec const &s, std::string const &id, bool Q) { // power of the initial state
  auto const &n = s.node(id);
  double v = n.initial[0].second[0], f = n.initial[0].second[1], G = n.extra["G"], B = n.extra["B"];
  double P = G * v * v, R = -B * v * v;
  for (auto const &e : s.edges)
    if (e.from == id) {
      double g = e.extra["G"], b = e.extra["B"];
      P += v * (g * std::cos(f) + b * std::sin(f));
      R += v * (g * std::sin(f) - b * std::cos(f));
    }
  return Q ? R : P;
}
} // namespace

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  using D = std::vector<double>;

  // every sequence of samples for every set of parameters
  ex.scenario("process", [&] {
    double theta = ex.of(D{0, 0.3, 1, 4}), dt = ex.of(ex.thorough() ? D{0.1, 0.5, 1} : D{0.5, 1}), a = ex.of(D{0.5, 1.9});
    double mu = ex.of(D{-1, -0.1, 0, 0.5, 2}), cut = ex.of(D{0, 0.2, 1, 3});
    ex.split();
    double sigma = ex.of(D{0, 0.1, 1}), last = ex.of(D{-3, 0, 0.45, 5});
    int n = 1 + ex.choose(2);
    static D const few = {-2, 0.5}, more = {-2, -0.3, 0, 0.4, 2};
    int needed = theta * dt / n >= a ? static_cast<int>(std::ceil(theta * dt / a)) + 1 : n;
    Scripted s{ex, needed > ex.pick(3, 5) ? few : more, {}, {}};
    auto what = "theta " + mc::num(theta) + " mu " + mc::num(mu) + " sigma " + mc::num(sigma) + " step " + mc::num(dt) + " of " + std::to_string(n) + " steps, cut off " + mc::num(cut) + ", stability " + mc::num(a) + ", from " + mc::num(last);
    double got = 0;
    std::string why;
    bool bad = mc::throws([&] { got = Aux::euler_maruyama_oup(a, cut, last, theta, mu, dt, sigma, s, n); }, &why);
    what += ", samples " + mc::vec(s.drawn);
    ex.note(what);
    ex.expect(!bad, "refused", what + ": refused: " + why);
    auto k = s.drawn.size();
    double h = dt / static_cast<double>(k);
    ex.expect(k >= static_cast<std::size_t>(n), "steps", what + ": only " + std::to_string(k) + " steps");
    ex.expect(theta * h < a, "unstable", what + ": unstable steps of " + mc::num(h));
    double x = last, lo = std::min(mu * (1 - cut), mu * (1 + cut)), hi = std::max(mu * (1 - cut), mu * (1 + cut));
    for (std::size_t i = 0; i < k; ++i) {
      ex.expect(mc::close(s.deviations[i], std::sqrt(h), 1e-12, 0), "deviation", what + ": sample " + std::to_string(i) + " has deviation " + mc::num(s.deviations[i]));
      x += theta * (mu - x) * h + sigma * s.drawn[i];
      if (mu != 0) x = std::min(hi, std::max(lo, x));
    }
    if (mu != 0) ex.expect(got >= lo - 1e-12 && got <= hi + 1e-12, "cut-off", what + ": value " + mc::num(got) + " is not cut off");
    ex.expect(mc::close(got, x, 1e-11, 1e-12), "value", what + ": value " + mc::num(got) + " instead of " + mc::num(x));
    double st[] = {theta, dt, a, mu, cut, got};
    ex.state(st, 6);
    ex.nontrivial();
    ex.count("samples drawn", static_cast<long>(k));
  });

  ex.scenario("number of steps", [&] {
    double a = ex.of(D{-1, 0, 1e-9, 0.1, 0.5, 1, 1.999999, 2, 2.5}), theta = ex.of(D{-1, -1e-9, 0, 1e-3, 0.3, 1, 3, 1000});
    ex.split();
    double dt = ex.of(D{1e-3, 0.25, 1, 60, 1800, 86400});
    int n = ex.of(std::vector<int>{-5, -1, 1, 2, 3, 10, 1000, 2147483647});
    auto what = "stability " + mc::num(a) + " theta " + mc::num(theta) + " step " + mc::num(dt) + " in " + std::to_string(n);
    ex.note(what);
    ex.state(what);
    int got = 0;
    bool bad = mc::throws([&] { got = Aux::compute_stable_number_of_oup_steps(a, theta, dt, n); });
    double least = theta * dt / a;
    if (a <= 0 || a >= 2 || theta < 0 || n < 0) {
      ex.expect(bad, "accepted", what + ": accepted as " + std::to_string(got));
      return;
    }
    if (least > 2147483640.0) {
      ex.expect(bad || n == 2147483647, "accepted", what + ": accepted although it needs more steps than can be counted");
      return;
    }
    ex.nontrivial();
    ex.expect(!bad, "refused", what + ": refused");
    ex.expect(got >= n, "steps", what + ": only " + std::to_string(got) + " steps");
    ex.expect(theta * dt / got < a, "unstable", what + ": unstable with " + std::to_string(got) + " steps");
    if (least < n * (1 - 1e-12))
      ex.expect(got == n, "steps", what + ": " + std::to_string(got) + " steps although those given are stable");
    else
      ex.expect(got <= least + 3, "steps", what + ": " + std::to_string(got) + " steps, far more than needed");
  });

  // generators are determined by their seeds, whatever others do
  ex.scenario("generators", [&] {
    auto const &s0 = ex.of(seeds);
    auto const &s1 = ex.of(seeds);
    ex.split();
    auto draw = [](Aux::Normaldistribution &d, int how) { return how == 0 ? d.get_sample(1) : how == 1 ? d.get_sample(2.5) : d.get_sample(3, 0.5); };
    Seed used{};
    Aux::Normaldistribution d0(used, s0);
    ex.expect(used == s0, "seed", "the seed given is not the one reported");
    Aux::Normaldistribution d1(used, s1);
    std::vector<int> h0, h1;
    D v0, v1;
    std::string what;
    for (int i = 0; i < ex.pick(4, 5); ++i) {
      bool second = ex.flag();
      int how = ex.choose(3);
      (second ? h1 : h0).push_back(how);
      (second ? v1 : v0).push_back(draw(second ? d1 : d0, how));
      what += std::to_string(second) + std::to_string(how) + " ";
    }
    ex.note(what);
    ex.state(what);
    ex.nontrivial();
    auto again = [&](Seed const &s, std::vector<int> const &h, D const &v) {
      Aux::Normaldistribution d(used, s);
      for (std::size_t i = 0; i < h.size(); ++i) {
        ex.expect(std::isfinite(v[i]), "sample", what + ": sample " + mc::num(v[i]));
        ex.expect(draw(d, h[i]) == v[i], "seed", what + ": a generator with the same seed gives other samples");
      }
    };
    again(s0, h0, v0);
    again(s1, h1, v1);
    if (h0 == h1 && !h0.empty()) ex.expect((v0 == v1) == (s0 == s1), "seed", what + ": samples " + mc::vec(v0) + " and " + mc::vec(v1));
    // mean and deviation only shift and scale
    Aux::Normaldistribution a(used, s0), b(used, s0), c(used, s0);
    for (int i = 0; i < 4; ++i) {
      double z = a.get_sample(1);
      ex.expect(mc::close(b.get_sample(2.5), 2.5 * z, 1e-14, 1e-14), "sample", "the deviation does not scale the sample");
      ex.expect(mc::close(c.get_sample(3, 0.5), 3 + 0.5 * z, 1e-14, 1e-14), "sample", "mean and deviation do not shift and scale the sample");
    }
    // without a seed
    Seed u0{}, u1{};
    Aux::Normaldistribution r0(u0), r1(u1), r2(used, u0);
    ex.expect(u0 != u1 && used == u0, "seed", "generators without seed are seeded alike");
    for (int i = 0; i < 4; ++i) ex.expect(r0.get_sample(1) == r2.get_sample(1), "seed", "the reported seed does not give the samples of a generator without seed");
  });
  ex.scenario("truncated", [&] {
    auto const &s = ex.of(seeds);
    ex.split();
    double mean = ex.of(D{-3, 0, 0.5}), sd = ex.of(D{0.1, 1, 20}), lo = ex.of(D{-4, -1, 0, 0.2}), width = ex.of(D{-1, 0.05, 1, 8});
    int form = ex.choose(4);
    Seed used{};
    Aux::Truncatednormaldist d(used, s);
    double a = lo, b = lo + width;
    if (form >= 2) a = (form == 2 ? mean : 0) - 2 * sd, b = (form == 2 ? mean : 0) + 2 * sd;
    double m = form == 1 || form == 3 ? 0 : mean;
    auto what = "mean " + mc::num(m) + " deviation " + mc::num(sd) + " in " + mc::num(a) + " to " + mc::num(b);
    ex.state(what + std::to_string(form));
    ex.nontrivial();
    // the chance of a sample inside, and whether it is enough for certain
    double inside = 0.5 * (std::erf((b - m) / sd / std::sqrt(2.0)) - std::erf((a - m) / sd / std::sqrt(2.0)));
    if (inside > 0 && inside < 1e-3) ex.skip();
    int draws = inside > 0 ? 20 : 1;
    for (int i = 0; i < draws; ++i) {
      double v = 0;
      bool bad = mc::throws([&] { v = form == 0 ? d.get_sample(mean, sd, lo, b) : form == 1 ? d.get_sample(sd, lo, b) : form == 2 ? d.get_sample(mean, sd) : d.get_sample(sd); });
      ex.expect(bad == (inside <= 0), "truncated", what + (bad ? ": no sample found" : ": a sample is found where there is none"));
      if (!bad) ex.expect(v >= a && v <= b, "truncated", what + ": sample " + mc::num(v));
    }
  });

  // ------------------------------------------------------------------ in a network
  auto run = [&](Input const &in, double dt, int steps, std::string const &what) {
    auto r = simulate(in, dt, steps, true);
    ex.expect(r.ok, "no-solution", what + ": simulation failed: " + r.error);
    return r;
  };
  auto seeded = [](Spec const &s, std::map<std::string, Seed> const &m) {
    auto in = input(s);
    for (auto &c : in.boundary["nodes"]["StochasticPQnode"]) {
      auto f = m.find(c["id"].get<std::string>());
      if (f != m.end()) c["seed"] = f->second;
    }
    return in;
  };
  Series const series_of[] = {{{0, {-0.4, -0.2}}, {100, {-0.4, -0.2}}}, {{0, {-0.5, 0.1}}, {4, {-0.1, 0.5}}, {100, {-0.3, 0.3}}}, {{0, {0.3, 0}}, {100, {0.5, 0}}}};

  // without noise the process is the explicit Euler method; noise of the one power is none of the other
  ex.scenario("deterministic part", [&] {
    Parameters p;
    p.theta_P = ex.of(D{0, 0.3, 5});
    p.theta_Q = ex.of(D{0, 0.7, 3});
    p.n = ex.of(std::vector<int>{1, 7});
    ex.split();
    p.a = ex.of(D{0.5, 1.9});
    int noise = ex.choose(3);
    p.sigma_P = noise == 1 ? 0.05 : 0;
    p.sigma_Q = noise == 2 ? 0.05 : 0;
    p.c = ex.of(D{0.1, 1});
    auto const &b = series_of[ex.choose(3)];
    auto s = grid({stochastic("st", p, b, 1.01, -0.02)});
    double dt = ex.of(D{0.5, 2});
    auto what = "theta " + mc::num(p.theta_P) + " " + mc::num(p.theta_Q) + " noise " + std::to_string(noise) + " steps " + std::to_string(p.n) + " cut off " + mc::num(p.c);
    ex.note(what);
    auto r = run(seeded(s, {{"st", seeds[0]}}), dt, 3, what);
    ex.nontrivial();
    auto const &d = of_node(r.out, "st")["data"];
    for (int k = 0; k < 2; ++k) {
      double x = power0(s, "st", k), theta = k ? p.theta_Q : p.theta_P, sigma = k ? p.sigma_Q : p.sigma_P;
      auto name = k ? "Q" : "P";
      for (int i = 1; i <= 3; ++i) {
        double mu = at(b, dt * i)[static_cast<std::size_t>(k)], got = d[static_cast<std::size_t>(i)][name];
        double lo = std::min(mu * (1 - p.c), mu * (1 + p.c)), hi = std::max(mu * (1 - p.c), mu * (1 + p.c));
        if (mu != 0) ex.expect(got >= lo - 1e-7 && got <= hi + 1e-7, "cut-off", what + ": " + name + " is " + mc::num(got) + " where " + mc::num(mu) + " is prescribed");
        ex.expect(mc::close(d[static_cast<std::size_t>(i)][std::string(name) + "_deviation"].get<double>(), got - mu, 1e-9, 1e-9), "deviation", what + ": wrong deviation of " + name);
        if (sigma != 0) continue;
        int n = theta * (dt / p.n) >= p.a ? static_cast<int>(std::ceil(theta * dt / p.a)) + 1 : p.n;
        for (int j = 0; j < n; ++j) {
          x += theta * (mu - x) * (dt / n);
          if (mu != 0) x = std::min(hi, std::max(lo, x));
        }
        ex.expect(mc::close(got, x, 1e-6, 1e-6), "value", what + ": " + name + " at step " + std::to_string(i) + " is " + mc::num(got) + " instead of " + mc::num(x));
      }
    }
    ex.state(d.dump());
  });
  // without drift the result is linear in the noise and grows with the square root of the time
  ex.scenario("noise", [&] {
    auto const &seed = ex.of(seeds);
    int n = ex.of(std::vector<int>{1, 5});
    ex.split();
    bool Q = ex.flag();
    Parameters p;
    p.theta_P = p.theta_Q = 0;
    p.sigma_P = p.sigma_Q = 0;
    p.c = 1000;
    p.n = n;
    auto go = [&](double sigma, double dt) {
      auto q = p;
      (Q ? q.sigma_Q : q.sigma_P) = sigma;
      auto s = grid({stochastic("st", q, series_of[0], 1.01, -0.02)});
      auto r = run(seeded(s, {{"st", seed}}), dt, 2, "noise");
      auto const &d = of_node(r.out, "st")["data"];
      double other = power0(s, "st", !Q);
      D v;
      for (std::size_t i = 1; i <= 2; ++i) {
        v.push_back(d[i][Q ? "Q" : "P"].get<double>() - power0(s, "st", Q));
        ex.expect(mc::close(d[i][Q ? "P" : "Q"].get<double>(), other, 1e-6, 1e-6), "noise", "noise of one power changes the other");
      }
      return v;
    };
    auto one = go(0.01, 1), two = go(0.02, 1), four = go(0.01, 4), none = go(0, 1);
    ex.nontrivial();
    for (std::size_t i = 0; i < 2; ++i) {
      auto what = "noise " + mc::num(one[i]) + ", twice " + mc::num(two[i]) + ", four times as long " + mc::num(four[i]);
      ex.expect(std::abs(none[i]) < 1e-6, "noise", "noise without noise: " + mc::num(none[i]));
      ex.expect(std::abs(one[i]) > 1e-7, "noise", what + ": none");
      ex.expect(mc::close(two[i], 2 * one[i], 0, 2e-6) && mc::close(four[i], 2 * one[i], 0, 2e-6), "noise", what);
    }
    ex.state(one.data(), 2);
  });
  // seeds decide, and only the node's own
  ex.scenario("reproducible", [&] {
    bool retries = ex.flag();
    int with = ex.choose(4); // seeds of the nodes a, b
    auto const &sb = ex.of(seeds);
    ex.split();
    Parameters pa, pb;
    pb.sigma_P = ex.of(D{0.02, 0});
    bool same = ex.flag(); // b is like a
    if (same) pb = pa;
    auto const &ba = series_of[0];
    auto const &bb = same ? series_of[0] : series_of[1];
    auto s = grid({stochastic("a", pa, ba, 1.01, -0.02), stochastic("b", pb, bb, 1.01, -0.02)});
    std::map<std::string, Seed> m;
    if (with & 1) m["a"] = seeds[0];
    if (with & 2) m["b"] = sb;
    auto in = seeded(s, m);
    auto what = std::string("seeds for") + (with & 1 ? " a" : "") + (with & 2 ? " b" : "") + (same ? ", alike" : "");
    ex.note(what);
    auto go = [&](Input const &i, int steps) {
      auto r = simulate(i, 1, steps, true, retries ? 2 : 0);
      ex.expect(r.ok, "no-solution", what + ": simulation failed: " + r.error);
      return r.out;
    };
    auto out = go(in, 3);
    ex.nontrivial();
    std::map<std::string, Seed> used;
    for (auto const *id : {"a", "b"}) {
      used[id] = of_node(out, id).at("seed").get<Seed>();
      if (m.count(id)) ex.expect(used[id] == m[id], "seed", what + ": another seed is reported for " + id);
    }
    if (!(with & 1) && !(with & 2)) ex.expect(used["a"] != used["b"], "seed", what + ": both nodes use the same seed");
    ex.expect(go(seeded(s, used), 3) == out, "reproduce", what + ": the reported seeds do not reproduce the results");
    auto data = [&](json const &o, char const *id) { return of_node(o, id)["data"]; };
    // shorter simulations are the beginning of longer ones
    auto shorter = go(seeded(s, used), 2);
    for (auto const *id : {"a", "b"})
      for (std::size_t i = 0; i <= 2; ++i)
        ex.expect(data(shorter, id)[i] == data(out, id)[i], "reproduce", what + ": a shorter simulation is different");
    // without the other node, in another order, under another name
    auto powers = [&](json const &o, char const *id) {
      D v;
      for (auto const &d : data(o, id)) v.push_back(d["P"]), v.push_back(d["Q"]);
      return v;
    };
    auto nearly = [&](D const &a, D const &b) {
      bool ok = a.size() == b.size();
      for (std::size_t i = 0; ok && i < a.size(); ++i) ok = mc::close(a[i], b[i], 1e-7, 1e-7);
      return ok;
    };
    auto alone = go(seeded(grid({stochastic("a", pa, ba, 1.01, -0.02)}), used), 3);
    ex.expect(nearly(powers(alone, "a"), powers(out, "a")), "independent", what + ": node a depends on another node");
    auto swapped = go(seeded(grid({stochastic("b", pa, ba, 1.01, -0.02), stochastic("a", pb, bb, 1.01, -0.02)}), {{"b", used["a"]}, {"a", used["b"]}}), 3);
    ex.expect(nearly(powers(swapped, "b"), powers(out, "a")) && nearly(powers(swapped, "a"), powers(out, "b")), "independent", what + ": exchanged names give other results");
    if (same) ex.expect(nearly(powers(out, "a"), powers(out, "b")) == (used["a"] == used["b"]), "seed", what + ": equal nodes with " + (used["a"] == used["b"] ? "equal" : "different") + " seeds");
    // another run without seeds is another run
    if (with == 0) ex.expect(go(in, 3) != out, "seed", what + ": two runs without seeds are the same");
    ex.state(out.dump());
  });
  return ex.finish();
}
