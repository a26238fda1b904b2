// C10: in every sequence of calls the optimization library may make, every answer is the one a
// fresh optimizer gives for the same controls; C13: the cache of simulated states is never stale.
#include "Wrapper.hpp"
#include "opt.hpp"
using opt::V;
using namespace Optimization;

namespace {
struct Answer {
  bool ok = false;
  V value;
};
struct World {
  opt::Setup s;
  std::vector<V> points;                     // A, B, F (simulation fails), N (nearly A), G (derivatives fail)
  std::vector<std::vector<Answer>> expected; // [point][operation]
};
enum { OBJECTIVE, GRADIENT, CONSTRAINTS, JACOBIAN, OPERATIONS };

Answer ask(IpoptWrapper &w, World const &, V const &x, int op, bool new_x) {
  Ipopt::Index n, m, nj, nh;
  Ipopt::TNLP::IndexStyleEnum style;
  w.get_nlp_info(n, m, nj, nh, style);
  Answer a;
  double nothing = 0; // the library never asks for values at a null pointer
  V copy = x; // the library hands over its own array, which moves
  a.value = V::Constant(op == OBJECTIVE ? 1 : op == GRADIENT ? n : op == CONSTRAINTS ? m : nj, std::nan(""));
  if (op == OBJECTIVE) a.ok = w.eval_f(n, copy.data(), new_x, a.value[0]);
  if (op == GRADIENT) a.ok = w.eval_grad_f(n, copy.data(), new_x, a.value.data());
  if (op == CONSTRAINTS) a.ok = w.eval_g(n, copy.data(), new_x, m, m ? a.value.data() : &nothing);
  if (op == JACOBIAN) a.ok = w.eval_jac_g(n, copy.data(), new_x, m, nj, nullptr, nullptr, nj ? a.value.data() : &nothing);
  copy.setConstant(std::nan(""));
  return a;
}
} // namespace

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  opt::Dynamics d;
  d.n = 2;
  d.m = 1;
  d.k = 2;
  d.degenerate = -3;
  std::vector<World> worlds;
  using L = std::vector<double>;
  // two constraints at two times, two at one time, one at one time, none
  for (auto [st, co, cs, k] : {std::tuple<L, L, L, int>{{0, 1, 2}, {0, 2}, {1, 2}, 2}, {{0, 0.5, 1.5, 2}, {0, 0.7, 2}, {1.5}, 2}, {{0, 1, 2}, {0, 2}, {1}, 1}, {{0, 1, 2}, {0, 2}, {2}, 0}}) {
    d.k = k;
    World w{opt::Setup(d, st, co, cs), {}, {}};
    auto nu = w.s.initial_controls.size();
    w.points = {w.s.initial_controls, V::LinSpaced(nu, 1.2, -0.5), V::Constant(nu, 100), w.s.initial_controls, V::Constant(nu, -4)};
    w.points[3][nu - 1] += 1e-3;
    for (auto &x : w.points) {
      w.expected.emplace_back();
      for (int op = 0; op < OPERATIONS; ++op) {
        IpoptWrapper fresh(w.s.make());
        w.expected.back().push_back(ask(fresh, w, x, op, true));
      }
    }
    worlds.push_back(w);
  }
  d.k = 2;
  static char const *const opname[] = {"objective", "gradient", "constraints", "Jacobian"};
  static char const *const pointname[] = {"A", "B", "F", "N", "G"};
  int const points = 5;
  auto protocol = [&](int depth, bool redundant, int from, int to) {
    auto &w = worlds[static_cast<std::size_t>(from + ex.choose(to - from))];
    // the reference of a fresh optimizer is itself the right one
    for (std::size_t i = 0; i < w.points.size(); ++i) {
      if (i == 2) {
        for (auto &a : w.expected[i]) ex.expect(!a.ok, "false-success", "evaluation at controls whose simulation fails reports success");
        continue;
      }
      for (int op = 0; op < OPERATIONS; ++op) {
        bool good = i < 4 || op == OBJECTIVE || op == CONSTRAINTS;
        ex.expect(w.expected[i][static_cast<std::size_t>(op)].ok == good, good ? "fails" : "false-success",
                  good ? "evaluation at good controls fails" : "derivatives at controls with a singular derivative matrix are reported as success");
      }
    }
    auto optimizer = w.s.make();
    IpoptWrapper wrapper(std::move(optimizer));
    int last = -1;
    std::string trace;
    Ipopt::Index n, m, nj, nh;
    Ipopt::TNLP::IndexStyleEnum style;
    wrapper.get_nlp_info(n, m, nj, nh, style);
    for (int step = 0; step < depth; ++step) {
      int what = ex.choose(OPERATIONS * points + 1);
      if (step == 1) ex.split();
      if (what == OPERATIONS * points) { // the structure may be asked for at any time
        trace += "structure; ";
        Eigen::VectorX<Ipopt::Index> r(nj), c(nj);
        ex.expect(wrapper.eval_jac_g(n, nullptr, false, m, nj, r.data(), c.data(), nullptr), "structure", trace + "structure is refused");
        continue;
      }
      int point = what % points, op = what / points;
      bool new_x = point != last || (redundant && ex.flag());
      last = point;
      trace += std::string(opname[op]) + " at " + pointname[point] + (new_x ? " (new)" : "") + "; ";
      ex.note(trace);
      auto a = ask(wrapper, w, w.points[static_cast<std::size_t>(point)], op, new_x);
      auto &want = w.expected[static_cast<std::size_t>(point)][static_cast<std::size_t>(op)];
      ex.expect(a.ok == want.ok, "wrong-success", trace + (a.ok ? "succeeds" : "fails"));
      if (want.ok)
        for (Eigen::Index i = 0; i < a.value.size(); ++i)
          ex.expect(mc::close(a.value[i], want.value[i], 1e-9, 1e-10), "wrong-answer", trace + "entry " + std::to_string(i) + " is " + mc::num(a.value[i]) + " instead of " + mc::num(want.value[i]));
    }
    ex.nontrivial();
    ex.state(trace);
    // the library reports its best point, which need not be the last one it asked about
    for (int best : {0, 1}) {
      auto u = static_cast<std::size_t>(best);
      V x = w.points[u];
      double J = w.expected[u][OBJECTIVE].value[0];
      V g = w.expected[u][CONSTRAINTS].value, x_copy = x, g_copy = g;
      wrapper.finalize_solution(best ? Ipopt::SUCCESS : Ipopt::MAXITER_EXCEEDED, n, x_copy.data(), nullptr, nullptr, m, g_copy.data(), nullptr, J, nullptr, nullptr);
      x_copy.setZero();
      g_copy.setZero();
      auto where = trace + "then the solution " + pointname[best] + " is reported: ";
      ex.expect((wrapper.get_best_solution() == x && wrapper.get_best_constraints() == g && wrapper.get_best_objective_value() == J), "final", where + "other solution, constraints or objective");
      ex.expect(mc::close(wrapper.get_best_cost_value(), w.s.cost(x), 1e-9, 1e-9), "final-cost", where + "cost " + mc::num(wrapper.get_best_cost_value()) + " instead of " + mc::num(w.s.cost(x)));
      ex.expect(mc::close(wrapper.get_best_penalty_value(), w.s.penalty(x), 1e-9, 1e-9), "final-cost", where + "penalty " + mc::num(wrapper.get_best_penalty_value()) + " instead of " + mc::num(w.s.penalty(x)));
    }
  };
  ex.scenario("calls", [&] { protocol(ex.pick(4, 5), false, 0, 2); });
  ex.scenario("calls with redundant announcements", [&] { protocol(ex.pick(3, 4), true, 0, 2); });
  ex.scenario("calls with at most one constraint", [&] { protocol(ex.pick(3, 4), true, 2, 4); });
  // long repetitions of two operations: what a fixed number of slots would forget
  ex.scenario("alternation", [&] {
    auto &w = worlds[static_cast<std::size_t>(ex.choose(4))];
    int o1 = ex.choose(OPERATIONS), p1 = ex.choose(points), o2 = ex.choose(OPERATIONS), p2 = ex.choose(points);
    IpoptWrapper wrapper(w.s.make());
    int last = -1;
    for (int i = 0; i < 12; ++i) {
      int op = i % 3 == 2 ? o2 : o1, point = i % 2 ? p2 : p1;
      auto a = ask(wrapper, w, w.points[static_cast<std::size_t>(point)], op, point != last);
      last = point;
      auto &want = w.expected[static_cast<std::size_t>(point)][static_cast<std::size_t>(op)];
      auto what = std::string("alternating ") + opname[o1] + pointname[p1] + " and " + opname[o2] + pointname[p2] + ", call " + std::to_string(i);
      ex.note(what);
      ex.expect(a.ok == want.ok, "wrong-success", what + (a.ok ? " succeeds" : " fails"));
      if (want.ok)
        for (Eigen::Index k = 0; k < a.value.size(); ++k) ex.expect(mc::close(a.value[k], want.value[k], 1e-9, 1e-10), "wrong-answer", what + ": " + mc::num(a.value[k]) + " instead of " + mc::num(want.value[k]));
    }
    ex.nontrivial();
  });
  ex.scenario1("bounds", [&] {
    auto &w = worlds[static_cast<std::size_t>(ex.choose(4))];
    IpoptWrapper wrapper(w.s.make());
    Ipopt::Index n, m, nj, nh;
    Ipopt::TNLP::IndexStyleEnum style;
    ex.expect(wrapper.get_nlp_info(n, m, nj, nh, style), "bounds", "no information");
    ex.expect((n == w.s.initial_controls.size() && m == w.s.constraint_lower.size() && style == Ipopt::TNLP::C_STYLE), "bounds", "sizes");
    V xl(n), xu(n), gl(m), gu(m), x(n);
    ex.expect((wrapper.get_bounds_info(n, xl.data(), xu.data(), m, gl.data(), gu.data()) && wrapper.get_starting_point(n, true, x.data(), false, nullptr, nullptr, m, false, nullptr)), "bounds", "refused");
    ex.expect((xl == w.s.lower && xu == w.s.upper && gl == w.s.constraint_lower && gu == w.s.constraint_upper && x == w.s.initial_controls), "bounds", "bounds or starting point differ from the given ones");
    ex.nontrivial();
  });
  // the same for all times at which there are constraints and controls, with bounds that differ from time to time
  ex.scenario1("all bounds", [&] {
    static std::vector<L> const grids = {{0, 1, 2}, {0, 0.25, 1, 2}, {0, 1, 1.25, 2, 2.125}, {-3, -1, -0.5, 4, 9}};
    L states = ex.of(grids), times, controls;
    int subset = 1 + ex.choose((1 << (states.size() - 1)) - 1);
    for (std::size_t i = 1; i < states.size(); ++i)
      if (subset >> (i - 1) & 1) times.push_back(states[i]);
    controls = ex.of(std::vector<L>{states, {states.front(), states.back()}, {states.front() - 1, 0.3, states.back() + 0.5}});
    opt::Dynamics dd;
    dd.n = 2;
    dd.m = 1 + ex.choose(2);
    dd.k = ex.choose(3);
    int shape = ex.choose(3, "bounds");
    opt::Setup s(dd, states, controls, times);
    auto vary = [&](V &v, double at) {
      for (Eigen::Index i = 0; i < v.size(); ++i) v[i] = shape == 0 ? at * (1 + (i * 7 + 3) % 5) : shape == 1 ? at * 1e6 + static_cast<double>(i * i) : (i % 3 == 1 ? at * 1e-7 : at);
    };
    vary(s.lower, -2);
    vary(s.upper, 3);
    vary(s.constraint_lower, -5);
    vary(s.constraint_upper, 4);
    V mid = 0.5 * (s.lower + s.upper);
    s.initial_controls = mid.cwiseMax(-1).cwiseMin(1);
    auto what = s.describe() + " shape " + std::to_string(shape);
    ex.note(what);
    ex.state(what);
    IpoptWrapper wrapper(s.make());
    Ipopt::Index n, m, nj, nh;
    Ipopt::TNLP::IndexStyleEnum style;
    ex.expect(wrapper.get_nlp_info(n, m, nj, nh, style), "bounds", what + ": no information");
    ex.expect((n == s.lower.size() && m == s.constraint_lower.size()), "bounds", what + ": sizes");
    double nothing = 0;
    V xl(n), xu(n), gl(m), gu(m), x(n);
    auto at = [&](V &v) { return v.size() ? v.data() : &nothing; };
    ex.expect((wrapper.get_bounds_info(n, xl.data(), xu.data(), m, at(gl), at(gu)) && wrapper.get_starting_point(n, true, x.data(), false, nullptr, nullptr, m, false, nullptr)), "bounds", what + ": refused");
    ex.expect((xl == s.lower && xu == s.upper && gl == s.constraint_lower && gu == s.constraint_upper && x == s.initial_controls), "bounds",
              what + ": bounds or starting point differ from the given ones: " + mc::vec(xl) + mc::vec(xu) + mc::vec(gl) + mc::vec(gu) + mc::vec(x));
    ex.nontrivial();
  });
  // what does not fit together is refused
  ex.scenario1("refusals", [&] {
    auto s = worlds[0].s;
    int which = ex.choose(12);
    opt::Dynamics dd = s.d;
    auto st = s.states, co = s.controls, cs = s.constraints;
    auto init = s.initial_state;
    auto series = [&](L const &t, Eigen::Index inner) {
      Aux::InterpolatingVector v(opt::vec(t), inner);
      v.setZero();
      return v;
    };
    auto c = series(co, 1), l = series(co, 1), u = series(co, 1), gl = series(cs, 2), gu = series(cs, 2);
    bool valid = false;
    switch (which) {
      case 0: valid = true; break;
      case 1: c = l = u = series(co, 2); break;
      case 2: l = series({0, 1, 2}, 1); break;
      case 3: u = series({0, 1, 2}, 1); break;
      case 4: gl = series({1}, 2); break;
      case 5: gl = gu = series(cs, 1); break;
      case 6: init = V::Zero(3); break;
      case 7: co = {0, 1.5}; c = l = u = series(co, 1); break;
      case 8: co = {0.5, 2}; c = l = u = series(co, 1); break;
      case 9: cs = {1, 1.5}; gl = gu = series(cs, 2); break;
      case 10: cs = {1, 3}; gl = gu = series(cs, 2); break;
      case 11: cs = {0, 2}; gl = gu = series(cs, 2); break;
    }
    bool threw = mc::throws([&] {
      ImplicitOptimizer o(std::make_unique<Mock_OptimizableObject>(dd), std::make_unique<ControlStateCache>(s.evolver()), opt::vec(st), opt::vec(co), opt::vec(cs), init, c, l, u, gl, gu);
    });
    ex.expect(threw == !valid, "refusal", "optimizer built from inconsistent data number " + std::to_string(which) + (threw ? " is refused" : " is accepted"));
    ex.nontrivial();
  });

  // ------------------------------------------------------------------ the cache
  ex.scenario("cache", [&] {
    // high controls fail only from the second start or on the second grid, very high ones always
    auto dd = d;
    dd.sensitive = 2.5;
    Mock_OptimizableObject problem(dd);
    auto s = worlds[0].s;
    ControlStateCache cache(s.evolver());
    static std::vector<L> const grids = {{0, 1, 2}, {0, 1.5, 2}, {0, 0.5, 1, 2}};
    std::vector<V> const inits = {s.initial_state, V::Constant(2, 0.9)};
    std::vector<V> const controls = {s.initial_controls, V(s.initial_controls.array() + 0.001), V::Constant(s.initial_controls.size(), 100), V::Constant(s.initial_controls.size(), 3)};
    std::vector<V> shown; // states of the last success
    std::string trace;
    for (int step = 0; step < ex.pick(3, 4); ++step) {
      int op = ex.choose(2), c = ex.choose(4), grid = ex.choose(ex.thorough() || step == 0 ? 3 : 2), i = ex.choose(2);
      if (step == 0) ex.split();
      trace += std::string(op ? "supply" : "refresh") + " controls " + std::to_string(c) + " times " + std::to_string(grid) + " start " + std::to_string(i) + "; ";
      ex.note(trace);
      opt::Setup now(dd, grids[static_cast<std::size_t>(grid)], s.controls, s.constraints);
      now.initial_state = inits[static_cast<std::size_t>(i)];
      auto u = opt::Setup::series(s.controls, 1, controls[static_cast<std::size_t>(c)]);
      V times = opt::vec(now.states);
      bool good = c < 2 || (c == 3 && grid != 1 && i == 0), ok;
      Aux::InterpolatingVector_Base const *states = nullptr;
      if (op) {
        states = cache.check_and_supply_states(problem, u, times, now.initial_state);
        ok = states != nullptr;
      } else {
        ok = cache.refresh_cache(problem, u, times, now.initial_state);
      }
      ex.expect(ok == good, "cache-success", trace + (ok ? "succeeds" : "fails"));
      if (good) shown = now.trajectory(controls[static_cast<std::size_t>(c)]);
      if (shown.empty()) continue;
      for (auto *v : {states, &cache.get_cached_states()}) {
        if (!v) continue;
        ex.expect(v->size() == static_cast<Eigen::Index>(shown.size()), "cache-stale", trace + "states of another simulation");
        for (std::size_t k = 0; k < shown.size(); ++k)
          ex.expect((v->vector_at_index(static_cast<Eigen::Index>(k)) - shown[k]).norm() < 1e-8, "cache-stale", trace + "states of another simulation");
        if (good) ex.expect(v->get_interpolation_points() == times, "cache-stale", trace + "times of another simulation");
      }
    }
    ex.nontrivial();
    ex.state(trace);
  });
  return ex.finish();
}
