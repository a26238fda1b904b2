// C02: Timeevolver::simulate.  The problem is new_state = last_state * a + control(new_time) + new_time
// (plus a cubic variant); the environment decides for every solution attempt of every time step whether
// the attempt can succeed, never converges or produces NaN, or throws.
#include "InterpolatingVector.hpp"
#include "Timeevolver.hpp"
#include "mc.hpp"
#include "scripted_problem.hpp"
#include <array>

using Eigen::MatrixXd;
using Eigen::VectorXd;
static double const tol = 1e-9;

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  struct Boom : std::runtime_error { using runtime_error::runtime_error; };

  ex.scenario("attempts", [&] {
    bool simplified = ex.flag("simplified");
    int retries = ex.choose(3, "retries");
    int ncontrols = ex.choose(2, "controls");
    int points = 2 + ex.choose(2, "points");
    int variant = ex.choose(2, "equation");
    bool coarse = ncontrols && ex.flag("control grid coarser than the states");
    ex.split();
    std::vector<double> grid = {10, 10.5, 12, 13};
    grid.resize(static_cast<std::size_t>(points));
    Aux::InterpolatingVector states(grid, 2);
    for (int i = 0; i < points; ++i) states.mut_timestep(i) = VectorXd::Constant(2, 777);
    std::vector<double> cgrid = coarse ? std::vector<double>{10, 13} : grid;
    Aux::InterpolatingVector controls(ncontrols ? cgrid : std::vector<double>{}, ncontrols);
    for (int i = 0; i < (ncontrols ? static_cast<int>(cgrid.size()) : 0); ++i)
      controls.mut_timestep(i) = VectorXd::Constant(1, 3.0 + cgrid[static_cast<std::size_t>(i)] * 0.25 + (coarse ? 0 : (i % 2)));
    auto control_at = [&](double t) { return ncontrols ? controls(t)[0] : 0.0; };

    // reference trajectory
    auto rhs = [&](double t0, double t1, double x, double u) { return 0.5 * x + u + 0.125 * t1 - 0.0625 * t0; };
    VectorXd init(2);
    init << 1.0, -2.0;

    std::vector<std::vector<int>> script; // per step: the mode of each attempt
    int attempt = 0, step = -1, mode = 0;
    double cur_t = 0;
    std::vector<std::string> log;
    ScriptedProblem p;
    std::string bad;
    std::vector<VectorXd> accepted = {init};
    bool fresh_attempt = false;
    VectorXd guess_at_step_start;
    p.prepare = [&](double t0, double t1, auto const &ls, auto const &c) {
      if (t1 != cur_t) {
        cur_t = t1;
        ++step;
        attempt = 0;
        script.push_back({});
        if (step > 0) accepted.push_back(ls);
      }
      ++attempt;
      // the environment: mode 0 works, 1 never converges, 2 yields NaN
      mode = attempt <= 2 * retries + 2 ? ex.choose(3, "mode") : 1;
      script.back().push_back(mode);
      fresh_attempt = true;
      auto us = static_cast<std::size_t>(step);
      if (us + 1 >= grid.size() || t0 != grid[us] || t1 != grid[us + 1]) bad = "wrong times";
      if (c.size() != ncontrols || (ncontrols && c[0] != control_at(t1))) bad = "wrong control at " + mc::num(t1);
    };
    p.f = [&](double t0, double t1, auto const &ls, auto const &ns, auto const &c) -> VectorXd {
      auto us = static_cast<std::size_t>(step);
      if (us + 1 < grid.size() && (t0 != grid[us] || t1 != grid[us + 1])) bad = "evaluated at wrong times";
      if (c.size() != ncontrols || (ncontrols && c[0] != control_at(t1))) bad = "evaluated with wrong control at " + mc::num(t1);
      if (fresh_attempt) {
        fresh_attempt = false;
        // every attempt starts from the last accepted state, whatever earlier attempts left behind
        if (ns[0] != ls[0] || ns[1] != ls[1]) bad = "attempt does not start from the last accepted state: " + mc::vec(ns) + " vs " + mc::vec(ls);
      }
      VectorXd r(2);
      double u = ncontrols ? c[0] : 0.0;
      for (int i = 0; i < 2; ++i) {
        double z = ns[i] - rhs(t0, t1, ls[i], u);
        r[i] = variant ? z + 0.0002 * z * z * z : z;
      }
      if (mode == 1) r[0] = 1.0 + 0.01 * std::abs(std::sin(ns[0]));
      if (mode == 2 && !(ns[0] == ls[0] && ns[1] == ls[1])) r[1] = std::numeric_limits<double>::quiet_NaN();
      return r;
    };
    p.dnew = [&](double t0, double t1, auto const &ls, auto const &ns, auto const &c) -> MatrixXd {
      MatrixXd m = MatrixXd::Zero(2, 2);
      double u = ncontrols ? c[0] : 0.0;
      for (int i = 0; i < 2; ++i) {
        double z = ns[i] - rhs(t0, t1, ls[i], u);
        m(i, i) = variant ? 1 + 0.0006 * z * z : 1;
      }
      return m;
    };
    nlohmann::json settings = {{"tolerance", tol}, {"maximal_number_of_newton_iterations", 15}, {"retries", retries}, {"use_simplified_newton", simplified}};
    auto evolver = Model::Timeevolver::make_pointer_instance(settings);
    std::string err;
    bool threw = mc::throws([&] { evolver->simulate(init, controls, p, states); }, &err);
    for (auto const &s : script) {
      std::string h;
      for (int m : s) h += static_cast<char>('0' + m);
      ex.state(std::to_string(simplified) + std::to_string(retries) + h);
      if (s.size() > 1) ex.nontrivial();
    }
    ex.expect(bad.empty(), "wrong-arguments", bad);
    std::string what = "steps attempted:";
    bool all_ok = true;
    for (auto const &s : script) {
      what += " (";
      for (int m : s) what += static_cast<char>('0' + m);
      what += ")";
      all_ok = all_ok && !s.empty() && s.back() == 0;
      ex.expect(static_cast<int>(s.size()) <= 2 * retries + 2, "unbounded-retries", "more attempts than the retries allow: " + what);
      for (std::size_t k = 0; k + 1 < s.size(); ++k)
        ex.expect(s[k] != 0, "success-retried", "an attempt that works was tried again: " + what);
    }
    all_ok = all_ok && static_cast<int>(script.size()) == points - 1;
    // the first retries+1 attempts of a step must all be made before giving up
    if (threw && !script.empty() && script.back().back() != 0 && err.find("Minimal stepsize") == std::string::npos)
      ex.expect(static_cast<int>(script.back().size()) >= retries + 1, "gave-up-early", what + " error: " + err);
    if (threw) {
      ex.expect(!all_ok, "spurious-failure", "simulation failed although every step has a working attempt: " + what + " error: " + err);
      return;
    }
    ex.expect(all_ok, "silent-failure", "simulation returned normally although a step never succeeded: " + what);
    for (int i = 0; i < points; ++i)
      ex.expect(states.interpolation_point_at_index(i) == grid[static_cast<std::size_t>(i)], "time-changed", "saved time changed");
    VectorXd x = init;
    for (int i = 0; i < points; ++i) {
      if (i > 0) {
        double t0 = grid[static_cast<std::size_t>(i - 1)], t1 = grid[static_cast<std::size_t>(i)];
        for (int k = 0; k < 2; ++k) x[k] = rhs(t0, t1, x[k], control_at(t1));
      }
      VectorXd got = states.vector_at_index(i);
      ex.expect((got - x).norm() <= 1e-7, i ? "wrong-state" : "initial-state-lost",
                "state at time index " + std::to_string(i) + " is " + mc::vec(got) + ", expected " + mc::vec(x) + "; " + what);
      if (i == 0) ex.expect(got == init, "initial-state-lost", "the initial state was not stored unchanged");
    }
  });

  // states of every size that move by every amount: each stored state solves the equation of its own step with the
  // state stored one step before
  ex.scenario1("drifts", [&] {
    bool simplified = ex.flag("simplified");
    double size = std::array{0.0, 1e-6, 1.0, 1e6}[static_cast<std::size_t>(ex.choose(4, "size"))];
    double drift = std::array{0.0, 1e-9, 1e-7, 1e-5, 1e-2, 1.0}[static_cast<std::size_t>(ex.choose(6, "relative drift"))];
    int steps = 1 + ex.choose(6, "steps");
    int shape = ex.choose(3, "equation");
    double scale = size == 0 ? 1 : size, tight = 1e-12 * scale;
    ScriptedProblem p;
    // shape 0: a constant drift; 1: a drift that turns round; 2: one part stays and the other grows
    auto want = [=](double t1, VectorXd const &ls) -> VectorXd {
      VectorXd w = ls;
      double d = drift * scale;
      if (shape == 0) w += VectorXd::Constant(2, d);
      if (shape == 1) w += VectorXd::Constant(2, std::fmod(t1, 2) < 0.5 ? d : -d);
      if (shape == 2) w[1] += d * t1;
      return w;
    };
    p.f = [&](double, double t1, auto const &ls, auto const &ns, auto const &) -> VectorXd { return ns - want(t1, ls); };
    p.dnew = [&](double, double, auto const &, auto const &, auto const &) -> MatrixXd { return MatrixXd::Identity(2, 2); };
    std::vector<double> grid;
    for (int i = 0; i <= steps; ++i) grid.push_back(i);
    Aux::InterpolatingVector states(grid, 2), controls;
    auto evolver = Model::Timeevolver::make_pointer_instance(
        {{"tolerance", tight}, {"maximal_number_of_newton_iterations", 50}, {"retries", 2}, {"use_simplified_newton", simplified}});
    VectorXd init(2);
    init << size, -0.5 * size;
    std::string err;
    bool threw = mc::throws([&] { evolver->simulate(init, controls, p, states); }, &err);
    ex.state(mc::num(size) + "," + mc::num(drift) + "," + std::to_string(steps) + std::to_string(shape) + std::to_string(simplified));
    ex.nontrivial();
    ex.expect(!threw, "spurious-failure", "a problem that one step of the method solves failed: " + err);
    if (threw) return;
    ex.expect(VectorXd(states.vector_at_index(0)) == init, "initial-state-lost", "the initial state was not stored unchanged");
    for (int i = 1; i <= steps; ++i) {
      VectorXd left = states.vector_at_index(i) - want(i, states.vector_at_index(i - 1));
      ex.expect(left.norm() <= 2 * tight, "wrong-state", "step " + std::to_string(i) + " from " + mc::vec(states.vector_at_index(i - 1)) + " to " +
                mc::vec(states.vector_at_index(i)) + " leaves " + mc::vec(left) + " with the tolerance " + mc::num(tight));
    }
  });

  // Newton's method with one Jacobian per step gives up only after the one with a Jacobian per iteration was tried as well
  ex.scenario1("variants", [&] {
    double curve = std::array{0.0, 0.01, 0.1, 1.0, 10.0}[static_cast<std::size_t>(ex.choose(5, "curvature"))];
    double goal = std::array{0.0, 0.5, 1.0, -2.0, 5.0}[static_cast<std::size_t>(ex.choose(5, "goal"))];
    int iterations = std::array{1, 2, 4, 6, 8, 12}[static_cast<std::size_t>(ex.choose(6, "iterations"))];
    int retries = ex.choose(3, "retries");
    int steps = 1 + ex.choose(3, "steps");
    auto run = [&](bool simplified, std::string *err, VectorXd &out) {
      ScriptedProblem p;
      auto g = [=](double x) { return x + curve * x * x * x; };
      p.f = [=](double, double t1, auto const &, auto const &ns, auto const &) -> VectorXd {
        return (VectorXd(2) << g(ns[0]) - g(goal * t1), g(ns[1]) - g(1 - ns[0])).finished();
      };
      p.dnew = [=](double, double, auto const &, auto const &ns, auto const &) -> MatrixXd {
        double y = 1 - ns[0];
        return (MatrixXd(2, 2) << 1 + 3 * curve * ns[0] * ns[0], 0, 1 + 3 * curve * y * y, 1 + 3 * curve * ns[1] * ns[1]).finished();
      };
      std::vector<double> grid;
      for (int i = 0; i <= steps; ++i) grid.push_back(i);
      Aux::InterpolatingVector states(grid, 2), controls;
      auto evolver = Model::Timeevolver::make_pointer_instance(
          {{"tolerance", tol}, {"maximal_number_of_newton_iterations", iterations}, {"retries", retries}, {"use_simplified_newton", simplified}});
      bool threw = mc::throws([&] { evolver->simulate(VectorXd::Zero(2), controls, p, states); }, err);
      out = states.get_allvalues();
      return !threw;
    };
    std::string e1, e2;
    VectorXd full, simple;
    bool full_works = run(false, &e1, full), simple_works = run(true, &e2, simple);
    ex.state(mc::num(curve) + "," + mc::num(goal) + "," + std::to_string(iterations) + std::to_string(retries) + std::to_string(steps));
    if (!full_works) return;
    ex.nontrivial();
    if (e2.find("Minimal stepsize") != std::string::npos) { // a numerical breakdown is an error at once
      ex.count("breakdown of the simplified method");
      return;
    }
    ex.expect(simple_works, "gave-up-early", "failed though Newton's full method works for every step: " + e2);
    ex.expect((simple - full).norm() <= 1e-6, "wrong-state", "the variants of Newton's method lead to " + mc::vec(simple) + " and " + mc::vec(full));
  });

  // errors raised by the problem itself are not swallowed
  ex.scenario1("exceptions", [&] {
    bool simplified = ex.flag();
    int at = ex.choose(12, "call at which the problem throws");
    int where = ex.choose(3);
    ScriptedProblem p;
    int n = 0;
    bool thrown = false;
    auto tick = [&](int w) {
      if (w == where && n++ == at) {
        thrown = true;
        throw Boom("boom");
      }
    };
    p.prepare = [&](double, double, auto const &, auto const &) { tick(0); };
    p.f = [&](double, double t1, auto const &ls, auto const &ns, auto const &) -> VectorXd {
      tick(1);
      return ns - ls - VectorXd::Constant(1, t1);
    };
    p.dnew = [&](double, double, auto const &, auto const &, auto const &) -> MatrixXd {
      tick(2);
      return MatrixXd::Identity(1, 1);
    };
    Aux::InterpolatingVector states(std::vector<double>{0, 1, 2, 3, 4}, 1);
    Aux::InterpolatingVector controls;
    auto evolver = Model::Timeevolver::make_pointer_instance(
        {{"tolerance", tol}, {"maximal_number_of_newton_iterations", 50}, {"retries", 1}, {"use_simplified_newton", simplified}});
    VectorXd init = VectorXd::Zero(1);
    bool threw = mc::throws([&] { evolver->simulate(init, controls, p, states); });
    ex.state(std::to_string(n) + std::to_string(thrown) + std::to_string(where));
    ex.nontrivial();
    ex.expect(threw == thrown, "exception-swallowed", "exception of the problem at call " + std::to_string(at) + " was " + (threw ? "invented" : "swallowed"));
    if (!threw) ex.expect(mc::close(states.vector_at_index(4)[0], 10, 1e-9), "wrong-state", "final state " + mc::num(states.vector_at_index(4)[0]));
  });

  // one evolver serves many simulations: earlier ones, failed or not, must not matter
  ex.scenario1("reuse", [&] {
    bool simplified = ex.flag();
    int first = ex.choose(4, "first simulation");
    int second = ex.choose(3, "second simulation");
    auto run = [&](Model::Timeevolver &e, int kind, VectorXd &out) {
      ScriptedProblem p;
      double a = kind == 0 ? 1 : kind == 1 ? -3 : 0.5;
      p.f = [=](double t0, double t1, auto const &ls, auto const &ns, auto const &) -> VectorXd {
        VectorXd r(2);
        r[0] = a * (ns[0] - ls[0]) - (t1 - t0);
        r[1] = ns[1] - ls[1] + ns[0] * 0.1;
        if (kind == 3) r[0] = 1.0;
        return r;
      };
      p.dnew = [=](double, double, auto const &, auto const &, auto const &) -> MatrixXd {
        MatrixXd m(2, 2);
        m << a, 0, 0.1, 1;
        return m;
      };
      Aux::InterpolatingVector states(std::vector<double>{0, 1, 3}, 2);
      Aux::InterpolatingVector controls;
      VectorXd init = VectorXd::Ones(2);
      bool threw = mc::throws([&] { e.simulate(init, controls, p, states); });
      out = threw ? VectorXd(VectorXd::Constant(1, -1)) : VectorXd(states.get_allvalues());
    };
    nlohmann::json s = {{"tolerance", tol}, {"maximal_number_of_newton_iterations", 20}, {"retries", 1}, {"use_simplified_newton", simplified}};
    auto e1 = Model::Timeevolver::make_pointer_instance(s);
    auto e2 = Model::Timeevolver::make_pointer_instance(s);
    VectorXd o, a, b;
    run(*e1, first, o);
    run(*e1, second, a);
    run(*e2, second, b);
    ex.state(a.data(), static_cast<std::size_t>(a.size()), static_cast<std::uint64_t>(first));
    ex.nontrivial();
    ex.expect(a.size() == b.size() && a == b, "history-dependent", "same simulation on a used evolver: " + mc::vec(a) + " fresh: " + mc::vec(b));
  });
  return ex.finish();
}
