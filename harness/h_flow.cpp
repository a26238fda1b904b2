// C05: every network of a bounded family is simulated with the real code; the results json is
// checked against an independent formulation of the physics.
#include "netgen.hpp"
using namespace net;

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  auto run = [&](Spec const &s, double dt, int steps) {
    bool simplified = ex.flag();
    auto in = input(s);
    // a tolerance above the rounding of the largest term, pressure gradient times time step
    double tolerance = 1e-9;
    for (auto const &e : s.edges)
      if (e.type == "Pipe") {
        double d = e.extra["diameter"]["value"].get<double>() / 1000, l = e.extra["length"]["value"].get<double>() * 1000;
        double dx = l / std::ceil(l / e.extra["desired_delta_x"].get<double>());
        tolerance = std::max(tolerance, 2e-14 * dt / dx * d * d * 6e6);
      }
    auto r = simulate(in, dt, steps, simplified, 0, 0, tolerance);
    auto what = s.describe() + (simplified ? "simplified newton" : "full newton");
    ex.note(what);
    if (!r.ok) { // Newton's method may stall where the friction law has a kink; then the other variant has to work
      ex.count("one solver variant failed");
      r = simulate(in, dt, steps, !simplified, 0, 0, tolerance);
    }
    ex.expect(r.ok, "no-solution", what + ": simulation failed: " + r.error);
    ex.nontrivial();
    ex.state(r.out.dump());
    Results res{ex, s, r.out, r.times};
    res.what = what;
    res.constraints = &r.constraints;
    res.gas();
    res.electric();
  };
  ex.scenario("gas 2 nodes", [&] { run(gas_network(ex, 2), 1800, 2); });
  ex.scenario("gas 3 nodes", [&] { run(gas_network(ex, 3), 1800, 2); });
  ex.scenario("gas star", [&] { run(gas_star(ex), 1800, 2); });
  ex.scenario("power star", [&] { run(power_star(ex), 900, 2); });
  ex.scenario("pipe regimes", [&] { run(pipe_network(ex), ex.of(std::vector<double>{60, 1800}), 3); });
  ex.scenario("power", [&] { run(power_network(ex), 900, 3); });
  ex.scenario("gas and power", [&] { run(coupled_network(ex), 1800, 2); });
  return ex.finish();
}
