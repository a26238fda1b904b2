// C25: gas law, friction, and smoothed functions against the defining formulas, over grids that contain every border.
#include "Gaspowerconnection.hpp"
#include "Isothermaleulerequation.hpp"
#include "Mathfunctions.hpp"
#include "Node.hpp"
#include "mc.hpp"
#include "net.hpp"
using Model::Balancelaw::Isothermaleulerequation;
using Iso = Isothermaleulerequation;
using V2 = Eigen::Vector2d;

static bool near(double a, double b, double rel, double abs = 0) { return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + abs; }
/// fourth order difference
template <class F> static auto slope(F f, double x, double h) -> decltype(f(x)) { return (8.0 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12.0 * h); }
static std::vector<double> around(std::vector<double> v) {
  std::vector<double> r;
  for (double x : v)
    for (double d : {-1e-3, -1e-9, 0.0, 1e-9, 1e-3}) r.push_back(x * (1 + d));
  return r;
}

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  std::vector<double> const diameters = ex.thorough() ? std::vector<double>{0.02, 0.1, 0.25, 0.5, 0.7, 0.9, 1.0, 1.422, 2.5} : std::vector<double>{0.05, 0.5, 0.9144, 1.422};
  std::vector<double> const roughnesses = ex.thorough() ? std::vector<double>{0, 1e-7, 1e-6, 8e-6, 1e-5, 5e-5, 1e-4, 5e-4, 2e-3} : std::vector<double>{0, 1e-6, 8e-6, 5e-4};
  int const fine = ex.pick(60, 400);

  ex.scenario1("friction factor", [&] {
    double d = ex.of(diameters), k = ex.of(roughnesses);
    int part = ex.choose(3, "regime"), i = ex.choose(fine);
    net::Gaslaw g{d, k};
    double Re = part == 0 ? 2000 + 2000.0 * i / (fine - 1) : part == 1 ? 4000 * std::pow(1e5, static_cast<double>(i) / (fine - 1)) : 2000.0 * (i + 0.5) / fine;
    auto what = "diameter " + mc::num(d) + " roughness " + mc::num(k) + " Re " + mc::num(Re);
    ex.state(what);
    ex.nontrivial();
    double perRe = 1 / g.re(1);
    ex.expect(near(Iso::Reynolds(Re * perRe, d), Re, 1e-12) && near(Iso::Reynolds(-Re * perRe, d), Re, 1e-12) && near(Iso::coeff_of_Reynolds(d) * Re * perRe, Re, 1e-12), "reynolds", what + ": Reynolds number");
    if (part == 2) { // below, only the linear law is defined
      ex.expect(mc::throws([&] { Iso::lambda_non_laminar(Re, d, k); }) && mc::throws([&] { Iso::dlambda_non_laminar_dRe(Re, d, k); }), "regime", what + ": turbulent law used for laminar flow");
      return;
    }
    double l = Iso::lambda_non_laminar(Re, d, k), dl = Iso::dlambda_non_laminar_dRe(Re, d, k);
    ex.expect(near(l, g.lambda(Re), 1e-10), "lambda", what + ": friction factor " + mc::num(l) + " instead of " + mc::num(g.lambda(Re)));
    double h = Re * 1e-4;
    if (std::abs(Re - 4000) > 2.5 * h && Re - 2 * h > 2000) {
      double s = slope([&](double x) { return g.lambda(x); }, Re, h);
      ex.expect(near(dl, s, 1e-6, 1e-13), "slope", what + ": slope of the friction factor " + mc::num(dl) + " instead of " + mc::num(s));
    }
    if (part == 0 && i == 0) ex.expect(near(l, 64 / Re, 1e-9) && near(dl, -64 / Re / Re, 1e-9), "border", what + ": no smooth transition from laminar flow");
    for (double sign : {1.0, -1.0}) {
      double got = Iso::dReynolds_dq(sign * Re * perRe, d);
      if (Re > 2000) ex.expect(near(got, sign / perRe, 1e-12), "reynolds", what + ": derivative of the Reynolds number");
    }
    if (part == 1) {
      ex.expect(near(Iso::Swamee_Jain(Re, d, k), g.swamee(Re), 1e-12) && near(Iso::dSwamee_Jain_dRe(Re, d, k), g.dswamee(Re), 1e-10), "lambda", what + ": formula of Swamee and Jain");
      double e = Iso::exact_turbulent_lambda(Re, d, k), mu = 1 / std::sqrt(e);
      double left = mu + 2 * std::log10(2.51 / Re * mu + k / (3.71 * d));
      ex.expect(e > 0 && std::abs(left) < 1e-9, "colebrook", what + ": the exact friction factor leaves " + mc::num(left) + " in the equation of Colebrook and White");
    } else if (Re < 3999) {
      ex.expect(mc::throws([&] { Iso::Swamee_Jain(Re, d, k); }) && mc::throws([&] { Iso::dSwamee_Jain_dRe(Re, d, k); }) && mc::throws([&] { Iso::exact_turbulent_lambda(Re, d, k); }), "regime", what + ": turbulent law used below its range");
    }
  });

  ex.scenario1("gas law", [&] {
    Iso iso(nlohmann::json{{"diameter", net::measure(0.5, "m")}, {"roughness", net::measure(1e-5, "m")}});
    double p = ex.of(std::vector<double>{0, 1, 1e3, 1e5, 5e5, 2e6, 6e6, 8e6, 1e7, 1.5e7}) * ex.of(std::vector<double>{1, 1.0123, 1.37});
    double q = ex.of(std::vector<double>{-300, -1, 0, 1e-3, 250});
    auto what = "pressure " + mc::num(p) + " flow " + mc::num(q);
    ex.state(what);
    ex.nontrivial();
    double rho = iso.rho(p);
    ex.expect(near(rho, net::Gaslaw::density(p), 1e-12), "density", what + ": density " + mc::num(rho));
    ex.expect(near(iso.p(rho), p, 1e-11) && near(iso.p(rho), net::Gaslaw::pressure(rho), 1e-11), "inverse", what + ": pressure of the density is " + mc::num(iso.p(rho)));
    double h = 1e-3 * rho + 1e-3;
    ex.expect(near(iso.dp_drho(rho), slope([&](double r) { return net::Gaslaw::pressure(r); }, rho, h), 1e-7) && iso.dp_drho(rho) > 0, "slope", what + ": slope of the pressure");
    ex.expect(near(iso.p_pascal_from_p_bar(p), p * 1e5, 1e-14) && near(iso.p_bar_from_p_pascal(p), p / 1e5, 1e-14) && near(iso.dp_bar_from_p_pascal_dp_pascal(p), 1e-5, 1e-14), "units", what + ": conversion to bar");
    V2 s(rho, q), pq = iso.p_qvol(s), back = iso.state(pq), bar = iso.p_qvol_bar_from_p_qvol(pq), pascal = iso.p_qvol_from_p_qvol_bar(bar);
    ex.expect(near(pq[0], p, 1e-11) && pq[1] == q && near(back[0], rho, 1e-11) && back[1] == q, "inverse", what + ": state to pressure and flow and back");
    ex.expect(near(bar[0], p / 1e5, 1e-11) && bar[1] == q && near(pascal[0], p, 1e-11) && pascal[1] == q, "units", what + ": conversion of a state to bar and back");
    auto d1 = iso.dp_qvol_dstate(s), d2 = iso.dp_qvol_bar_from_p_qvold_p_qvol(pq);
    ex.expect(near(d1(0, 0), iso.dp_drho(rho), 1e-14) && d1(0, 1) == 0 && d1(1, 0) == 0 && d1(1, 1) == 1 && near(d2(0, 0), 1e-5, 1e-14) && d2(0, 1) == 0 && d2(1, 0) == 0 && d2(1, 1) == 1, "slope", what + ": derivative of the change of variables");
  });

  ex.scenario1("flux and source", [&] {
    double d = ex.of(diameters), k = ex.of(roughnesses);
    double rho = ex.of(std::vector<double>{0.5, 4.0, 50.0});
    net::Gaslaw g{d, k};
    double Re = ex.of(around({1e-2, 700, 2000, 3000, 4000, 1e5, 3e7}));
    double q = (ex.flag() ? -1 : 1) * Re / g.re(1);
    if (ex.flag()) q = 0;
    Iso iso(nlohmann::json{{"diameter", net::measure(d, "m")}, {"roughness", net::measure(k, "m")}});
    auto what = "diameter " + mc::num(d) + " roughness " + mc::num(k) + " density " + mc::num(rho) + " flow " + mc::num(q) + " Re " + mc::num(Re);
    ex.state(what);
    ex.nontrivial();
    double A = g.area(), r0 = g.rho0;
    auto flux = [&](double r, double f) { return V2(r0 / A * f, A / r0 * net::Gaslaw::pressure(r) + r0 / A * f * f / r); };
    auto source = [&](double r, double f) { return V2(0, g.friction(r, f)); };
    V2 s(rho, q), F = iso.flux(s), S = iso.source(s), f0 = flux(rho, q), s0 = source(rho, q);
    ex.expect(near(F[0], f0[0], 1e-11) && near(F[1], f0[1], 1e-11), "flux", what + ": flux " + mc::num(F[0]) + ", " + mc::num(F[1]));
    ex.expect(S[0] == 0 && near(S[1], s0[1], 1e-8), "friction", what + ": friction " + mc::num(S[1]) + " instead of " + mc::num(s0[1]));
    ex.expect(S[1] * q <= 0, "friction", what + ": friction accelerates");
    auto dF = iso.dflux_dstate(s), dS = iso.dsource_dstate(s);
    double hr = 1e-3 * rho, hq = std::max(1e-4 * std::abs(q), 1e-9);
    V2 fr = slope([&](double x) -> V2 { return flux(x, q); }, rho, hr), fq = slope([&](double x) -> V2 { return flux(rho, x); }, q, hq);
    for (int i = 0; i < 2; ++i)
      ex.expect(near(dF(i, 0), fr[i], 1e-6, 1e-6 * std::abs(F[i]) / rho) && near(dF(i, 1), fq[i], 1e-5, 1e-10 * std::abs(F[i]) / hq + 1e-12), "slope", what + ": derivative of the flux, row " + std::to_string(i));
    V2 sr = slope([&](double x) -> V2 { return source(x, q); }, rho, hr);
    ex.expect(dS(0, 0) == 0 && dS(0, 1) == 0 && near(dS(1, 0), sr[1], 1e-6), "slope", what + ": derivative of the friction with respect to the density");
    // the friction is differentiable across its borders; at them a one-sided difference is of lower order
    double here = g.re(q);
    bool border = std::abs(here - 2000) < 3 * g.re(hq) || std::abs(here - 4000) < 3 * g.re(hq);
    double sq = slope([&](double x) { return g.friction(rho, x); }, q, hq);
    ex.expect(near(dS(1, 1), sq, border ? 2e-3 : 1e-5, 1e-9 * std::abs(S[1]) / hq), "slope", what + ": derivative of the friction with respect to the flow is " + mc::num(dS(1, 1)) + " instead of " + mc::num(sq));
  });

  ex.scenario1("smoothed functions", [&] {
    double x = ex.of(around({1e-13, 2e-13, 1e-9, 1e-5, 2e-5, 5e-5, 9e-5, 1e-4, 1.1e-4, 1e-3, 0.5, 7, 1e9})) * (ex.flag() ? -1 : 1);
    if (ex.flag()) x = 0;
    ex.state(mc::num(x));
    ex.nontrivial();
    double const eps = 1e-4;
    auto want = [&](double y) { double r = y / eps; return std::abs(y) >= eps ? std::abs(y) : y * r / 2 * (3 - r * r); };
    auto dwant = [&](double y) { double r = y / eps; return y >= eps ? 1 : y <= -eps ? -1 : r * (3 - 2 * r * r); };
    ex.expect(near(Aux::smooth_abs(x), want(x), 1e-12) && Aux::smooth_abs(x) == Aux::smooth_abs(-x) && Aux::smooth_abs(x) >= 0, "smooth-abs", "smooth absolute value of " + mc::num(x) + " is " + mc::num(Aux::smooth_abs(x)));
    ex.expect(near(Aux::dsmooth_abs_dx(x), dwant(x), 1e-12), "smooth-abs", "slope of the smooth absolute value at " + mc::num(x) + " is " + mc::num(Aux::dsmooth_abs_dx(x)));
    if (std::abs(x) < 0.99e-13)
      ex.expect(mc::throws([&] { Aux::dabs_dx(x); }), "abs", "the absolute value has a derivative at " + mc::num(x));
    else if (std::abs(x) > 1.01e-13)
      ex.expect(Aux::dabs_dx(x) == (x > 0 ? 1 : -1), "abs", "wrong derivative of the absolute value at " + mc::num(x));
    ex.expect(near(Aux::circle_area(x), 3.14159265358979323846 * x * x, 1e-14), "circle", "area of a circle of radius " + mc::num(x));
  });

  ex.scenario1("power of a gas flow", [&] {
    double a = ex.of(std::vector<double>{0, 0.3, 1, -2, 40}), b = ex.of(std::vector<double>{0, 0.3, 2.5, -1, 43});
    double q = (ex.of(around({60, 30, 59.9, 60.1, 1e-3, 1e3})) ) * (ex.flag() ? -1 : 1);
    if (ex.flag()) q = 0;
    auto what = "coefficients " + mc::num(a) + ", " + mc::num(b) + " flow " + mc::num(q);
    ex.state(what);
    ex.nontrivial();
    std::vector<std::unique_ptr<Network::Node>> nodes;
    nodes.push_back(std::make_unique<Network::Node>(nlohmann::json{{"id", "a"}}));
    nodes.push_back(std::make_unique<Network::Node>(nlohmann::json{{"id", "b"}}));
    Model::Gaspowerconnection::Gaspowerconnection c(nlohmann::json{{"id", "c"}, {"from", "a"}, {"to", "b"}, {"gas2power_q_coeff", a}, {"power2gas_q_coeff", b}}, nodes);
    auto want = [&](double y) {
      double r = y / 60;
      return y > 60 ? a * y : y < -60 ? b * y : y * (0.5 * (a + b) - 0.75 * (b - a) * r + 0.25 * (b - a) * r * r * r);
    };
    ex.expect(near(c.generated_power(q), want(q), 1e-10, 1e-10), "power", what + ": generates " + mc::num(c.generated_power(q)) + " instead of " + mc::num(want(q)));
    double s = slope(want, q, 2e-4);
    ex.expect(near(c.dgenerated_power_dq(q), s, 1e-5, 1e-5 * (1 + std::abs(a) + std::abs(b))), "slope", what + ": slope of the power is " + mc::num(c.dgenerated_power_dq(q)) + " instead of " + mc::num(s));
    if (std::abs(q) <= 60)
      ex.expect(near(c.smoothing_polynomial(q), want(q), 1e-10, 1e-10) && near(c.dsmoothing_polynomial_dq(q), s, 1e-5, 1e-5 * (1 + std::abs(a) + std::abs(b))), "power", what + ": smoothing polynomial");
    else if (std::abs(q) > 60.001)
      ex.expect(mc::throws([&] { c.smoothing_polynomial(q); }) && mc::throws([&] { c.dsmoothing_polynomial_dq(q); }), "regime", what + ": the polynomial was used outside its range");
  });
  return ex.finish();
}
