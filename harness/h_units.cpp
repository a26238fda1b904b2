// C17: quantities with units.
#include "net.hpp"
#include "unit_conversion.hpp"
using nlohmann::json;
namespace unit = Aux::unit;

struct Unit {
  std::string symbol;
  double factor, offset = 0;
  int power = 1; // of the metre, to which a prefix belongs
};
struct Quantity {
  std::string name;
  unit::Measure const &measure;
  std::vector<Unit> units;
};
static std::vector<Quantity> const &quantities() {
  static std::vector<Quantity> const q = {
      {"length", unit::length, {{"m", 1}, {"in", 0.0254}, {"ft", 0.3048}, {"yd", 0.9144}, {"mi", 1609.344}}},
      {"area", unit::area, {{"m^2", 1, 0, 2}, {"ac", 4046.9}, {"acre", 4046.9}}},
      {"volume", unit::volume, {{"m^3", 1, 0, 3}, {"L", 0.001}, {"l", 0.001}}},
      {"pressure", unit::pressure, {{"Pa", 1}, {"bar", 100000}, {"atm", 101325}, {"psi", 6894.757}}},
      {"frequency", unit::frequency, {{"Hz", 1}, {"per_min", 1 / 60.0}, {"per_minute", 1 / 60.0}}},
      {"force", unit::force, {{"N", 1}}},
      {"power", unit::power, {{"W", 1}, {"PS", 735.49875}}},
      {"mass", unit::mass, {{"g", 0.001}, {"t", 1000}, {"oz", 0.028349523125}, {"lb", 0.45359237}}},
      {"flux", unit::volume_flux, {{"m_cube_per_s", 1}, {"1000m_cube_per_hour", 1 / 3.6}}},
      {"temperature", unit::temperature, {{"K", 1}, {"C", 1, 273.15}, {"Celsius", 1, 273.15}, {"F", 5 / 9.0, 459.67 * 5 / 9}}}};
  return q;
}
static std::vector<std::pair<std::string, int>> const prefixes = {{"", 0}, {"Y", 24}, {"Z", 21}, {"E", 18}, {"P", 15}, {"T", 12}, {"G", 9}, {"M", 6}, {"k", 3}, {"h", 2}, {"da", 1}, {"d", -1}, {"c", -2}, {"m", -3}, {"mu", -6}, {"n", -9}, {"p", -12}, {"f", -15}, {"a", -18}, {"z", -21}, {"y", -24}};

/// The meanings a unit string has, as number to multiply with and unit; none if it has none.
static std::vector<std::pair<double, Unit>> meanings(Quantity const &q, std::string s) {
  double number = 1;
  auto space = s.find(' ');
  if (space != std::string::npos) {
    // digits [. digits] [e [-] digits], with at least one digit before the exponent
    std::size_t i = 0, digits = 0;
    auto eat = [&] {
      std::size_t n = 0;
      while (i < space && std::isdigit(static_cast<unsigned char>(s[i]))) ++i, ++n;
      return n;
    };
    digits += eat();
    if (i < space && s[i] == '.') {
      ++i;
      auto n = eat();
      if (n == 0) return {};
      digits += n;
    }
    if (digits == 0) return {};
    if (i < space && s[i] == 'e') {
      ++i;
      if (i < space && s[i] == '-') ++i;
      if (eat() == 0) return {};
    }
    if (i != space) return {};
    number = std::strtod(s.substr(0, space).c_str(), nullptr);
    s = s.substr(space + 1);
  }
  std::vector<std::pair<double, Unit>> r;
  for (auto const &u : q.units)
    for (auto const &[p, e] : prefixes)
      if (s == p + u.symbol) r.emplace_back(number * std::pow(10.0, e * u.power), u);
  return r;
}
/// what the library says: value, or nothing if it refuses
static bool ask(unit::Measure const &m, json const &j, double &value) {
  try {
    value = m.parse_to_si(j);
    return true;
  } catch (std::exception const &) { return false; }
}

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  std::vector<double> const values = {1, 0, -3.5, 273.25, 1e-5};
  std::vector<std::string> const numbers = {"", "1 ", "1000 ", "0.5 ", ".25 ", "2e3 ", "1.5e-2 ", "007 ", "0 "};

  auto judge = [&](Quantity const &q, json const &value, std::string const &text) {
    double got = 0;
    bool accepted = ask(q.measure, {{"value", value}, {"unit", text}}, got);
    auto want = meanings(q, text);
    std::string what = q.name + " " + value.dump() + " \"" + text + "\"";
    ex.state(what);
    ex.note(what);
    ex.expect(accepted == !want.empty(), accepted ? "accepted" : "refused", what + (accepted ? " is accepted as " + mc::num(got) : " is refused"));
    if (!accepted || want.empty()) return;
    bool good = false;
    for (auto const &[n, u] : want) {
      double x = value.get<double>() * n * u.factor + u.offset;
      good = good || std::abs(got - x) <= 1e-12 * std::max(std::abs(x), std::abs(u.offset));
    }
    double n = want[0].first;
    ex.expect(good, "value", what + " is " + mc::num(got) + " instead of " + mc::num(value.get<double>() * n * want[0].second.factor + want[0].second.offset));
    ex.nontrivial();
  };

  ex.scenario("every unit", [&] {
    auto const &q = ex.of(quantities());
    auto const &u = ex.of(q.units);
    auto const &p = ex.of(prefixes);
    ex.split();
    // whether a prefix of a cubic metre written without its power counts once or thrice is not defined
    if (q.name == "flux" && !p.first.empty()) ex.skip();
    judge(q, ex.of(values), ex.of(numbers) + p.first + u.symbol);
  });
  ex.scenario("units of other quantities", [&] {
    auto const &q = ex.of(quantities());
    auto const &other = ex.of(quantities());
    ex.split();
    if (q.name == "flux" || other.name == "flux") ex.skip();
    auto const &u = ex.of(other.units);
    judge(q, 2, std::string(ex.flag() ? "3 " : "") + ex.of(prefixes).first + u.symbol);
  });
  ex.scenario("every string", [&] {
    static std::vector<std::pair<std::string, std::string>> const alphabets = {
        {"length", "mkdaui1.e- f"}, {"temperature", "KCdaF0 m5."}, {"area", "mk^2ac 3"}};
    auto const &[name, letters] = ex.of(alphabets);
    int length = ex.choose(ex.thorough() ? 7 : 5);
    std::string s;
    for (int i = 0; i < length; ++i) {
      s += letters[static_cast<std::size_t>(ex.choose(static_cast<int>(letters.size())))];
      if (i == 1) ex.split();
    }
    if (length < 2) ex.split();
    for (auto const &q : quantities())
      if (q.name == name) judge(q, 1.5, s);
  });
  ex.scenario("numbers", [&] {
    std::string s;
    static std::string const letters = "05.e-+ x";
    int length = ex.choose(ex.thorough() ? 7 : 5);
    for (int i = 0; i < length; ++i) s += letters[static_cast<std::size_t>(ex.choose(8))];
    ex.split();
    judge(quantities()[0], 2, s + ex.of(std::vector<std::string>{" km", "km", " in"}));
  });
  ex.scenario("malformed measurements", [&] {
    auto const &q = ex.of(quantities());
    ex.split();
    std::string u = q.units[0].symbol;
    std::vector<json> const bad = {nullptr, 3, "3 m", json::array(), json::object(), {{"value", 1}}, {{"unit", u}}, {{"value", "1"}, {"unit", u}}, {{"value", nullptr}, {"unit", u}}, {{"value", true}, {"unit", u}},
                                   {{"value", json::array({1})}, {"unit", u}}, {{"value", 1}, {"unit", 1}}, {{"value", 1}, {"unit", nullptr}}, {{"value", 1}, {"unit", json::array({u})}}, {{"value", 1}, {"unit", u}, {"extra", 1}},
                                   {{"Value", 1}, {"unit", u}}, {{"value", 1}, {"unit", ""}}, {{"value", 1}, {"unit", " " + u}}, {{"value", 1}, {"unit", u + " "}}, {{"value", 1}, {"unit", "1  " + u}}, {{"value", 1}, {"unit", "1 1 " + u}},
                                   {{"value", 1}, {"unit", "-1 " + u}}, {{"value", 1}, {"unit", "1" + std::string("\t") + u}}, {{"value", 1}, {"unit", u + u}}, {{"value", 1}, {"unit", "x" + u}}, {{"value", 1}, {"unit", "k k" + u}}, {{"id", 1}}};
    auto const &j = ex.of(bad);
    // "mmm" and the like may be something with a prefix
    if (j.is_object() && j.contains("unit") && j["unit"].is_string() && j.contains("value") && j.size() == 2 && !meanings(q, j["unit"].get<std::string>()).empty()) ex.skip();
    std::string what = q.name + " " + j.dump();
    ex.note(what);
    ex.state(what);
    ex.nontrivial();
    double got = 0;
    int rc = mc::in_child([&] { q.measure.parse_to_si(j); });
    ex.expect(rc == 1, rc == 0 ? "accepted" : "crash", what + (rc == 0 ? " is accepted" : " crashes"));
    (void)got;
  });
  // a network means the same whatever units its lengths are written in
  ex.scenario("pipes", [&] {
    auto which = ex.of(std::vector<std::string>{"length", "diameter", "roughness"});
    auto const &u = ex.of(quantities()[0].units);
    auto const &p = ex.of(prefixes);
    ex.split();
    auto const &number = ex.of(numbers);
    std::string text = number + p.first + u.symbol;
    auto m = meanings(quantities()[0], text);
    double factor = m.at(0).first * m.at(0).second.factor;
    if (factor == 0) ex.skip();
    double base = which == "length" ? 12500 : which == "diameter" ? 0.6 : 1e-5;
    auto make = [&](json const &q) {
      net::Spec s;
      s.nodes = {net::gasnode("a", "Source", {{0, {50}}, {9, {50}}}), net::gasnode("b", "Sink", {{0, {50}}, {9, {50}}})};
      s.edges = {net::pipe("p", "a", "b", {12.5, 600, 1e-5, 5000}, 60, 59, 50)};
      s.edges[0].extra[which] = q;
      return net::problem(net::input(s));
    };
    auto one = make({{"value", base}, {"unit", "m"}}), two = make({{"value", base / factor}, {"unit", text}});
    std::string what = which + " in " + text;
    ex.state(what);
    ex.note(what);
    ex.nontrivial();
    auto n = one->get_number_of_states();
    ex.expect(two->get_number_of_states() == n, "pipe", what + ": " + std::to_string(two->get_number_of_states()) + " instead of " + std::to_string(n) + " states");
    Eigen::VectorXd x(n), y(n), c(0), r1(n), r2(n);
    for (Eigen::Index i = 0; i < n; ++i) {
      x[i] = i % 2 ? 300 + 10 * double(i) : 50 + double(i);
      y[i] = i % 2 ? 280 + 11 * double(i) : 51 + 0.5 * double(i);
    }
    one->evaluate(r1, 0, 1, x, y, c);
    two->evaluate(r2, 0, 1, x, y, c);
    for (Eigen::Index i = 0; i < n; ++i) ex.expect(mc::close(r2[i], r1[i], 1e-9, 1e-9), "pipe", what + ": equation " + std::to_string(i) + " is " + mc::num(r2[i]) + " instead of " + mc::num(r1[i]));
  });
  return ex.finish();
}
