// C18: defaults stand for the values they replace, and generated schemas say what grazer accepts.
#include "net.hpp"
#include "schema_generation.hpp"
#include "schema_validation.hpp"
#include "commands.hpp"
#include <filesystem>
using nlohmann::json;

// ---------------------------------------------------------------- a network with every component type
static net::Series const T(std::vector<double> a, std::vector<double> b) { return {{0, a}, {1800, b}}; }
static net::Spec everything() {
  net::Spec s;
  auto st = net::powernode("st", "StochasticPQnode", 0.4, -8, T({-0.1, -0.02}, {-0.1, -0.02}));
  st.extra.update({{"stability_parameter", 1.0}, {"cut_off_factor", 0.2}, {"sigma_P", 0.01}, {"theta_P", 0.3}, {"sigma_Q", 0.02}, {"theta_Q", 0.4}, {"number_of_stochastic_steps", 50}});
  s.nodes = {net::gasnode("pb", "Pressureboundarynode", T({60}, {61})), net::gasnode("i1", "Innode"), net::gasnode("i2", "Innode"), net::gasnode("si", "Sink", T({20}, {22})),
             net::gasnode("so", "Source", T({4}, {5})), net::gasnode("con", "ConstraintSink", T({1}, {2})), net::powernode("pl", "ExternalPowerplant", 0.4, -8, T({1, 0}, {1, 0.1})),
             net::powernode("pq", "PQnode", 1.9, -28, T({-0.2, -0.05}, {-0.1, -0.04})), net::powernode("pv", "PVnode", 2.3, -36, T({-0.1, 1}, {-0.2, 1})),
             net::powernode("vp", "Vphinode", 0.4, -8, T({1, 0}, {1.01, 0})), st,
             net::gasnode("sj", "Sink", T({21}, {23})), net::gasnode("sk", "Sink", T({19}, {24})), net::powernode("pr", "PQnode", 1.8, -27, T({-0.3, -0.06}, {-0.2, -0.05})),
             net::powernode("ps", "PQnode", 1.7, -26, T({-0.4, -0.07}, {-0.3, -0.06}))};
  s.edges = {net::pipe("p1", "pb", "i1", {10, 600, 1e-5, 5000}, 60, 59, 20), net::pipe("p2", "i2", "con", {7, 500, 2e-5, 5000}, 60, 59, 2),
             net::shortedge("sp", "Shortpipe", "i1", "i2", 60, 60, 20), net::shortedge("cv", "Controlvalve", "i2", "si", 60, 59, 20, T({1}, {1.5})),
             net::shortedge("cs", "Compressorstation", "i2", "so", 60, 60, -4, T({0}, {0.5})), net::gaspower("gp", "i1", "pl", 0.01, 0.012, 60, 0),
             net::line("t1", "pl", "pq", -0.4, 8), net::line("t2", "pq", "pv", -1.5, 20), net::line("t3", "pv", "vp", -0.4, 8), net::line("t4", "st", "pv", -0.4, 8), net::shortedge("sq", "Shortpipe", "i2", "sj", 60, 60, 20), net::shortedge("sr", "Shortpipe", "i2", "sk", 60, 60, 20),
             net::line("t5", "pq", "pr", -0.4, 8), net::line("t6", "pr", "ps", -0.4, 8)};
  return s;
}
/// A shortened input, in which some nodes have no boundary values.
static net::Input full_input() {
  auto in = net::input(everything());
  for (auto &c : in.boundary["nodes"]["StochasticPQnode"]) c["seed"] = {1, 2, 3, 4, 5, 6, 7, 8};
  for (auto *j : {&in.topology, &in.boundary, &in.initial, &in.control})
    for (auto const *cls : {"nodes", "connections"})
      if (!j->contains(cls)) (*j)[cls] = json::object();
  return in;
}
struct Type {
  std::string cls, name;
  std::vector<std::string> properties; // "boundary_values" for these
};
static std::vector<Type> const &types() {
  static std::vector<Type> const t = {{"nodes", "Pressureboundarynode", {"boundary_values"}}, {"nodes", "Sink", {"boundary_values"}}, {"nodes", "Source", {"boundary_values"}}, {"nodes", "ConstraintSink", {"boundary_values"}},
                                      {"nodes", "ExternalPowerplant", {"G", "B", "boundary_values"}}, {"nodes", "PQnode", {"G", "B", "boundary_values"}}, {"nodes", "PVnode", {"G", "B", "boundary_values"}}, {"nodes", "Vphinode", {"G", "B", "boundary_values"}},
                                      {"nodes", "StochasticPQnode", {"G", "B", "boundary_values", "stability_parameter", "cut_off_factor", "sigma_P", "theta_P", "sigma_Q", "theta_Q", "number_of_stochastic_steps"}},
                                      {"connections", "Pipe", {"length", "diameter", "roughness", "desired_delta_x", "balancelaw", "scheme"}}, {"connections", "Gaspowerconnection", {"gas2power_q_coeff", "power2gas_q_coeff"}}, {"connections", "Transmissionline", {"G", "B"}}};
  return t;
}
/// the values of the first component of its type
static json value_of(net::Input const &in, Type const &t, std::string const &p, std::size_t k = 0) {
  if (p == "boundary_values") {
    json v = in.boundary.at(t.cls).at(t.name).at(k);
    v.erase("id");
    return v;
  }
  return in.topology.at(t.cls).at(t.name).at(k).at(p);
}
static json other(json v) { // something valid and different
  if (v.is_string()) return v;
  if (v.is_number_integer()) return v.get<int>() + 7;
  if (v.is_number()) return v.get<double>() * 1.5;
  if (v.contains("unit")) v["value"] = v["value"].get<double>() * 0.5;
  if (v.contains("data"))
    for (auto &d : v["data"])
      for (auto &x : d["values"]) x = x.get<double>() + 0.25;
  return v;
}
static void take(net::Input &in, Type const &t, std::string const &p, std::size_t k) {
  if (p == "boundary_values") {
    auto &l = in.boundary[t.cls][t.name];
    auto id = in.topology[t.cls][t.name][k]["id"];
    for (std::size_t i = 0; i < l.size(); ++i)
      if (l[i]["id"] == id) {
        l.erase(i);
        break;
      }
    if (l.empty()) in.boundary[t.cls].erase(t.name);
  } else
    in.topology[t.cls][t.name][k].erase(p);
}
/// everything that can be seen of a problem, as numbers; nothing if it is refused
static std::vector<double> behaviour(net::Input const &in, json const &defaults, std::string *why = nullptr) {
  std::unique_ptr<Model::Networkproblem> p;
  try {
    p = net::problem(in, defaults);
  } catch (std::exception const &e) {
    if (why) *why = e.what();
    return {};
  }
  auto n = p->get_number_of_states();
  Eigen::VectorXd x(n), y(n), r(n), c(p->get_number_of_controls_per_timepoint());
  for (Eigen::Index i = 0; i < n; ++i) {
    x[i] = i % 2 ? 0.3 * double(i) : 40 + double(i);
    y[i] = i % 2 ? 0.2 + 0.31 * double(i) : 41 + 0.5 * double(i);
  }
  c.setConstant(0.75);
  std::vector<double> v = {double(n), double(c.size())};
  for (double t : {0.0, 600.0, 1200.0}) {
    p->prepare_timestep(t, t + 600, x, c);
    p->evaluate(r, t, t + 600, x, y, c);
    v.insert(v.end(), r.data(), r.data() + n);
  }
  return v;
}
static std::vector<double> const &original() {
  static auto const v = behaviour(full_input(), json::object());
  return v;
}

// ---------------------------------------------------------------- an independent judge of small schemas
static bool conforms(json const &s, json const &d) {
  auto t = s.at("type").get<std::string>();
  if (t == "number") return d.is_number();
  if (t == "string") return d.is_string();
  if (!d.is_object()) return false;
  if (s.contains("required"))
    for (auto const &r : s["required"])
      if (!d.contains(r.get<std::string>())) return false;
  if (s.contains("properties"))
    for (auto const &[k, p] : s["properties"].items())
      if (d.contains(k) && !conforms(p, d[k])) return false;
  return true;
}

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  auto same = [&](std::vector<double> const &a, std::string const &what, std::string const &why) {
    ex.expect(!a.empty(), "refused", what + ": refused: " + why.substr(0, 700));
    ex.expect(a == original(), "different", what + ": the network is another one");
  };

  ex.scenario1("reference", [&] {
    ex.nontrivial();
    ex.expect(original().size() > 60, "refused", "the network is refused");
  });

  // every set of properties of one type as defaults
  ex.scenario("defaults", [&] {
    auto const &t = ex.of(types());
    int mode = ex.choose(4); // absent in the component; other default, own value wins; an empty default besides; default of another type
    ex.split();
    auto in = full_input();
    json defaults = json::object();
    std::string what = t.name + " mode " + std::to_string(mode) + ":";
    // several components of a type share the defaults: only what is equal can be taken from all
    std::size_t n = in.topology[t.cls][t.name].size();
    bool any = false;
    for (auto const &p : t.properties) {
      if (!ex.flag()) continue;
      any = true;
      what += " " + p;
      std::size_t k = n > 1 ? static_cast<std::size_t>(ex.choose(static_cast<int>(n))) : 0;
      auto v = value_of(in, t, p, k);
      if (mode == 1)
        defaults[t.name][p] = other(v);
      else {
        defaults[t.name][p] = v;
        auto id = in.topology[t.cls][t.name][k]["id"];
        take(in, t, p, k);
      }
      if (mode == 3) defaults[t.name == "Pipe" ? "Transmissionline" : "Pipe"][t.name == "Pipe" ? "G" : "desired_delta_x"] = 123;
    }
    if (!any) ex.skip();
    if (mode == 2) defaults["Sink"].update(json::object());
    if (defaults.contains("Sink") && defaults["Sink"].is_null()) defaults["Sink"] = json::object();
    ex.state(what);
    ex.note(what);
    ex.nontrivial();
    std::string why;
    auto got = behaviour(in, defaults, &why);
    same(got, what, why);
  });
  // properties of two types, all of each
  ex.scenario("defaults of two types", [&] {
    auto const &a = ex.of(types());
    auto const &b = ex.of(types());
    ex.split();
    if (!(a.name < b.name)) ex.skip();
    auto in = full_input();
    json defaults = json::object();
    std::string what;
    for (auto const *t : {&a, &b}) {
      auto const &p = ex.of(t->properties);
      defaults[t->name][p] = value_of(in, *t, p);
      take(in, *t, p, 0);
      what += t->name + "." + p + " ";
    }
    ex.state(what);
    ex.note(what);
    ex.nontrivial();
    std::string why;
    auto got = behaviour(in, defaults, &why);
    same(got, what, why);
  });
  // parts of a property that is an object
  ex.scenario("partial defaults", [&] {
    auto const &t = types()[9];
    ex.split();
    auto p = ex.of(std::vector<std::string>{"length", "diameter", "roughness"});
    auto in = full_input();
    json defaults = json::object();
    int k = ex.choose(2);
    auto v = value_of(in, t, p, static_cast<std::size_t>(k));
    auto part = ex.of(std::vector<std::string>{"value", "unit"});
    bool wins = ex.flag();
    if (wins)
      defaults["Pipe"][p] = {{part, part == "unit" ? json("mi") : json(17)}};
    else {
      defaults["Pipe"][p] = {{part, v[part]}};
      in.topology["connections"]["Pipe"][static_cast<std::size_t>(k)][p].erase(part);
    }
    std::string what = "default " + defaults.dump() + (wins ? " besides a value" : "");
    ex.state(what);
    ex.note(what);
    ex.nontrivial();
    std::string why;
    auto got = behaviour(in, defaults, &why);
    same(got, what, why);
    // without the other part it is no length
    in.topology["connections"]["Pipe"][static_cast<std::size_t>(k)].erase(p);
    ex.expect(behaviour(in, defaults).empty(), "accepted", what + ": half a quantity is accepted");
  });
  // what must be refused
  ex.scenario("neither value nor default", [&] {
    auto const &t = ex.of(types());
    ex.split();
    auto const &p = ex.of(t.properties);
    auto in = full_input();
    json defaults = json::object();
    take(in, t, p, 0);
    std::string what = t.name + "." + p;
    switch (ex.choose(5)) {
      case 0: break;
      case 1: defaults["Sink"] = json::object(); break;
      case 2: // a default for another type is none for this
        defaults["nothing"][p] = value_of(full_input(), t, p);
        what += " as default of an unknown type";
        break;
      case 3:
        for (auto const &q : t.properties)
          if (q != p) defaults[t.name][q] = value_of(full_input(), t, q);
        what += " with defaults for the rest";
        break;
      case 4:
        defaults[t.name][p] = json::array({true});
        what += " with a default of wrong kind";
        break;
    }
    ex.state(what);
    ex.note(what);
    ex.nontrivial();
    ex.expect(behaviour(in, defaults).empty(), "accepted", what + ": accepted without value");
  });
  ex.scenario("unknown defaults", [&] {
    auto const &t = ex.of(types());
    ex.split();
    auto name = ex.of(std::vector<std::string>{"Length", "nothing", "desired_delta_t", "_", ""});
    json defaults;
    defaults[t.name][name] = ex.of(std::vector<json>{1, "x", nullptr, json::object()});
    std::string what = t.name + " " + defaults.dump();
    ex.state(what);
    ex.nontrivial();
    ex.expect(behaviour(full_input(), defaults).empty(), "accepted", what + ": a default for something that does not exist is accepted");
  });

  // the functions themselves, on every small schema
  ex.scenario("small schemas", [&] {
    using namespace Aux::schema;
    auto leaf = [&] { return json{{"type", ex.flag() ? "number" : "string"}}; };
    auto value_for = [&](json const &s) { return s.at("type") == "number" ? json(3) : json("v"); };
    json schema = {{"type", "object"}, {"required", json::array()}, {"properties", json::object()}};
    std::vector<std::string> names = {"a", "o"};
    if (ex.thorough()) names = {"a", "b", "o"};
    for (auto const &k : names) {
      int what = ex.choose(3); // no property, optional, required
      if (what == 0) continue;
      json def = leaf();
      if (k == "o") {
        def = {{"type", "object"}, {"required", json::array()}, {"properties", {{"c", leaf()}, {"d", {{"type", "number"}}}}}};
        if (ex.flag()) def["required"].push_back("c");
        if (ex.flag()) def["required"].push_back("d");
        if (def["required"].empty() && ex.flag()) def.erase("required");
      }
      schema["properties"][k] = def;
      if (what == 2) schema["required"].push_back(k);
    }
    ex.split();
    json defaults = json::object();
    bool complete = true;
    for (auto const &[k, p] : schema["properties"].items()) {
      if (!ex.flag()) continue;
      if (k != "o") {
        defaults[k] = value_for(p);
        continue;
      }
      defaults[k] = json::object();
      for (auto const &[l, q] : p["properties"].items())
        if (ex.flag()) defaults[k][l] = value_for(q);
      complete = conforms(p, defaults[k]);
    }
    json with = schema;
    add_defaults(with, defaults);
    json without = with;
    remove_defaults_from_required(without);
    json data = json::object();
    for (auto const &[k, p] : schema["properties"].items()) {
      int have = ex.choose(3); // absent, right, wrong
      if (have == 0) continue;
      if (k != "o") {
        data[k] = have == 1 ? json(p.at("type") == "number" ? json(-1) : json("d")) : json(true);
        continue;
      }
      if (have == 2) {
        data[k] = 5;
        continue;
      }
      data[k] = json::object();
      for (auto const &[l, q] : p["properties"].items())
        if (ex.flag()) data[k][l] = q.at("type") == "number" ? json(-1) : json("d");
    }
    if (ex.flag()) data["extra"] = 1;
    std::string what = "schema " + schema.dump() + " defaults " + defaults.dump() + " data " + data.dump();
    ex.state(what);
    ex.note(what);
    if (!defaults.empty()) ex.nontrivial();

    // the schema itself is not changed otherwise
    for (auto const &[k, p] : with["properties"].items()) {
      ex.expect(p.contains("default") == defaults.contains(k) && (!defaults.contains(k) || p["default"] == defaults[k]), "schema", what + ": default of " + k);
      auto bare = p;
      bare.erase("default");
      if (bare.contains("properties"))
        for (auto &q : bare["properties"]) q.erase("default");
      ex.expect(bare == schema["properties"][k], "schema", what + ": definition of " + k + " changed to " + p.dump());
    }
    ex.expect(with["required"] == schema["required"], "schema", what + ": add_defaults changes what is required");
    std::set<std::string> need, want;
    for (auto const &r : without["required"]) need.insert(r.get<std::string>());
    for (auto const &r : schema["required"])
      if (!defaults.contains(r.get<std::string>())) want.insert(r.get<std::string>());
    ex.expect(need == want, "schema", what + ": required afterwards: " + without["required"].dump());

    // filling in
    json filled = data;
    bool refused = false;
    try {
      apply_defaults(filled, with);
    } catch (std::exception const &) { refused = true; }
    if (!refused) {
      json expected = data;
      for (auto const &[k, v] : defaults.items()) {
        if (!expected.contains(k))
          expected[k] = v;
        else if (k == "o" && expected[k].is_object())
          for (auto const &[l, w] : v.items())
            if (!expected[k].contains(l)) expected[k][l] = w;
      }
      ex.expect(filled == expected, "fill", what + ": filled to " + filled.dump());
    } else
      ex.expect(data.contains("o") && !data["o"].is_object(), "fill", what + ": filling in is refused");
    auto valid = [](json const &d, json const &s) { return !mc::throws([&] { validate_json(d, s); }); };
    bool plain = valid(data, schema);
    ex.expect(plain == conforms(schema, data), "validate", what + ": " + (plain ? "accepted" : "refused"));
    bool run = !refused && valid(filled, with), editor = valid(data, without);
    ex.expect(!run || editor, "editor", what + ": accepted, but the schema without required defaults refuses it");
    if (complete) ex.expect(!editor || run, "editor", what + ": refused, but the schema without required defaults accepts it");
    ex.count(run ? "accepted" : "refused");
  });

  // generated schema files against what the program accepts
  ex.scenario("generated schemas", [&] {
    static std::vector<std::string> const files = {"topology", "boundary", "initial", "control"};
    int which_defaults = ex.choose(4);
    auto const &file = ex.of(files);
    ex.split();
    auto in = full_input();
    json defaults = json::object();
    // the defaults are there, and nothing is taken away yet
    if (which_defaults == 1) defaults["Pipe"] = {{"balancelaw", "Isothermaleulerequation"}, {"scheme", "Implicitboxscheme"}, {"desired_delta_x", 5000}, {"roughness", net::measure(1e-5, "m")}};
    if (which_defaults == 2) defaults["PQnode"] = {{"G", 1.9}, {"boundary_values", {{"data", in.boundary["nodes"]["PQnode"][0]["data"]}}}};
    if (which_defaults == 3) defaults["StochasticPQnode"] = {{"stability_parameter", 1.0}, {"sigma_P", 0.01}};
    static std::map<int, json> cache;
    auto &schemas = cache[which_defaults];
    if (schemas.is_null()) {
      auto dir = std::filesystem::path(ex.scratch()) / ("schemas" + std::to_string(which_defaults));
      std::string why;
      bool bad = mc::throws([&] {
        Model::Componentfactory::Full_factory factory(defaults);
        std::filesystem::create_directories(dir.parent_path());
        Aux::schema::make_schemas(factory, dir);
      }, &why);
      if (bad) {
        cache.erase(which_defaults);
        ex.fail("generate", "schemas for the defaults " + defaults.dump() + " can't be made: " + why.substr(0, 500));
      }
      for (auto const &f : {"topology", "boundary", "initial", "control", "problem_data"}) {
        std::ifstream i(dir / (std::string(f) + "_schema.json"));
        i >> schemas[f];
      }
    }
    json &j = file == "topology" ? in.topology : file == "boundary" ? in.boundary : file == "initial" ? in.initial : in.control;
    auto accepted = [&](std::string *why) {
      try {
        auto p = net::problem(in, defaults);
        Eigen::VectorXd x(p->get_number_of_states());
        p->set_initial_values(x, in.initial);
        Aux::InterpolatingVector c(std::vector<double>{0, 900, 1800}, p->get_number_of_controls_per_timepoint());
        p->set_initial_controls(c, in.control);
        return true;
      } catch (std::exception const &e) {
        *why = e.what();
        return false;
      }
    };
    // every place of the file
    std::vector<std::pair<std::string, json::json_pointer>> places;
    std::function<void(json const &, json::json_pointer)> walk = [&](json const &v, json::json_pointer at) {
      places.emplace_back(at.to_string(), at);
      if (v.is_object())
        for (auto const &[k, w] : v.items()) walk(w, at / k);
      else if (v.is_array())
        for (std::size_t i = 0; i < v.size(); ++i) walk(v[i], at / i);
    };
    for (auto const *cls : {"nodes", "connections"})
      for (auto const &[t, l] : j[cls].items())
        for (std::size_t i = 0; i < l.size(); ++i) walk(l[i], json::json_pointer() / cls / t / i);
    auto const &[name, at] = ex.of(places);
    json v = j.at(at);
    std::vector<json> replacements = {true, json::array(), json::object(), nullptr, json::array({true})};
    if (!v.is_string()) replacements.push_back("text");
    if (!v.is_number()) replacements.push_back(1.5);
    if (v.is_number()) replacements.push_back(v);
    int r = ex.choose(static_cast<int>(replacements.size()) + 2);
    std::string what = file + " " + name;
    // components none of which has values in this file need no entry
    if (which_defaults == 0 && file != "topology")
      for (auto const *cls : {"nodes", "connections"})
        if (j.contains(cls) && j[cls].empty()) j.erase(cls);
    std::string last = name.substr(name.rfind('/') + 1);
    if (r == 0) {
      // a whole component, or a point of a series that is needed for other reasons
      auto parent = at.parent_pointer();
      if (j.at(parent).is_array()) {
        // values are counted by the schema; points and components are needed for other reasons
        if (parent.back() != "values") ex.skip();
        j.at(parent).erase(std::stoul(at.back()));
      } else
        j.at(parent).erase(at.back());
      what += " removed";
    } else if (r == 1) {
      if (!v.is_object()) ex.skip();
      j.at(at)["additional"] = 1;
      what += " with something additional";
    } else {
      auto const &n = replacements[static_cast<std::size_t>(r - 2)];
      j.at(at) = n;
      what += " is " + n.dump();
      // no points at all conform, but do not cover any time
      if (last == "data" && n.is_array() && n.empty()) ex.skip();
    }
    what += ", defaults " + defaults.dump();
    ex.state(what);
    ex.note(what);
    ex.nontrivial();
    std::string why;
    bool run = accepted(&why);
    bool editor = !mc::throws([&] { Aux::schema::validate_json(j, schemas[file]); });
    ex.expect(!run || editor, "editor", what + ": accepted by grazer, but not by the generated schema");
    ex.expect(!editor || run, "editor", what + ": refused by grazer (" + why.substr(0, 300) + "), but not by the generated schema");
    ex.count(run ? "accepted" : "refused");
  });

  // problem_data.json: the same, with the whole command
  ex.scenario("problem data", [&] {
    bool optimize = ex.flag();
    ex.split();
    static json schema;
    namespace fs = std::filesystem;
    auto dir = fs::path(ex.scratch()) / "case";
    fs::remove_all(dir);
    fs::create_directories(dir / "problem");
    if (schema.is_null()) {
      Model::Componentfactory::Full_factory factory(json::object());
      Aux::schema::make_schemas(factory, dir / "schemas");
      std::ifstream(dir / "schemas" / "problem_data_schema.json") >> schema;
    }
    auto write = [&](std::string const &name, json const &j) { std::ofstream(dir / "problem" / name) << j; };
    net::Spec s;
    s.nodes = {net::gasnode("a", "Pressureboundarynode", T({60}, {61})), net::gasnode("b", "ConstraintSink", T({5}, {6}))};
    s.edges = {net::shortedge("c", "Compressorstation", "a", "b", 60, 60, 5, T({0}, {0}))};
    auto in = net::input(s);
    write("topology.json", in.topology);
    write("boundary.json", in.boundary);
    write("initial.json", in.initial);
    write("control.json", in.control);
    auto bounds = [&](double v) {
      auto j = in.control;
      for (auto &d : j["connections"]["Compressorstation"][0]["data"]) d["values"] = {v};
      return j;
    };
    write("lower_bounds.json", bounds(-1));
    write("upper_bounds.json", bounds(1));
    write("constraint_lower_bounds.json", {{"nodes", {{"ConstraintSink", {net::series("b", T({40}, {40}), "time")}}}}});
    write("constraint_upper_bounds.json", {{"nodes", {{"ConstraintSink", {net::series("b", T({80}, {80}), "time")}}}}});
    json j = {{"optimize", optimize},
              {"simulation_settings", {{"use_simplified_newton", true}, {"maximal_number_of_newton_iterations", 20}, {"tolerance", 1e-8}, {"retries", 1}, {"start_time", 0}, {"end_time", 1800}, {"desired_delta_t", 900}}},
              {"control_settings", json::object()},
              {"constraint_settings", {{"evaluate_constraints_every_n", 2}}},
              {"problem_data", {{"defaults", {{"Pipe", {{"desired_delta_x", 10}}}}}, {"topology_json", "topology.json"}, {"boundary_json", "boundary.json"}}}};
    if (ex.flag())
      j["control_settings"]["number_of_steps"] = 3;
    else
      j["control_settings"]["desired_delta_t"] = 900;
    std::vector<std::pair<std::string, json::json_pointer>> places;
    std::function<void(json const &, json::json_pointer)> walk = [&](json const &v, json::json_pointer at) {
      if (!at.empty()) places.emplace_back(at.to_string(), at);
      if (v.is_object())
        for (auto const &[k, w] : v.items()) walk(w, at / k);
    };
    walk(j, json::json_pointer());
    auto const &[name, at] = ex.of(places);
    json v = j.at(at);
    std::string what = std::string(optimize ? "optimization: " : "simulation: ") + name;
    bool vague = false; // the file may be right and the problem still be none
    std::vector<json> replacements = {v, true, json::array(), json::object(), nullptr, json::array({1}), "text", 1.5, 1, 2, 3, 0, -1};
    int r = ex.choose(static_cast<int>(replacements.size()) + 2);
    if (r == 0) {
      j.at(at.parent_pointer()).erase(at.back());
      what += " removed";
    } else if (r == 1) {
      if (!v.is_object()) ex.skip();
      j.at(at)["additional"] = 1;
      vague = name.find("defaults") != std::string::npos;
      what += " with something additional";
    } else {
      auto const &n = replacements[static_cast<std::size_t>(r - 2)];
      j.at(at) = n;
      what += " is " + n.dump();
      if (n == v) what += " (unchanged)";
      vague = (n != v && n.is_number() == v.is_number() && n.is_boolean() == v.is_boolean() && !n.is_number_float()) || name.find("topology_json") != std::string::npos ||
              name.find("boundary_json") != std::string::npos || name.find("Pipe") != std::string::npos || (n.is_number() && (name.find("simulation_settings") != std::string::npos));
      if (n.is_null() || n.is_array()) vague = name.find("Pipe") != std::string::npos;
    }
    // what belongs to the optimization is not read by a simulation
    if (!optimize && name.find("constraint_settings") != std::string::npos) ex.skip();
    ex.state(what);
    ex.note(what);
    ex.nontrivial();
    write("problem_data.json", j);
    std::string why;
    bool run = !mc::throws([&] {
      if (grazer::run(dir) != 0) throw std::runtime_error("status");
    }, &why);
    bool editor = !mc::throws([&] { Aux::schema::validate_json(j, schema); });
    fs::remove_all(dir);
    ex.expect(!run || editor, "editor", what + ": accepted by grazer, but not by the generated schema");
    if (!vague) ex.expect(!editor || run, "editor", what + ": refused by grazer (" + why.substr(0, 300) + "), but not by the generated schema");
    ex.count(run ? "accepted" : "refused");
  });
  return ex.finish();
}
