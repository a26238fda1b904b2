// Stand-in for pboettch/json-schema-validator, whose submodule is empty in this sandbox and
// which no package provides.  It implements the draft-7 keywords with the interface grazer
// uses (json_validator, error_handler).  It is part of the trusted base of the checks: it is
// the environment of the code under test, not code under test.
#pragma once
#include <cmath>
#include <nlohmann/json.hpp>
#include <regex>
#include <stdexcept>
#include <string>

namespace nlohmann {
namespace json_schema {

class error_handler {
public:
  virtual ~error_handler() {}
  virtual void error(const json::json_pointer &, const json &, const std::string &) = 0;
};

class basic_error_handler : public error_handler {
  bool error_{false};

public:
  void error(const json::json_pointer &, const json &, const std::string &) override { error_ = true; }
  virtual void reset() { error_ = false; }
  operator bool() const { return error_; }
};

class json_validator {
  json root_;

  static bool is_type(json const &d, std::string const &t) {
    if (t == "object") return d.is_object();
    if (t == "array") return d.is_array();
    if (t == "string") return d.is_string();
    if (t == "boolean") return d.is_boolean();
    if (t == "null") return d.is_null();
    if (t == "number") return d.is_number();
    if (t == "integer")
      return d.is_number_integer() || (d.is_number_float() && std::floor(d.get<double>()) == d.get<double>());
    throw std::invalid_argument("unknown type " + t + " in schema");
  }

  struct collect : error_handler {
    bool bad = false;
    void error(const json::json_pointer &, const json &, const std::string &) override { bad = true; }
  };

  static bool ok(json const &d, json const &s) {
    collect c;
    check(d, s, json::json_pointer(), c);
    return !c.bad;
  }

  static void check(json const &d, json const &s, json::json_pointer const &at, error_handler &e) {
    if (s.is_boolean()) {
      if (!s.get<bool>()) e.error(at, d, "instance invalid as per false-schema");
      return;
    }
    if (!s.is_object()) throw std::invalid_argument("invalid JSON-type for a schema, expected: boolean or object");
    if (s.contains("type")) {
      bool good = false;
      if (s["type"].is_string()) good = is_type(d, s["type"].get<std::string>());
      else
        for (auto const &t : s["type"]) good = good || is_type(d, t.get<std::string>());
      if (!good) {
        e.error(at, d, "unexpected instance type");
        return;
      }
    }
    if (s.contains("enum")) {
      bool good = false;
      for (auto const &v : s["enum"]) good = good || v == d;
      if (!good) e.error(at, d, "instance not found in required enum");
    }
    if (s.contains("const") && !(s["const"] == d)) e.error(at, d, "instance not const");
    for (auto const &sub : s.value("allOf", json::array()))
      if (!ok(d, sub)) e.error(at, d, "at least one subschema has failed, but all of them are required to validate");
    if (s.contains("anyOf")) {
      bool good = false;
      for (auto const &sub : s["anyOf"]) good = good || ok(d, sub);
      if (!good) e.error(at, d, "no subschema has succeeded, but one of them is required to validate");
    }
    if (s.contains("oneOf")) {
      int n = 0;
      for (auto const &sub : s["oneOf"]) n += ok(d, sub);
      if (n != 1) e.error(at, d, "exactly one subschema must succeed");
    }
    if (s.contains("not") && ok(d, s["not"])) e.error(at, d, "the subschema has succeeded, but it is required to not validate");
    if (d.is_number()) {
      double v = d.get<double>();
      if (s.contains("minimum") && v < s["minimum"].get<double>()) e.error(at, d, "instance is below minimum");
      if (s.contains("maximum") && v > s["maximum"].get<double>()) e.error(at, d, "instance exceeds maximum");
      if (s.contains("exclusiveMinimum") && v <= s["exclusiveMinimum"].get<double>()) e.error(at, d, "instance is below or equals minimum");
      if (s.contains("exclusiveMaximum") && v >= s["exclusiveMaximum"].get<double>()) e.error(at, d, "instance exceeds or equals maximum");
    }
    if (d.is_string()) {
      auto const &v = d.get_ref<std::string const &>();
      if (s.contains("minLength") && v.size() < s["minLength"].get<std::size_t>()) e.error(at, d, "instance is too short");
      if (s.contains("maxLength") && v.size() > s["maxLength"].get<std::size_t>()) e.error(at, d, "instance is too long");
      if (s.contains("pattern") && !std::regex_search(v, std::regex(s["pattern"].get<std::string>(), std::regex::ECMAScript)))
        e.error(at, d, "instance does not match regex pattern: " + s["pattern"].get<std::string>());
    }
    if (d.is_array()) {
      if (s.contains("minItems") && d.size() < s["minItems"].get<std::size_t>()) e.error(at, d, "array has too few items");
      if (s.contains("maxItems") && d.size() > s["maxItems"].get<std::size_t>()) e.error(at, d, "array has too many items");
      if (s.value("uniqueItems", false))
        for (std::size_t i = 0; i < d.size(); ++i)
          for (std::size_t j = 0; j < i; ++j)
            if (d[i] == d[j]) e.error(at, d, "items have to be unique for this array");
      if (s.contains("items")) {
        auto const &items = s["items"];
        for (std::size_t i = 0; i < d.size(); ++i) {
          if (items.is_array()) {
            if (i < items.size()) check(d[i], items[i], at / i, e);
          } else check(d[i], items, at / i, e);
        }
      }
      if (s.contains("contains")) {
        bool good = false;
        for (auto const &v : d) good = good || ok(v, s["contains"]);
        if (!good) e.error(at, d, "array does not contain required element as per 'contains'");
      }
    }
    if (d.is_object()) {
      if (s.contains("required"))
        for (auto const &r : s["required"])
          if (!d.contains(r.get<std::string>())) e.error(at, d, "required property '" + r.get<std::string>() + "' not found in object");
      if (s.contains("minProperties") && d.size() < s["minProperties"].get<std::size_t>()) e.error(at, d, "too few properties");
      if (s.contains("maxProperties") && d.size() > s["maxProperties"].get<std::size_t>()) e.error(at, d, "too many properties");
      for (auto const &[k, v] : d.items()) {
        bool known = false;
        if (s.contains("properties") && s["properties"].contains(k)) {
          known = true;
          check(v, s["properties"][k], at / k, e);
        }
        if (s.contains("patternProperties"))
          for (auto const &[re, sub] : s["patternProperties"].items())
            if (std::regex_search(k, std::regex(re, std::regex::ECMAScript))) {
              known = true;
              check(v, sub, at / k, e);
            }
        if (!known && s.contains("additionalProperties")) {
          auto const &ap = s["additionalProperties"];
          if (ap.is_boolean() && !ap.get<bool>()) e.error(at, d, "validation failed for additional property '" + k + "'");
          else check(v, ap, at / k, e);
        }
      }
    }
  }

  static void lint(json const &s) {
    if (s.is_boolean()) return;
    if (!s.is_object()) throw std::invalid_argument("invalid JSON-type for a schema, expected: boolean or object");
    if (s.contains("required") && !s["required"].is_array()) throw std::invalid_argument("required is not an array");
    if (s.contains("properties")) {
      if (!s["properties"].is_object()) throw std::invalid_argument("properties is not an object");
      for (auto const &[k, v] : s["properties"].items()) {
        (void)k;
        lint(v);
      }
    }
  }

public:
  void set_root_schema(json const &schema) {
    lint(schema);
    root_ = schema;
  }
  json validate(json const &data) const {
    struct thrower : error_handler {
      void error(const json::json_pointer &p, const json &, const std::string &m) override {
        throw std::invalid_argument("At " + p.to_string() + " - " + m);
      }
    } h;
    return validate(data, h);
  }
  json validate(json const &data, error_handler &handler) const {
    check(data, root_, json::json_pointer(), handler);
    return json::array();
  }
};

} // namespace json_schema
} // namespace nlohmann
