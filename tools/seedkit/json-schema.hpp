// Stand-in for pboettch/json-schema-validator, which is not available in this
// sandbox (the git submodule is empty and apt does not carry it).
//
// It offers exactly the part of the library's interface which grazer uses
// (json_validator::set_root_schema, json_validator::validate with an
// error_handler) and decides the part of JSON schema draft 7 which grazer's
// schemas use (and a bit more).  It belongs to the environment of the checks,
// not to the code under test.
#pragma once
#include <cmath>
#include <nlohmann/json.hpp>
#include <regex>
#include <stdexcept>
#include <string>

namespace nlohmann::json_schema {

  class error_handler {
  public:
    virtual ~error_handler() = default;
    virtual void error(
        const json::json_pointer &ptr, const json &instance,
        const std::string &message)
        = 0;
  };

  class basic_error_handler : public error_handler {
    bool had_error{false};

  public:
    void error(
        const json::json_pointer &, const json &, const std::string &) override {
      had_error = true;
    }
    void reset() { had_error = false; }
    operator bool() const { return had_error; }
  };

  class json_validator {
    json root;

    static bool has_type(json const &v, std::string const &t) {
      if (t == "object")
        return v.is_object();
      if (t == "array")
        return v.is_array();
      if (t == "string")
        return v.is_string();
      if (t == "boolean")
        return v.is_boolean();
      if (t == "null")
        return v.is_null();
      if (t == "number")
        return v.is_number();
      if (t == "integer")
        return v.is_number_integer()
               or (v.is_number_float()
                   and v.get<double>() == std::floor(v.get<double>()));
      throw std::invalid_argument("unknown type in schema: " + t);
    }

    static void check_schema(json const &s) {
      if (s.is_boolean())
        return;
      if (not s.is_object())
        throw std::invalid_argument("schema is neither object nor boolean");
      if (s.contains("type")) {
        auto const &t = s["type"];
        if (t.is_string()) {
          has_type(json(), t.get<std::string>());
        } else if (t.is_array()) {
          for (auto const &e : t)
            has_type(json(), e.get<std::string>());
        } else {
          throw std::invalid_argument("'type' is neither string nor array");
        }
      }
      if (s.contains("required") and not s["required"].is_array())
        throw std::invalid_argument("'required' is not an array");
      for (auto const &key : {"properties", "patternProperties", "definitions"})
        if (s.contains(key)) {
          if (not s[key].is_object())
            throw std::invalid_argument(std::string(key) + " is no object");
          for (auto const &sub : s[key])
            check_schema(sub);
        }
      for (auto const &key :
           {"additionalProperties", "contains", "not", "propertyNames"})
        if (s.contains(key))
          check_schema(s[key]);
      if (s.contains("items")) {
        if (s["items"].is_array())
          for (auto const &sub : s["items"])
            check_schema(sub);
        else
          check_schema(s["items"]);
      }
      for (auto const &key : {"allOf", "anyOf", "oneOf"})
        if (s.contains(key)) {
          if (not s[key].is_array())
            throw std::invalid_argument(std::string(key) + " is no array");
          for (auto const &sub : s[key])
            check_schema(sub);
        }
    }

    static bool ok(json const &s, json const &v) {
      basic_error_handler h;
      check(s, v, json::json_pointer(), h);
      return not h;
    }

    static void check(
        json const &s, json const &v, json::json_pointer const &p,
        error_handler &h) {
      if (s.is_boolean()) {
        if (not s.get<bool>())
          h.error(p, v, "instance is not allowed here (schema is false)");
        return;
      }
      if (s.contains("type")) {
        bool good = false;
        if (s["type"].is_string())
          good = has_type(v, s["type"].get<std::string>());
        else
          for (auto const &t : s["type"])
            good = good or has_type(v, t.get<std::string>());
        if (not good) {
          h.error(p, v, "unexpected instance type");
          return;
        }
      }
      if (s.contains("enum")) {
        bool good = false;
        for (auto const &e : s["enum"])
          good = good or e == v;
        if (not good)
          h.error(p, v, "instance not found in required enum");
      }
      if (s.contains("const") and s["const"] != v)
        h.error(p, v, "instance not const");
      if (s.contains("not") and ok(s["not"], v))
        h.error(p, v, "the subschema has succeeded, but it is required to not "
                      "validate");
      if (s.contains("allOf"))
        for (auto const &sub : s["allOf"])
          if (not ok(sub, v))
            h.error(p, v, "at least one subschema has failed, but all of them "
                          "are required to validate");
      if (s.contains("anyOf")) {
        bool good = false;
        for (auto const &sub : s["anyOf"])
          good = good or ok(sub, v);
        if (not good)
          h.error(p, v, "no subschema has succeeded, but one of them is "
                        "required to validate");
      }
      if (s.contains("oneOf")) {
        int n = 0;
        for (auto const &sub : s["oneOf"])
          n += ok(sub, v) ? 1 : 0;
        if (n != 1)
          h.error(p, v, "exactly one subschema is required to validate");
      }
      if (v.is_number()) {
        double d = v.get<double>();
        if (s.contains("minimum") and d < s["minimum"].get<double>())
          h.error(p, v, "instance is below minimum");
        if (s.contains("maximum") and d > s["maximum"].get<double>())
          h.error(p, v, "instance exceeds maximum");
        if (s.contains("exclusiveMinimum")
            and d <= s["exclusiveMinimum"].get<double>())
          h.error(p, v, "instance is below or equal to exclusive minimum");
        if (s.contains("exclusiveMaximum")
            and d >= s["exclusiveMaximum"].get<double>())
          h.error(p, v, "instance exceeds or is equal to exclusive maximum");
      }
      if (v.is_string()) {
        auto str = v.get<std::string>();
        if (s.contains("minLength") and str.size() < s["minLength"].get<size_t>())
          h.error(p, v, "instance is too short");
        if (s.contains("maxLength") and str.size() > s["maxLength"].get<size_t>())
          h.error(p, v, "instance is too long");
        if (s.contains("pattern")
            and not std::regex_search(
                str, std::regex(
                         s["pattern"].get<std::string>(),
                         std::regex::ECMAScript)))
          h.error(p, v, "instance does not match regex pattern");
      }
      if (v.is_array()) {
        if (s.contains("minItems") and v.size() < s["minItems"].get<size_t>())
          h.error(p, v, "array has too few items");
        if (s.contains("maxItems") and v.size() > s["maxItems"].get<size_t>())
          h.error(p, v, "array has too many items");
        if (s.contains("uniqueItems") and s["uniqueItems"].get<bool>())
          for (size_t i = 0; i < v.size(); ++i)
            for (size_t j = i + 1; j < v.size(); ++j)
              if (v[i] == v[j])
                h.error(p, v, "items have to be unique for this array");
        if (s.contains("items")) {
          auto const &items = s["items"];
          if (items.is_array()) {
            for (size_t i = 0; i < v.size() and i < items.size(); ++i)
              check(items[i], v[i], p / i, h);
          } else {
            for (size_t i = 0; i < v.size(); ++i)
              check(items, v[i], p / i, h);
          }
        }
        if (s.contains("contains")) {
          bool good = false;
          for (auto const &e : v)
            good = good or ok(s["contains"], e);
          if (not good)
            h.error(p, v, "array does not contain required element as per "
                          "'contains'");
        }
      }
      if (v.is_object()) {
        if (s.contains("required"))
          for (auto const &r : s["required"])
            if (not v.contains(r.get<std::string>()))
              h.error(
                  p, v, "required property '" + r.get<std::string>()
                            + "' not found in object");
        if (s.contains("minProperties")
            and v.size() < s["minProperties"].get<size_t>())
          h.error(p, v, "too few properties");
        if (s.contains("maxProperties")
            and v.size() > s["maxProperties"].get<size_t>())
          h.error(p, v, "too many properties");
        for (auto const &[key, val] : v.items()) {
          bool matched = false;
          if (s.contains("propertyNames") and not ok(s["propertyNames"], key))
            h.error(p, v, "property name '" + key + "' not allowed");
          if (s.contains("properties") and s["properties"].contains(key)) {
            matched = true;
            check(s["properties"][key], val, p / key, h);
          }
          if (s.contains("patternProperties"))
            for (auto const &[pat, sub] : s["patternProperties"].items())
              if (std::regex_search(
                      key, std::regex(pat, std::regex::ECMAScript))) {
                matched = true;
                check(sub, val, p / key, h);
              }
          if (not matched and s.contains("additionalProperties")) {
            basic_error_handler inner;
            check(s["additionalProperties"], val, p / key, inner);
            if (inner)
              h.error(
                  p, v, "validation failed for additional property '" + key
                            + "'");
          }
        }
      }
    }

  public:
    void set_root_schema(json const &schema) {
      check_schema(schema);
      root = schema;
    }
    void validate(json const &instance, error_handler &handler) const {
      check(root, instance, json::json_pointer(), handler);
    }
  };
} // namespace nlohmann::json_schema
