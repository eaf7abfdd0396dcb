// A server for single functions of the library: one JSON request per line,
// one JSON response per line.
#include "Implicitboxscheme.hpp"
#include "InterpolatingVector.hpp"
#include "Isothermaleulerequation.hpp"
#include "Mathfunctions.hpp"
#include "Matrixhandler.hpp"
#include "Normaldistribution.hpp"
#include "Optimization_helpers.hpp"
#include "Stochastic.hpp"
#include "Timedata.hpp"
#include "make_schema.hpp"
#include "unit_conversion.hpp"
#include <cmath>
#include <cstdio>
#include <iostream>
#include <nlohmann/json.hpp>
#include <string>
#include <unistd.h>

using nlohmann::json;
using std::string;
using std::vector;

static json num(double d) {
  if (std::isnan(d)) return "nan";
  if (std::isinf(d)) return d > 0 ? "inf" : "-inf";
  return d;
}
static double den(json const &j) {
  if (j.is_string()) return std::strtod(j.get<string>().c_str(), nullptr);
  return j.get<double>();
}
static vector<double> vec(json const &j) {
  vector<double> v;
  for (auto const &x : j) v.push_back(den(x));
  return v;
}
static Eigen::VectorXd evec(json const &j) {
  auto v = vec(j);
  return Eigen::Map<Eigen::VectorXd>(v.data(), static_cast<Eigen::Index>(v.size()));
}
template <typename V> static json out(V const &v) {
  json j = json::array();
  for (auto i = 0; i < v.size(); ++i) j.push_back(num(v[i]));
  return j;
}
// the message of an exception or null
template <typename F> static json guarded(F f) {
  try {
    return f();
  } catch (std::exception &e) { return {{"error", e.what()}}; }
}

static json balance(json const &r) {
  using Iso = Model::Balancelaw::Isothermaleulerequation;
  Iso iso(r.at("pipe"));
  json o;
  for (auto const &x : r.value("rho", json::array())) {
    double rho = den(x);
    o["p"].push_back(num(iso.p(rho)));
    o["dp"].push_back(num(iso.dp_drho(rho)));
  }
  for (auto const &x : r.value("p", json::array())) o["rho"].push_back(num(iso.rho(den(x))));
  for (auto const &x : r.value("state", json::array())) {
    Eigen::Vector2d s(den(x[0]), den(x[1]));
    o["flux"].push_back(out(Eigen::VectorXd(iso.flux(s))));
    o["source"].push_back(out(Eigen::VectorXd(iso.source(s))));
    Eigen::Matrix2d a = iso.dflux_dstate(s);
    o["dflux"].push_back({num(a(0, 0)), num(a(0, 1)), num(a(1, 0)), num(a(1, 1))});
    o["dsource"].push_back(guarded([&]() -> json { Eigen::Matrix2d b = iso.dsource_dstate(s); return {num(b(0, 0)), num(b(0, 1)), num(b(1, 0)), num(b(1, 1))}; }));
    Eigen::Vector2d pq = iso.p_qvol(s);
    o["p_qvol"].push_back(out(Eigen::VectorXd(pq)));
    Eigen::Matrix2d c = iso.dp_qvol_dstate(s);
    o["dp_qvol"].push_back({num(c(0, 0)), num(c(0, 1)), num(c(1, 0)), num(c(1, 1))});
    Eigen::Vector2d b = iso.p_qvol_bar_from_p_qvol(pq);
    o["bar"].push_back(out(Eigen::VectorXd(b)));
    Eigen::Matrix2d d = iso.dp_qvol_bar_from_p_qvold_p_qvol(pq);
    o["dbar"].push_back({num(d(0, 0)), num(d(0, 1)), num(d(1, 0)), num(d(1, 1))});
    Eigen::Vector2d back = iso.state(iso.p_qvol_from_p_qvol_bar(b));
    o["back"].push_back(out(Eigen::VectorXd(back)));
  }
  double d = den(r.at("d")), ro = den(r.at("r"));
  for (auto const &x : r.value("Re", json::array())) {
    double Re = den(x);
    o["lambda"].push_back(guarded([&] { return num(Iso::lambda_non_laminar(Re, d, ro)); }));
    o["dlambda"].push_back(guarded([&] { return num(Iso::dlambda_non_laminar_dRe(Re, d, ro)); }));
    o["exact"].push_back(guarded([&] { return num(Iso::exact_turbulent_lambda(Re, d, ro)); }));
  }
  for (auto const &x : r.value("q", json::array())) {
    double q = den(x);
    o["Reynolds"].push_back(num(Iso::Reynolds(q, d)));
  }
  o["coeff"] = num(Iso::coeff_of_Reynolds(d));
  return o;
}

static json gridres(Aux::Interpolation_data const &d, bool points) {
  json o = {{"first", num(d.first_point)}, {"delta", num(d.delta)}, {"n", d.number_of_entries}};
  if (points) {
    Aux::InterpolatingVector v(d, 1);
    auto p = v.get_interpolation_points();
    o["points"] = out(p);
  }
  return o;
}

static json grid(json const &r) {
  string k = r.at("kind");
  bool pts = r.value("points", true);
  if (k == "sde") return gridres(Aux::make_from_start_delta_end(den(r["a"]), den(r["delta"]), den(r["b"])), pts);
  if (k == "sdn") return gridres(Aux::make_from_start_delta_number(den(r["a"]), den(r["delta"]), r["n"].get<int>()), pts);
  if (k == "sne") return gridres(Aux::make_from_start_number_end(den(r["a"]), den(r["b"]), r["n"].get<int>()), pts);
  Model::Timedata t(r.at("settings"));
  return {{"start", num(t.get_starttime())}, {"end", num(t.get_endtime())}, {"delta", num(t.get_delta_t())}, {"n", t.get_number_of_time_points()}};
}

// a series in one of several storages, a sequence of operations on it
static json series(json const &r) {
  json o;
  auto points = vec(r.at("points"));
  Eigen::Index m = r.at("inner").get<Eigen::Index>();
  vector<double> mem = vec(r.at("memory"));
  vector<double> mem2 = vec(r.value("memory2", json::array()));
  std::unique_ptr<Aux::InterpolatingVector_Base> v;
  string kind = r.at("kind");
  auto n = static_cast<Eigen::Index>(mem.size());
  if (kind == "own" or kind == "eigen" or kind == "data") {
    if (kind == "own") v = std::make_unique<Aux::InterpolatingVector>(points, m);
    else if (kind == "eigen") v = std::make_unique<Aux::InterpolatingVector>(Eigen::Map<Eigen::VectorXd>(points.data(), static_cast<Eigen::Index>(points.size())), m);
    else v = std::make_unique<Aux::InterpolatingVector>(Aux::Interpolation_data{den(r["data"][0]), den(r["data"][1]), r["data"][2].get<size_t>()}, m);
    v->set_values_in_bulk(Eigen::Map<Eigen::VectorXd>(mem.data(), n));
  } else if (kind == "mapped") v = std::make_unique<Aux::MappedInterpolatingVector>(points, m, mem.data(), n);
  else if (kind == "const") v = std::make_unique<Aux::ConstMappedInterpolatingVector const>(points, m, mem.data(), n) ? std::make_unique<Aux::ConstMappedInterpolatingVector>(points, m, mem.data(), n) : nullptr;
  else {
    json schema = r.at("schema").is_number() ? Aux::schema::make_boundary_schema(r["schema"].get<int>()) : r.at("schema").is_null() ? Aux::schema::make_initial_schema(std::nullopt, static_cast<int>(m), {}) : r.at("schema");
    v = std::make_unique<Aux::InterpolatingVector>(Aux::InterpolatingVector::construct_from_json(r.at("json"), schema));
  }
  auto const *cv = v.get();
  o["answers"] = json::array();
  for (auto const &q : r.at("ops")) {
    string op = q.at(0);
    json a = guarded([&]() -> json {
      if (op == "at") return out((*cv)(den(q[1])));
      if (op == "index") return out(Eigen::VectorXd(cv->vector_at_index(q[1].get<Eigen::Index>())));
      if (op == "point") return num(cv->interpolation_point_at_index(q[1].get<Eigen::Index>()));
      if (op == "set") { auto x = evec(q[2]); v->mut_timestep(q[1].get<Eigen::Index>()) = x; return nullptr; }
      if (op == "bulk") { v->set_values_in_bulk(evec(q[1])); return nullptr; }
      if (op == "push") { v->push_to_index(q[1].get<Eigen::Index>(), den(q[2]), evec(q[3])); return nullptr; }
      if (op == "zero") { v->setZero(); return nullptr; }
      if (op == "all") return out(Eigen::VectorXd(cv->get_allvalues()));
      if (op == "points") return out(Eigen::VectorXd(cv->get_interpolation_points()));
      if (op == "memory") return out(evec(json(mem)));
      if (op == "poke") { mem[q[1].get<size_t>()] = den(q[2]); return nullptr; }
      if (op == "reset") { dynamic_cast<Aux::ConstMappedInterpolatingVector &>(*v).reset_values(mem2.data(), static_cast<Eigen::Index>(mem2.size())); return nullptr; }
      if (op == "sizes") return json{cv->size(), cv->get_inner_length(), cv->get_total_number_of_values()};
      if (op == "copy") { Aux::InterpolatingVector w(*cv); bool e = w == *cv; json res = {e, out(Eigen::VectorXd(w.get_allvalues()))}; if (w.get_total_number_of_values() > 0) { w.mut_timestep(0)[0] += 1.0; res.push_back(w == *cv); res.push_back(out(Eigen::VectorXd(cv->get_allvalues()))); } return res; }
      if (op == "assign") { // from a series with given points and values
        Aux::InterpolatingVector w(vec(q[1]), m);
        w.set_values_in_bulk(evec(q[2]));
        static_cast<Aux::InterpolatingVector_Base &>(*v) = w;
        return nullptr;
      }
      if (op == "move") { // into an empty series or one of another shape, by moving or copying
        Aux::InterpolatingVector w(*cv);
        Aux::InterpolatingVector x(std::move(w));
        auto k = q[1].get<Eigen::Index>();
        Aux::InterpolatingVector y;
        if (k > 0) { y = Aux::InterpolatingVector(Eigen::VectorXd(Eigen::VectorXd::LinSpaced(k + 1, 0, 1)), k); }
        if (q[2].get<bool>()) { y = std::move(x); } else { y = x; }
        if (y.get_inner_length() != cv->get_inner_length() or not (y == *cv)) { return "the shape is lost"; }
        Eigen::VectorXd all(y.size() * y.get_inner_length());
        for (Eigen::Index i = 0; i != y.size(); ++i) { all.segment(i * y.get_inner_length(), y.get_inner_length()) = y.vector_at_index(i); }
        return out(all);
      }
      if (op == "resample") { auto w = Aux::InterpolatingVector::construct_and_interpolate_from(evec(q[1]), m, *cv); return out(Eigen::VectorXd(w.get_allvalues())); }
      if (op == "lambda") { // the optimizer's own interpolation
        auto [i, l] = Optimization::compute_index_lambda(Eigen::VectorXd(cv->get_interpolation_points()), den(q[1]));
        return json{i, num(l)};
      }
      throw std::runtime_error("LAB PROTOCOL ERROR " + op);
    });
    o["answers"].push_back(a);
  }
  return o;
}

static json units(json const &r) {
  using Aux::unit::Measure;
  static std::map<string, Measure const *> const m{{"length", &Aux::unit::length}, {"area", &Aux::unit::area}, {"volume", &Aux::unit::volume},
    {"pressure", &Aux::unit::pressure}, {"frequency", &Aux::unit::frequency}, {"force", &Aux::unit::force}, {"power", &Aux::unit::power},
    {"mass", &Aux::unit::mass}, {"volume_flux", &Aux::unit::volume_flux}, {"temperature", &Aux::unit::temperature}};
  json o = json::array();
  for (auto const &q : r.at("list")) {
    o.push_back(guarded([&]() -> json { return num(m.at(q[0])->parse_to_si(q[1])); }));
  }
  return o;
}

template <typename H> static void fillmat(H &h, json const &ops) {
  for (auto const &op : ops) h.add_to_coefficient(op[0].get<Eigen::Index>(), op[1].get<Eigen::Index>(), den(op[2]));
  h.set_matrix();
}
static json densemat(Eigen::SparseMatrix<double> const &M) {
  json o = json::array();
  Eigen::MatrixXd D(M);
  for (Eigen::Index i = 0; i < D.rows(); ++i)
    for (Eigen::Index j = 0; j < D.cols(); ++j) o.push_back(num(D(i, j)));
  return o;
}
static json matrix(json const &r) {
  Eigen::Index rows = r.at("rows").get<Eigen::Index>(), cols = r.at("cols").get<Eigen::Index>();
  bool tr = r.at("transposed");
  Eigen::SparseMatrix<double> M(rows, cols);
  json o = json::array();
  for (auto const &round : r.at("rounds")) {
    string k = round.at(0);
    if (k == "build") {
      M.setZero();
      M.data().squeeze();
      if (tr) { Aux::Triplethandler<Aux::Transposed> h(M); fillmat(h, round[1]); }
      else { Aux::Triplethandler<Aux::Regular> h(M); fillmat(h, round[1]); }
    } else if (k == "refill") {
      if (tr) { Aux::Coeffrefhandler<Aux::Transposed> h(M); fillmat(h, round[1]); }
      else { Aux::Coeffrefhandler<Aux::Regular> h(M); fillmat(h, round[1]); }
    } else if (k == "twice") { // the same triplet handler used for two fills in a row
      M.setZero();
      M.data().squeeze();
      if (tr) { Aux::Triplethandler<Aux::Transposed> h(M); fillmat(h, round[1]); fillmat(h, round[2]); }
      else { Aux::Triplethandler<Aux::Regular> h(M); fillmat(h, round[1]); fillmat(h, round[2]); }
    }
    json pattern = json::array();
    for (int c = 0; c < M.outerSize(); ++c)
      for (Eigen::SparseMatrix<double>::InnerIterator it(M, c); it; ++it) pattern.push_back({it.row(), it.col()});
    o.push_back({densemat(M), pattern});
  }
  return o;
}
struct Recorder {
  vector<double> samples, asked;
  size_t i = 0;
  double get_sample(double sd) {
    asked.push_back(sd);
    return samples.empty() ? 0.0 : sd * samples[i++ % samples.size()];
  }
};
static json oup(json const &r) {
  Recorder d;
  d.samples = vec(r.at("samples"));
  double v = Aux::euler_maruyama_oup(den(r["stability"]), den(r["cut"]), den(r["last"]), den(r["theta"]), den(r["mu"]), den(r["dt"]), den(r["sigma"]), d, r["steps"].get<int>());
  return {{"value", num(v)}, {"asked", d.asked.size()}, {"sd", d.asked.empty() ? json(nullptr) : num(d.asked[0])},
          {"sdsame", std::equal(d.asked.begin() + (d.asked.empty() ? 0 : 1), d.asked.end(), d.asked.begin())}};
}
static json noise(json const &r) {
  std::array<uint32_t, Aux::pcg_seed_count> used{}, seed{};
  bool given = r.contains("seed");
  if (given) for (size_t i = 0; i < seed.size(); ++i) seed[i] = r["seed"][i].get<uint32_t>();
  json o;
  auto n = r.at("n").get<int>();
  double sd = den(r.at("sd")), mean = r.contains("mean") ? den(r["mean"]) : 0.0;
  vector<double> v;
  auto run = [&](auto &d) {
    for (int i = 0; i < n; ++i) v.push_back(r.contains("mean") ? d.get_sample(mean, sd) : d.get_sample(sd));
  };
  if (r.at("truncated")) {
    if (given) { Aux::Truncatednormaldist d(used, seed); run(d); } else { Aux::Truncatednormaldist d(used); run(d); }
  } else {
    if (given) { Aux::Normaldistribution d(used, seed); run(d); } else { Aux::Normaldistribution d(used); run(d); }
  }
  o["used"] = used;
  o["samples"] = out(evec(json(v)));
  return o;
}
static json scheme(json const &r) {
  Model::Balancelaw::Isothermaleulerequation iso(r.at("pipe"));
  Model::Scheme::Implicitboxscheme<2> s;
  Eigen::Vector2d res;
  auto two = [&](char const *n) { return Eigen::Vector2d(den(r.at(n)[0]), den(r.at(n)[1])); };
  s.evaluate_point(res, den(r["t0"]), den(r["t1"]), den(r["dx"]), two("ll"), two("lr"), two("nl"), two("nr"), iso);
  return out(Eigen::VectorXd(res));
}

int main() {
  int fd = dup(1);
  FILE *answer = fdopen(fd, "w");
  if (dup2(2, 1) < 0) return 3;
  string line;
  while (std::getline(std::cin, line)) {
    json res;
    try {
      json r = json::parse(line);
      string c = r.at("cmd");
      if (c == "balance") res = balance(r);
      else if (c == "grid") res = guarded([&] { return grid(r); });
      else if (c == "series") res = guarded([&] { return series(r); });
      else if (c == "units") res = units(r);
      else if (c == "matrix") res = guarded([&] { return matrix(r); });
      else if (c == "oup") res = guarded([&] { return oup(r); });
      else if (c == "noise") res = guarded([&] { return noise(r); });
      else if (c == "scheme") res = scheme(r);
      else res = {{"protocol", "unknown command"}};
    } catch (std::exception &e) { res = {{"protocol", e.what()}}; }
    string t = res.dump(-1, ' ', true, json::error_handler_t::replace);
    std::fprintf(answer, "%s\n", t.c_str());
    std::fflush(answer);
  }
}
