// A synthetic optimizable problem with all couplings the interface permits
// (cost and constraints depending on state, control and time, nonlinear mixed
// equations), described by plain numbers; lib/toy.py knows the same formulas.
#pragma once
#include "InterpolatingVector.hpp"
#include "Matrixhandler.hpp"
#include "OptimizableObject.hpp"
#include <cmath>
#include <limits>
#include <string>

struct ToyData {
  Eigen::Index ns = 0, nc = 0, ng = 0;
  Eigen::MatrixXd A, B, C, G, H; // equations; constraints
  Eigen::VectorXd e, s, m, q, w, r, c, pn, pu, gam, del, kap, mu, x0;
  Eigen::VectorXd f, g, o, k, y, tw, th; // last state: squared, with new state, with control; time dependence
  double z = 0, fail = 0;
};

// the name is that of a friend of the component classes, as in the tests
class Mock_OptimizableObject final : public Model::OptimizableObject {
public:
  using V = Eigen::Ref<Eigen::VectorXd const>;
  ToyData d;
  Mock_OptimizableObject(ToyData const &_d) : d(_d) {}
  void setup() final {}
  double u0(V const &u) const { return d.nc ? u[0] : 0.0; }

  void evaluate(Eigen::Ref<Eigen::VectorXd> root, double t0, double t1, V const &l, V const &n, V const &u) const final {
    double dt = t1 - t0;
    for (Eigen::Index i = 0; i < d.ns; ++i) {
      double v = d.e[i] * n[i] * n[i] * n[i] - dt * d.s[i] * std::sin(t1) + d.m[i] * n[i] * u0(u);
      v += d.f[i] * l[i] * l[i] + d.g[i] * l[i] * n[i] + (d.o[i] * l[i] + d.k[i] * u0(u)) * u0(u) + dt * d.y[i] * std::cos(t1) * n[i];
      for (Eigen::Index j = 0; j < d.ns; ++j) v += d.A(i, j) * n[j] - d.B(i, j) * l[j];
      for (Eigen::Index k = 0; k < d.nc; ++k) v -= dt * d.C(i, k) * u[k];
      root[i] = (u0(u) > d.fail) ? std::numeric_limits<double>::quiet_NaN() : v;
    }
  }
  void prepare_timestep(double, double, V const &, V const &) final {}
  void d_evaluate_d_new_state(Aux::Matrixhandler &h, double t0, double t1, V const &l, V const &n, V const &u) const final {
    for (Eigen::Index i = 0; i < d.ns; ++i) {
      for (Eigen::Index j = 0; j < d.ns; ++j)
        if (d.A(i, j) != 0.0) h.add_to_coefficient(i, j, d.A(i, j));
      h.add_to_coefficient(i, i, 3 * d.e[i] * n[i] * n[i] + d.m[i] * u0(u) + d.g[i] * l[i] + (t1 - t0) * d.y[i] * std::cos(t1));
    }
  }
  void d_evaluate_d_last_state(Aux::Matrixhandler &h, double, double, V const &l, V const &n, V const &u) const final {
    for (Eigen::Index i = 0; i < d.ns; ++i) {
      for (Eigen::Index j = 0; j < d.ns; ++j)
        if (d.B(i, j) != 0.0) h.add_to_coefficient(i, j, -d.B(i, j));
      h.add_to_coefficient(i, i, 2 * d.f[i] * l[i] + d.g[i] * n[i] + d.o[i] * u0(u));
    }
  }
  void d_evaluate_d_control(Aux::Matrixhandler &h, double t0, double t1, V const &l, V const &n, V const &u) const final {
    for (Eigen::Index i = 0; i < d.ns; ++i) {
      for (Eigen::Index k = 0; k < d.nc; ++k)
        if (d.C(i, k) != 0.0) h.add_to_coefficient(i, k, -(t1 - t0) * d.C(i, k));
      if (d.nc) h.add_to_coefficient(i, 0, d.m[i] * n[i] + d.o[i] * l[i] + 2 * d.k[i] * u[0]);
    }
  }
  double evaluate_cost(double t, V const &n, V const &u) const final {
    double v = 0;
    for (Eigen::Index j = 0; j < d.ns; ++j) v += d.q[j] * n[j] * n[j] + (d.w[j] + std::cos(t) * d.tw[j]) * n[j];
    for (Eigen::Index k = 0; k < d.nc; ++k) v += d.r[k] * u[k] * u[k] + t * d.c[k] * u[k];
    if (d.ns and d.nc) v += d.z * n[0] * u[0];
    return v;
  }
  void d_evaluate_cost_d_state(Aux::Matrixhandler &h, double t, V const &n, V const &u) const final {
    for (Eigen::Index j = 0; j < d.ns; ++j) h.add_to_coefficient(0, j, 2 * d.q[j] * n[j] + d.w[j] + std::cos(t) * d.tw[j]);
    if (d.ns and d.nc) h.add_to_coefficient(0, 0, d.z * u[0]);
  }
  void d_evaluate_cost_d_control(Aux::Matrixhandler &h, double t, V const &n, V const &u) const final {
    for (Eigen::Index k = 0; k < d.nc; ++k) h.add_to_coefficient(0, k, 2 * d.r[k] * u[k] + t * d.c[k]);
    if (d.ns and d.nc) h.add_to_coefficient(0, 0, d.z * n[0]);
  }
  double evaluate_penalty(double, V const &n, V const &u) const final {
    double v = 0;
    for (Eigen::Index j = 0; j < d.ns; ++j) v += d.pn[j] * std::pow(n[j], 4);
    for (Eigen::Index k = 0; k < d.nc; ++k) v += d.pu[k] * std::pow(u[k], 4);
    return v;
  }
  void d_evaluate_penalty_d_state(Aux::Matrixhandler &h, double, V const &n, V const &) const final {
    for (Eigen::Index j = 0; j < d.ns; ++j) h.add_to_coefficient(0, j, 4 * d.pn[j] * std::pow(n[j], 3));
  }
  void d_evaluate_penalty_d_control(Aux::Matrixhandler &h, double, V const &, V const &u) const final {
    for (Eigen::Index k = 0; k < d.nc; ++k) h.add_to_coefficient(0, k, 4 * d.pu[k] * std::pow(u[k], 3));
  }
  void evaluate_constraint(Eigen::Ref<Eigen::VectorXd> g, double t, V const &n, V const &u) const final {
    for (Eigen::Index k = 0; k < d.ng; ++k) {
      double v = d.gam[k] * n[0] * n[0] + d.kap[k] * t + d.mu[k] * n[0] * u0(u) + d.del[k] * u0(u) * u0(u) + std::cos(t) * d.th[k] * (n[0] + u0(u));
      for (Eigen::Index j = 0; j < d.ns; ++j) v += d.G(k, j) * n[j];
      for (Eigen::Index j = 0; j < d.nc; ++j) v += d.H(k, j) * u[j];
      g[k] = v;
    }
  }
  void d_evaluate_constraint_d_state(Aux::Matrixhandler &h, double t, V const &n, V const &u) const final {
    for (Eigen::Index k = 0; k < d.ng; ++k) {
      for (Eigen::Index j = 0; j < d.ns; ++j)
        if (d.G(k, j) != 0.0) h.add_to_coefficient(k, j, d.G(k, j));
      h.add_to_coefficient(k, 0, 2 * d.gam[k] * n[0] + d.mu[k] * u0(u) + std::cos(t) * d.th[k]);
    }
  }
  void d_evaluate_constraint_d_control(Aux::Matrixhandler &h, double t, V const &n, V const &u) const final {
    for (Eigen::Index k = 0; k < d.ng; ++k) {
      for (Eigen::Index j = 0; j < d.nc; ++j)
        if (d.H(k, j) != 0.0) h.add_to_coefficient(k, j, d.H(k, j));
      if (d.nc) h.add_to_coefficient(k, 0, 2 * d.del[k] * u[0] + d.mu[k] * n[0] + std::cos(t) * d.th[k]);
    }
  }
  Eigen::Index set_state_indices(Eigen::Index i) final { state_startindex = i; return state_afterindex = i + d.ns; }
  Eigen::Index set_control_indices(Eigen::Index i) final { control_startindex = i; return control_afterindex = i + d.nc; }
  Eigen::Index set_constraint_indices(Eigen::Index i) final { constraint_startindex = i; return constraint_afterindex = i + d.ng; }
  void set_constraint_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const final {}
  void set_constraint_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const final {}
  void set_initial_controls(Aux::InterpolatingVector_Base &, nlohmann::json const &) const final {}
  void set_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const final {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const final {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, nlohmann::json &) const final {}
  void add_results_to_json(nlohmann::json &) final {}
  void json_save(double, V const &) final {}
  void set_initial_values(Eigen::Ref<Eigen::VectorXd>, nlohmann::json const &) const final {}

private:
  std::string componentclass() const final { return "toy"; }
  std::string componenttype() const final { return "toy"; }
  std::string id() const final { return "toy"; }
};
