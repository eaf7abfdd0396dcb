// A server around the real library: loads a problem directory the way
// `grazer run` does and answers requests on stdin with numbers on stdout.
//
// request:  <cmd> <int args...> @<n>\n  followed by n raw doubles
// response: ok <ints...> @<n>\n followed by n raw doubles | err <message>\n
#include "Aux_json.hpp"
#include "Constraintcomponent.hpp"
#include "Controlcomponent.hpp"
#include "ControlStateCache.hpp"
#include "Costcomponent.hpp"
#include "Edge.hpp"
#include "Full_factory.hpp"
#include "ImplicitOptimizer.hpp"
#include "InterpolatingVector.hpp"
#include "Matrixhandler.hpp"
#include "Net.hpp"
#include "Netfactory.hpp"
#include "Networkproblem.hpp"
#include "Node.hpp"
#include "Statecomponent.hpp"
#include "Timedata.hpp"
#include "Timeevolver.hpp"
#include "Adaptor.hpp"
#include "Wrapper.hpp"
#include "toy.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <iostream>
#include <map>
#include <memory>
#include <nlohmann/json.hpp>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

using Eigen::Index;
using Eigen::VectorXd;
using std::string;
using std::vector;

static FILE *answer;

struct Reply {
  vector<long> ints;
  vector<double> vals;
  string text;
};

static void send(Reply const &r) {
  std::fprintf(answer, "ok");
  for (auto i : r.ints) std::fprintf(answer, " %ld", i);
  if (not r.text.empty()) std::fprintf(answer, " |%s", r.text.c_str());
  std::fprintf(answer, " @%zu\n", r.vals.size());
  if (not r.vals.empty()) std::fwrite(r.vals.data(), sizeof(double), r.vals.size(), answer);
  std::fflush(answer);
}
static void senderr(string m) {
  for (auto &c : m) if (c == '\n') c = ' ';
  std::fprintf(answer, "err %s\n", m.c_str());
  std::fflush(answer);
}
static void put(Reply &r, VectorXd const &v) { r.vals.insert(r.vals.end(), v.data(), v.data() + v.size()); }

struct Lab {
  std::unique_ptr<Model::OptimizableObject> owned;
  Model::OptimizableObject *problem = nullptr;
  Model::Networkproblem *network = nullptr; // null for the toy
  ToyData toy;
  nlohmann::json settings;
  std::unique_ptr<Model::Timeevolver> evolver;
  std::unique_ptr<Optimization::ImplicitOptimizer> owned_optimizer;
  Optimization::ImplicitOptimizer *optimizer = nullptr;
  Ipopt::SmartPtr<Optimization::IpoptWrapper> wrapper; // owns the optimizer, if present
  void drop() { optimizer = nullptr; owned_optimizer.reset(); wrapper = nullptr; }
  VectorXd initial_state;
  nlohmann::json all_json;
  std::filesystem::path dir;
  Eigen::SparseMatrix<double> mats[16];
  std::unique_ptr<Optimization::ControlStateCache> cache;

  void load(string const &d) {
    drop();
    owned.reset();
    evolver.reset();
    dir = std::filesystem::path(d) / "problem";
    all_json = aux_json::get_json_from_file_path(dir / "problem_data.json");
    auto problem_json = all_json["problem_data"];
    problem_json["GRAZER_file_directory"] = dir.string();
    auto initial_json = aux_json::get_json_from_file_path(dir / "initial.json");
    evolver = Model::Timeevolver::make_pointer_instance(all_json["simulation_settings"]);
    Model::Componentfactory::Full_factory factory(problem_json.value("defaults", R"({})"_json));
    auto np = std::make_unique<Model::Networkproblem>(Model::build_net(problem_json, factory));
    network = np.get();
    network->init();
    owned = std::move(np);
    problem = owned.get();
    settings = all_json["simulation_settings"];
    initial_state = VectorXd::Zero(problem->get_number_of_states());
    problem->set_initial_values(initial_state, initial_json);
  }
  void maketoy() {
    drop();
    owned.reset();
    network = nullptr;
    auto t = std::make_unique<Mock_OptimizableObject>(toy);
    t->set_state_indices(0);
    t->set_control_indices(0);
    t->set_constraint_indices(0);
    evolver = Model::Timeevolver::make_pointer_instance(settings);
    owned = std::move(t);
    problem = owned.get();
    initial_state = toy.x0;
  }
};

int main() {
  // stdout of the library must not disturb the protocol
  int fd = dup(1);
  answer = fdopen(fd, "w");
  if (dup2(2, 1) < 0) return 3;
  if (std::getenv("LAB_QUIET")) { if (not freopen("/dev/null", "w", stdout)) return 3; }
  Lab L;
  string line;
  char c;
  while (true) {
    line.clear();
    int ch;
    while ((ch = std::fgetc(stdin)) != EOF and ch != '\n') line.push_back(static_cast<char>(ch));
    if (ch == EOF) return 0;
    // tokens
    std::istringstream is(line);
    string cmd, tok;
    is >> cmd;
    if (cmd == "load") {
      string path;
      std::getline(is, path);
      path = path.substr(path.find_first_not_of(' '));
      try {
        L.load(path);
        Reply r;
        r.ints = {L.problem->get_number_of_states(), L.problem->get_number_of_controls_per_timepoint(),
                  L.problem->get_number_of_constraints_per_timepoint()};
        put(r, L.initial_state);
        send(r);
      } catch (std::exception &e) { senderr(e.what()); }
      continue;
    }
    vector<long> a;
    size_t n = 0;
    while (is >> tok) {
      if (tok[0] == '@') n = std::stoul(tok.substr(1));
      else a.push_back(std::stol(tok));
    }
    vector<double> in(n);
    if (n and std::fread(in.data(), sizeof(double), n, stdin) != n) return 3;
    size_t pos = 0;
    auto take = [&](Index k) -> VectorXd {
      if (pos + static_cast<size_t>(k) > in.size()) { std::fprintf(stderr, "LAB PROTOCOL ERROR\n"); std::exit(3); }
      VectorXd v(k);
      for (Index i = 0; i < k; ++i) v[i] = in[pos + static_cast<size_t>(i)];
      pos += static_cast<size_t>(k);
      return v;
    };
    auto scalar = [&]() { return take(1)[0]; };
    Reply r;
    try {
      auto *p = L.problem;
      Index ns = p ? p->get_number_of_states() : 0;
      Index nc = p ? p->get_number_of_controls_per_timepoint() : 0;
      Index ng = p ? p->get_number_of_constraints_per_timepoint() : 0;
      if (cmd == "eval") {            // K | t0 t1 (last new control)*K -> root*K
        double t0 = scalar(), t1 = scalar();
        for (long k = 0; k < a[0]; ++k) {
          VectorXd last = take(ns), nw = take(ns), u = take(nc);
          VectorXd root = VectorXd::Constant(ns, std::nan(""));
          p->evaluate(root, t0, t1, last, nw, u);
          put(r, root);
        }
      } else if (cmd == "evaldirty") { // as eval, rootvalues prefilled with a given value
        double t0 = scalar(), t1 = scalar(), fill = scalar();
        VectorXd last = take(ns), nw = take(ns), u = take(nc);
        VectorXd root = VectorXd::Constant(ns, fill);
        p->evaluate(root, t0, t1, last, nw, u);
        put(r, root);
      } else if (cmd == "prepare") {
        double t0 = scalar(), t1 = scalar();
        VectorXd last = take(ns), u = take(nc);
        p->prepare_timestep(t0, t1, last, u);
      } else if (cmd == "fun") {      // which(0 cost,1 penalty,2 constraint) K | t (state control)*K
        double t = scalar();
        for (long k = 0; k < a[1]; ++k) {
          VectorXd s = take(ns), u = take(nc);
          if (a[0] == 0) r.vals.push_back(p->evaluate_cost(t, s, u));
          else if (a[0] == 1) r.vals.push_back(p->evaluate_penalty(t, s, u));
          else {
            VectorXd g = VectorXd::Constant(ng, std::nan(""));
            p->evaluate_constraint(g, t, s, u);
            put(r, g);
          }
        }
      } else if (cmd == "jac") {
        // which mode | t0 t1 last new control -> rows cols nnz, dense row major
        // which 0 new 1 last 2 control 3 g/state 4 g/control 5 cost/state 6 cost/control 7 penalty/state 8 penalty/control
        // mode 0 triplets, 1 refill the existing pattern
        double t0 = scalar(), t1 = scalar();
        VectorXd last = take(ns), nw = take(ns), u = take(nc);
        long w = a[0];
        Eigen::SparseMatrix<double> &M = L.mats[w];
        Index rows = w < 3 ? ns : w < 5 ? ng : 1;
        Index cols = (w == 2 or w == 4 or w == 6 or w == 8) ? nc : ns;
        auto fill = [&](Aux::Matrixhandler &h) {
          switch (w) {
          case 0: p->d_evaluate_d_new_state(h, t0, t1, last, nw, u); break;
          case 1: p->d_evaluate_d_last_state(h, t0, t1, last, nw, u); break;
          case 2: p->d_evaluate_d_control(h, t0, t1, last, nw, u); break;
          case 3: p->d_evaluate_constraint_d_state(h, t1, nw, u); break;
          case 4: p->d_evaluate_constraint_d_control(h, t1, nw, u); break;
          case 5: p->d_evaluate_cost_d_state(h, t1, nw, u); break;
          case 6: p->d_evaluate_cost_d_control(h, t1, nw, u); break;
          case 7: p->d_evaluate_penalty_d_state(h, t1, nw, u); break;
          case 8: p->d_evaluate_penalty_d_control(h, t1, nw, u); break;
          }
          h.set_matrix();
        };
        if (a[1] == 0) {
          M.resize(rows, cols);
          Aux::Triplethandler h(M);
          fill(h);
        } else {
          Aux::Coeffrefhandler h(M);
          fill(h);
        }
        Eigen::MatrixXd D = Eigen::MatrixXd(M);
        r.ints = {rows, cols, M.nonZeros()};
        for (Index i = 0; i < rows; ++i)
          for (Index j = 0; j < cols; ++j) r.vals.push_back(D(i, j));
      } else if (cmd == "simulate") { // nt nct | times ctimes controls -> states
        VectorXd t = take(a[0]), ct = take(a[1]);
        VectorXd cv = take(a[1] * nc);
        Aux::InterpolatingVector saved(t, ns);
        if (nc > 0) {
          Aux::InterpolatingVector ctl(ct, nc);
          ctl.set_values_in_bulk(cv);
          L.evolver->simulate(L.initial_state, ctl, *p, saved);
        } else {
          Aux::InterpolatingVector ctl;
          L.evolver->simulate(L.initial_state, ctl, *p, saved);
        }
        put(r, saved.get_allvalues());
      } else if (cmd == "controls") { // nct | ctimes -> values of control.json on this grid
        VectorXd ct = take(a[0]);
        Aux::InterpolatingVector ctl(ct, nc);
        p->set_initial_controls(ctl, aux_json::get_json_from_file_path(L.dir / "control.json"));
        put(r, ctl.get_allvalues());
      } else if (cmd == "toy") {      // ns nc ng maxiter retries simplified | tolerance fail z matrices vectors
        ToyData t;
        t.ns = a[0]; t.nc = a[1]; t.ng = a[2];
        L.settings = {{"maximal_number_of_newton_iterations", a[3]}, {"retries", a[4]}, {"use_simplified_newton", a[5] != 0}, {"tolerance", scalar()}};
        t.fail = scalar();
        t.z = scalar();
        auto mat = [&](Index rr, Index cc) { Eigen::MatrixXd M(rr, cc); VectorXd v = take(rr * cc); for (Index i = 0; i < rr; ++i) for (Index j = 0; j < cc; ++j) M(i, j) = v[i * cc + j]; return M; };
        t.A = mat(t.ns, t.ns); t.B = mat(t.ns, t.ns); t.C = mat(t.ns, t.nc); t.G = mat(t.ng, t.ns); t.H = mat(t.ng, t.nc);
        for (auto *v : {&t.e, &t.s, &t.m, &t.q, &t.w, &t.pn, &t.x0}) *v = take(t.ns);
        for (auto *v : {&t.r, &t.c, &t.pu}) *v = take(t.nc);
        for (auto *v : {&t.gam, &t.del, &t.kap, &t.mu}) *v = take(t.ng);
        for (auto *v : {&t.f, &t.g, &t.o, &t.k, &t.y, &t.tw}) *v = take(t.ns);
        t.th = take(t.ng);
        L.toy = t;
        L.maketoy();
      } else if (cmd == "indices") {
        // for every component: kind(0 node,1 edge) state.start state.after control.start control.after constraint.start constraint.after ; text: ids
        nlohmann::json names = nlohmann::json::array();
        auto add = [&](long kind, auto *comp) {
          long v[6] = {-1, -1, -1, -1, -1, -1};
          if (auto *s = dynamic_cast<Model::Statecomponent const *>(comp)) { v[0] = s->get_state_startindex(); v[1] = s->get_state_afterindex(); }
          if (auto *s = dynamic_cast<Model::Controlcomponent const *>(comp)) { v[2] = s->get_control_startindex(); v[3] = s->get_control_afterindex(); }
          if (auto *s = dynamic_cast<Model::Constraintcomponent const *>(comp)) { v[4] = s->get_constraint_startindex(); v[5] = s->get_constraint_afterindex(); }
          r.ints.push_back(kind);
          for (long x : v) r.ints.push_back(x);
          names.push_back(comp->get_id());
        };
        auto &net = L.network->get_network();
        for (auto *nd : net.get_nodes()) add(0, nd);
        for (auto *e : net.get_edges()) add(1, e);
        string t = names.dump();
        // separators of the protocol
        string hex;
        static char const *d = "0123456789abcdef";
        for (unsigned char ch2 : t) { hex.push_back(d[ch2 >> 4]); hex.push_back(d[ch2 & 15]); }
        r.text = hex;
      } else if (cmd == "opt") {
        // nt nct ng_t | times ctimes gtimes initialcontrols lower upper glower gupper
        VectorXd t = take(a[0]), ct = take(a[1]), gt = take(a[2]);
        Aux::InterpolatingVector ic(ct, nc), lo(ct, nc), up(ct, nc), glo(gt, ng), gup(gt, ng);
        for (auto *v : {&ic, &lo, &up}) v->set_values_in_bulk(take(a[1] * nc));
        for (auto *v : {&glo, &gup}) v->set_values_in_bulk(take(a[2] * ng));
        // the optimizer takes the problem away: load a second one
        Lab M;
        if (L.network) M.load(L.dir.parent_path().string());
        else { M.toy = L.toy; M.settings = L.settings; M.maketoy(); }
        auto cache = std::make_unique<Optimization::ControlStateCache>(std::move(M.evolver));
        L.drop();
        L.owned_optimizer = std::make_unique<Optimization::ImplicitOptimizer>(
            std::move(M.owned), std::move(cache), t, ct, gt, M.initial_state, ic, lo, up, glo, gup);
        L.optimizer = L.owned_optimizer.get();
        if (a.size() > 3 and a[3] == 1) L.wrapper = new Optimization::IpoptWrapper(std::move(L.owned_optimizer));
        auto &o = *L.optimizer;
        r.ints = {o.get_total_no_controls(), o.get_total_no_constraints(), o.get_no_nnz_in_jacobian()};
        for (auto v : {o.get_initial_controls(), o.get_lower_bounds(), o.get_upper_bounds(), o.get_constraint_lower_bounds(), o.get_constraint_upper_bounds()})
          put(r, v);
      } else if (cmd == "cache") {    // 0 new cache | 1 refresh, 2 check: nt nct | times ctimes controls initial -> ok states
        if (a[0] == 0) {
          Lab M;
          if (L.network) M.load(L.dir.parent_path().string());
          else { M.toy = L.toy; M.settings = L.settings; M.maketoy(); }
          L.cache = std::make_unique<Optimization::ControlStateCache>(std::move(M.evolver));
          r.ints = {1};
        } else {
          VectorXd t = take(a[1]), ct = take(a[2]);
          Aux::InterpolatingVector ctl(ct, nc);
          ctl.set_values_in_bulk(take(a[2] * nc));
          VectorXd init = take(ns);
          bool ok = false;
          if (a[0] == 1) {
            ok = L.cache->refresh_cache(*p, ctl, t, init);
            if (ok) put(r, L.cache->get_cached_states().get_allvalues());
          } else if (auto *s = L.cache->check_and_supply_states(*p, ctl, t, init)) {
            ok = true;
            put(r, s->get_allvalues());
          }
          r.ints = {ok};
        }
      } else if (cmd == "ostruct") {
        auto &o = *L.optimizer;
        Eigen::VectorX<Ipopt::Index> rows(o.get_no_nnz_in_jacobian()), cols(o.get_no_nnz_in_jacobian());
        rows.setConstant(-7);
        cols.setConstant(-7);
        bool ok = o.supply_constraint_jacobian_indices(rows, cols);
        r.ints.push_back(ok);
        for (Index i = 0; i < rows.size(); ++i) r.vals.push_back(rows[i]);
        for (Index i = 0; i < cols.size(); ++i) r.vals.push_back(cols[i]);
      } else if (cmd == "w") {        // what newx | x (g obj) -> ok, values: through the wrapper for Ipopt
        auto &o = *L.optimizer;
        auto n32 = static_cast<Ipopt::Index>(o.get_total_no_controls()), m32 = static_cast<Ipopt::Index>(o.get_total_no_constraints());
        auto z32 = static_cast<Ipopt::Index>(o.get_no_nnz_in_jacobian());
        Ipopt::TNLP &w = *L.wrapper;
        bool ok = false;
        double d = std::nan("");
        VectorXd x, v;
        if (a[0] <= 6) x = take(n32);
        switch (a[0]) {
        case 0: ok = w.eval_f(n32, x.data(), a[1], d); r.vals.push_back(d); break;
        case 3: v = VectorXd::Constant(m32, std::nan("")); ok = w.eval_g(n32, x.data(), a[1], m32, v.data()); put(r, v); break;
        case 4: v = VectorXd::Constant(n32, std::nan("")); ok = w.eval_grad_f(n32, x.data(), a[1], v.data()); put(r, v); break;
        case 5: v = VectorXd::Constant(z32, std::nan("")); ok = w.eval_jac_g(n32, x.data(), a[1], m32, z32, nullptr, nullptr, v.data()); put(r, v); break;
        case 6: {                     // the end of an optimization: newx = success
          VectorXd g = take(m32);
          d = scalar();
          w.finalize_solution(a[1] ? Ipopt::SUCCESS : Ipopt::MAXITER_EXCEEDED, n32, x.data(), nullptr, nullptr, m32, g.data(), nullptr, d, nullptr, nullptr);
          r.vals = {L.wrapper->get_best_objective_value(), L.wrapper->get_best_cost_value(), L.wrapper->get_best_penalty_value()};
          put(r, L.wrapper->get_best_solution());
          put(r, L.wrapper->get_best_constraints());
          ok = true;
          break;
        }
        case 7: {                     // sizes, bounds, starting point, structure
          Ipopt::Index n = -7, m = -7, z = -7, h = -7;
          Ipopt::TNLP::IndexStyleEnum style;
          ok = w.get_nlp_info(n, m, z, h, style);
          r.ints = {n, m, z, h, style == Ipopt::TNLP::C_STYLE};
          if (n != n32 or m != m32 or z != z32) break;
          VectorXd b[5] = {VectorXd(n), VectorXd(n), VectorXd(m), VectorXd(m), VectorXd(n)};
          for (auto &q : b) q.setConstant(std::nan(""));
          ok = ok and w.get_bounds_info(n, b[0].data(), b[1].data(), m, b[2].data(), b[3].data());
          ok = ok and w.get_starting_point(n, true, b[4].data(), false, nullptr, nullptr, m, false, nullptr);
          Eigen::VectorX<Ipopt::Index> rows(z), cols(z);
          rows.setConstant(-7);
          cols.setConstant(-7);
          ok = ok and w.eval_jac_g(n, nullptr, false, m, z, rows.data(), cols.data(), nullptr);
          for (auto &q : b) put(r, q);
          for (Index i = 0; i < z; ++i) r.vals.push_back(rows[i]);
          for (Index i = 0; i < z; ++i) r.vals.push_back(cols[i]);
          break;
        }
        }
        r.ints.push_back(ok);
      } else if (cmd == "ipopt") {    // a whole optimization; gives the optimizer away
        Optimization::IpoptAdaptor adaptor(std::move(L.owned_optimizer));
        auto status = adaptor.optimize();
        r.ints = {static_cast<long>(status)};
        r.vals = {adaptor.get_objective_value(), adaptor.get_cost_value(), adaptor.get_penalty_value()};
        put(r, adaptor.get_solution());
        L.drop();
      } else if (cmd == "o") {        // what newx | x -> ok, values
        auto &o = *L.optimizer;
        VectorXd x = take(o.get_total_no_controls());
        if (a[1]) o.new_x();
        bool ok = false;
        double d = std::nan("");
        VectorXd v;
        switch (a[0]) {
        case 0: ok = o.evaluate_objective(x, d); r.vals.push_back(d); break;
        case 1: ok = o.evaluate_cost(x, d); r.vals.push_back(d); break;
        case 2: ok = o.evaluate_penalty(x, d); r.vals.push_back(d); break;
        case 3: v = VectorXd::Constant(o.get_total_no_constraints(), std::nan("")); ok = o.evaluate_constraints(x, v); put(r, v); break;
        case 4: v = VectorXd::Constant(o.get_total_no_controls(), std::nan("")); ok = o.evaluate_objective_gradient(x, v); put(r, v); break;
        case 5: v = VectorXd::Constant(o.get_no_nnz_in_jacobian(), std::nan("")); ok = o.evaluate_constraint_jacobian(x, v); put(r, v); break;
        case 6: ok = o.evaluate_objective(x, d); if (ok) put(r, o.get_current_full_state().get_allvalues()); break;
        }
        r.ints.push_back(ok);
      } else {
        senderr("unknown command " + cmd);
        continue;
      }
      send(r);
    } catch (std::exception &e) { senderr(e.what()); }
  }
}
