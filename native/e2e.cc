// End-to-end driver (bounded stand-in, never counted as proved): solves programs read from stdin with the
// propagator compiled from /repo's current sources and prints the answers.
#include <clingcon/parsing.hh>
#include <clingcon/propagator.hh>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
using namespace Clingcon;
struct Handler : Clingo::SolveEventHandler {
    Handler(Propagator &p, bool single) : p{p}, single{single} {}
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override { p.on_statistics(step, accu); }
    bool on_model(Clingo::Model &m) override {
        p.on_model(m);
        std::ostringstream o;
        auto syms = m.symbols();
        std::sort(syms.begin(), syms.end());
        for (auto &s : syms) o << s << " ";
        std::vector<std::pair<Clingo::Symbol, val_t>> a;
        for (auto [var, sym] : p.var_map()) if (p.shown(var)) a.emplace_back(sym, p.get_value(var, m.thread_id()));
        std::sort(a.begin(), a.end());
        for (auto [s, v] : a) o << s << "=" << v << " ";
        std::string cost;
        for (auto &s : m.symbols(Clingo::ShowType::Theory)) { std::ostringstream t; t << s; if (t.str().rfind("__csp_cost", 0) == 0) cost = t.str(); }
        if (!cost.empty()) o << cost << " ";
        auto c = m.cost();
        if (!c.empty()) { o << "cost("; for (auto x : c) o << x << ","; o << ")"; if (m.optimality_proven()) o << "*"; }
        models.emplace_back(o.str());
        return true;
    }
    Propagator &p; bool single; std::vector<std::string> models;
};
static void run(std::vector<std::pair<std::string, std::string>> const &opts, std::vector<std::string> const &parts) {
    Propagator p;
    auto &c = p.config();
    std::vector<std::string> args{"0"};
    bool shift = true;
    bool sorted = true;
    bool best = false; // only the optimal cost
    for (auto const &[k, v] : opts) {
        auto n = [&] { return std::stoll(v); };
        auto &s = c.default_solver_config;
        if (k == "heu") s.heuristic = static_cast<Heuristic>(n());
        else if (k == "sign") s.sign_value = n();
        else if (k == "split") s.split_all = n();
        else if (k == "chain") s.propagate_chain = n();
        else if (k == "refine") s.refine_reasons = n();
        else if (k == "intro") s.refine_introduce = n();
        else if (k == "wc") c.weight_constraint_ratio = std::stod(v);
        else if (k == "clt") c.clause_limit_total = n();
        else if (k == "cl") c.clause_limit = n();
        else if (k == "dl") c.distinct_limit = n();
        else if (k == "tm") c.translate_minimize = n();
        else if (k == "min") c.min_int = n();
        else if (k == "max") c.max_int = n();
        else if (k == "sort") c.sort_constraints = n();
        else if (k == "lo") c.literals_only = n();
        else if (k == "ord") c.add_order_clauses = n();
        else if (k == "cs") c.check_solution = n();
        else if (k == "cst") c.check_state = n();
        else if (k == "shift") shift = n();
        else if (k == "raw") sorted = !n();
        else if (k == "best") best = n();
        else if (k == "arg") args.emplace_back(v);
        else throw std::runtime_error("bad option " + k);
    }
    std::vector<char const *> cargs;
    for (auto &a : args) cargs.emplace_back(a.c_str());
    Clingo::Control ctl{cargs, [](Clingo::WarningCode, char const *) {}, 20};
    ctl.add("base", {}, THEORY);
    ctl.register_propagator(p, false);
    int i = 0;
    for (auto const &prg : parts) {
        std::string full = "#program p" + std::to_string(i) + ".\n" + prg;
        Clingo::AST::with_builder(ctl, [&](Clingo::AST::ProgramBuilder &b) {
            Clingo::AST::parse_string(full.c_str(), [&](Clingo::AST::Node const &stm) {
                transform(stm, [&](Clingo::AST::Node const &s) { b.add(s); }, shift);
            }, [](Clingo::WarningCode, char const *) {}, 20);
        });
        std::string name = "p" + std::to_string(i++);
        if (i == 1) ctl.ground({{"base", {}}});
        ctl.ground({{name.c_str(), {}}});
        Handler h{p, false};
        auto r = ctl.solve(Clingo::LiteralSpan{}, &h, false, false).get();
        if (sorted && !best) std::sort(h.models.begin(), h.models.end());
        std::cout << "@shot " << (r.is_satisfiable() ? "SAT" : r.is_unsatisfiable() ? "UNSAT" : "UNKNOWN") << " " << (r.is_exhausted() ? 1 : 0) << "\n";
        if (best && !h.models.empty()) h.models = {h.models.back().substr(std::min(h.models.back().size(), h.models.back().find("__csp_cost")))};
        for (auto &m : h.models) std::cout << m << "\n";
    }
}
int main() {
    std::string line;
    std::vector<std::pair<std::string, std::string>> opts;
    std::vector<std::string> parts;
    while (std::getline(std::cin, line)) {
        if (line.rfind("@case", 0) == 0) {
            opts.clear(); parts.assign(1, "");
            std::istringstream is{line.substr(5)};
            std::string t;
            while (is >> t) { auto e = t.find('='); opts.emplace_back(t.substr(0, e), t.substr(e + 1)); }
            std::cout << line << "\n";
        } else if (line == "@part") parts.emplace_back();
        else if (line == "@end") {
            alarm(20);
            try { run(opts, parts); } catch (std::exception const &e) { std::string m = e.what(); std::replace(m.begin(), m.end(), '\n', ' '); std::cout << "@error " << m << "\n"; }
            alarm(0);
            std::cout << "@done" << std::endl;
        } else { parts.back() += line + "\n"; }
    }
}
