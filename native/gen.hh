// random csp programs with an oracle that enumerates all answers, and the driver that solves them with the
// propagator compiled from /repo's current sources
#pragma once
#include "h.hh"
#include <clingcon/parsing.hh>
#include <clingcon/propagator.hh>
#include <csignal>
#include <unistd.h>
namespace G {
using namespace Clingcon;
using H::C;
using Vals = std::vector<int64_t>;
using Bools = std::vector<bool>;

struct Model {
    std::string text;
    bool has_cost{false};
    int64_t cost{0};
    std::vector<std::pair<std::string, int64_t>> vals;
    std::vector<std::string> atoms;
    std::vector<std::string> csp; // reported __csp symbols
};
struct Shot {
    bool sat{false};
    std::vector<Model> models;
};
struct Opts {
    std::vector<std::pair<std::string, std::string>> kv;
    template <class T> void set(std::string k, T v) { kv.emplace_back(k, H::str(v)); }
    std::string text() const {
        std::string r;
        for (auto &[k, v] : kv) { r += k + "=" + v + " "; }
        return r;
    }
};

struct Handler : Clingo::SolveEventHandler {
    Handler(Propagator &p, std::vector<Model> &m) : p{p}, models{m} {}
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override { p.on_statistics(step, accu); }
    bool on_model(Clingo::Model &m) override {
        p.on_model(m);
        Model r;
        auto syms = m.symbols();
        std::sort(syms.begin(), syms.end());
        for (auto &s : syms) { r.atoms.emplace_back(s.to_string()); }
        for (auto [var, sym] : p.var_map()) {
            if (p.shown(var)) { r.vals.emplace_back(sym.to_string(), p.get_value(var, m.thread_id())); }
        }
        std::sort(r.vals.begin(), r.vals.end());
        for (auto &s : m.symbols(Clingo::ShowType::Theory)) {
            if (s.type() == Clingo::SymbolType::Function && std::strcmp(s.name(), "__csp_cost") == 0) {
                r.has_cost = true;
                r.cost = std::stoll(s.arguments()[0].string());
            } else if (s.type() == Clingo::SymbolType::Function && std::strcmp(s.name(), "__csp") == 0) {
                r.csp.emplace_back(H::str(s.arguments()[0], "=", s.arguments()[1]));
            }
        }
        auto cost = m.cost();
        if (!cost.empty()) { // a translated objective
            r.has_cost = true;
            r.cost = cost[0];
        }
        std::sort(r.csp.begin(), r.csp.end());
        for (auto &a : r.atoms) { r.text += a + " "; }
        for (auto &[s, v] : r.vals) { r.text += H::str(s, "=", v, " "); }
        models.emplace_back(std::move(r));
        return models.size() < 20000;
    }
    Propagator &p;
    std::vector<Model> &models;
};

inline void configure(Propagator &p, Opts const &opts, std::vector<std::string> &args, bool &shift) {
    auto &c = p.config();
    for (auto const &[k, v] : opts.kv) {
        auto const &val = v;
        auto n = [&] { return std::stoll(val); };
        auto &s = c.default_solver_config;
        if (k == "heu") s.heuristic = static_cast<Heuristic>(n());
        else if (k == "sign") s.sign_value = n();
        else if (k == "split") s.split_all = n();
        else if (k == "chain") s.propagate_chain = n();
        else if (k == "refine") s.refine_reasons = n();
        else if (k == "intro") s.refine_introduce = n();
        else if (k == "wc") c.weight_constraint_ratio = std::stod(v);
        else if (k == "clt") c.clause_limit_total = n();
        else if (k == "cl") c.clause_limit = n();
        else if (k == "dl") c.distinct_limit = n();
        else if (k == "tm") c.translate_minimize = n();
        else if (k == "min") c.min_int = n();
        else if (k == "max") c.max_int = n();
        else if (k == "sort") c.sort_constraints = n();
        else if (k == "lo") c.literals_only = n();
        else if (k == "ord") c.add_order_clauses = n();
        else if (k == "cs") c.check_solution = n();
        else if (k == "cst") c.check_state = n();
        else if (k == "shift") shift = n();
        else if (k == "arg") args.emplace_back(v);
        else throw std::logic_error("bad option " + k);
    }
}

struct Part {
    std::string text;
};

// solves the parts one after the other; before(i, ctl, prop) is called before part i is solved
inline std::vector<Shot> solve(Opts const &opts, std::vector<std::string> const &parts, std::function<void(size_t, Clingo::Control &, Propagator &)> before = nullptr) {
    Propagator p;
    std::vector<std::string> args{"0"};
    bool shift = true;
    configure(p, opts, args, shift);
    std::vector<char const *> cargs;
    for (auto &a : args) { cargs.emplace_back(a.c_str()); }
    Clingo::Control ctl{cargs, [](Clingo::WarningCode, char const *) {}, 20};
    ctl.add("base", {}, THEORY);
    ctl.register_propagator(p, false);
    std::vector<Shot> res;
    size_t i = 0;
    for (auto const &prg : parts) {
        std::string full = H::str("#program p", i, ".\n", prg);
        Clingo::AST::with_builder(ctl, [&](Clingo::AST::ProgramBuilder &b) {
            Clingo::AST::parse_string(full.c_str(), [&](Clingo::AST::Node const &stm) {
                transform(stm, [&](Clingo::AST::Node const &s) { b.add(s); }, shift);
            }, [](Clingo::WarningCode, char const *) {}, 20);
        });
        if (i == 0) { ctl.ground({{"base", {}}}); }
        std::string name = H::str("p", i);
        ctl.ground({{name.c_str(), {}}});
        if (before) { before(i, ctl, p); }
        Shot s;
        Handler h{p, s.models};
        auto r = ctl.solve(Clingo::LiteralSpan{}, &h, false, false).get();
        s.sat = r.is_satisfiable();
        if (!r.is_exhausted()) { throw std::logic_error("search not exhausted"); }
        res.emplace_back(std::move(s));
        ++i;
    }
    return res;
}

// ------------------------------------------------------------- expressions
struct Ex {
    enum K { Num, Var, Neg, Add, Sub, Mul } k;
    int64_t n{0};
    std::vector<Ex> a{};
    bool rev{false};
    int64_t ev(Vals const &v) const {
        switch (k) {
            case Num: return n;
            case Var: return v[n];
            case Neg: return -a[0].ev(v);
            case Add: return a[0].ev(v) + a[1].ev(v);
            case Sub: return a[0].ev(v) - a[1].ev(v);
            default: return a[0].ev(v) * a[1].ev(v);
        }
    }
    std::string str(std::vector<std::string> const &names) const {
        auto par = [&](Ex const &e) { return e.k == Num && e.n >= 0 ? e.str(names) : e.k == Var ? e.str(names) : "(" + e.str(names) + ")"; };
        switch (k) {
            case Num: return H::str(n);
            case Var: return names[n];
            case Neg: return "-" + par(a[0]);
            case Add: return par(a[0]) + "+" + par(a[1]);
            case Sub: return par(a[0]) + "-" + par(a[1]);
            default: return par(a[0]) + "*" + par(a[1]);
        }
    }
};
inline Ex num(int64_t n) { return Ex{Ex::Num, n}; }
inline Ex var(int64_t n) { return Ex{Ex::Var, n}; }
inline Ex mul(Ex a, Ex b) { return Ex{Ex::Mul, 0, {a, b}}; }
inline Ex add(Ex a, Ex b) { return Ex{Ex::Add, 0, {a, b}}; }
inline Ex sub(Ex a, Ex b) { return Ex{Ex::Sub, 0, {a, b}}; }

using Pred = std::function<bool(Vals const &)>;
struct TAtom {
    std::string text;
    Pred holds;
    bool head_only{false}, diff{false};
};
struct Bounds {
    int64_t lo, hi;
};

inline bool rel(std::string const &r, int64_t a, int64_t b) {
    return r == "<=" ? a <= b : r == "<" ? a < b : r == ">=" ? a >= b : r == ">" ? a > b : r == "=" ? a == b : a != b;
}

struct Mix { // weights of the constraint kinds and other shape parameters
    int sum{10}, sum1{2}, diff{2}, dist{2}, disj{1}, dom{2}, nsum{1};
    int syn{15};      // percentage of oddly written terms
    int body{45};     // percentage of constraints in bodies
    int multi{10};    // percentage of multi-shot programs
    int minimize{0};
    int threads{0};
    int wide{30};     // percentage with the default integer range
    int maxvars{3}, maxspan{5}, maxbools{2}, maxstm{4};
    int names{15};    // compound variable names
    int show{0};
    int cond{8};      // elements with conditions
    int translate{50};
    int big{4};       // large coefficients/offsets
    int shifted{15};  // domain far away from zero
};

struct Program {
    int nv, nb, nd{0};
    std::vector<std::string> names;
    std::vector<Bounds> dom;
    struct Stm {
        std::string text;
        std::function<bool(Vals const &, Bools const &)> ok;
        size_t part;
        std::function<bool(Vals const &, Bools const &)> def; // definition of atom d<idx>
        int didx{-1};
    };
    std::vector<Stm> stms;
    size_t nparts{1};
    struct Mini { int64_t co; int var; size_t part; }; // var -1: constant
    std::vector<Mini> mini;
    bool has_mini{false}, maximize{false};
    std::vector<std::string> mini_text;
    std::vector<size_t> vpart; // part introducing a variable
    int vars(size_t part) const { return std::count_if(vpart.begin(), vpart.end(), [&](size_t p) { return p <= part; }); }
    std::vector<bool> shown;
    std::string show_text;
    Opts opts;

    std::vector<std::string> parts() const {
        std::vector<std::string> r(nparts);
        if (nb > 0) { r[0] += "{"; for (int i = 0; i < nb; ++i) { r[0] += H::str(i ? ";" : "", char('a' + i)); } r[0] += "}.\n"; }
        for (auto &s : stms) { r[s.part] += s.text + "\n"; }
        for (size_t i = 0; i < mini_text.size() && i < nparts; ++i) { r[i] += mini_text[i]; }
        r[0] += show_text;
        return r;
    }
    std::string text() const {
        std::string r = "[" + opts.text() + "] ";
        int i = 0;
        for (auto &p : parts()) { r += (i++ ? " %%PART%% " : "") + p; }
        return r;
    }
    std::vector<std::string> expected(size_t part, std::vector<std::pair<std::string, int64_t>> *costs = nullptr) const {
        std::vector<std::string> res;
        for (int m = 0; m < (1 << nb); ++m) {
            Bools b(nb + nd);
            for (int i = 0; i < nb; ++i) { b[i] = (m >> i) & 1; }
            Vals v(nv);
            int nv = vars(part);
            for (size_t i = 0; i < v.size(); ++i) { v[i] = dom[i].lo; }
            while (true) {
                for (int i = 0; i < nd; ++i) { b[nb + i] = false; }
                for (auto &s : stms) { if (s.part <= part && s.didx >= 0) { b[nb + s.didx] = s.def(v, b); } }
                bool ok = true;
                for (auto &s : stms) { if (s.part <= part && s.ok && !s.ok(v, b)) { ok = false; break; } }
                if (ok) {
                    std::vector<std::string> at;
                    for (int i = 0; i < nb; ++i) { if (b[i]) { at.emplace_back(1, char('a' + i)); } }
                    for (int i = 0; i < nd; ++i) { if (b[nb + i]) { at.emplace_back(H::str("d", i)); } }
                    std::string t;
                    for (auto &a : at) { t += a + " "; }
                    std::vector<std::pair<std::string, int64_t>> va;
                    for (int i = 0; i < nv; ++i) { if (shown[i]) { va.emplace_back(names[i], v[i]); } }
                    std::sort(va.begin(), va.end());
                    for (auto &[s, x] : va) { t += H::str(s, "=", x, " "); }
                    if (costs) { costs->emplace_back(t, cost(v, part)); }
                    res.emplace_back(t);
                }
                int i = 0;
                for (; i < nv; ++i) { if (++v[i] <= dom[i].hi) { break; } v[i] = dom[i].lo; }
                if (i == nv) { break; }
            }
        }
        std::sort(res.begin(), res.end());
        return res;
    }
    int64_t cost(Vals const &v, size_t part) const {
        int64_t c = 0;
        for (auto &[co, i, p] : mini) { if (p <= part) { c += i < 0 ? co : co * v[i]; } }
        return maximize ? -c : c;
    }
    int64_t cost_range() const {
        int64_t c = 0;
        for (auto &[co, i, p] : mini) { c += std::abs(co) * (i < 0 ? 1 : std::max(std::abs(dom[i].lo), std::abs(dom[i].hi))); }
        return c;
    }
};

struct Retry {};
struct Generator {
    Mix m;
    Program g;
    int64_t off{0};

    Ex lin(int i, int64_t co) {
        Ex t = co == 1 && C.coin(70) ? var(i) : co == -1 && C.coin(60) ? Ex{Ex::Neg, 0, {var(i)}} : C.coin(70) ? mul(num(co), var(i)) : mul(var(i), num(co));
        if (C.coin(m.syn)) {
            switch (C.in(0, 7)) {
                case 0: { t = add(t, num(C.in(-3, 3))); break; }
                case 1: { int64_t k = C.in(-3, 3); t = add(lin0(i, co - k), lin0(i, k)); break; }
                case 2: { t = Ex{Ex::Neg, 0, {Ex{Ex::Neg, 0, {t}}}}; break; }
                case 3: { t = mul(num(C.in(1, 2)), sub(t, num(C.in(-2, 2)))); break; }
                case 4: { t = sub(num(C.in(-2, 2)), t); break; }
                case 5: { t = sub(t, lin0(C.in(0, g.nv - 1), C.in(-2, 2))); break; }
                case 6: { t = mul(sub(num(0), num(1)), t); break; }
                default: { t = mul(add(t, num(C.in(-1, 1))), num(C.in(-2, 2))); break; }
            }
        }
        return t;
    }
    Ex lin0(int i, int64_t co) { return co == 1 ? var(i) : mul(num(co), var(i)); }
    int64_t coef() { return C.coin(m.big) ? C.in(-1000000, 1000000) : C.coin(45) ? (C.coin() ? 1 : -1) : C.coin(95) ? C.in(-5, 5) : 0; }
    // a value the expression takes somewhere in the box
    int64_t near(std::vector<Ex> const &es) {
        Vals v(g.nv);
        for (int i = 0; i < g.nv; ++i) { v[i] = C.in(g.dom[i].lo, g.dom[i].hi); }
        int64_t s = 0;
        for (auto &e : es) { s += e.ev(v); }
        int64_t abs = 0;
        for (auto &e : es) { abs += std::abs(e.ev(v)); }
        if (abs > (int64_t(1) << 29)) { throw Retry{}; }
        return s + C.in(-1, 1);
    }
    std::string elems(std::vector<Ex> const &es) {
        std::string r;
        for (auto &e : es) { r += (r.empty() ? "" : "; ") + e.str(g.names); }
        return "{ " + r + " }";
    }
    TAtom sum(int maxel) {
        std::vector<Ex> es;
        int n = C.in(1, maxel);
        for (int i = 0; i < n; ++i) { es.emplace_back(lin(C.in(0, g.nv - 1), coef())); }
        if (C.coin(3)) { es.clear(); }
        static std::vector<std::string> rels{"<=", "<=", "<=", ">=", ">=", "<", ">", "=", "!="};
        auto r = C.pick(rels);
        auto rhs = num(near(es));
        std::string et = elems(es);
        auto all = es;
        if (C.coin(m.cond)) {
            // conditional element ranging over a domain predicate
            int lo = C.in(0, 2), hi = lo + C.in(0, 2), i = C.in(0, g.nv - 1);
            bool mulk = C.coin();
            et = "{ " + (es.empty() ? "" : et.substr(2, et.size() - 4) + "; ") + (mulk ? "K*" : "") + g.names[i] + H::str(" : K=", lo, "..", hi) + " }";
            for (int k = lo; k <= hi; ++k) { all.emplace_back(mulk ? mul(num(k), var(i)) : var(i)); }
            rhs = num(near(all));
        }
        if (C.coin(m.syn)) {
            int i = C.in(0, g.nv - 1);
            int64_t k = C.in(-2, 2);
            auto f = all;
            f.emplace_back(lin0(i, -k));
            rhs = add(lin0(i, k), num(near(f)));
        }
        return {"&sum" + et + " " + r + " " + rhs.str(g.names), [all, r, rhs](Vals const &v) { int64_t s = 0; for (auto &e : all) { s += e.ev(v); } return rel(r, s, rhs.ev(v)); }};
    }
    TAtom diff() {
        int i = C.in(0, g.nv - 1), j = C.in(0, g.nv - 1);
        Ex e = sub(var(i), var(j));
        if (C.coin(20)) { // one of the arguments is a number
            Ex k = num(near({var(j)}));
            if (k.n < 0) { k.n = -k.n; }
            e = C.coin(65) ? sub(var(i), k) : C.coin(80) ? sub(k, var(j)) : sub(k, num(C.in(0, 4)));
        }
        int64_t b = near({e});
        return {H::str("&diff{ ", e.str(g.names), " } <= ", b), [e, b](Vals const &v) { return e.ev(v) <= b; }, false, true};
    }
    TAtom dist() {
        std::vector<Ex> es;
        int n = C.in(2, 4);
        for (int i = 0; i < n; ++i) {
            if (C.coin(12)) { es.emplace_back(num(near({var(C.in(0, g.nv - 1))}))); continue; }
            Ex e = lin(C.in(0, g.nv - 1), C.coin(70) ? 1 : coef());
            if (C.coin(25)) { e = add(e, C.coin(60) ? num(C.in(-3, 3)) : lin0(C.in(0, g.nv - 1), C.in(-2, 2))); }
            es.emplace_back(e);
        }
        return {"&distinct" + elems(es), [es](Vals const &v) { for (size_t i = 0; i < es.size(); ++i) { for (size_t j = 0; j < i; ++j) { if (es[i].ev(v) == es[j].ev(v)) { return false; } } } return true; }, true};
    }
    TAtom disj() {
        std::vector<std::pair<Ex, int64_t>> es;
        int n = C.in(2, 4);
        std::string t;
        std::set<int> used;
        for (int k = 0; k < n; ++k) {
            int i = C.in(0, g.nv - 1);
            if (C.coin(80) && !used.insert(i).second) { continue; }
            int64_t d = C.coin(95) ? C.in(0, 3) : C.in(1, 1073741820);
            es.emplace_back(var(i), d);
            t += (t.empty() ? "" : "; ") + g.names[i] + H::str("@", d);
        }
        return {"&disjoint{ " + t + " }", [es](Vals const &v) {
            for (size_t i = 0; i < es.size(); ++i) { for (size_t j = 0; j < i; ++j) {
                int64_t a = es[i].first.ev(v), b = es[j].first.ev(v), p = es[i].second, q = es[j].second;
                if (p > 0 && q > 0 && a < b + q && b < a + p) { return false; } } }
            return true; }, true};
    }
    TAtom domatom(int i = -1, bool wide = false) {
        std::vector<std::pair<int64_t, int64_t>> iv;
        std::string t;
        if (i < 0) { i = C.in(0, g.nv - 1); }
        if (wide) { iv.emplace_back(g.dom[i].lo, g.dom[i].hi); t = H::str(g.dom[i].lo, ".. ", g.dom[i].hi); }
        else for (int k = C.in(1, 3); k > 0; --k) {
            int64_t a = C.in(g.dom[i].lo - 1, g.dom[i].hi), b = C.coin(40) ? a : a + C.in(0, 3);
            if (C.coin(3)) { b = a - 1; }
            iv.emplace_back(a, b);
            t += (t.empty() ? "" : "; ") + (a == b && C.coin() ? H::str(a) : H::str(a, ".. ", b));
        }
        return {"&dom{ " + t + " } = " + g.names[i], [iv, i](Vals const &v) { for (auto &[a, b] : iv) { if (a <= v[i] && v[i] <= b) { return true; } } return false; }, true};
    }
    TAtom nsum() {
        int a = C.in(0, g.nv - 1), b = C.in(0, g.nv - 1), c = C.in(0, g.nv - 1);
        std::vector<Ex> es;
        int64_t k = C.coin(60) ? (C.coin() ? 1 : -1) : C.in(-3, 3);
        Ex p = mul(var(a), var(b));
        es.emplace_back(k == 1 ? p : C.coin() ? mul(num(k), p) : mul(mul(num(k), var(a)), var(b)));
        if (C.coin(65)) { es.emplace_back(lin0(c, coef())); }
        if (C.coin(25)) { std::swap(es.front(), es.back()); }
        if (C.coin(8)) { es.emplace_back(num(C.in(-3, 3))); }
        static std::vector<std::string> rels{"<=", "<=", "<=", ">=", ">=", "<", ">", "=", "!="};
        auto r = C.pick(rels);
        int64_t rhs = near(es);
        return {"&nsum" + elems(es) + " " + r + H::str(" ", rhs), [es, r, rhs](Vals const &v) { int64_t s = 0; for (auto &e : es) { s += e.ev(v); } return rel(r, s, rhs); }};
    }
    TAtom atom(bool body) {
        while (true) {
            int t = m.sum + m.sum1 + m.diff + m.nsum + (body ? 0 : m.dist + m.disj + m.dom);
            int k = C.in(0, t - 1);
            if ((k -= m.sum) < 0) { return sum(4); }
            if ((k -= m.sum1) < 0) { return sum(1); }
            if ((k -= m.diff) < 0) { return diff(); }
            if ((k -= m.nsum) < 0) { return nsum(); }
            if ((k -= m.dist) < 0) { return dist(); }
            if ((k -= m.disj) < 0) { return disj(); }
            return domatom();
        }
    }
    // random body literals over the choice atoms
    std::pair<std::string, std::function<bool(Bools const &)>> lits(int p) {
        std::vector<std::pair<int, bool>> ls;
        for (int i = 0; i < g.nb; ++i) { if (C.coin(p)) { ls.emplace_back(i, C.coin()); } }
        std::string t;
        for (auto &[i, s] : ls) { t += H::str(t.empty() ? "" : ", ", s ? "" : "not ", char('a' + i)); }
        return {t, [ls](Bools const &b) { for (auto &[i, s] : ls) { if (b[i] != s) { return false; } } return true; }};
    }
    void stm(size_t part) {
        bool body = C.coin(m.body);
        auto a = atom(body);
        auto [lt, lf] = lits(40);
        Program::Stm s;
        s.part = part;
        if (!body) {
            s.text = a.text + (lt.empty() ? "." : " :- " + lt + ".");
            s.ok = [a, lf = lf](Vals const &v, Bools const &b) { return !lf(b) || a.holds(v); };
        } else if (C.coin(50)) {
            bool neg = C.coin();
            bool nn = !neg && !a.diff && C.coin(10);
            std::string at = (neg ? "not " : nn ? "not not " : "") + a.text;
            bool first = C.coin(70);
            s.text = ":- " + (lt.empty() ? at : first ? at + ", " + lt : lt + ", " + at) + ".";
            s.ok = [a, neg, lf = lf](Vals const &v, Bools const &b) { return !(lf(b) && a.holds(v) != neg); };
            if (C.coin(12)) { // two theory atoms
                auto c = atom(true);
                bool cn = C.coin();
                s.text = ":- " + at + ", " + (cn ? "not " : "") + c.text + (lt.empty() ? "." : ", " + lt + ".");
                s.ok = [a, c, cn, neg, lf = lf](Vals const &v, Bools const &b) { return !(lf(b) && a.holds(v) != neg && c.holds(v) != cn); };
            }
        } else {
            bool neg = C.coin(35);
            s.didx = g.nd++;
            s.text = H::str("d", s.didx, " :- ", neg ? "not " : "", a.text, lt.empty() ? "" : ", " + lt, ".");
            s.def = [a, neg, lf = lf](Vals const &v, Bools const &b) { return lf(b) && a.holds(v) != neg; };
        }
        g.stms.emplace_back(std::move(s));
    }
    static void randopts(Opts &o, int translate) {
        if (C.coin(60)) { o.set("heu", C.in(0, 1)); }
        if (C.coin(30)) { o.set("sign", C.in(-5, 5)); }
        for (auto k : {"split", "chain", "refine", "intro", "sort", "ord", "lo"}) { if (C.coin(40)) { o.set(k, C.in(0, 1)); } }
        if (C.coin(translate)) {
            o.set("clt", C.coin(80) ? 100000 : C.in(0, 60));
            o.set("cl", C.coin(60) ? 1000 : C.in(0, 12));
            o.set("wc", C.coin(50) ? "0" : C.coin() ? "1" : "10");
            if (C.coin(60)) { o.set("dl", C.coin() ? 1000 : C.in(0, 8)); }
        } else if (C.coin(60)) {
            o.set("clt", 0); o.set("cl", 0); o.set("dl", 0); o.set("wc", 0);
        }
        o.set("cs", C.in(0, 1));
        o.set("cst", C.in(0, 1));
        if (C.coin(25)) { o.set("shift", 0); }
        if (C.coin(35)) { o.set("tm", C.coin(60) ? 4294967295 : C.coin() ? 1000 : C.in(0, 12)); }
    }
    Program &make(Mix const &mix) {
        m = mix;
        g = Program{};
        g.nv = C.in(1, m.maxvars);
        g.nb = C.in(0, m.maxbools);
        static std::vector<std::string> simple{"x", "y", "z", "w", "u"}, odd{"v(1)", "f(a,1)", "g(2,h(0))", "(1,2)", "s(\"q\")"};
        bool on = C.coin(m.names);
        for (int i = 0; i < g.nv; ++i) { g.names.emplace_back(on && C.coin(70) ? odd[i] : simple[i]); }
        g.shown.assign(g.nv, true);
        bool wide = C.coin(m.wide);
        off = C.coin(m.shifted) ? (C.coin(70) ? C.in(-40, 40) : C.in(-1000000, 1000000)) : 0;
        int64_t lo = off - C.in(0, m.maxspan), hi = lo + C.in(1, m.maxspan);
        for (int i = 0; i < g.nv; ++i) {
            Bounds b{lo, hi};
            if (wide) { b.lo += C.in(0, 2); b.hi = b.lo + C.in(0, m.maxspan); }
            g.dom.emplace_back(b);
        }
        if (!wide) { g.opts.set("min", lo); g.opts.set("max", hi); }
        bool show = C.coin(m.show);
        if (C.coin(m.multi)) { g.nparts = C.in(2, 3); }
        g.vpart.assign(g.nv, 0);
        if (g.nparts > 1 && !show) {
            for (int i = 1; i < g.nv; ++i) { g.vpart[i] = C.coin(65) ? g.vpart[i - 1] : C.in(g.vpart[i - 1], g.nparts - 1); }
        }
        int nv = g.nv;
        for (int i = 0; i < g.nv; ++i) {
            auto d = domatom(i, true);
            Program::Stm s;
            s.part = g.vpart[i];
            s.text = d.text + ".";
            if (wide && C.coin(40)) { s.text = H::str("&sum{ ", g.names[i], " } >= ", g.dom[i].lo, ". &sum{ ", g.names[i], " } <= ", g.dom[i].hi, "."); }
            g.stms.emplace_back(s);
        }
        for (size_t p = 0; p < g.nparts; ++p) {
            g.nv = g.vars(p);
            int n = C.in(p == 0 ? 1 : 0, g.nparts > 1 ? 2 : m.maxstm);
            for (int i = 0; i < n; ++i) { auto nd = g.nd; try { stm(p); } catch (Retry const &) { g.nd = nd; } }
        }
        g.nv = nv;
        if (C.coin(m.minimize)) {
            g.has_mini = true;
            g.maximize = C.coin(40);
            for (size_t p = 0; p < g.nparts; ++p) {
                if (p > 0 && C.coin(50)) { g.mini_text.emplace_back(); continue; }
                std::string t;
                for (int n = C.in(1, p > 0 ? 2 : 3); n > 0; --n) {
                    if (C.coin(12)) { int64_t k = C.in(-4, 4); g.mini.push_back({k, -1, p}); t += H::str(t.empty() ? "" : "; ", k); continue; }
                    int i = C.in(0, g.vars(p) - 1);
                    int64_t co = coef();
                    g.mini.push_back({co, i, p});
                    t += (t.empty() ? "" : "; ") + lin0(i, co).str(g.names);
                }
                g.mini_text.emplace_back(H::str(g.maximize ? "&maximize" : "&minimize", "{ ", t, " }.\n"));
            }
        }
        if (show) {
            g.shown.assign(g.nv, false);
            std::string t;
            for (int i = 0; i < g.nv; ++i) {
                if (!C.coin(55)) { continue; }
                if (C.coin(65)) { g.shown[i] = true; t += (t.empty() ? "" : "; ") + g.names[i]; }
                else {
                    static std::map<std::string, std::string> sig{{"v(1)", "v/1"}, {"f(a,1)", "f/2"}, {"g(2,h(0))", "g/2"}, {"s(\"q\")", "s/1"}};
                    auto it = sig.find(g.names[i]);
                    if (it == sig.end() && g.names[i][0] == '(') { continue; }
                    g.shown[i] = true;
                    t += (t.empty() ? "" : "; ") + (it == sig.end() ? g.names[i] + "/0" : it->second);
                }
            }
            if (C.coin(10)) { t += (t.empty() ? "" : "; ") + std::string("nosuch/3"); }
            g.show_text = "&show{ " + t + " }.\n";
        }
        randopts(g.opts, m.translate);
        if (m.threads > 0 && C.coin(m.threads)) { g.opts.set("arg", C.coin() ? "-t2" : "-t4"); }
        return g;
    }
};

inline void on_alarm(int) {
    std::string t = "FAIL hang | no termination within 20 s on: " + C.cur.substr(0, 1500);
    for (auto &c : t) { if (c == '\n') { c = ' '; } }
    t += "\n";
    (void)!write(1, t.c_str(), t.size());
    _exit(1);
}
inline std::string diff(std::vector<std::string> const &exp, std::vector<std::string> const &got) {
    std::vector<std::string> miss, extra;
    std::set_difference(exp.begin(), exp.end(), got.begin(), got.end(), std::back_inserter(miss));
    std::set_difference(got.begin(), got.end(), exp.begin(), exp.end(), std::back_inserter(extra));
    std::string r = H::str(exp.size(), " expected, ", got.size(), " reported");
    if (!miss.empty()) { r += H::str("; missing ", miss.size(), " e.g. <", miss[0], ">"); }
    if (!extra.empty()) { r += H::str("; wrong ", extra.size(), " e.g. <", extra[0], ">"); }
    return r;
}

struct Failure {
    std::string key, msg;
};
// solves the program and compares with the enumeration
inline std::optional<Failure> run(Program const &g) {
    std::string t = g.text();
    C.begin(t, g.stms.size() > static_cast<size_t>(g.nv));
    alarm(20);
    std::vector<Shot> shots;
    try { shots = solve(g.opts, g.parts()); }
    catch (std::exception const &e) {
        alarm(0);
        // the bound of an objective has to stay within the range of values
        static char const *range[] = {"bound value out of range", "integer overflow", "integer underflow"};
        if (std::any_of(std::begin(range), std::end(range), [&](auto *m) { return std::strcmp(e.what(), m) == 0; }) && g.cost_range() > (1 << 30) - 2) { return std::nullopt; }
        return Failure{"error", H::str("exception <", e.what(), "> on ", t)}; }
    alarm(0);
    for (size_t i = 0; i < shots.size(); ++i) {
        std::vector<std::string> got;
        for (auto &mdl : shots[i].models) { got.emplace_back(mdl.text); }
        if (!g.has_mini) {
            auto exp = g.expected(i);
            std::sort(got.begin(), got.end());
            if (shots[i].sat != !exp.empty()) { return Failure{"sat", H::str("shot ", i, ": answer ", shots[i].sat ? "SAT" : "UNSAT", " but ", exp.size(), " answers exist: ", t)}; }
            if (got != exp) {
                bool hidden = !std::all_of(g.shown.begin(), g.shown.end(), [](bool b) { return b; });
                if (!hidden || std::set<std::string>(got.begin(), got.end()) != std::set<std::string>(exp.begin(), exp.end())) {
                    return Failure{"models", H::str("shot ", i, ": ", diff(exp, got), " : ", t)};
                }
            }
        } else {
            std::vector<std::pair<std::string, int64_t>> costs;
            g.expected(i, &costs);
            if (shots[i].sat != !costs.empty()) { return Failure{"sat", H::str("shot ", i, ": answer ", shots[i].sat ? "SAT" : "UNSAT", " but ", costs.size(), " answers exist: ", t)}; }
            int64_t best = INT64_MAX, last = INT64_MAX;
            for (auto &[s, c] : costs) { best = std::min(best, c); }
            for (auto &mdl : shots[i].models) {
                auto it = std::find_if(costs.begin(), costs.end(), [&](auto &x) { return x.first == mdl.text; });
                if (it == costs.end()) { return Failure{"models", H::str("shot ", i, ": wrong answer <", mdl.text, "> : ", t)}; }
                bool right = !mdl.has_cost || std::any_of(costs.begin(), costs.end(), [&](auto &x) { return x.first == mdl.text && x.second == mdl.cost; });
                if (!right) { return Failure{"cost", H::str("shot ", i, ": reported cost ", mdl.cost, " of <", mdl.text, "> but the value is ", it->second, " : ", t)}; }
                last = mdl.has_cost ? mdl.cost : it->second;
            }
            bool vague = !g.shown.empty() && std::find(g.shown.begin(), g.shown.end(), false) != g.shown.end() && std::none_of(shots[i].models.begin(), shots[i].models.end(), [](auto &m) { return m.has_cost; });
            if (!costs.empty() && !vague && last != best) { return Failure{"optimum", H::str("shot ", i, ": last answer has cost ", last, " but the optimum is ", best, " : ", t)}; }
        }
        for (auto &mdl : shots[i].models) {
            std::vector<std::string> a;
            for (auto &[s, v] : mdl.vals) { a.emplace_back(H::str(s, "=", v)); }
            std::sort(a.begin(), a.end());
            if (a != mdl.csp) { return Failure{"symbols", H::str("reported value symbols ", H::vec(mdl.csp), " differ from the values ", H::vec(a), " : ", t)}; }
        }
    }
    return std::nullopt;
}
// Note: with several threads, clasp occasionally carries the negated step literal of a thread that is interrupted
// while it resolves a conflict over to the next solve call. Only objectives (tagged clauses) trigger this; such a
// failure counts if it is not just this rare race.
inline bool confirmed(Program const &g, std::string const &key) {
    bool threads = std::any_of(g.opts.kv.begin(), g.opts.kv.end(), [](auto &x) { return x.first == "arg" && x.second.rfind("-t", 0) == 0; });
    if (!threads || !g.has_mini || g.nparts < 2) { return true; }
    int n = 0;
    for (int i = 0; i < 8; ++i) { auto h = run(g); n += h && h->key == key; }
    return n >= 4;
}
inline void check(Program const &g) {
    auto f = run(g);
    if (!f || !confirmed(g, f->key)) { return; }
    // report a smaller program that fails in the same way
    Program p = g;
    auto until = std::chrono::steady_clock::now() + std::chrono::seconds(10);
    bool again = true;
    auto attempt = [&](Program const &q) {
        if (std::chrono::steady_clock::now() > until) { return false; }
        auto h = run(q);
        if (h && h->key == f->key && confirmed(q, f->key)) { f = h; p = q; return true; }
        return false;
    };
    while (again) {
        again = false;
        for (size_t i = 0; i < p.stms.size(); ++i) { if (i < size_t(p.nv)) { continue; } auto q = p; q.stms.erase(q.stms.begin() + i); if (attempt(q)) { again = true; --i; } }
        for (size_t i = 0; i < p.opts.kv.size(); ++i) { auto q = p; if (q.opts.kv[i].first == "min" || q.opts.kv[i].first == "max") { continue; } q.opts.kv.erase(q.opts.kv.begin() + i); if (attempt(q)) { again = true; --i; } }
        if (p.nparts > 1) { auto q = p; bool last = std::none_of(q.stms.begin(), q.stms.end(), [&](auto &s) { return s.part + 1 == q.nparts; }); if (last) { for (auto &p : q.vpart) { if (p + 1 == q.nparts) { last = false; } } } if (last) { --q.nparts; again = attempt(q) || again; } else { for (auto &s : q.stms) { if (s.part > 0) { --s.part; } } for (auto &p : q.vpart) { p -= p > 0; } for (auto &s : q.mini) { s.part -= s.part > 0; } if (q.mini_text.size() > 1) { q.mini_text[0] += q.mini_text[1]; q.mini_text.erase(q.mini_text.begin() + 1); } --q.nparts; again = attempt(q) || again; } }
        if (p.nb > 0) { bool used = false; for (auto &s : p.stms) { if (s.part < p.nparts && s.text.find(char('a' + p.nb - 1), s.text.find(":-") == std::string::npos ? s.text.size() : s.text.find(":-")) != std::string::npos) { used = true; } } if (!used && p.nd == 0) { auto q = p; --q.nb; again = attempt(q) || again; } }
    }
    C.fail(f->key, f->msg);
}
} // namespace G
