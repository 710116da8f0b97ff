// C18: symbols, indices and values through the C interface, against an enumeration of all assignments
#include "h.hh"
#include <clingcon.h>
using namespace H;
using Clingo::Symbol;

struct Prog {
    std::vector<std::string> syms;          // variables
    std::vector<int> part;                  // introduced in
    std::vector<std::string> text;          // per part
    std::vector<std::vector<std::array<int, 4>>> cons; // (bool or -1, var, var or -1, bound): x [+ y] >= b
    int nb{0}, lo{0}, hi{1}, threads{1}, nparts{1};
    std::vector<int> show_from;             // per variable: part from which on it is shown by name or signature, or 99
    int restricted{99};                     // part with the first show statement
    std::string all() const { std::string r = str("range ", lo, "..", hi, " threads ", threads); for (auto &t : text) { r += " ## " + t; } return r; }
};
using Answer = std::pair<std::vector<int>, std::vector<int>>; // booleans, values

static char const *NAMES[] = {"a", "b", "f(1)", "f(2)", "f(a)", "g(1,2)", "g(2,1)", "\"a\"", "\"f(1)\"", "(1,2)", "(a,)", "f(g(1,2))", "f(\"a\")", "f", "h(-1)", "()", "h(0)"};
static std::string sig(std::string const &s) {
    if (s == "a" || s == "b" || s == "f") { return s + "/0"; }
    if (s[0] == 'f') { return "f/1"; }
    if (s[0] == 'g') { return "g/2"; }
    if (s[0] == 'h') { return "h/1"; }
    return "";
}
static Prog make() {
    Prog p;
    p.nparts = int(C.in(1, 3));
    p.nb = int(C.in(0, 2));
    p.lo = int(C.in(-2, 1));
    p.hi = p.lo + int(C.in(0, 2));
    p.threads = C.coin(40) ? int(C.in(2, 3)) : 1;
    p.text.resize(p.nparts);
    p.cons.resize(p.nparts);
    std::vector<std::string> names(std::begin(NAMES), std::end(NAMES));
    std::shuffle(names.begin(), names.end(), C.rng);
    int nv = int(C.in(1, 4));
    for (int i = 0; i < nv; ++i) { p.syms.emplace_back(names[i]); p.part.emplace_back(int(C.in(0, p.nparts - 1))); }
    p.show_from.assign(nv, 99);
    for (int b = 0; b < p.nb; ++b) { p.text[0] += str("{p(", b, ")}. "); }
    for (int i = 0; i < nv; ++i) {
        // introduces the variable; a weak bound that is fulfilled or not
        int b = p.lo - int(C.coin(60)) + int(C.coin(30));
        p.text[p.part[i]] += str("&sum{", p.syms[i], "} >= ", b, ". ");
        p.cons[p.part[i]].push_back({-1, i, -1, b});
    }
    for (int k = int(C.in(0, 3)); k > 0; --k) {
        int x = int(C.in(0, nv - 1)), y = int(C.in(0, nv - 1)), b = int(C.in(2 * p.lo, 2 * p.hi)), c = p.nb > 0 && C.coin(60) ? int(C.in(0, p.nb - 1)) : -1;
        int q = int(C.in(std::max(p.part[x], p.part[y]), p.nparts - 1));
        if (x == y) { continue; }
        p.text[q] += str("&sum{", p.syms[x], "; ", p.syms[y], "} >= ", b, c >= 0 ? str(" :- p(", c, ")") : "", ". ");
        p.cons[q].push_back({c, x, y, b});
    }
    if (C.coin(60)) {
        for (int k = int(C.in(1, 3)); k > 0; --k) {
            int q = int(C.in(0, p.nparts - 1));
            std::string el;
            for (int m = int(C.in(0, 2)); m > 0; --m) {
                int x = int(C.in(0, nv - 1));
                if (p.part[x] > q) { continue; }
                std::string sg = sig(p.syms[x]);
                if (C.coin(50)) {
                    if (sg.empty()) { continue; }
                    for (int i = 0; i < nv; ++i) { if (sig(p.syms[i]) == sg) { p.show_from[i] = std::min(p.show_from[i], q); } }
                    el += (el.empty() ? "" : "; ") + sg;
                } else {
                    p.show_from[x] = std::min(p.show_from[x], q);
                    el += (el.empty() ? "" : "; ") + p.syms[x];
                }
            }
            p.restricted = std::min(p.restricted, q);
            p.text[q] += "&show{" + el + "}. ";
        }
    }
    return p;
}

struct Theory {
    Theory() { Clingo::Detail::handle_error(clingcon_create(&t)); }
    ~Theory() { clingcon_destroy(t); }
    clingcon_theory_t *t{nullptr};
};
struct Handler : Clingo::SolveEventHandler {
    clingcon_theory_t *t;
    std::function<void(Clingo::Model &)> f;
    bool on_model(Clingo::Model &m) override { Clingo::Detail::handle_error(clingcon_on_model(t, m.to_c())); f(m); return true; }
    void on_statistics(Clingo::UserStatistics, Clingo::UserStatistics) override {}
};

static std::optional<std::pair<std::string, std::string>> run(Prog const &p) {
    using R = std::pair<std::string, std::string>;
    std::optional<R> bad;
    auto fail = [&](std::string k, std::string m) { if (!bad) { bad = R{k, m + " in " + p.all()}; } };
    try {
        Theory th;
        for (auto [k, v] : {std::pair{"min-int", p.lo}, std::pair{"max-int", p.hi}}) { Clingo::Detail::handle_error(clingcon_configure(th.t, k, str(v).c_str())); }
        std::string tt = str("-t", p.threads);
        std::vector<char const *> args{"0", tt.c_str()};
        if (p.threads == 1) { args.pop_back(); }
        Clingo::Control ctl{Clingo::StringSpan{args.data(), args.size()}, [](Clingo::WarningCode, char const *) {}};
        Clingo::Detail::handle_error(clingcon_register(th.t, ctl.to_c()));
        std::map<Symbol, size_t> index;
        for (int part = 0; part < p.nparts; ++part) {
            std::string base = str("p", part);
            {
                Clingo::AST::with_builder(ctl, [&](Clingo::AST::ProgramBuilder &b) {
                    struct D { clingcon_theory_t *t; Clingo::AST::ProgramBuilder *b; } d{th.t, &b};
                    std::string text = "#program " + base + ". " + p.text[part];
                    Clingo::AST::parse_string(text.c_str(), [&](Clingo::AST::Node n) {
                        Clingo::Detail::handle_error(clingcon_rewrite_ast(th.t, n.to_c(), [](clingo_ast_t *a, void *data) {
                            clingo_ast_acquire(a);
                            static_cast<D *>(data)->b->add(Clingo::AST::Node{a});
                            return true;
                        }, &d));
                    });
                });
            }
            ctl.ground({{base.c_str(), {}}});
            Clingo::Detail::handle_error(clingcon_prepare(th.t, ctl.to_c()));
            std::vector<int> vars;
            for (int i = 0; i < int(p.syms.size()); ++i) { if (p.part[i] <= part) { vars.emplace_back(i); } }
            std::multiset<Answer> got;
            Handler h;
            h.t = th.t;
            h.f = [&](Clingo::Model &m) {
                Answer a;
                for (int b = 0; b < p.nb; ++b) { a.first.emplace_back(m.contains(Clingo::Function("p", {Clingo::Number(b)}))); }
                std::map<Symbol, int> vals;
                size_t idx = 77;
                clingcon_assignment_begin(th.t, m.thread_id(), &idx);
                std::set<size_t> seen;
                while (clingcon_assignment_next(th.t, m.thread_id(), &idx)) {
                    if (!seen.insert(idx).second || seen.size() > 50) { fail("visited_twice", str("index ", idx)); return; }
                    if (!clingcon_assignment_has_value(th.t, m.thread_id(), idx)) { fail("has_value", str("index ", idx)); return; }
                    Symbol s{clingcon_get_symbol(th.t, idx)};
                    size_t j = 0;
                    if (!clingcon_lookup_symbol(th.t, s.to_c(), &j) || j != idx) { fail("lookup", str(s, " has index ", idx, " but lookup gives ", j)); return; }
                    if (auto [it, fresh] = index.emplace(s, idx); it->second != idx) { fail("index_changed", str(s, " had index ", it->second, " and now ", idx)); return; }
                    clingcon_value_t v;
                    clingcon_assignment_get_value(th.t, m.thread_id(), idx, &v);
                    if (v.type != clingcon_value_type_int) { fail("value_type", str(s)); return; }
                    if (!vals.emplace(s, v.int_number).second) { fail("symbol_twice", str(s)); return; }
                }
                for (auto &x : index) { if (vals.count(x.first) == 0) { fail("not_visited", str(x.first)); return; } }
                std::map<Symbol, int> shown;
                for (int i : vars) {
                    Symbol s = Clingo::parse_term(p.syms[i].c_str());
                    auto it = vals.find(s);
                    if (it == vals.end()) { fail("not_visited", str(s)); return; }
                    a.second.emplace_back(it->second);
                    if (p.restricted > part || p.show_from[i] <= part) { shown.emplace(s, it->second); }
                }
                if (vals.size() != vars.size()) { fail("visited", str(vals.size(), " variables instead of ", vars.size())); return; }
                std::map<Symbol, int> out;
                for (auto &s : m.symbols(Clingo::ShowType::Theory)) {
                    if (!s.match("__csp", 2)) { fail("symbol", str(s)); return; }
                    auto v = s.arguments()[1];
                    if (!out.emplace(s.arguments()[0], v.type() == Clingo::SymbolType::Number ? v.number() : std::stoi(v.string())).second) { fail("shown_twice", str(s)); return; }
                }
                if (out != shown) {
                    std::string r;
                    for (auto &[s, v] : out) { r += str(s, "=", v, " "); }
                    r += "instead of";
                    for (auto &[s, v] : shown) { r += str(" ", s, "=", v); }
                    fail("shown", "shows " + r);
                    return;
                }
                got.emplace(a);
            };
            auto sh = ctl.solve(Clingo::LiteralSpan{}, &h, false, false);
            sh.get();
            if (bad) { return bad; }
            // all assignments
            std::multiset<Answer> exp;
            std::vector<int> val(p.syms.size(), p.lo);
            for (int bs = 0; bs < (1 << p.nb); ++bs) {
                std::fill(val.begin(), val.end(), p.lo);
                for (bool more = true; more;) {
                    bool ok = true;
                    for (int q = 0; q <= part; ++q) {
                        for (auto &[c, x, y, b] : p.cons[q]) {
                            if (c >= 0 && ((bs >> c) & 1) == 0) { continue; }
                            ok = ok && val[x] + (y >= 0 ? val[y] : 0) >= b;
                        }
                    }
                    if (ok) {
                        Answer a;
                        for (int b = 0; b < p.nb; ++b) { a.first.emplace_back((bs >> b) & 1); }
                        for (int i : vars) { a.second.emplace_back(val[i]); }
                        exp.emplace(a);
                    }
                    more = false;
                    for (int i : vars) { if (val[i] < p.hi) { ++val[i]; more = true; break; } val[i] = p.lo; }
                }
            }
            if (exp != got) {
                auto txt = [](auto &x) { std::string r; for (auto &[b, v] : x) { r += vec(b) + vec(v) + " "; } return r; };
                fail("answers", str("step ", part, ": ", txt(got), " instead of ", txt(exp)));
            }
            // indices also answer between calls
            for (auto &[s, i] : index) {
                size_t j = 0;
                if (!clingcon_lookup_symbol(th.t, s.to_c(), &j) || j != i) { fail("lookup", str(s)); }
            }
            size_t j = 5;
            if (clingcon_lookup_symbol(th.t, Clingo::Id("unknown").to_c(), &j) || j != 5) { fail("unknown_symbol", "found"); }
            if (bad) { return bad; }
        }
    } catch (std::exception const &e) { fail("error", e.what()); }
    return bad;
}
int main(int argc, char **argv) {
    C.init(argc, argv);
    while (C.more()) {
        auto p = make();
        C.begin(p.all());
        auto f = run(p);
        if (!f) { continue; }
        // with several threads: only if it is reproducible
        int n = 0;
        for (int i = 0; i < 5 && p.threads > 1; ++i) { auto g = run(p); n += g && g->first == f->first; }
        if (p.threads == 1 || n >= 3) { C.fail(f->first, f->second); }
    }
    return C.done();
}
