// C21: random clauses, weight constraints and objective literals passed through InitClauseCreator; the answers
// clasp finds are compared with an enumeration
#include "h.hh"
#include <clingcon/base.hh>
#include <csignal>
#include <unistd.h>
using namespace Clingcon;
using H::C;
struct WC { int lit; std::vector<std::pair<int, int>> ws; int bound, type; };
struct Action { int kind; std::vector<int> clause; WC wc; std::pair<int, int> mini; };
struct Prop : Clingo::Propagator {
    std::vector<Action> acts;
    int n;
    bool ok{true};
    Statistics stats;
    void init(Clingo::PropagateInit &init) override {
        InitClauseCreator cc{init, stats};
        std::vector<int> map{1};
        for (int i = 1; i <= n; ++i) {
            auto it = init.symbolic_atoms().find(Clingo::Function("a", {Clingo::Number(i)}));
            map.emplace_back(init.solver_literal(it->literal()));
        }
        auto l = [&](int x) { return x == -100 ? -1 : x == 100 ? 1 : x > 0 ? map[x] : -map[-x]; };
        auto lit = [&](int x) { return x == 100 || x == -100 ? l(x) : l(x); };
        cc.set_state(C.coin() ? InitState::Init : InitState::Translate);
        for (auto &a : acts) {
            if (a.kind == 0) {
                std::vector<int> c;
                for (auto x : a.clause) { c.emplace_back(lit(x)); }
                if (!cc.add_clause(c)) { ok = false; return; }
            } else if (a.kind == 1) {
                std::vector<Clingo::WeightedLiteral> w;
                for (auto &[x, y] : a.wc.ws) { w.emplace_back(lit(x), y); }
                if (!cc.add_weight_constraint(lit(a.wc.lit), w, a.wc.bound, static_cast<Clingo::WeightConstraintType>(a.wc.type))) { ok = false; return; }
            } else if (a.kind == 2) { cc.add_minimize(lit(a.mini.first), a.mini.second, 0); }
            else if (a.kind == 3) { if (!cc.commit()) { ok = false; return; } }
            else { if (!cc.propagate()) { ok = false; return; } }
        }
        ok = cc.commit();
    }
};
static void on_alarm(int) { std::printf("FAIL hang | %s\n", C.cur.substr(0, 800).c_str()); std::fflush(stdout); _exit(1); }
int main(int argc, char **argv) {
    C.init(argc, argv);
    std::signal(SIGALRM, on_alarm);
    while (C.more()) {
        Prop p;
        p.n = C.in(1, 5);
        auto rl = [&] { return C.coin(4) ? (C.coin() ? 100 : -100) : int(C.in(1, p.n)) * (C.coin() ? 1 : -1); };
        auto tv = [](int m, int x) { return x == 100 ? true : x == -100 ? false : x > 0 ? bool((m >> (x - 1)) & 1) : !((m >> (-x - 1)) & 1); };
        int k = C.in(1, 6);
        bool mini = false, first = true;
        std::string d = H::str("n=", p.n);
        for (int i = 0; i < k; ++i) {
            Action a;
            int r = C.in(0, 99);
            if (r < 25) {
                a.kind = 0;
                for (int j = C.in(1, 3); j > 0; --j) { a.clause.emplace_back(rl()); }
                d += " clause" + H::vec(a.clause);
            } else if (r < 65) {
                a.kind = 1;
                a.wc.lit = rl();
                int sum = 0, neg = 0;
                for (int j = C.in(1, 4); j > 0; --j) { a.wc.ws.emplace_back(rl(), C.in(1, 4) * (C.coin(85) ? 1 : -1)); (a.wc.ws.back().second > 0 ? sum : neg) += a.wc.ws.back().second; }
                a.wc.bound = C.in(neg - 1, sum + 1);
                a.wc.type = C.in(-1, 1);
                // clasp loses answers of equivalences over their own literal (they do not occur here)
                for (auto &x : a.wc.ws) { while (a.wc.type == 0 && std::abs(x.first) != 100 && std::abs(x.first) == std::abs(a.wc.lit)) { x.first = p.n == 1 ? 100 : rl(); } }
                d += H::str(" wc(", a.wc.lit, ",");
                for (auto &[x, y] : a.wc.ws) { d += H::str(y, "*", x, " "); }
                d += H::str("<=", a.wc.bound, ",", a.wc.type, ")");
            } else if (r < 75) { a.kind = 2; a.mini = {rl(), C.in(1, 3)}; mini = true; d += H::str(" min(", a.mini.first, ",", a.mini.second, ")"); }
            else if (r < 88) { a.kind = 3; d += " commit"; }
            else { a.kind = 4; d += " propagate"; }
            first = false;
            p.acts.emplace_back(std::move(a));
        }
        C.begin(d);
        std::vector<std::pair<int, int64_t>> exp, got;
        for (int m = 0; m < (1 << p.n); ++m) {
            bool ok = true;
            int64_t cost = 0;
            for (auto &a : p.acts) {
                if (a.kind == 0) { bool any = false; for (auto x : a.clause) { any = any || tv(m, x); } ok = ok && any; }
                else if (a.kind == 1) {
                    int s = 0;
                    for (auto &[x, y] : a.wc.ws) { if (tv(m, x)) { s += y; } }
                    bool le = s <= a.wc.bound, l = tv(m, a.wc.lit);
                    if (a.wc.type >= 0 && l && !le) { ok = false; }
                    if (a.wc.type <= 0 && le && !l) { ok = false; }
                } else if (a.kind == 2 && tv(m, a.mini.first)) { cost += a.mini.second; }
            }
            if (ok) { exp.emplace_back(m, mini ? cost : 0); }
        }
        alarm(20);
        bool sat = false;
        try {
            Clingo::Control ctl{{"0", "--opt-mode=enum"}, [](Clingo::WarningCode, char const *) {}, 20};
            ctl.add("base", {}, H::str("{a(1..", p.n, ")}. #show a/1.").c_str());
            ctl.register_propagator(p, false);
            ctl.ground({{"base", {}}});
            auto h = ctl.solve();
            for (auto &m : h) {
                int v = 0;
                for (auto &s : m.symbols(Clingo::ShowType::Atoms)) { v |= 1 << (s.arguments()[0].number() - 1); }
                auto c = m.cost();
                got.emplace_back(v, c.empty() ? 0 : c[0]);
            }
            sat = h.get().is_satisfiable();
        } catch (std::exception const &e) { C.fail("error", H::str(e.what(), " : ", d)); continue; }
        alarm(0);
        std::sort(got.begin(), got.end());
        if (sat && !p.ok) { C.fail("ok", H::str("a conflict was reported but there are answers: ", d)); }
        if (got != exp) {
            std::string e, g;
            for (auto &[m, c] : exp) { e += H::str(m, ":", c, " "); }
            for (auto &[m, c] : got) { g += H::str(m, ":", c, " "); }
            C.fail("answers", H::str(d, " : expected (mask:cost) ", e, " got ", g));
        }
    }
    return C.done();
}
