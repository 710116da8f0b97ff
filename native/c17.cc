// C17: option values through clingcon_configure and the command line, against an independent reading of the values
#include "h.hh"
#include "../src/clingcon.cc"
#include <fcntl.h>
#include <regex>
#include <unistd.h>
using namespace H;
using I128 = __int128;

struct M { // expected configuration
    std::map<std::string, I128> g;
    double ratio;
    std::array<std::array<int64_t, 66>, 6> t; // per setting and thread; 65: default
};
static char const *SET[] = {"order-heuristic", "sign-value", "refine-reasons", "refine-introduce", "propagate-chain", "split-all"};
static M read(clingcon_theory &th) {
    M m;
    auto &c = th.propagator.config();
    m.g = {{"shift-constraints", th.shift_constraints}, {"sort-constraints", c.sort_constraints}, {"literals-only", c.literals_only}, {"add-order-clauses", c.add_order_clauses}, {"check-solution", c.check_solution}, {"check-state", c.check_state},
           {"translate-clauses", c.clause_limit}, {"total", c.clause_limit_total}, {"translate-distinct", c.distinct_limit}, {"translate-opt", c.translate_minimize}, {"min-int", c.min_int}, {"max-int", c.max_int}};
    m.ratio = c.weight_constraint_ratio;
    Config d = c;
    for (int t = 0; t < 66; ++t) {
        auto &s = t == 65 ? d.default_solver_config : d.solver_config(t);
        int64_t v[] = {int64_t(s.heuristic), s.sign_value, s.refine_reasons, s.refine_introduce, s.propagate_chain, s.split_all};
        for (int k = 0; k < 6; ++k) { m.t[k][t] = v[k]; }
    }
    return m;
}
static std::string show(M const &m) {
    std::string r;
    for (auto &[k, v] : m.g) { r += str(k, "=", int64_t(v), " "); }
    r += str("ratio=", m.ratio);
    for (int k = 0; k < 6; ++k) {
        r += str(" ", SET[k], ":default=", m.t[k][65]);
        for (int t = 0; t < 65; ++t) { if (m.t[k][t] != m.t[k][65]) { r += str(",", t, "=", m.t[k][t]); } }
    }
    return r;
}
static bool same(M const &a, M const &b) { return a.g == b.g && a.t == b.t && a.ratio == b.ratio; }

static std::optional<I128> num(std::string const &s, I128 lo, I128 hi, bool uns) {
    if (s == "min") { return lo; }
    if (s == "max") { return hi; }
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
    if (i >= s.size() || (neg && uns)) { return std::nullopt; }
    I128 v = 0;
    for (; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9' || v > (I128(1) << 100)) { return std::nullopt; }
        v = 10 * v + (s[i] - '0');
    }
    if (neg) { v = -v; }
    if (v < lo || v > hi) { return std::nullopt; }
    return v;
}
static std::optional<I128> yesno(std::string const &s) {
    if (s == "true" || s == "yes" || s == "1") { return 1; }
    if (s == "false" || s == "no" || s == "0") { return 0; }
    return std::nullopt;
}
static I128 const U32 = (I128(1) << 32) - 1, U64 = (I128(1) << 64) - 1, LIM = (1 << 30) - 1;
// apply a setting: false if the value is to be rejected
static bool apply(M &m, std::string const &key, std::string const &value, std::optional<int> *thread = nullptr, int64_t *val = nullptr) {
    for (auto k : {"shift-constraints", "sort-constraints", "literals-only", "add-order-clauses", "check-solution", "check-state"}) {
        if (key == k) { auto v = yesno(value); if (v) { m.g[key] = *v; } return v.has_value(); }
    }
    for (auto k : {"translate-distinct", "translate-opt"}) {
        if (key == k) { auto v = num(value, 0, U32, true); if (v) { m.g[key] = *v; } return v.has_value(); }
    }
    for (auto k : {"min-int", "max-int"}) {
        if (key == k) { auto v = num(value, -LIM, LIM, false); if (v) { m.g[key] = *v; } return v.has_value(); }
    }
    if (key == "translate-pb") {
        if (value == "min") { m.ratio = std::numeric_limits<double>::lowest(); return true; }
        if (value == "max") { m.ratio = std::numeric_limits<double>::max(); return true; }
        static std::regex const re{"[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?"};
        if (!std::regex_match(value, re)) { return false; }
        double d = std::strtod(value.c_str(), nullptr);
        if (!std::isfinite(d)) { return false; }
        m.ratio = d;
        return true;
    }
    auto comma = value.find(',');
    std::string first = value.substr(0, comma);
    std::optional<std::string> second;
    if (comma != std::string::npos) { second = value.substr(comma + 1); }
    if (key == "translate-clauses") {
        auto a = num(first, 0, U32, true);
        auto b = second ? num(*second, 0, U64, true) : std::nullopt;
        if (!a || (second && !b)) { return false; }
        m.g[key] = *a;
        if (b) { m.g["total"] = *b; }
        return true;
    }
    for (int k = 0; k < 6; ++k) {
        if (key != SET[k]) { continue; }
        std::optional<I128> v;
        if (k == 0) { v = first == "none" ? std::optional<I128>{0} : first == "max-chain" ? std::optional<I128>{1} : std::nullopt; }
        else if (k == 1) { v = first == "+" ? std::optional<I128>{INT32_MAX} : first == "-" ? std::optional<I128>{INT32_MIN} : num(first, INT32_MIN, INT32_MAX, false); }
        else { v = yesno(first); }
        auto t = second ? num(*second, 0, 63, true) : std::nullopt;
        if (!v || (second && !t)) { return false; }
        if (thread) { *thread = t ? std::optional<int>{int(*t)} : std::nullopt; *val = int64_t(*v); return true; }
        if (t) { m.t[k][int(*t)] = int64_t(*v); }
        else { m.t[k].fill(int64_t(*v)); }
        return true;
    }
    return false;
}
static std::vector<std::string> const KEYS{"shift-constraints", "sort-constraints", "literals-only", "add-order-clauses", "check-solution", "check-state", "translate-distinct", "translate-opt", "min-int", "max-int", "translate-pb", "translate-clauses",
                                           "order-heuristic", "sign-value", "refine-reasons", "refine-introduce", "propagate-chain", "split-all"};
static std::string number() {
    if (C.coin(12)) { return C.coin() ? "min" : "max"; }
    static std::vector<std::string> const edge{"2147483647", "2147483648", "-2147483648", "-2147483649", "1073741823", "1073741824", "-1073741823", "-1073741824", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "9223372036854775808", "63", "64", "0", "-0", "-1", "+5", "", "007", "1e3", "0.25", "-1e-3", ".5", "1e999", "0x10", "65", "4294967232", "-4294967295", "-18446744073709551615"};
    std::string r = C.coin(45) ? C.pick(edge) : str(C.in(0, 70));
    if (C.coin(8)) { r = (C.coin() ? " " : C.coin() ? "-" : "+") + r; }
    if (C.coin(8)) { r += C.coin() ? " " : C.coin() ? "x" : "\t"; }
    return r;
}
static std::string value(std::string const &key) {
    static std::vector<std::string> const yn{"yes", "no", "true", "false", "1", "0", "YES", "ye", "yess", "", "on", "tru", "2", "01"};
    static std::vector<std::string> const he{"none", "max-chain", "max", "chain", "", "nonee", "max-chai"};
    std::string v;
    if (C.coin(6)) { v = C.pick(he); }
    else if (key == "order-heuristic") { v = he[C.coin(70) ? C.in(0, 1) : C.in(0, 6)]; }
    else if (key == "sign-value") { v = C.coin(30) ? (C.coin() ? "+" : "-") : number(); }
    else if (key.rfind("translate", 0) == 0 || key == "min-int" || key == "max-int") { v = number(); }
    else { v = yn[C.coin(80) ? C.in(0, 5) : C.in(0, int(yn.size()) - 1)]; }
    if (C.coin(key.rfind("translate", 0) == 0 || key == "order-heuristic" || key == "sign-value" || key.rfind("refine", 0) == 0 || key == "split-all" || key == "propagate-chain" ? 45 : 3)) { v += "," + (C.coin(70) ? str(C.in(0, 4)) : number()); }
    if (C.coin(2)) { v += ",1"; }
    return v;
}

struct App : Clingo::Application {
    clingcon_theory &th;
    bool ran{false};
    App(clingcon_theory &t) : th{t} {}
    char const *program_name() const noexcept override { return "c17"; }
    void register_options(Clingo::ClingoOptions &o) override { Clingo::Detail::handle_error(clingcon_register_options(&th, o.to_c())); }
    void validate_options() override { Clingo::Detail::handle_error(clingcon_validate_options(&th)); }
    void main(Clingo::Control &, Clingo::StringSpan) override { ran = true; }
};

int main(int argc, char **argv) {
    C.init(argc, argv);
    while (C.more()) {
        clingcon_theory *t = nullptr;
        clingcon_create(&t);
        M m = read(*t);
        if (!C.coin(25)) {
            std::string log;
            for (int n = int(C.in(1, 5)); n > 0; --n) {
                auto key = C.pick(KEYS);
                auto val = value(key);
                log += str(key, "=\"", val, "\" ");
                C.begin(log);
                bool e = apply(m, key, val), r = clingcon_configure(t, key.c_str(), val.c_str());
                if (e != r) { C.fail("accepted", str(log, r ? "accepted" : "rejected")); break; }
                M got = read(*t);
                if (!same(got, m)) { C.fail("setting", str(log, "sets ", show(got), " expected ", show(m))); break; }
            }
        } else {
            std::vector<std::string> args;
            std::string log = "command line: ";
            std::map<std::pair<int, std::optional<int>>, int64_t> pend;
            bool ok = true;
            std::set<std::string> used;
            for (int n = int(C.in(1, 5)); n > 0; --n) {
                auto key = C.pick(KEYS);
                auto val = value(key);
                bool flag = m.g.count(key) > 0 && key.find("-int") == std::string::npos && key.rfind("translate", 0) != 0;
                if (flag) { val = C.coin() ? "yes" : "no"; }
                bool multi = false;
                for (int k = 0; k < 6; ++k) { multi = multi || key == SET[k]; }
                if (!multi && !used.insert(key).second) { continue; }
                if (val.empty()) { continue; }
                args.emplace_back(flag ? (val == "yes" ? "--" : "--no-") + key : "--" + key + "=" + val);
                log += args.back() + " ";
                std::optional<int> th;
                int64_t v = 0;
                ok = ok && apply(m, key, val, &th, &v);
                for (int k = 0; ok && k < 6; ++k) { if (key == SET[k]) { ok = pend.emplace(std::pair{k, th}, v).second; } }
            }
            for (bool has : {false, true}) {
                for (auto &[k, v] : pend) {
                    if (k.second.has_value() != has) { continue; }
                    if (has) { m.t[k.first][*k.second] = v; }
                    else { m.t[k.first].fill(v); }
                }
            }
            ok = ok && m.g["min-int"] <= m.g["max-int"];
            C.begin(log);
            std::vector<char const *> av;
            for (auto &a : args) { av.emplace_back(a.c_str()); }
            std::fflush(stdout);
            std::fflush(stderr);
            int o = dup(1), e = dup(2), nul = open("/dev/null", O_WRONLY);
            if (getenv("C17_DEBUG") == nullptr) { dup2(nul, 1); dup2(nul, 2); }
            App app{*t};
            int rc = Clingo::clingo_main(app, {av.data(), av.size()});
            std::fflush(stdout);
            std::fflush(stderr);
            dup2(o, 1);
            dup2(e, 2);
            close(o);
            close(e);
            close(nul);
            if (app.ran != ok) { C.fail("accepted", str(log, app.ran ? "accepted" : "rejected", " rc ", rc)); }
            else if (ok) {
                M got = read(*t);
                if (!same(got, m)) { C.fail("setting", str(log, "sets ", show(got), " expected ", show(m))); }
            }
        }
        clingcon_destroy(t);
    }
    return C.done();
}
