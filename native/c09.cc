// random histories on the order literal table compared with std::map
#include "h.hh"
#include <clingcon/solver.hh>
using namespace Clingcon;
using H::C;
static std::string hist;
struct Stop {};
static int rnd(int a, int b) { return static_cast<int>(C.in(a, b)); }
static auto rng() -> uint64_t { return C.rng(); }
#define REQ(c) do { if (!(c)) { C.fail("table", std::string(#c) + " is false after" + hist); throw Stop{}; } } while (0)
static std::vector<std::pair<int, int>> walked;
using Map = std::map<int, int>;
static void same(VarState &vs, Map const &m, int lo, int hi) {
    int a = std::max(lo - 3, -((1 << 30) - 1)), b = std::min(hi + 3, (1 << 30) - 1);
    for (int i = 0; i < 12; ++i) {
        int v = (int64_t(b) - a < 40) ? a + i * std::max(1, (b - a) / 12) : rnd(a, b);
        if (!m.empty() && rng() % 2) { auto it = m.begin(); std::advance(it, rng() % m.size()); v = std::max(a, std::min(b, it->first + rnd(-1, 1))); }
        auto lt = m.lower_bound(v); auto gt = m.upper_bound(v);
        auto ge = lt; auto le = gt;
        auto chk = [&](auto o, bool has, Map::const_iterator it) {
            REQ(o.has_value() == has);
            if (has) { REQ(o->first == it->second); REQ(o->second == it->first); }
        };
        bool hlt = lt != m.begin(), hle = le != m.begin(), hgt = gt != m.end(), hge = ge != m.end();
        auto ilt = lt, ile = le;
        if (hlt) --ilt;
        if (hle) --ile;
        chk(vs.order_lit_lt(v), hlt, ilt); chk(vs.order_lit_le(v), hle, ile); chk(vs.order_lit_gt(v), hgt, gt); chk(vs.order_lit_ge(v), hge, ge);
        REQ(vs.lit_lt(v) == (hlt ? ilt->second : 0)); REQ(vs.lit_le(v) == (hle ? ile->second : 0));
        REQ(vs.lit_gt(v) == (hgt ? gt->second : 0)); REQ(vs.lit_ge(v) == (hge ? ge->second : 0));
        REQ(vs.lit_prev(v) == (hlt ? ilt->second : -1)); REQ(vs.lit_succ(v) == (hgt ? gt->second : 1));
        if (lo <= v && v < hi) {
            REQ(vs.has_literal(v) == (m.count(v) != 0));
            auto l = vs.get_literal(v);
            REQ(l.has_value() == (m.count(v) != 0));
            if (l) REQ(*l == m.at(v));
        }
        // whole traversals
        auto walk = [&](auto ib, auto ie, auto get_lit, auto get_val, auto inc) {
            std::vector<std::pair<int, int>> r;
            for (; ib != ie; inc(ib)) r.emplace_back(get_val(ib), get_lit(ib));
            walked = r;
        };
        vs.with_gt(v, walk); REQ(walked == (std::vector<std::pair<int, int>>(gt, m.end())));
        vs.with_ge(v, walk); REQ(walked == (std::vector<std::pair<int, int>>(ge, m.end())));
        vs.with_lt(v, walk); REQ(walked == (std::vector<std::pair<int, int>>(Map::const_reverse_iterator(lt), m.rend())));
        vs.with_le(v, walk); REQ(walked == (std::vector<std::pair<int, int>>(Map::const_reverse_iterator(le), m.rend())));
    }
}
struct One { VarState vs; Map m; int lo, hi; int rlo, rhi; };
static One fresh(int i) {
    int lo, hi;
    switch (rnd(0, 3)) {
        case 0: lo = rnd(-20, 20); hi = lo + rnd(0, 30); break;
        case 1: lo = rnd(-200, 200); hi = lo + rnd(1, 300); break;
        case 2: lo = -((1 << 30) - 1); hi = (1 << 30) - 1; break;
        default: lo = rnd(-5, 5); hi = lo + rnd(0, 8); break;
    }
    return One{VarState{static_cast<var_t>(i), lo, hi}, {}, lo, hi, lo, hi};
}
static void check(One &o) {
    same(o.vs, o.m, o.lo, o.hi);
    REQ(o.vs.min_bound() == o.rlo); REQ(o.vs.max_bound() == o.rhi); REQ(o.vs.lower_bound() == o.lo); REQ(o.vs.upper_bound() == o.hi);
}
static void round() {
        hist.clear();
        std::vector<One> os;
        for (int i = 0; i < 3; ++i) os.emplace_back(fresh(i));
        for (auto &o : os) hist += " new[" + std::to_string(o.lo) + "," + std::to_string(o.hi) + "]";
        int next = 2;
        for (int k = rnd(5, 60); k > 0; --k) {
            size_t i = rng() % 3, j = rng() % 3;
            auto &o = os[i];
            auto S = [&](char const *w, int a = 0, int b = 0) { hist += std::string(" ") + w + "(" + std::to_string(i) + "," + std::to_string(a) + "," + std::to_string(b) + ")"; };
            auto some = [&]() { int v = rnd(o.rlo, o.rhi - 1); if (!o.m.empty() && rng() % 2) { auto it = o.m.begin(); std::advance(it, rng() % o.m.size()); v = it->first; } if (v < o.rlo || v >= o.rhi) v = rnd(o.rlo, o.rhi - 1); return v; };
            switch (rnd(0, 9)) {
                case 0: case 1: case 2: if (o.rlo < o.rhi) { int v = some(), l = ++next; if (rng() % 2) l = -l; S("set", v, l); o.vs.set_literal(v, l); o.m[v] = l; } break;
                case 3: if (o.rlo < o.rhi) { int v = some(), l = ++next; S("get_or_add", v, l); auto &r = o.vs.get_or_add_literal(v); REQ(r == (o.m.count(v) ? o.m[v] : 0)); r = l; o.m[v] = l; } break;
                case 4: if (o.rlo < o.rhi) { int v = some(); S("unset", v); o.vs.unset_literal(v); o.m.erase(v); } break;
                case 5: S("copy", static_cast<int>(j)); if (i != j || rng() % 4 == 0) { os[i].vs = static_cast<VarState const &>(os[j].vs); Map m = os[j].m; o.m = m; o.lo = os[j].lo; o.hi = os[j].hi; o.rlo = os[j].rlo; o.rhi = os[j].rhi; REQ(o.vs.var() == os[j].vs.var()); } break;
                case 6: if (i != j) { S("move", static_cast<int>(j)); VarState tmp{os[j].vs}; o.vs = std::move(tmp); o.m = os[j].m; o.lo = os[j].lo; o.hi = os[j].hi; o.rlo = os[j].rlo; o.rhi = os[j].rhi; } break;
                case 7: { S("copymove"); VarState a{os[i].vs}; VarState b{std::move(a)}; One x{std::move(b), o.m, o.lo, o.hi, o.rlo, o.rhi}; check(x); break; }
                case 8: { // narrow the bounds at the top level, dropping the literals that leave the window (as simplify does)
                    if (o.lo < o.hi && o.lo == o.rlo && o.hi == o.rhi) { int l = rnd(o.lo, o.hi); int h = rnd(l, o.hi); if (rng() % 2) l = o.lo; if (rng() % 2) h = o.hi; S("narrow", l, h);
                        bool first = rng() % 2;
                        if (first) { o.vs.lower_bound(l); o.vs.upper_bound(h); }
                        if (rng() % 2) { std::vector<int> d; for (auto &x : o.m) if (x.first < l || x.first >= h) d.push_back(x.first); for (int v : d) { if (!first || true) o.vs.unset_literal(v); o.m.erase(v); } }
                        o.vs.lower_bound(l); o.vs.upper_bound(h); o.lo = o.rlo = l; o.hi = o.rhi = h; }
                    break; }
                default: { // a level with other bounds
                    if (o.lo < o.hi) { S("push"); o.vs.push_lower(1); o.vs.push_upper(1); int l = rnd(o.lo, o.hi), h = rnd(l, o.hi); int sl = o.lo, sh = o.hi; o.vs.lower_bound(l); o.vs.upper_bound(h); o.lo = l; o.hi = h; check(o);
                        if (o.rlo < o.rhi) { int v = some(), t = ++next; S("set", v, t); o.vs.set_literal(v, t); o.m[v] = t; }
                        check(o); o.vs.pop_lower(); o.vs.pop_upper(); o.lo = sl; o.hi = sh; }
                    break; }
            }
            check(os[i]); check(os[j]);
        }
        C.begin(hist);
}
int main(int argc, char **argv) {
    C.init(argc, argv);
    while (C.more()) {
        try { round(); } catch (Stop const &) { }
    }
    return C.done();
}
