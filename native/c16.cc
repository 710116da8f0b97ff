// C16: IntervalSet against a set of values, random histories of operations
#include "h.hh"
#include <clingcon/util.hh>
using namespace Clingcon;
using H::C;
template <class T> void round(T base) {
    std::string log = H::str("base=", base, " ");
    IntervalSet<T> s, t;
    std::set<int64_t> rs, rt;
    int n = C.in(1, 9), span = C.in(4, 30);
    auto off = [&] { return T(base + C.in(0, span)); };
    for (int i = 0; i < n; ++i) {
        T a = off(), b = C.coin(85) ? T(a + C.in(0, C.coin(70) ? 4 : span)) : off();
        bool second = C.coin(25);
        log += H::str(second ? "t" : "s", ".add(", a, ",", b, ") ");
        C.begin(log);
        (second ? t : s).add(a, b);
        for (int64_t v = a; v < b; ++v) { (second ? rt : rs).insert(v); }
        if (C.coin(10)) { log += "s.extend(t) "; C.begin(log); s.extend(t); rs.insert(rt.begin(), rt.end()); }
        if (C.coin(2)) { log += "s.clear() "; s.clear(); rs.clear(); }
        auto check = [&](IntervalSet<T> &q, std::set<int64_t> &r, char const *nm) {
            if (q.empty() != r.empty()) { C.fail("empty", log + nm); }
            std::vector<int64_t> e;
            q.enumerate([&](T v) { e.emplace_back(v); return true; });
            if (e != std::vector<int64_t>(r.begin(), r.end())) { C.fail("enumerate", H::str(log, nm, " enumerates ", H::vec(e), " expected ", H::vec(r))); }
            if (!r.empty()) {
                size_t k = C.in(1, r.size()), m = 0;
                q.enumerate([&](T) { return ++m < k; });
                if (m != k) { C.fail("enumerate_stop", H::str(log, nm, " stop after ", k, " but ", m, " calls")); }
            }
            int64_t last = INT64_MIN;
            for (auto it = q.begin(); it != q.end(); ++it) {
                if (!(it->first < it->second) || (last != INT64_MIN && it->first <= last)) { C.fail("rep", H::str(log, nm, " interval [", it->first, ",", it->second, ") after ", last)); }
                last = it->second;
            }
            for (int j = -2; j <= span + 34; ++j) {
                if (int64_t(base) + j > std::numeric_limits<T>::max() - 2 || int64_t(base) + j < int64_t(std::numeric_limits<T>::min()) + 2) { continue; }
                T v = T(base + j);
                if (q.contains(v) != (r.count(v) > 0)) { C.fail("contains", H::str(log, nm, ".contains(", v, ") = ", q.contains(v))); }
                for (int l = -1; l < 6; ++l) {
                    if (int64_t(v) + l > std::numeric_limits<T>::max()) { continue; }
                    T w = T(v + l);
                    bool any = false, all = true;
                    for (int64_t x = v; x < w; ++x) { bool in = r.count(x) > 0; any = any || in; all = all && in; }
                    if (q.intersects(v, w) != any) { C.fail("intersects", H::str(log, nm, ".intersects(", v, ",", w, ") = ", q.intersects(v, w))); }
                    if (l > 0 && q.contains(v, w) != all) { C.fail("contains2", H::str(log, nm, ".contains(", v, ",", w, ") = ", q.contains(v, w))); }
                }
            }
        };
        check(s, rs, "s");
        check(t, rt, "t");
    }
}
int main(int argc, char **argv) {
    C.init(argc, argv);
    while (C.more()) {
        round<int>(C.coin(80) ? int(C.in(-40, 40)) : C.coin(50) ? (1 << 30) - 80 : -(1 << 30));
        if (C.coin(20)) { round<unsigned>(unsigned(C.in(5, 100))); }
    }
    return C.done();
}
