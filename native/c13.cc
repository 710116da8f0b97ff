// C13: arithmetic helpers against 128 bit arithmetic on boundary and random values
#include "h.hh"
#include "parsing.cc"
using namespace Clingcon;
using H::C;
typedef __int128 W;

template <class T> std::vector<T> values() {
    std::set<T> s;
    auto lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    for (int i = 0; i < 4; ++i) {
        s.insert(lo + i); s.insert(hi - i); s.insert(T(i)); s.insert(lo / 2 + i); s.insert(hi / 2 - i); s.insert(hi / 2 + i);
        if (lo < 0) { s.insert(T(-i)); s.insert(lo / 2 - i); }
    }
    for (T p = 1; p > 0 && p < hi / 2; p *= 2) { s.insert(p); s.insert(p - 1); s.insert(p + 1); if (lo < 0) { s.insert(-p); s.insert(-p - 1); } }
    T r = T(std::sqrt((long double)hi));
    for (int i = -2; i < 3; ++i) { s.insert(r + i); if (lo < 0) { s.insert(-(r + i)); } }
    for (int i = 0; i < 40; ++i) { s.insert(T(C.rng())); s.insert(T(C.in(-300, 300))); }
    return {s.begin(), s.end()};
}
static std::string w(W x) { return x < 0 ? "-" + w(-x) : x < 10 ? std::string(1, char('0' + int(x))) : w(x / 10) + char('0' + int(x % 10)); }

template <class T, class F> void chk(char const *n, W a, W b, bool ok, W exp, F f) {
    C.count(1);
    bool threw = false;
    W got = 0;
    try { got = f(); } catch (std::runtime_error const &) { threw = true; } catch (std::logic_error const &) { threw = true; }
    if (threw == ok || (ok && got != exp)) {
        C.fail(n, H::str(n, "<", sizeof(T) * 8, ">(", w(a), ",", w(b), ") ", threw ? "raised" : "= " + w(got), ", expected ", ok ? w(exp) : "an exception"));
    }
}
template <class T> bool fits(W x) { return x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max(); }
static W fl(W a, W b) { W q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) { --q; } return q; }

template <class T> void all() {
    auto vs = values<T>();
    T lo = std::numeric_limits<T>::min();
    for (auto a : vs) {
        C.begin(H::str("a=", (long)a, " bits=", sizeof(T) * 8));
        chk<T>("safe_inv", a, 0, fits<T>(-W(a)), -W(a), [&] { return safe_inv<T>(a); });
        for (auto b : vs) {
            W x = a, y = b;
            chk<T>("safe_add", a, b, fits<T>(x + y), x + y, [&] { return safe_add<T>(a, b); });
            chk<T>("safe_sub", a, b, fits<T>(x - y), x - y, [&] { return safe_sub<T>(a, b); });
            chk<T>("safe_mul", a, b, fits<T>(x * y), x * y, [&] { return safe_mul<T>(a, b); });
            bool d = b != 0 && !(a == lo && b == -1);
            chk<T>("safe_div", a, b, d, d ? x / y : 0, [&] { return safe_div<T>(a, b); });
            chk<T>("safe_mod", a, b, d, d ? x % y : 0, [&] { return safe_mod<T>(a, b); });
            if (d) {
                chk<T>("floordiv", a, b, true, fl(x, y), [&] { return floordiv<T>(a, b); });
                chk<T>("ceildiv", a, b, true, -fl(-x, y), [&] { return ceildiv<T>(a, b); });
            }
            if (a <= b) { chk<T>("midpoint", a, b, true, fl(x + y, 2) , [&] { return midpoint<T>(a, b); }); }
            if (!C.more()) { return; }
        }
        chk<T>("check_valid_value", a, 0, a <= (1 << 30) - 1 && a >= -((1 << 30) - 1), a, [&] { return check_valid_value(a); });
    }
}
template <class T, class S> void casts() {
    for (auto s : values<S>()) { chk<T>("safe_cast", s, 0, fits<T>(s), s, [&] { return safe_cast<T, S>(s); }); }
}
static void wide() {
    // floordiv/ceildiv over the 128 bit type the nonlinear constraint uses
    std::vector<long> vs;
    for (auto x : values<long>()) { if (C.coin(30) || std::abs((long double)x) < 400) { vs.emplace_back(x); } }
    auto mk = [](long a) { return nsum_t(a); };
    for (auto a : vs) for (auto b : vs) {
        if (b == 0) { continue; }
        nsum_t n = mk(a) * mk(b / 3 + 1), m = mk(b);
        W x = W(a) * W(b / 3 + 1), y = b;
        C.count(2);
        if (!(floordiv<nsum_t>(n, m) * nsum_t(1) == [&] { W q = fl(x, y); nsum_t r = nsum_t(long(q >> 64)); r <<= 64; r |= nsum_t((unsigned long)(q)); return r; }())) { C.fail("floordiv_wide", H::str("floordiv<nsum>(", w(x), ",", w(y), ")")); }
        if (!C.more()) { return; }
    }
}
int main(int argc, char **argv) {
    C.init(argc, argv);
    all<int>();
    all<int64_t>();
    casts<int, unsigned>(); casts<unsigned, int>(); casts<int, int64_t>(); casts<int, uint64_t>(); casts<unsigned, uint64_t>(); casts<unsigned, int64_t>(); casts<int64_t, uint64_t>(); casts<int, int>();
    wide();
    auto vi = values<int>();
    for (auto a : vi) for (int b : {-3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 10, 15, 16, 19, 20, 29, 30, 31, 32, 33, 63, 64, 100, 1000}) {
        W r = 1;
        bool ok = true;
        if (b >= 0) { for (int i = 0; i < b && ok; ++i) { r *= a; if (r > (W(1) << 100) || r < -(W(1) << 100)) { ok = false; } } }
        else { if (a == 0) { ok = false; } else { r = a == 1 ? 1 : a == -1 ? (b % 2 == 0 ? 1 : -1) : 0; } }
        ok = ok && fits<int>(r);
        chk<int>("safe_pow", a, b, ok, r, [&] { return safe_pow(a, b); });
    }
    return C.done();
}
