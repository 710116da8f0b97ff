// shared by the native harnesses: seeded rng, counters, failure reports
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <cmath>
#include <forward_list>
#include <numeric>
#include <limits>
#include <thread>
#include <tuple>
#include <deque>
#include <list>
#include <unordered_map>
#include <cassert>
#include <type_traits>
#include <iterator>
#include <clingo.hh>
#include <math/wide_integer/uintwide_t.h>

namespace H {
struct Ctl {
    uint64_t seed = 1;
    double secs = 5;
    uint64_t cases = 0, distinct = 0, fails = 0;
    std::unordered_set<uint64_t> seen;
    std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
    std::mt19937_64 rng;
    std::vector<std::string> samples;
    std::vector<std::string> args;
    std::string cur;

    void init(int argc, char **argv) {
        for (int i = 1; i < argc; ++i) {
            if (std::strcmp(argv[i], "--seed") == 0) { seed = std::strtoull(argv[++i], nullptr, 10); }
            else if (std::strcmp(argv[i], "--secs") == 0) { secs = std::atof(argv[++i]); }
            else { args.emplace_back(argv[i]); }
        }
        rng.seed(seed);
    }
    bool more() const {
        return fails < 10 && std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() < secs;
    }
    // [a, b]
    int64_t in(int64_t a, int64_t b) { return a + static_cast<int64_t>(rng() % static_cast<uint64_t>(b - a + 1)); }
    bool coin(int p = 50) { return in(0, 99) < p; }
    template <class V> auto &pick(V &v) { return v[static_cast<size_t>(in(0, static_cast<int64_t>(v.size()) - 1))]; }
    // announce a case: remembered for crash reports
    void begin(std::string const &s, bool nontrivial = true) {
        cur = s;
        ++cases;
        if (nontrivial && seen.size() < 4000000 && seen.insert(std::hash<std::string>{}(s)).second) { ++distinct; }
        if (samples.size() < 3 && nontrivial && cases % 7 == 1) { samples.emplace_back(s); }
        // only the last announced case matters; rewind keeps the file small
        std::rewind(stderr);
        std::fprintf(stderr, "CASE %s\n", s.substr(0, 2500).c_str());
        std::fflush(stderr);
    }
    void count(uint64_t n) { cases += n; }
    void fail(std::string const &key, std::string const &msg) {
        ++fails;
        std::string t = key + " | " + msg;
        for (auto &c : t) { if (c == '\n') { c = ' '; } }
        std::printf("FAIL %s\n", t.c_str());
        std::fflush(stdout);
    }
    int done() {
        for (auto &s : samples) {
            auto t = s;
            for (auto &c : t) { if (c == '\n') { c = ' '; } }
            std::printf("SAMPLE %s\n", t.substr(0, 400).c_str());
        }
        std::printf("STAT cases %llu\nSTAT distinct %llu\n", (unsigned long long)cases, (unsigned long long)distinct);
        return fails > 0 ? 1 : 0;
    }
};
inline Ctl C;
template <class... T> std::string str(T const &...x) {
    std::ostringstream o;
    (o << ... << x);
    return o.str();
}
template <class V> std::string vec(V const &v) {
    std::ostringstream o;
    o << "[";
    bool f = true;
    for (auto &x : v) { o << (f ? "" : ",") << x; f = false; }
    o << "]";
    return o.str();
}
} // namespace H
