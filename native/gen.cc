// random programs, solved end to end and compared with an enumeration of all answers
#include "gen.hh"
using namespace G;
int main(int argc, char **argv) {
    C.init(argc, argv);
    std::signal(SIGALRM, on_alarm);
    std::string mode = C.args.empty() ? "all" : C.args[0];
    Mix m;
    if (mode == "sum") { m.sum = 12; m.nsum = 0; m.dist = m.disj = m.dom = 0; m.translate = 15; m.maxvars = 4; m.maxspan = 4; m.minimize = 10; }
    else if (mode == "translate") { m.sum = 12; m.nsum = 0; m.disj = 0; m.dist = 3; m.translate = 100; m.maxvars = 4; m.maxspan = 4; m.minimize = 10; }
    else if (mode == "distinct") { m.dist = 30; m.sum = 4; m.body = 20; m.maxvars = 4; m.maxspan = 4; m.syn = 25; }
    else if (mode == "disjoint") { m.disj = 30; m.sum = 4; m.dist = 0; m.body = 20; m.maxvars = 4; m.maxspan = 4; }
    else if (mode == "nonlinear") { m.nsum = 30; m.sum = 4; m.dist = m.disj = 0; m.maxspan = 6; m.syn = 10; }
    else if (mode == "simple") { m.sum1 = 12; m.sum = 2; m.dom = 10; m.diff = 4; m.dist = m.disj = m.nsum = 0; m.maxspan = 8; m.maxvars = 2; m.maxstm = 5; m.wide = 50; }
    else if (mode == "syntax") { m.syn = 80; m.names = 50; m.cond = 30; m.nsum = 3; m.show = 10; m.minimize = 10; m.maxspan = 4; }
    else if (mode == "minimize") { m.minimize = 100; m.multi = 20; m.threads = 10; m.maxstm = 3; }
    else if (mode == "rewrite") { m.body = 85; m.cond = 35; m.syn = 25; m.maxbools = 3; m.dist = m.disj = 1; m.maxspan = 4; }
    else if (mode == "multi") { m.multi = 90; m.threads = 25; m.maxspan = 4; m.minimize = 15; }
    else if (mode == "show") { m.show = 70; m.names = 60; m.threads = 20; m.maxspan = 4; }
    else if (mode == "config") { m.threads = 25; m.multi = 15; m.minimize = 10; m.nsum = 2; }
    Generator gen;
    while (C.more()) {
        auto &g = gen.make(m);
        check(g);
        if (mode == "config") {
            // the same program under other settings
            for (int i = 0; i < 2 && C.more(); ++i) {
                Opts o;
                for (auto &[k, v] : g.opts.kv) { if (k == "min" || k == "max") { o.set(k, v); } }
                Generator::randopts(o, 50);
                if (C.coin(25)) { o.set("arg", "-t3"); }
                g.opts = o;
                check(g);
            }
        }
    }
    return C.done();
}
