// C02: seed generators. Deterministic rules on every small grid; random rules under every choice of the engine's first outputs.
#include "common.hpp"
#include <delynoi/models/generator/functions/RandomDouble.h>
#include <delynoi/models/generator/functions/RandomInteger.h>

static std::vector<unsigned> script; static size_t drawn = 0;
extern "C" unsigned verif_rng_next(void) { size_t k = drawn++; if (k < script.size()) return script[k]; unsigned x = (unsigned)(k + 1) * 2654435761u; return x ^ (x >> 15); }

typedef std::function<double(double)> Fn;       // reference rule (may keep state)
struct Rule { std::string name; std::function<Functor*()> real; std::function<Fn()> ref; bool stateful; };
static double sq(double x) { return x * x; }
struct Square : Functor { double apply(double x) override { return sq(x); } };
static Fn altRows() {       // first batch as is, second displaced by half the spacing of the batch, and so on
    auto seen = std::make_shared<std::vector<double>>(); auto d = std::make_shared<double>(0); auto alt = std::make_shared<bool>(false);
    return [=](double x) { if (seen->size() == 1) *d = std::fabs((*seen)[0] - x); size_t k = std::find(seen->begin(), seen->end(), x) - seen->begin(); if (k == seen->size()) seen->push_back(x); else if (k + 1 < seen->size()) { *alt = !*alt; seen->assign(1, x); } return *alt ? x + *d / 2 : x; };
}
static const std::vector<Rule>& rules() {
    static std::vector<Rule> r; if (!r.empty()) return r;
    r.push_back({"constant", [] { return functions::constant(); }, [] { return [](double x) { return x; }; }, false});
    for (double k : {2.0, -0.5, 0.0}) r.push_back({"uniform " + num(k), [=] { return functions::uniform(k); }, [=] { return [=](double x) { return k * x; }; }, false});
    for (auto p : {std::array<double, 3>{2, 1, 0}, {0.5, 0.25, 90}, {-3, 0.1, -30}}) {
        r.push_back({"sine " + num(p[0]) + " " + num(p[1]) + " " + num(p[2]), [=] { return functions::sine(p[0], p[1], p[2]); }, [=] { return [=](double x) { return p[0] * std::sin(M_PI * p[1] * x + p[2] * M_PI / 180); }; }, false});
        r.push_back({"cosine " + num(p[0]) + " " + num(p[1]) + " " + num(p[2]), [=] { return functions::cosine(p[0], p[1], p[2]); }, [=] { return [=](double x) { return p[0] * std::cos(M_PI * p[1] * x + p[2] * M_PI / 180); }; }, false}); }
    for (double k : {1.0, -0.25}) r.push_back({"displace " + num(k), [=] { return functions::displace_points(k); }, [=] { auto a = std::make_shared<bool>(false); return [=](double x) { *a = !*a; return *a ? x + k / 2 : x; }; }, true});
    r.push_back({"alternating", [] { return functions::constantAlternating(); }, altRows, true});
    r.push_back({"own functor", [] { return new Square; }, [] { return sq; }, false});
    return r;
}
struct Box { double x0, y0, x1, y1; bool flip; };
static const Box BX[] = {{0, 0, 10, 4, false}, {-3, 2, 1, 9, true}, {0.1, -0.7, 0.4, 0.5, false}, {1000, -2000, 1300, -1999, true}, {2, 2, 2, 5, false}, {1, 3, 7, 3, false}};
static BoundingBox box(const Box& b) { return b.flip ? BoundingBox(Point(b.x1, b.y0), Point(b.x0, b.y1)) : BoundingBox(Point(b.x0, b.y0), Point(b.x1, b.y1)); }
static std::string boxText(const Box& b) { return "box " + g::str(V{b.x0, b.y0}) + g::str(V{b.x1, b.y1}); }
static V gridPoint(const Box& b, int nX, int nY, int i, int j) { return {nX > 1 ? b.x0 + (b.x1 - b.x0) * j / (nX - 1) : b.x0, nY > 1 ? b.y0 + (b.y1 - b.y0) * i / (nY - 1) : b.y0}; }
// mode 0: both free, 1: x free (the rule displaces y), 2: y free (the rule displaces x)
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }
static void grid(const Box& b, int nX, int nY, const Rule& rx, const Rule& ry, int mode, int times, Case& c) {
    PointGenerator gen = mode == 0 ? PointGenerator(rx.real(), ry.real()) : PointGenerator(rx.real(), mode == 1 ? functions::independent_variable::x : functions::independent_variable::y);
    Fn fx = rx.ref(), fy = ry.ref(); std::vector<Point> got{Point(-1, -2)}; g::Poly want{{-1, -2}};
    for (int t = 0; t < times; t++) {
        gen.generate(got, box(b), nX, nY); c.op();
        for (int i = 0; i < nY; i++) for (int j = 0; j < nX; j++) { V p = gridPoint(b, nX, nY, i, j); if (mode == 1) p.y += fx(p.x); else if (mode == 2) p.x += fx(p.y); else { double x = fx(p.x); p = {x, fy(p.y)}; } want.push_back(p); }
        if (got.size() != want.size()) { c.fail("grid-size", num(got.size() - 1) + " points instead of " + num(want.size() - 1)); return; }
        for (size_t k = 0; k < want.size(); k++) if (!near(got[k].getX(), want[k].x) || !near(got[k].getY(), want[k].y)) { c.fail("grid-point", "point " + num((int)k - 1) + " is " + g::str(v(got[k])) + " instead of " + g::str(want[k])); return; }
    }
    uint64_t h = 1; for (auto& p : want) h = hv(h, p); c.state(h);
}
// one generator used for two grids of different size and spacing that start at the same corner: the second one follows the
// rules as well, except that rules which alternate may start it on either foot
static void twoGrids(const Box& b, double stretch, int n1, int m1, int n2, int m2, const Rule& rx, const Rule& ry, int mode, Case& c) {
    PointGenerator gen = mode == 0 ? PointGenerator(rx.real(), ry.real()) : PointGenerator(rx.real(), mode == 1 ? functions::independent_variable::x : functions::independent_variable::y);
    Box b2 = b; b2.x1 = b.x0 + (b.x1 - b.x0) * stretch; b2.y1 = b.y0 + (b.y1 - b.y0) * stretch;
    std::vector<Point> a, got; gen.generate(a, box(b), n1, m1); gen.generate(got, box(b2), n2, m2); c.op(2);
    if (a.size() != (size_t)n1 * m1 || got.size() != (size_t)n2 * m2) { c.fail("grid-size", num(got.size())); return; }
    std::string why; uint64_t h = 5;
    for (int foot = 0; foot < 4; foot++) {
        // a rule on its other foot: one more batch (or point) goes through it before
        auto start = [&](const Rule& r, bool other, double x0, double x1, int n) { Fn f = r.ref(); if (other && r.stateful) { if (r.name == "alternating") { for (int j = 0; j < n; j++) f(n > 1 ? x0 + (x1 - x0) * j / (n - 1) : x0); } else f(x0); } return f; };
        Fn fx = mode == 2 ? start(rx, foot & 1, b2.y0, b2.y1, m2) : start(rx, foot & 1, b2.x0, b2.x1, n2), fy = start(ry, foot & 2, b2.y0, b2.y1, m2);
        bool ok = true;
        for (int i = 0; i < m2 && ok; i++) for (int j = 0; j < n2 && ok; j++) { V p = gridPoint(b2, n2, m2, i, j); if (mode == 1) p.y += fx(p.x); else if (mode == 2) p.x += fx(p.y); else { double x = fx(p.x); p = {x, fy(p.y)}; }
            V q = v(got[(size_t)i * n2 + j]); h = hv(h, q); if (!near(p.x, q.x) || !near(p.y, q.y)) { ok = false; if (why.empty()) why = "point " + num(i * n2 + j) + " of the second grid is " + g::str(q) + " instead of " + g::str(p); } }
        if (ok) { c.state(h); return; }
    }
    c.fail("second-grid-point", why);
}
// the grid of a region: the same points, as far as they are inside
static void regionGrid(int dom, int nX, int nY, const Rule& rx, const Rule& ry, int mode, Case& c) {
    static const std::vector<g::Poly> D{{{0, 0}, {10, 0}, {10, 4}, {0, 4}}, {{-3, 2}, {1, 2}, {1, 9}, {-3, 9}}};
    const Box& b = BX[dom]; Pts pp = P(D[dom]); Region r(pp); PointGenerator gen = mode == 0 ? PointGenerator(rx.real(), ry.real()) : PointGenerator(rx.real(), mode == 1 ? functions::independent_variable::x : functions::independent_variable::y);
    Pts s{Point(0.5, 3)}; r.addSeedPoints(s); r.generateSeedPoints(gen, nX, nY); c.op(3);
    g::Poly want; if (0.5 > b.x0 && 0.5 < b.x1 && 3 > b.y0) want.push_back({0.5, 3}); Fn fx = rx.ref(), fy = ry.ref();
    std::vector<char> doubt(want.size(), 0);
    for (int i = 0; i < nY; i++) for (int j = 0; j < nX; j++) { V p = gridPoint(b, nX, nY, i, j); if (mode == 1) p.y += fx(p.x); else if (mode == 2) p.x += fx(p.y); else { double x = fx(p.x); p = {x, fy(p.y)}; }
        int w = g::where(D[dom], p, 2e-4); if (w < 0) continue; if (w == 0 && !exactlyOn(D[dom], p)) { want.push_back(p); doubt.push_back(1); } else { want.push_back(p); doubt.push_back(0); } }
    g::Poly got = vs(r.getSeedPoints()); size_t k = 0;
    for (size_t j = 0; j < want.size(); j++) { if (k < got.size() && near(got[k].x, want[j].x) && near(got[k].y, want[j].y)) { k++; continue; } if (!doubt[j]) { c.fail("region-seeds", "seed " + g::str(want[j]) + " is missing among " + num(got.size())); return; } }
    if (k != got.size()) { c.fail("region-seeds", "unexpected seed " + g::str(got[k])); return; }
    uint64_t h = 2; for (auto& p : got) h = hv(h, p); c.state(h);
}
static const unsigned CH[] = {0u, 0xffffffffu, 0x7fffffffu, 0x80000000u, 1u, 0x55555555u, 0xfffffffeu, 0x12345678u, 0x33333333u, 0xcccccccdu};
static const double LIM[][2] = {{0, 1}, {-2, 3}, {5, 5}, {0, 0}, {-10, -4}, {1, 2}, {0, 1000000}, {-1, 1}, {3, 1000}};
static const int NL = sizeof(LIM) / sizeof(*LIM);

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one grid produced by one pair of rules, or one random rule under one choice of the engine's outputs; every one is non-trivial";
        bool th = e.thorough(); int NR = rules().size(), N = th ? 24 : 9, NB = sizeof(BX) / sizeof(*BX);
        auto gtext = [=](const Box& b, int nX, int nY, int rx, int ry, int mode) { return boxText(b) + " " + num(nX) + "x" + num(nY) + (mode == 0 ? " " + rules()[rx].name + " / " + rules()[ry].name : (mode == 1 ? " x free: " : " y free: ") + rules()[rx].name); };
        {   auto dec = [=](uint64_t i, int& b, int& nX, int& nY, int& rx, int& ry) { Dec d(i); b = d.take(NB); nX = d.take(N) + 1; nY = d.take(N) + 1; rx = d.take(NR); ry = d.take(NR); };
            e.add("grids x pairs of rules", (uint64_t)NB * N * N * NR * NR, 1000, [=](uint64_t i, Case& c) { int b, nX, nY, rx, ry; dec(i, b, nX, nY, rx, ry); bool st = rules()[rx].stateful || rules()[ry].stateful; grid(BX[b], nX, nY, rules()[rx], rules()[ry], 0, st ? 1 : 2, c); },
                  [=](uint64_t i) { int b, nX, nY, rx, ry; dec(i, b, nX, nY, rx, ry); return gtext(BX[b], nX, nY, rx, ry, 0); }); }
        {   auto dec = [=](uint64_t i, int& b, int& nX, int& nY, int& rx, int& mode) { Dec d(i); b = d.take(NB); mode = d.take(2) + 1; nX = d.take(N) + 1; nY = d.take(N) + 1; rx = d.take(NR); };
            e.add("grids x one free variable", (uint64_t)NB * N * N * NR * 2, 1000, [=](uint64_t i, Case& c) { int b, nX, nY, rx, m; dec(i, b, nX, nY, rx, m); grid(BX[b], nX, nY, rules()[rx], rules()[rx], m, rules()[rx].stateful ? 1 : 2, c); },
                  [=](uint64_t i) { int b, nX, nY, rx, m; dec(i, b, nX, nY, rx, m); return gtext(BX[b], nX, nY, rx, rx, m); }); }
        {   auto dec = [=](uint64_t i, int& b, int& nX, int& nY, int& rx, int& ry, int& mode) { Dec d(i); b = d.take(2); mode = d.take(3); nX = d.take(N) + 1; nY = d.take(N) + 1; rx = d.take(NR); ry = d.take(NR); if (mode) ry = rx; };
            e.add("grids of a region", (uint64_t)2 * 3 * N * N * NR * NR, 1000, [=](uint64_t i, Case& c) { int b, nX, nY, rx, ry, m; dec(i, b, nX, nY, rx, ry, m); regionGrid(b, nX, nY, rules()[rx], rules()[ry], m, c); },
                  [=](uint64_t i) { int b, nX, nY, rx, ry, m; dec(i, b, nX, nY, rx, ry, m); return "region, " + gtext(BX[b], nX, nY, rx, ry, m); }); }
        {   // rows and columns of many points
            static const int LN[] = {16, 17, 31, 33, 40, 41, 50, 64, 65, 100, 127, 128, 129, 255, 257, 300}; const int NL2 = 16;
            auto dec = [=](uint64_t i, int& b, int& nX, int& nY, int& rx, int& ry, int& mode) { Dec d(i); b = d.take(NB); mode = d.take(3); rx = d.take(NR); ry = d.take(NR); if (mode) ry = rx; nX = LN[d.take(NL2)]; nY = d.take(3) + 1; if (d.take(2)) std::swap(nX, nY); };
            e.add("long rows and columns", (uint64_t)NB * 3 * NR * NR * NL2 * 6, 1000, [=](uint64_t i, Case& c) { int b, nX, nY, rx, ry, m; dec(i, b, nX, nY, rx, ry, m); if (BX[b].x0 == BX[b].x1 || BX[b].y0 == BX[b].y1) { c.trivial = true; return; } grid(BX[b], nX, nY, rules()[rx], rules()[ry], m, 1, c); },
                  [=](uint64_t i) { int b, nX, nY, rx, ry, m; dec(i, b, nX, nY, rx, ry, m); return gtext(BX[b], nX, nY, rx, ry, m); }); }
        {   int M = th ? 7 : 4;
            auto dec = [=](uint64_t i, int& b, double& st, int* n, int& rx, int& ry, int& mode) { Dec d(i); b = d.take(NB); static const double S[] = {1, 4, 0.5}; st = S[d.take(3)]; mode = d.take(3); for (int k = 0; k < 4; k++) n[k] = d.take(M) + 1; rx = d.take(NR); ry = d.take(NR); if (mode) ry = rx; };
            auto skip = [=](int rx, int ry, int mode) { return mode != 1 && (rules()[mode ? rx : ry].name == "alternating"); };        // rows of equal values have no spacing
            e.add("one generator, two grids", (uint64_t)NB * 9 * M * M * M * M * NR * NR, 4000, [=](uint64_t i, Case& c) { int b, n[4], rx, ry, m; double st; dec(i, b, st, n, rx, ry, m); if (skip(rx, ry, m) || ((m == 1 || m == 0) && rules()[rx].name == "alternating" && n[1] % 2 && (n[0] != n[2] || st != 1))) { c.trivial = true; return; } twoGrids(BX[b], st, n[0], n[1], n[2], n[3], rules()[rx], rules()[ry], m, c); },
                  [=](uint64_t i) { int b, n[4], rx, ry, m; double st; dec(i, b, st, n, rx, ry, m); return gtext(BX[b], n[0], n[1], rx, ry, m) + ", then " + num(n[2]) + "x" + num(n[3]) + " stretched by " + num(st); }); }
        // the left out case: the first row of the second grid is a displaced one and has another spacing (known finding)
        e.add("alternating rule reused with another spacing after an odd number of rows", 1, 1, [](uint64_t, Case& c) { int a = -1; for (int k = 0; k < (int)rules().size(); k++) if (rules()[k].name == "alternating") a = k; twoGrids(BX[0], 4, 3, 1, 3, 2, rules()[a], rules()[0], 0, c); }, [](uint64_t) { return std::string("3x1 on (0,0)(10,4), then 3x2 on (0,0)(40,16)"); });
        e.add("one rule, both variables free", NR, 1, [=](uint64_t i, Case& c) { bool t = false; try { PointGenerator g(rules()[i].real(), functions::independent_variable::both); } catch (std::invalid_argument&) { t = true; } c.op(); if (!t) c.fail("one-rule-both-free", "accepted"); c.state(i + 1); }, [=](uint64_t i) { return rules()[i].name; });
        {   // random rules: every choice for the first draws
            int D = th ? 6 : 5, K = sizeof(CH) / sizeof(*CH); uint64_t ch = 1; for (int k = 0; k < D; k++) ch *= K;
            static const char* kn[] = {"random_double", "random_integer", "double noise on constant", "integer noise on constant", "double noise on uniform 2", "integer noise on sine", "double noise on double noise", "utilities::random_integer", "random_double through a generator", "integer noise through a generator, x free"};
            auto dec = [=](uint64_t i, int& kind, int& lim) { Dec d(i); kind = d.take(10); lim = d.take(NL); std::vector<unsigned> s; for (int k = 0; k < D; k++) s.push_back(CH[d.take(K)]); return s; };
            e.add("random rules x choices of the engine", ch * 10 * NL, 4000, [=](uint64_t i, Case& c) {
                int kind, lim; script = dec(i, kind, lim); drawn = 0; double lo = LIM[lim][0], hi = LIM[lim][1]; std::vector<double> got;
                auto in = [&](double x) { return x >= lo && x <= hi; };
                double amp = std::max(std::fabs(lo), std::fabs(hi)), eps = 1e-9 * std::max(1.0, amp);
                auto mag = [&](double d) { return (d >= lo - eps && d <= hi + eps) || (-d >= lo - eps && -d <= hi + eps); };     // displaced by a value of the interval, in either direction
                auto whole = [](double x) { return std::fabs(x - std::round(x)) < 1e-9; };
                if (kind <= 6) {
                    Functor* f = kind == 0 ? functions::random_double(lo, hi) : kind == 1 ? functions::random_integer(lo, hi) : kind == 2 ? noise::random_double_noise(functions::constant(), lo, hi) : kind == 3 ? noise::random_integer_noise(functions::constant(), lo, hi) : kind == 4 ? noise::random_double_noise(functions::uniform(2), lo, hi) : kind == 5 ? noise::random_integer_noise(functions::sine(2, 0.25, 30), lo, hi) : noise::random_double_noise(noise::random_double_noise(functions::constant(), lo, hi), lo, hi);
                    for (double x : {0.0, 3.5, -7.0}) { double y = f->apply(x); c.op(); got.push_back(y);
                        double base = kind == 4 ? 2 * x : kind == 5 ? 2 * std::sin(M_PI * 0.25 * x + M_PI / 6) : x; bool ok = std::isfinite(y);
                        if (kind == 0) ok = in(y); else if (kind == 1) ok = in(y) && y == std::floor(y); else if (kind == 6) ok = ok && std::fabs(y - base) <= 2 * amp + eps; else ok = ok && mag(y - base); if (kind == 3 || kind == 5) ok = ok && whole(y - base);
                        if (!ok) { c.fail("random-limits", std::string(kn[kind]) + " gives " + num(y) + " for " + num(x) + ", limits " + num(lo) + " " + num(hi)); break; } }
                    delete f;
                } else if (kind == 7) { for (int k = 0; k < 3; k++) { int y = utilities::random_integer((int)lo, (int)hi); c.op(); got.push_back(y); if (!in(y)) { c.fail("random-limits", "utilities::random_integer gives " + num(y)); break; } } }
                else { PointGenerator gen = kind == 8 ? PointGenerator(functions::random_double(lo, hi), functions::random_double(lo, hi)) : PointGenerator(noise::random_integer_noise(functions::uniform(0), lo, hi), functions::independent_variable::x); std::vector<Point> out; gen.generate(out, box(BX[0]), 2, 2); c.op(); if (out.size() != 4) c.fail("grid-size", num(out.size()));
                    for (size_t k = 0; k < out.size() && !c.failed(); k++) { V p = v(out[k]), q = gridPoint(BX[0], 2, 2, k / 2, k % 2); got.push_back(p.x); got.push_back(p.y); bool ok = kind == 8 ? in(p.x) && in(p.y) : near(p.x, q.x) && mag(p.y - q.y) && whole(p.y - q.y); if (!ok) c.fail("random-limits", std::string(kn[kind]) + " gives " + g::str(p)); } }
                uint64_t h = 3; for (double x : got) h = mc::mix(h, (uint64_t)(int64_t)std::llround(x * 1e6)); c.state(h);
            }, [=](uint64_t i) { int kind, lim; auto s = dec(i, kind, lim); std::string t = std::string(kn[kind]) + " limits " + num(LIM[lim][0]) + " " + num(LIM[lim][1]) + " engine outputs"; for (unsigned x : s) t += " " + num(x); return t; });
        }
    });
}
