// G03: segment and orientation predicates against exact integer arithmetic; convex hull and antipodal pairs.
#include "common.hpp"
#include <delynoi/models/basic/Angle.h>
#include <delynoi/models/basic/IndexSegment.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/utilities/convexHull.h>
#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/utilities/geometryFunctions.h>

static const g::Affine PL[] = {{1, 0, 0, 0, "unit"}, {7.3, 0.4, 3.1, -2.7, "rotated"}, {0.13, 1.1, 40, 20, "small"}, {250, 2.0, -4000, 9000, "large"}, {1000, 0, 1e4, -2e4, "far"}, {0.05, 0, 0, 0, "tiny"}, {-1, 0, 2, 1, "turned"}, {1, 0.4, 452000.25, 4181000.5, "geographic"}};
static const int NP = sizeof(PL) / sizeof(*PL);
static Point pt(V x) { return Point(x.x, x.y); }
static bool near(V a, V b, double e) { return std::fabs(a.x - b.x) <= e && std::fabs(a.y - b.y) <= e; }
static bool near(double a, double b, double e) { return std::fabs(a - b) <= e; }

// everything about one segment a-b and one point p (lattice coordinates; the placement is exact or nearly so)
static void segPoint(V a, V b, V p, const g::Affine& pl, Case& c) {
    V A = g::apply(pl, a), B = g::apply(pl, b), Q = g::apply(pl, p);
    bool degenerate = a == b;
    bool on = g::orient(a, b, p) == 0 && g::between(a, b, p);
    std::string t = g::str(A) + g::str(B) + " and " + g::str(Q);
    Pts pts{Point(-77, 55), pt(B), Point(1234, -9), pt(A), pt(Q)};
    PointSegment s(pt(A), pt(B)), r(pt(B), pt(A)); IndexSegment i(3, 1), j(1, 3); c.op(4);
    bool got[4] = {s.contains(pt(Q)), r.contains(pt(Q)), i.contains(pts, pt(Q)), j.contains(pts, pt(Q))}; c.op(4);
    for (int k = 0; k < 4; k++) if (got[k] != on) { c.fail("contains", std::string(on ? "misses" : "takes") + " the point, " + t + " variant " + num(k)); return; }
    double S = std::fabs(pl.sx), want2 = S * S * g::orient(a, b, p), X = 1; for (V x : {A, B, Q}) X = std::max(X, std::max(std::fabs(x.x), std::fabs(x.y)));
    double e2 = 1e-14 * X * X + 1e-12 * S * S;
    struct { double got, want; const char* n; } val[] = {
        {geometry_functions::area2(pt(A), pt(B), pt(Q)), want2, "area2"}, {geometry_functions::triangleArea(pt(A), pt(B), pt(Q)), want2 / 2, "triangleArea"},
        {delynoi_utilities::orientation(pt(A), pt(B), pt(Q)), want2, "orientation"}, {delynoi_utilities::crossProduct(pt(A), pt(B)), g::cross(A, B), "crossProduct"},
        {geometry_functions::area2(pt(B), pt(Q), pt(A)), want2, "area2"}, {geometry_functions::area2(pt(B), pt(A), pt(Q)), -want2, "area2"}};
    for (auto& x : val) { c.op(); if (!near(x.got, x.want, e2)) { c.fail(x.n, num(x.got) + " instead of " + num(x.want) + ", " + t); return; } }
    Pts tri{pt(A), pt(B), pt(Q)}; std::vector<int> ix{3, 1, 4}; c.op(2);
    if (!near(geometry_functions::area(tri), want2 / 2, e2) || !near(geometry_functions::area(pts, ix), want2 / 2, e2)) { c.fail("area", t); return; }
    bool line = g::orient(a, b, p) == 0; c.op(3);
    if (geometry_functions::collinear(pt(A), pt(B), pt(Q)) != line || geometry_functions::collinear(pt(Q), pt(A), pt(B)) != line || geometry_functions::collinear(pt(B), pt(A), pt(Q)) != line) { c.fail("collinear", t); return; }
    if (!degenerate) {
        V d = B - A; double want = std::atan2(d.y, d.x) * 180 / M_PI, ang[] = {s.cartesianAngle(), i.cartesianAngle(pts)}, rev[] = {r.cartesianAngle(), j.cartesianAngle(pts)}; c.op(4);
        for (int k = 0; k < 2; k++) {
            if (ang[k] < -1e-9 || ang[k] > 360 + 1e-9 || std::fabs(std::remainder(ang[k] - want, 360)) > 1e-7) { c.fail("cartesianAngle", num(ang[k]) + " instead of " + num(want) + ", " + t); return; }
            if (std::fabs(std::remainder(rev[k] - ang[k] - 180, 360)) > 1e-7) { c.fail("cartesianAngle", "turned segment, " + t); return; }
            Angle x(ang[k]), y(rev[k]); c.op(2);      // a line has one angle below 180, whichever way it runs
            if (x.angle < -1e-9 || x.angle > 180 + 1e-9 || std::fabs(std::remainder(x.angle - want, 180)) > 1e-7) { c.fail("Angle", num(x.angle) + ", " + t); return; }
            double dd = std::remainder(x.angle - y.angle, 180); if (std::fabs(dd) > 1e-6) { c.fail("Angle", "of both directions, " + t); return; }
        }
    }
    double len = S * g::dist(a, b); c.op(4);
    for (double l : {s.length(), r.length(), i.length(pts), j.length(pts)}) if (!near(l, len, 1e-12 * X)) { c.fail("length", num(l) + " instead of " + num(len) + ", " + t); return; }
    V w = g::mid(A, B); c.op(2); if (!near(v(i.middlePoint(pts)), w, 1e-13 * X) || !near(v(j.middlePoint(pts)), w, 1e-13 * X)) { c.fail("middlePoint", t); return; }
    if (!line) {
        bool ccw = g::orient(a, b, p) > 0; c.op(4);
        if (i.isCCW(pts, pt(Q)) != ccw || j.isCCW(pts, pt(Q)) == ccw) { c.fail("isCCW", t); return; }
        IndexSegment k(i); k.orderCCW(pts, pt(Q)); IndexSegment l(j); l.orderCCW(pts, pt(Q));
        for (auto* q : {&k, &l}) if (q->getFirst() != (ccw ? 3 : 1) || q->getSecond() != (ccw ? 1 : 3)) { c.fail("orderCCW", q->getString() + ", " + t); return; }
        if (!(k == i) || k.hash != i.hash) { c.fail("orderCCW", "changes the segment, " + t); return; }
    }
    { Point x = pt(A), y = pt(B), z = pt(Q); V d = v(y - x); if (!near(d, B - A, 0) || !near(z.squareNorm(), g::dot(Q, Q), 1e-12 * X * X) || !near(delynoi_utilities::norm(z), std::hypot(Q.x, Q.y), 1e-12 * X) || !near(delynoi_utilities::squareNorm(z), g::dot(Q, Q), 1e-12 * X * X)) { c.fail("norm", t); return; } c.op(4); }
    c.op(4);
    bool isA = p == a || p == b;
    if (s.isVertex(pt(Q)) != isA || r.isVertex(pt(Q)) != isA || i.isVertex(4) || !i.isVertex(3) || !i.isVertex(1) || i.isVertex(0)) { c.fail("isVertex", t); return; }
    if (!(v(s.getFirst()) == A) || !(v(s.getSecond()) == B) || i.getFirst() != 3 || i.getSecond() != 1 || i.add(5).getFirst() != 8 || i.add(5).getSecond() != 6) { c.fail("end-points", t); return; }
    if (i.getString() != "3 1" || s.getString() != pt(A).getString() + " " + pt(B).getString()) { c.fail("string", i.getString() + "; " + s.getString()); return; }
    c.state(hv(hv(hv(1, A), B), Q));
}
// where two lattice segments meet: 0 nowhere, 1 in one point (returned), 2 not decided here (parallel overlap or a degenerate segment)
static int meet(V a, V b, V c, V d, V& x) {
    if (a == b || c == d) return 2;
    double det = g::cross(b - a, d - c);
    if (det == 0) return g::orient(a, b, c) == 0 && g::segTouch(a, b, c, d) ? 2 : 0;
    if (!g::segTouch(a, b, c, d)) return 0;
    double t = g::cross(c - a, d - c) / det; x = a + t * (b - a); return 1;
}
static void segSeg(V a, V b, V c2, V d, const g::Affine& pl, Case& c) {
    V x{0, 0}; int m = meet(a, b, c2, d, x);
    V A = g::apply(pl, a), B = g::apply(pl, b), C = g::apply(pl, c2), D = g::apply(pl, d), X = g::apply(pl, x);
    std::string t = g::str(A) + g::str(B) + " and " + g::str(C) + g::str(D);
    double sz = 1; for (V q : {A, B, C, D}) sz = std::max(sz, std::max(std::fabs(q.x), std::fabs(q.y)));
    Pts pts{pt(D), pt(A), Point(4, 4), pt(C), pt(B)};   // a=1 b=4 c=3 d=0
    if (m < 2) for (int dir = 0; dir < 4; dir++) for (int sw = 0; sw < 2; sw++) {
        int i0 = dir & 1 ? 4 : 1, i1 = dir & 1 ? 1 : 4, j0 = dir & 2 ? 0 : 3, j1 = dir & 2 ? 3 : 0;
        if (sw) { std::swap(i0, j0); std::swap(i1, j1); }
        IndexSegment s(i0, i1), o(j0, j1); PointSegment os(pts[j0], pts[j1]); Point p1(-31, 17), p2(-31, 17); c.op(2);
        bool g1 = s.intersection(pts, o, p1), g2 = s.intersection(pts, os, p2);
        if (g1 != (m == 1) || g2 != g1) { c.fail("intersection", std::string(m ? "misses" : "invents") + " a meeting point of " + t + " variant " + num(dir) + num(sw)); return; }
        if (m == 1) for (Point* p : {&p1, &p2}) if (!near(v(*p), X, 1e-11 * sz)) { c.fail("intersection-point", p->getString() + " instead of " + g::str(X) + ", " + t); return; }
    }
    auto on = [](V p, V q, V r) { return g::orient(p, q, r) == 0 && g::between(p, q, r); };
    bool cIn = on(a, b, c2) && on(a, b, d), aIn = on(c2, d, a) && on(c2, d, b); c.op(4);
    IndexSegment s(1, 4), o(3, 0); PointSegment sp(pt(B), pt(A)), op(pt(C), pt(D));
    if (s.contains(pts, o) != cIn || o.contains(pts, s) != aIn || s.isContained(op, pts) != aIn || o.isContained(sp, pts) != cIn) { c.fail("segment-contained", t); return; }
    bool col = g::orient(a, b, c2) == 0 && g::orient(a, b, d) == 0; PointSegment s2(pt(A), pt(B)); c.op(2);
    if (geometry_functions::collinear(s2, op) != col || (!(a == b) && !(c2 == d) && geometry_functions::collinear(op, s2) != col)) { c.fail("collinear-segments", t); return; }
    bool same = (a == c2 && b == d) || (a == d && b == c2); c.op(2);
    if ((s2 == op) != same || (op == s2) != same) { c.fail("segment-equality", t); return; }
    c.state(hv(hv(hv(hv(2, A), B), C), D));
}
// the two lines through the pairs of points, wherever they meet
struct Lines : PointSegment { using PointSegment::PointSegment; bool meet(V a, V b, V c, V d, V& x) { Point p(-5, 8); bool r = intersectionInfinite(Point(a.x, a.y), Point(b.x, b.y), Point(c.x, c.y), Point(d.x, d.y), p); x = v(p); return r; } };
static void lines(V a, V b, V c2, V d, const g::Affine& pl, Case& c) {
    if (a == b || c2 == d || (&pl == &PL[NP - 1] && g::cross(b - a, d - c2) == 0)) { c.trivial = true; return; }    // (far away, parallel lines are parallel up to the rounding of the coordinates only)
    V A = g::apply(pl, a), B = g::apply(pl, b), C = g::apply(pl, c2), D = g::apply(pl, d); std::string t = g::str(A) + g::str(B) + " and " + g::str(C) + g::str(D);
    double det = g::cross(b - a, d - c2), S = std::fabs(pl.sx); V X{0, 0}; double far = 0, sz = 1; for (V q : {A, B, C, D}) sz = std::max(sz, std::max(std::fabs(q.x), std::fabs(q.y)));
    if (det) { V x = a + g::cross(c2 - a, d - c2) / det * (b - a); X = g::apply(pl, x); far = g::dist(x, a) + 1; for (V q : {b, c2, d}) far = std::max(far, g::dist(x, q)); }
    double sh = std::min(g::dist(a, b), g::dist(c2, d)), err = 1e-11 * (sz + S * far) * (1 + far / sh) * (det ? std::max(1.0, g::dist(a, b) * g::dist(c2, d) / std::fabs(det)) : 1);
    Lines l(Point(1, 2), Point(3, 5)); const V q[4][4] = {{A, B, C, D}, {B, A, C, D}, {C, D, A, B}, {D, C, B, A}};
    for (auto& k : q) { V x; bool got = l.meet(k[0], k[1], k[2], k[3], x); c.op(); if (got != (det != 0)) { c.fail("lines", std::string(det ? "do not meet: " : "meet although they are parallel: ") + t); return; } if (got && !near(x, X, err)) { c.fail("lines-point", g::str(x) + " instead of " + g::str(X) + ", " + t); return; } }
    c.state(hv(hv(hv(hv(4, A), B), C), D));
}
// convex hull and antipodal pairs of a set of lattice points
static void hull(const g::Poly& in, const g::Affine& pl, Case& c) {
    g::Poly q = g::apply(pl, in); Pts p = P(q), u, l; std::string t = g::str(q);
    Pts p2 = p; convex::convexHull(p, u, l); c.op();
    // reference: extreme points of the set, exact on the lattice
    std::set<std::pair<double, double>> ext; int n = in.size();
    for (int i = 0; i < n; i++) {      // i is extreme iff it is outside the hull of the others: some line through it has all others strictly on one closed side and it is not between two
        bool e = true;
        for (int a = 0; a < n && e; a++) for (int b = 0; b < n && e; b++) {
            if (a == i || b == i || a == b) continue;
            if (g::orient(in[a], in[b], in[i]) == 0 && g::between(in[a], in[b], in[i])) e = false;
            for (int k = 0; k < n && e; k++) if (k != i && k != a && k != b) { double o1 = g::orient(in[a], in[b], in[i]), o2 = g::orient(in[b], in[k], in[i]), o3 = g::orient(in[k], in[a], in[i]); if (g::orient(in[a], in[b], in[k]) != 0 && ((o1 >= 0 && o2 >= 0 && o3 >= 0) || (o1 <= 0 && o2 <= 0 && o3 <= 0))) e = false; }
        }
        if (e) { V x = g::apply(pl, in[i]); ext.insert({x.x, x.y}); }
    }
    std::set<std::pair<double, double>> got; for (auto* s : {&u, &l}) for (auto& x : *s) got.insert({x.getX(), x.getY()});
    if (got != ext) { c.fail("convexHull", "finds " + num(got.size()) + " extreme points instead of " + num(ext.size()) + ", " + t); return; }
    for (int k = 0; k < 2; k++) { auto& s = k ? l : u; for (size_t i = 1; i < s.size(); i++) {
            if (!(v(s[i - 1]) < v(s[i]))) { c.fail("convexHull", "is not in order, " + t); return; }
            if (i + 1 < s.size()) { double o = g::orient(v(s[i - 1]), v(s[i]), v(s[i + 1])); if (k ? o <= 0 : o >= 0) { c.fail("convexHull", "turns the wrong way, " + t); return; } } } }
    auto pr = convex::rotatingCalipers(p2); c.op(); double best = 0, want = 0; for (auto& x : pr) best = std::max(best, g::dist(v(x.first), v(x.second)));
    for (auto& a : q) for (auto& b : q) want = std::max(want, g::dist(a, b));
    if (!near(best, want, 1e-9 * (1 + want))) { c.fail("rotatingCalipers", "antipodal pairs reach " + num(best) + " instead of " + num(want) + ", " + t); return; }
    uint64_t h = 3; for (auto& x : q) h = hv(h, x); c.state(h);
}
// subsets of {0..n-1} with k elements, by rank
static std::vector<int> subset(uint64_t r, int n, int k) {
    std::vector<int> o; int at = 0;
    auto C = [](int a, int b) { uint64_t x = 1; for (int i = 0; i < b; i++) x = x * (a - i) / (i + 1); return a < b ? 0 : x; };
    while (k) { uint64_t c = C(n - at - 1, k - 1); if (r < c) { o.push_back(at); k--; } else r -= c; at++; }
    return o;
}
static uint64_t choose(int a, int b) { uint64_t x = 1; for (int i = 0; i < b; i++) x = x * (a - i) / (i + 1); return x; }

int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = all predicates on one segment and point, on one pair of segments or on one point set; every one is non-trivial";
        bool th = e.thorough(); int N = th ? 7 : 5, n2 = N * N;
        auto lp = [=](int k) { return V{(double)(k % N), (double)(k / N)}; };
        {   auto get = [=](uint64_t i, int& pl) { Dec d(i); pl = d.take(NP); V a = lp(d.take(n2)), b = lp(d.take(n2)), p = lp(d.take(n2)); return g::Poly{a, b, p}; };
            e.add("segment and point", (uint64_t)NP * n2 * n2 * n2, 2000, [=](uint64_t i, Case& c) { int pl; auto q = get(i, pl); segPoint(q[0], q[1], q[2], PL[pl], c); },
                  [=](uint64_t i) { int pl; auto q = get(i, pl); return std::string(PL[pl].name) + " segment and point " + g::str(g::apply(PL[pl], q)); }); }
        {   auto get = [=](uint64_t i, int& pl) { Dec d(i); pl = d.take(NP); V a = lp(d.take(n2)), b = lp(d.take(n2)), p = lp(d.take(n2)), q = lp(d.take(n2)); return g::Poly{a, b, p, q}; };
            e.add("two segments", (uint64_t)NP * n2 * n2 * n2 * n2, 4000, [=](uint64_t i, Case& c) { int pl; auto q = get(i, pl); segSeg(q[0], q[1], q[2], q[3], PL[pl], c); },
                  [=](uint64_t i) { int pl; auto q = get(i, pl); return std::string(PL[pl].name) + " segments " + g::str(g::apply(PL[pl], q)); }); }
        {   auto get = [=](uint64_t i, int& pl) { Dec d(i); pl = d.take(NP); V a = lp(d.take(n2)), b = lp(d.take(n2)), p = lp(d.take(n2)), q = lp(d.take(n2)); return g::Poly{a, b, p, q}; };
            e.add("two lines", (uint64_t)NP * n2 * n2 * n2 * n2, 4000, [=](uint64_t i, Case& c) { int pl; auto q = get(i, pl); lines(q[0], q[1], q[2], q[3], PL[pl], c); },
                  [=](uint64_t i) { int pl; auto q = get(i, pl); return std::string(PL[pl].name) + " lines " + g::str(g::apply(PL[pl], q)); }); }
        {   // the second segment far away from the first one, or much longer
            static const V OFF[] = {{40, 0}, {0, -1000}, {-40, 40}, {1000, 37}, {0, 0}}; static const double SC[] = {1, 50, 1000};
            auto get = [=](uint64_t i, int& pl) { Dec d(i); static const int EX[] = {0, 4, 6}; pl = EX[d.take(3)]; V o = OFF[d.take(5)]; double k = SC[d.take(3)]; V a{(double)d.take(4), (double)d.take(4)}, b{(double)d.take(4), (double)d.take(4)}, p{(double)d.take(4), (double)d.take(4)}, q{(double)d.take(4), (double)d.take(4)}; return g::Poly{a, b, o + k * (p - V{1, 1}), o + k * (q - V{1, 1})}; };
            e.add("segments and lines far apart or of different length", 3ull * 5 * 3 * 65536, 4000, [=](uint64_t i, Case& c) { int pl; auto q = get(i, pl); if (q[0] == q[1] || q[2] == q[3]) { c.trivial = true; return; } segSeg(q[0], q[1], q[2], q[3], PL[pl], c); if (!c.failed()) lines(q[0], q[1], q[2], q[3], PL[pl], c); },
                  [=](uint64_t i) { int pl; auto q = get(i, pl); return std::string(PL[pl].name) + " segments " + g::str(g::apply(PL[pl], q)); }); }
        for (int k = 3; k <= (th ? 8 : 6); k++) {       // in several orders of the input, in the exact placements (the hull needs exact orientations)
            static const int ex[] = {0, 4, 6};
            auto get = [=](uint64_t i, int& pl) { Dec d(i); pl = ex[d.take(3)]; int rot = d.take(2); auto s = subset(d.take(choose(16, k)), 16, k); g::Poly q; for (int x : s) q.push_back({(double)(x % 4), (double)(x / 4)}); if (rot) { std::reverse(q.begin(), q.end()); std::rotate(q.begin(), q.begin() + k / 2, q.end()); } return q; };
            auto line = [](const g::Poly& q) { for (size_t i = 2; i < q.size(); i++) if (g::orient(q[0], q[1], q[i]) != 0) return false; return true; };
            e.add("hulls of " + num(k) + " points", choose(16, k) * 6, 500, [=](uint64_t i, Case& c) { int pl; auto q = get(i, pl); if (line(q)) { c.trivial = true; return; } hull(q, PL[pl], c); },
                  [=](uint64_t i) { int pl; auto q = get(i, pl); return "points " + g::str(g::apply(PL[pl], q)); }); }
        {   // utilities used by the meshing code
            e.add("triangle integrity and index vectors", 5 * 5 * 5 * 5, 50, [=](uint64_t i, Case& c) {
                Dec d(i); int n = d.take(5); std::vector<int> t; int x[3] = {(int)d.take(5), (int)d.take(5), (int)d.take(5)}; for (int k = 0; k < n; k++) t.push_back(k < 3 ? x[k] : 9);
                bool want = n == 3 && x[0] != x[1] && x[1] != x[2] && x[0] != x[2], got = true; try { delynoi_utilities::checkTriangleIntegrity(t); } catch (std::invalid_argument&) { got = false; } c.op();
                if (got != want) { c.fail("checkTriangleIntegrity", num(n)); return; }
                std::vector<int> iv(x[0], 7); delynoi_utilities::TrivialIndexVector(iv, x[1] * 3); c.op(); if ((int)iv.size() != x[0] + 3 * x[1]) { c.fail("TrivialIndexVector", num(iv.size())); return; }
                for (int k = 0; k < 3 * x[1]; k++) if (iv[x[0] + k] != k) { c.fail("TrivialIndexVector", num(k)); return; }
                c.state(mc::mix(4, i));
            }, [](uint64_t i) { return "case " + num(i); }); }
    });
}
