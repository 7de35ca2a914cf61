// E01: equality and order of polygons, segments, points and pairs: all pairs and triples of sets chosen to collide.
#include "common.hpp"
#include <delynoi/models/basic/IndexSegment.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/voronoi/structures/mapdata.h>
#include <unordered_map>
#include <unordered_set>

// index pool: small numbers plus the members of two different triples with the same hash sum
static const std::vector<int>& pool() {
    static std::vector<int> p;
    if (!p.empty()) return p;
    std::unordered_map<int, std::array<int, 3>> seen; int N = 220; std::vector<int> h; for (int i = 0; i < N; i++) h.push_back(utilities::hash32(i));
    for (int a = 0; a < N && p.empty(); a++) for (int b = a + 1; b < N && p.empty(); b++) for (int c = b + 1; c < N; c++) {
        long long s = (long long)h[a] + h[b] + h[c]; int key = (int)(s ^ (s >> 32) * 2654435761ll); auto it = seen.find(key);
        if (it != seen.end()) { auto& q = it->second; if ((long long)h[q[0]] + h[q[1]] + h[q[2]] == s) { std::set<int> u{a, b, c, q[0], q[1], q[2]}; if (u.size() == 6) { p.assign(u.begin(), u.end()); break; } } }
        else seen[key] = {a, b, c};
    }
    if (p.empty()) p = {10, 11, 12, 13, 14, 15};
    return p;
}
static Pts places() { int m = 0; for (int x : pool()) m = std::max(m, x); Pts r; for (int i = 0; i <= m; i++) r.push_back(Point(100 * std::cos(2 * M_PI * i / (m + 1)), 100 * std::sin(2 * M_PI * i / (m + 1)))); return r; }
// ordered selections of k pool members
static std::vector<std::vector<int>> selections(int k) { std::vector<std::vector<int>> r; std::vector<int> cur; std::function<void()> rec = [&] { if ((int)cur.size() == k) { r.push_back(cur); return; } for (int x : pool()) if (std::find(cur.begin(), cur.end(), x) == cur.end()) { cur.push_back(x); rec(); cur.pop_back(); } }; rec(); return r; }
static std::set<int> S(const std::vector<int>& v) { return std::set<int>(v.begin(), v.end()); }
static std::string T(const std::vector<int>& v) { std::string s; for (int x : v) s += (s.empty() ? "" : " ") + num(x); return "{" + s + "}"; }
// a strict total order up to eq: trichotomy of a pair, transitivity of a triple
template <class X> static bool pairOk(const X& a, const X& b, bool eq, Case& c, const std::string& t) {
    c.op(6); if ((a == b) != eq || (b == a) != eq) { c.fail("equality", t + (eq ? " are not equal" : " are equal")); return false; }
    int n = (a < b) + (b < a); if (eq ? n != 0 : n != 1) { c.fail("order", t + (n == 2 ? ": each is less than the other" : n ? ": equal but ordered" : ": different but not ordered")); return false; }
    if (a < a || b < b || !(a == a)) { c.fail("order", t + ": less than itself"); return false; }
    return true;
}
template <class X> static bool tripleOk(const X& a, const X& b, const X& d, Case& c, const std::string& t) {
    c.op(3); if (a < b && b < d && !(a < d)) { c.fail("transitivity", t); return false; }
    if (a == b && b == d && !(a == d)) { c.fail("transitivity", t + ": equality"); return false; }
    if (a == b && (a < d) != (b < d)) { c.fail("order-respects-equality", t); return false; }
    return true;
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one object against all objects of the set, or one triple; every one is non-trivial";
        bool th = e.thorough(); auto pts = std::make_shared<Pts>(places());
        auto sel = std::make_shared<std::vector<std::vector<int>>>(); for (int k = 3; k <= (th ? 6 : 5); k++) for (auto& x : selections(k)) sel->push_back(x);
        auto make = [=](int i) { std::vector<int> ix = (*sel)[i]; return Polygon(ix, *pts); };
        e.add("polygons x polygons", sel->size(), 10, [=](uint64_t i, Case& c) {
            Polygon a = make(i); std::set<int> sa = S((*sel)[i]);
            for (size_t j = 0; j < sel->size(); j++) { Polygon b = make(j); bool eq = sa == S((*sel)[j]); if (!pairOk(a, b, eq, c, "polygons " + T((*sel)[i]) + " and " + T((*sel)[j]))) return; }
            Polygon f(a); f.fixCCW(*pts); std::vector<int> o = f.getPoints(); if (!pairOk(a, f, true, c, "polygon and itself turned " + T(o))) return;
            Polygon g; g = a; if (!pairOk(a, g, true, c, "polygon and its assigned copy")) return;
            c.state(mc::hash_str(T((*sel)[i])));
        }, [=](uint64_t i) { return "polygon " + T((*sel)[i]) + " against all"; });
        {   // triples of polygons, each vertex set in two representations
            auto two = std::make_shared<std::vector<std::vector<int>>>(); std::map<std::set<int>, int> cnt; for (auto& s : *sel) { int& k = cnt[S(s)]; k++; if (k == 1 || k == 5) two->push_back(s); } int n = two->size();
            auto mk = [=](int i) { std::vector<int> ix = (*two)[i]; return Polygon(ix, *pts); };
            e.add("polygon triples", (uint64_t)n * n, 50, [=](uint64_t i, Case& c) { Polygon a = mk(i / n), b = mk(i % n); for (int k = 0; k < n; k++) { Polygon d = mk(k); if (!tripleOk(a, b, d, c, T((*two)[i / n]) + T((*two)[i % n]) + T((*two)[k]))) return; } c.state(mc::mix(2, i)); }, [=](uint64_t i) { return "polygons " + T((*two)[i / n]) + T((*two)[i % n]); });
            // containers: every rotation of the list, all found again
            e.add("polygons in containers", n, 1, [=](uint64_t i, Case& c) {
                std::set<Polygon> s; std::map<Polygon, int> m; UniqueList<Polygon> u; std::vector<Polygon> v; std::set<std::set<int>> ref;
                for (int k = 0; k < n; k++) { int at = (i + k) % n; Polygon p = mk(at); s.insert(p); m[p]++; u.push_back(p); v.push_back(p); ref.insert(S((*two)[at])); if (s.size() != ref.size() || m.size() != ref.size() || u.size() != (int)ref.size()) { c.fail("container", "after inserting " + T((*two)[at]) + ": " + num(s.size()) + " instead of " + num(ref.size())); return; } c.op(4); }
                for (auto& q : *sel) { std::vector<int> ix = q; Polygon p(ix, *pts); c.op(3); if (!s.count(p) || !u.contains(p) || u.indexOf(p) < 0 || utilities::indexOf(v, p) < 0) { c.fail("container", T(q) + " is not found"); return; } }
                std::vector<int> ix{0, 1, 2}; for (int x : pool()) for (int& y : ix) if (y == x) y += 300; Pts many(1000, Point(0, 0)); for (int k = 0; k < 1000; k++) many[k] = Point(std::cos(k), std::sin(k)); Polygon p(ix, many); if (s.count(p) || u.contains(p) || u.indexOf(p) >= 0) { c.fail("container", T(ix) + " is found"); return; }
                c.state(mc::mix(3, i));
            }, [=](uint64_t i) { return "insertion from number " + num(i); });
        }
        {   // polygons of many corners: every rotation and both directions of one list, and lists that differ in one corner
            static const int N[] = {7, 12, 31, 32, 33, 48, 63, 64, 65, 100, 127, 129, 200}; auto many = std::make_shared<Pts>(); for (int k = 0; k < 1300; k++) many->push_back(Point(900 * std::cos(2 * M_PI * k / 1300), 900 * std::sin(2 * M_PI * k / 1300)));
            auto list = [](int n, int how) { std::vector<int> r; for (int k = 0; k < n; k++) r.push_back(how == 0 ? k : how == 1 ? 3 * k + 5 : how == 2 ? (k * k) / (n / 6 + 1) + 2 * k : 1299 - 2 * k); return r; };
            e.add("polygons of many corners", 13 * 4 * (th ? 30 : 12), 4, [=](uint64_t i, Case& c) {
                Dec d(i); int n = N[d.take(13)], how = d.take(4), at = d.take(th ? 30 : 12) * n / (th ? 30 : 12); std::vector<int> l = list(n, how), x = l; Polygon a(l, *many); std::string t = num(n) + " corners, list " + num(how); std::set<Polygon> s{a}; std::map<Polygon, int> m; m[a] = 7; UniqueList<Polygon> u; u.push_back(a); c.op(4);
                for (int dir = 0; dir < 2; dir++) { for (int r = 0; r < n; r++) { if (r % 3 && r != at && n > 40) { std::rotate(x.begin(), x.begin() + 1, x.end()); continue; } Polygon b(x, *many); if (!pairOk(a, b, true, c, t + " turned by " + num(r))) return; if (!s.count(b) || !m.count(b) || u.indexOf(b) != 0 || !u.contains(b)) { c.fail("container", t + " turned by " + num(r)); return; } std::rotate(x.begin(), x.begin() + 1, x.end()); } std::reverse(x.begin(), x.end()); }
                std::vector<Polygon> other; for (int w = 0; w < 4; w++) { std::vector<int> y = l; if (w == 0) y.erase(y.begin() + at); else if (w == 1) { for (int z = 1250 - n; ; z++) if (std::find(y.begin(), y.end(), z % 1300) == y.end()) { y[at] = z % 1300; break; } std::sort(y.begin(), y.end()); } else if (w == 2) y.pop_back(); else { y.erase(y.begin() + at); std::reverse(y.begin(), y.end()); y.pop_back(); }
                    Polygon b(y, *many); if (!pairOk(a, b, false, c, t + " and change " + num(w))) return; if (s.count(b) || m.count(b) || u.contains(b) || u.indexOf(b) >= 0) { c.fail("container", t + ": change " + num(w) + " is found"); return; } for (auto& o : other) if (!tripleOk(a, o, b, c, t) || !tripleOk(o, b, a, c, t) || !tripleOk(b, a, o, c, t)) return; other.push_back(b); }
                c.state(mc::mix(mc::mix(11, n), how * 64 + at));
            }, [=](uint64_t i) { Dec d(i); int n = N[d.take(13)]; return num(n) + " corners, list " + num(d.take(4)); });
        }
        {   // undirected index segments
            auto ix = std::make_shared<std::vector<int>>(std::vector<int>{0, 1, 2, 3, -5, 1000000}); for (int k = 0; k < (th ? 6 : 3); k++) ix->push_back(pool()[k]); int m = ix->size(), n = m * m;
            auto sg = [=](int i) { return IndexSegment((*ix)[i / m], (*ix)[i % m]); };
            e.add("index segments", (uint64_t)n * n, 200, [=](uint64_t i, Case& c) {
                IndexSegment a = sg(i / n), b = sg(i % n); bool eq = std::minmax(a.getFirst(), a.getSecond()) == std::minmax(b.getFirst(), b.getSecond()); 
                eq = std::min(a.getFirst(), a.getSecond()) == std::min(b.getFirst(), b.getSecond()) && std::max(a.getFirst(), a.getSecond()) == std::max(b.getFirst(), b.getSecond());
                std::string t = a.getString() + " and " + b.getString(); if (!pairOk(a, b, eq, c, t)) return; if (eq && (a.hash != b.hash || SegmentHasher()(a) != SegmentHasher()(b))) { c.fail("hash", t); return; }
                IndexSegment cp(a), as; as = a; if (!(cp == a) || !(as == a) || cp.hash != a.hash || as.hash != a.hash) { c.fail("copy", t); return; }
                std::unordered_map<IndexSegment, int, SegmentHasher> um; um[a] = 1; um[b] = 2; std::map<IndexSegment, int> om; om[a] = 1; om[b] = 2; UniqueList<IndexSegment> u; u.push_back(a); int k = u.push_back(b); c.op(8);
                size_t w = eq ? 1 : 2; if (um.size() != w || om.size() != w || um[a] != (eq ? 2 : 1) || om[a] != (eq ? 2 : 1) || u.size() != (int)w || k != (eq ? 0 : 1) || u.indexOf(b) != k || !u.contains(a)) { c.fail("container", t); return; }
                for (int j = 0; j < n; j++) { IndexSegment d = sg(j); if (!tripleOk(a, b, d, c, t + " and " + d.getString())) return; }
                c.state(mc::mix(4, i));
            }, [=](uint64_t i) { return "segments " + sg(i / n).getString() + " and " + sg(i % n).getString(); });
        }
        {   // points: 4x4 positions (two of them only 2.5 tolerances apart), each in three shades within the tolerance
            auto at = [](int k) { static const double X[] = {0, 2.5e-5, 1, -3}; static const double J[][2] = {{0, 0}, {3e-6, -3e-6}, {-3e-6, 2e-6}}; int q = k / 3, j = k % 3; return Point(X[q / 4] + J[j][0], X[q % 4] + J[j][1]); }; int n = 48;
            e.add("points", (uint64_t)n * n, 50, [=](uint64_t i, Case& c) {
                int ka = i / n, kb = i % n; Point a = at(ka), b = at(kb); bool eq = ka / 3 == kb / 3; std::string t = hexd(a.getX()) + "," + hexd(a.getY()) + " and " + hexd(b.getX()) + "," + hexd(b.getY()); if (!pairOk(a, b, eq, c, t)) return;
                static const double X[] = {0, 2.5e-5, 1, -3}; V pa{X[ka / 12], X[ka / 3 % 4]}, pb{X[kb / 12], X[kb / 3 % 4]}; if ((a < b) != (pa < pb)) { c.fail("order", t + ": not by x, then y"); return; }
                for (int k = 0; k < n; k++) { Point d = at(k); if (!tripleOk(a, b, d, c, t)) return; }
                std::map<Point, int> m; m[a] = 1; m[b] = 2; UniqueList<Point> u; u.push_back(a); int k = u.push_back(b); if (m.size() != (eq ? 1u : 2u) || k != (eq ? 0 : 1) || u.indexOf(b) != k) { c.fail("container", t); return; } c.op(4);
                for (int j = 0; j < n; j += 5) for (int l = 0; l < n; l += 7) { Point p = at(j), q = at(l); PointSegment s(a, b), r(p, q); bool w = (ka / 3 == j / 3 && kb / 3 == l / 3) || (ka / 3 == l / 3 && kb / 3 == j / 3); if ((s == r) != w || (r == s) != w || !(s == PointSegment(b, a))) { c.fail("segment-equality", t); return; } c.op(3); }
                Point cp(a); cp.setX(b.getX()); cp.setY(b.getY()); if (!(cp == b) || cp.getX() != b.getX()) { c.fail("copy", t); return; }
                c.state(mc::mix(5, i));
            }, [=](uint64_t i) { return "points " + at(i / n).getString() + " number " + num(i / n) + " and " + num(i % n); });
        }
        // known defect, see known_findings.txt: the order of points has cycles when their x differ by less than the tolerance, but not all of them
        e.add("points whose x differ by little", 1, 1, [](uint64_t, Case& c) {
            Point a(0, 5), b(0.8e-5, 3), d(1.6e-5, 1); c.op(3);
            if (b < a && d < b && a < d) c.fail("order-cycle", "(1.6e-5,1) < (0.8e-5,3) < (0,5) < (1.6e-5,1)");
        }, [](uint64_t) { return std::string("(0,5) (0.8e-5,3) (1.6e-5,1)"); });
        {   // pairs
            int m = 5, n = m * m; auto pr = [=](int k) { return Pair<int>(k / m - 2, k % m - 2); };
            e.add("pairs", (uint64_t)n * n, 50, [=](uint64_t i, Case& c) {
                Pair<int> a = pr(i / n), b = pr(i % n); std::string t = num(a.first) + "," + num(a.second) + " and " + num(b.first) + "," + num(b.second); if (!pairOk(a, b, i / n == i % n, c, t)) return; if ((a < b) != (i / n < i % n)) { c.fail("order", t); return; }
                for (int k = 0; k < n; k++) if (!tripleOk(a, b, pr(k), c, t)) return;
                Pair<int> s = a + b, q = a * 3.0; if (s.first != a.first + b.first || s.second != a.second + b.second || q.first != 3 * a.first || q.second != 3 * a.second || a.dot(b) != a.first * b.first + a.second * b.second || !(Pair<int>(a) == a)) { c.fail("arithmetic", t); return; } c.op(4);
                c.state(mc::mix(6, i));
            }, [=](uint64_t i) { return "pairs " + num(i / n) + " " + num(i % n); });
        }
    });
}
