// S02: every sequence of insertions and lookups on the neighbourhood maps against plain models, compared after every operation.
#include "common.hpp"
#include <delynoi/models/neighbourhood/EdgeData.h>
#include <delynoi/models/neighbourhood/NeighboursByPoint.h>
#include <delynoi/models/neighbourhood/NeighboursBySegment.h>
#include <delynoi/models/neighbourhood/PointMap.h>
#include <delynoi/models/neighbourhood/SegmentMap.h>
#include <delynoi/voronoi/structures/mapdata.h>
#include <unordered_map>

typedef std::pair<int, int> PI;
// segments chosen so that several share an end, two have the same hash, and indexes are negative, zero and large
static const std::vector<PI>& segs() {
    static std::vector<PI> s;
    if (s.empty()) {
        s = {{0, 1}, {1, 2}, {2, 0}, {-5, 1000000}, {7, 7}};
        std::unordered_map<size_t, PI> seen; bool found = false;
        for (int a = 0; a < 900 && !found; a++) for (int b = a + 1; b < 900; b++) {
            size_t h = IndexSegment(a, b).hash; auto it = seen.find(h);
            if (it != seen.end() && it->second.first != a && it->second.second != b && it->second.first != b && it->second.second != a) { s[1] = it->second; s[3] = {a, b}; found = true; break; }
            seen[h] = {a, b};
        }
        s.push_back({3, -5});
    }
    return s;
}
static IndexSegment seg(int k, int dir) { PI p = segs()[k]; return dir ? IndexSegment(p.second, p.first) : IndexSegment(p.first, p.second); }
static std::string name(int k) { return num(segs()[k].first) + "-" + num(segs()[k].second); }
typedef std::map<int, PI> SModel;       // segment number -> elements
static bool same(const NeighboursBySegment& n, PI w) { PI g{n.getFirst(), n.getSecond()}; return g == w || PI{g.second, g.first} == w; }

static bool check(SegmentMap& m, const SModel& w, int NS, Case& c, const std::string& at) {
    c.op(2); const SegmentMap& cm = m;
    if (m.size() != (int)w.size() || m.getMap().size() != w.size() || cm.getMap().size() != w.size()) { c.fail("size", at + ": " + num(m.size()) + " instead of " + num(w.size())); return false; }
    for (int k = 0; k < NS; k++) for (int dir = 0; dir < 2; dir++) {
        IndexSegment s = seg(k, dir); auto it = w.find(k); c.op();
        if (m.containsSegment(s) != (it != w.end())) { c.fail("containsSegment", at + ": segment " + name(k)); return false; }
        if (it == w.end()) continue;
        NeighboursBySegment g = m.get(s); auto f = m.getMap().find(s); auto cp = cm.getMap(); auto f2 = cp.find(s); c.op(3);
        if (!same(g, it->second)) { c.fail("segment-neighbours", at + ": segment " + name(k) + " lists " + g.getString()); return false; }
        if (f == m.getMap().end() || f2 == cp.end() || !same(f->second, it->second) || !same(f2->second, it->second)) { c.fail("segment-neighbours", at + ": segment " + name(k) + " in getMap()"); return false; }
    }
    if (m.size() != (int)w.size()) { c.fail("lookup-inserts", at); return false; }
    return true;
}
// segment map operations: (segment, direction, element 0..2) ; (segment, direction, replace by a pair) ; change through get ; copy
static std::string sopName(int o, int NS) {
    if (o < NS * 6) return "insert " + name(o % NS) + (o / NS % 2 ? " turned" : "") + " of element " + num(o / NS / 2 * 4);
    o -= NS * 6; if (o < NS * 2) return "insert " + name(o % NS) + (o / NS ? " turned" : "") + " with elements 6 9";
    o -= NS * 2; if (o < NS) return "set the elements of " + name(o) + " through get"; o -= NS; return o == 0 ? "go on with a copy" : "assign over a used map";
}
static void runS(const std::vector<int>& ops, int NS, Case& c) {
    SegmentMap* m = new SegmentMap(); SModel w; std::string at;
    if (check(*m, w, NS, c, "empty")) for (int o : ops) {
        at += (at.empty() ? "" : "; ") + sopName(o, NS); int q = o;
        if (q < NS * 6) { int k = q % NS, dir = q / NS % 2, el = q / NS / 2 * 4; auto it = w.find(k);
            if (it == w.end()) { m->insert(seg(k, dir), el); w[k] = {el, -1}; c.op(); } else if (it->second.second == -1) { m->insert(seg(k, dir), el); it->second.second = el; c.op(); } else if (it->second.second == el) { m->insert(seg(k, dir), el); c.op(); } }     // a segment has at most two elements; giving the second again changes nothing
        else if ((q -= NS * 6) < NS * 2) { m->insert(seg(q % NS, q / NS), NeighboursBySegment(6, 9)); w[q % NS] = {6, 9}; c.op(); }
        else if ((q -= NS * 2) < NS) { if (w.count(q)) { NeighboursBySegment& n = m->get(seg(q, 1)); n.setFirst(11); n.setSecond(-1); w[q] = {11, -1}; c.op(2); } }
        else if (q == NS) { auto* n = new SegmentMap(*m); m->insert(IndexSegment(50, 51), 3); delete m; m = n; c.op(2); }
        else { SegmentMap n; n.insert(seg(0, 0), 77); n.insert(IndexSegment(8, 9), 5); n = *m; *m = SegmentMap(); *m = n; c.op(5); }
        if (!check(*m, w, NS, c, at)) break;
        uint64_t h = 1; for (auto& x : w) h = mc::mix(mc::mix(mc::mix(h, x.first), x.second.first), x.second.second); c.state(h);
    }
    delete m;
}
// ---- points ----
struct PD { std::vector<Point> val; std::vector<int> rep; };
static const PD& pd() { static PD d{{Point(1, 2), Point(1 + 4e-6, 2 - 4e-6), Point(1, 2 + 3e-5), Point(-3, 2), Point(1 - 3e-5, 2)}, {0, 0, 2, 3, 4}}; return d; }
static std::string pname(int k) { static const char* n[] = {"A", "A+", "B above A", "C", "D left of A"}; return n[k]; }
typedef std::map<int, std::vector<int>> PModel;
static bool check(PointMap& m, const PModel& w, Case& c, const std::string& at) {
    c.op(); if (m.size() != (int)w.size() || m.getMap().size() != w.size()) { c.fail("size", at + ": " + num(m.size()) + " instead of " + num(w.size())); return false; }
    for (size_t k = 0; k < pd().val.size(); k++) { auto it = w.find(pd().rep[k]); auto f = m.getMap().find(pd().val[k]); c.op();
        if ((f != m.getMap().end()) != (it != w.end())) { c.fail("point-known", at + ": point " + pname(k)); return false; }
        if (it == w.end()) continue;
        const NeighboursByPoint& g = m.get(pd().val[k]); auto g2 = m.get(pd().val[k]).getNeighbours(), g3 = f->second.getNeighbours(); c.op(2);
        if (g.getNeighbours() != it->second || g2 != it->second || g3 != it->second) { std::string s; for (int x : g2) s += " " + num(x); c.fail("point-neighbours", at + ": point " + pname(k) + " lists" + s); return false; } }
    if (m.size() != (int)w.size()) { c.fail("lookup-inserts", at); return false; }
    return true;
}
static std::string popName(int o) {
    int K = pd().val.size(); if (o < 3 * K) return "insert " + pname(o % K) + " element " + num(o / K * 4);
    o -= 3 * K; if (o < 2 * K) return "insert " + pname(o % K) + (o / K ? " with elements 5 3 5" : " with no element");
    o -= 2 * K; if (o < K) return "add to " + pname(o) + " through get"; o -= K; return o == 0 ? "go on with a copy" : "assign over a used map";
}
static const int NPO = 6 * 5 + 2;
static void runP(const std::vector<int>& ops, Case& c) {
    int K = pd().val.size(); PointMap* m = new PointMap(); PModel w; std::string at;
    if (check(*m, w, c, "empty")) for (int o : ops) {
        at += (at.empty() ? "" : "; ") + popName(o); int q = o;
        if (q < 3 * K) { m->insert(pd().val[q % K], q / K * 4); w[pd().rep[q % K]].push_back(q / K * 4); c.op(); }
        else if ((q -= 3 * K) < 2 * K) { Point p = pd().val[q % K]; std::vector<int> l; if (q / K) l = {5, 3, 5}; m->insert(p, l); auto& t = w[pd().rep[q % K]]; t.insert(t.end(), l.begin(), l.end()); c.op(); }
        else if ((q -= 2 * K) < K) { auto it = w.find(pd().rep[q]); if (it != w.end()) { NeighboursByPoint& n = m->get(pd().val[q]); n.add(8); n.insert({2, 2}); n.getNeighbours().push_back(1); for (int x : {8, 2, 2, 1}) it->second.push_back(x); c.op(4); } }
        else if (q == K) { auto* n = new PointMap(*m); m->insert(Point(70, 70), 3); m->insert(pd().val[0], 31); delete m; m = n; c.op(3); }
        else { PointMap n; n.insert(pd().val[0], 77); n.insert(Point(9, 9), 5); n = *m; *m = PointMap(); *m = n; c.op(5); }
        if (!check(*m, w, c, at)) break;
        uint64_t h = 2; for (auto& x : w) { h = mc::mix(h, x.first + 100); for (int y : x.second) h = mc::mix(h, y); } c.state(h);
    }
    delete m;
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one sequence of operations on one map, compared with the model after every one; every one is non-trivial";
        bool th = e.thorough();
        auto dec = [](uint64_t i, int A, int depth) { Dec x(i); std::vector<int> o; for (int k = 0; k < depth; k++) o.push_back(x.take(A)); return o; };
        for (auto cfg : {std::make_pair(4, th ? 5 : 4), std::make_pair(2, th ? 6 : 5), std::make_pair(6, th ? 4 : 3)}) {
            int NS = cfg.first, D = cfg.second, A = NS * 9 + 2; uint64_t n = 1; for (int k = 0; k < D; k++) n *= A;
            e.add("sequences on a segment map, " + num(NS) + " segments", n, std::max<uint64_t>(200, n / 300), [=](uint64_t i, Case& c) { runS(dec(i, A, D), NS, c); },
                  [=](uint64_t i) { std::string s; for (int o : dec(i, A, D)) s += (s.empty() ? "" : "; ") + sopName(o, NS); return s; });
        }
        {   int D = th ? 5 : 4; uint64_t n = 1; for (int k = 0; k < D; k++) n *= NPO;
            e.add("sequences on a point map", n, std::max<uint64_t>(200, n / 300), [=](uint64_t i, Case& c) { runP(dec(i, NPO, D), c); },
                  [=](uint64_t i) { std::string s; for (int o : dec(i, NPO, D)) s += (s.empty() ? "" : "; ") + popName(o); return s; }); }
        {   // all records of a complete graph: every insertion order of its edges (as the meshing code fills the map)
            int E = 9; uint64_t tot = 1; for (int k = 2; k <= E; k++) tot *= k;
            auto perm = [=](uint64_t i) { std::vector<int> pool, o; for (int k = 0; k < E; k++) pool.push_back(k); Dec d(i); for (int k = E; k > 0; k--) { int t = d.take(k); o.push_back(pool[t]); pool.erase(pool.begin() + t); } return o; };
            static const PI ed[] = {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 2}, {1, 3}, {1, 4}, {2, 3}, {2, 4}};
            e.add("insertion orders on a segment map", tot, 2000, [=](uint64_t i, Case& c) {
                SegmentMap m; auto o = perm(i); for (int r = 0; r < 2; r++) for (int k : o) { m.insert(r ? IndexSegment(ed[k].second, ed[k].first) : IndexSegment(ed[k].first, ed[k].second), r ? 100 + k : k); c.op(); }
                if (m.size() != E) { c.fail("size", num(m.size())); return; }
                for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) { int w = -1; for (int k = 0; k < E; k++) if ((ed[k].first == a && ed[k].second == b) || (ed[k].first == b && ed[k].second == a)) w = k; c.op();
                    if (m.containsSegment(IndexSegment(a, b)) != (w >= 0)) { c.fail("containsSegment", num(a) + "-" + num(b)); return; }
                    if (w >= 0 && !same(m.get(IndexSegment(a, b)), {w, 100 + w})) { c.fail("segment-neighbours", num(a) + "-" + num(b)); return; } }
                c.state(mc::mix(3, i));
            }, [=](uint64_t i) { std::string s = "order"; for (int k : perm(i)) s += " " + num(k); return s; }); }
        {   // large maps: how many segments x which graph x order of insertion
            static const int LEN[] = {10, 17, 33, 64, 65, 100, 129, 257, 500, 1025, 2500, 5000, 70000};
            static const char* gn[] = {"a path", "a star", "a complete graph", "a grid", "a path of large indexes", "pairs 65536 apart"}; static const char* on[] = {"in order", "backwards", "shuffled"};
            auto edge = [](int g, int n, int k) -> PI { switch (g) { case 0: return {k, k + 1}; case 1: return {n / 2, k < n / 2 ? k : k + 1};
                case 2: { int b = (int)((1 + std::sqrt(1 + 8.0 * k)) / 2); while (b * (b - 1) / 2 > k) b--; while ((b + 1) * b / 2 <= k) b++; return {b, k - b * (b - 1) / 2}; }
                case 3: { int w = std::max(2, (int)std::sqrt(n / 2.0)), v = k / 2; return k % 2 ? PI{v, v + w} : PI{v, v + 1}; }
                case 4: return {1000000 + 3 * k, 1000003 + 3 * k}; default: return {k, k + 65536}; } };
            int nl = 13; auto text = [=](uint64_t i) { Dec d(i); int g = d.take(6), o = d.take(3), rev = d.take(2), n = LEN[d.take(nl)]; return num(n) + " segments of " + gn[g] + " " + on[o] + (rev ? ", turned" : ""); };
            e.add("large segment maps", 6 * 3 * 2 * nl, 3, [=](uint64_t i, Case& c) {
                Dec d(i); int g = d.take(6), o = d.take(3), rev = d.take(2), n = LEN[d.take(nl)]; std::string t = text(i); int st = 1; if (o == 2) for (st = n * 5 / 8; std::__gcd(st, n) != 1;) st++;
                SegmentMap m; std::map<PI, int> have;
                for (int r = 0; r < 2; r++) for (int k = 0; k < n; k++) { int e = o == 0 ? k : o == 1 ? n - 1 - k : (int)((long long)k * st % n); PI p = edge(g, n, e); if (p.first > p.second) std::swap(p.first, p.second); bool tw = (e + r + rev) % 2; if (r == 1 && e % 3 == 0) continue; c.op(); have[p] = e;
                    m.insert(tw ? IndexSegment(p.second, p.first) : IndexSegment(p.first, p.second), r ? 200000 + e : e);
                    if (r == 0 && (k < 40 || k % 97 == 0) && (m.size() != k + 1 || m.get(IndexSegment(p.second, p.first)).getFirst() != e)) { c.fail("size", t + " after " + num(k + 1)); return; } }
                if (m.size() != n || (int)m.getMap().size() != n) { c.fail("size", t + ": " + num(m.size())); return; }
                SegmentMap cp(m); m.insert(IndexSegment(-7, -8), 1); auto mm = cp.getMap(); if ((int)mm.size() != n) { c.fail("copy", t); return; }
                for (auto& x : have) for (int dir = 0; dir < 2; dir++) { int e = x.second, f = e % 3 ? 200000 + e : -1; IndexSegment s = dir ? IndexSegment(x.first.second, x.first.first) : IndexSegment(x.first.first, x.first.second); c.op(3);
                    if (!m.containsSegment(s) || !cp.containsSegment(s)) { c.fail("containsSegment", t + ": " + s.getString()); return; }
                    auto it = mm.find(s); if (!same(m.get(s), {e, f}) || !same(cp.get(s), {e, f}) || it == mm.end() || !same(it->second, {e, f})) { c.fail("segment-neighbours", t + ": " + s.getString() + " lists " + m.get(s).getString()); return; } }
                for (auto& x : have) for (PI a : {PI{x.first.first, x.first.first}, PI{x.first.first, x.first.second + 65536}, PI{x.first.first + 1, x.first.second + 1}, PI{x.first.first, x.first.second + 2}, PI{x.first.second, x.first.first + 256}}) { if (a.first > a.second) std::swap(a.first, a.second); if (have.count(a)) continue; c.op(); if (m.containsSegment(IndexSegment(a.second, a.first))) { c.fail("containsSegment", t + ": " + num(a.first) + "-" + num(a.second) + " was never inserted"); return; } }
                if (m.size() != n + 1) { c.fail("lookup-inserts", t); return; }
                c.state(mc::mix(5, i));
            }, text);
            auto ptext = [=](uint64_t i) { Dec d(i); int g = d.take(4), o = d.take(3), n = LEN[d.take(nl)]; static const char* pn[] = {"in a row", "in a column", "on a grid", "little more than the tolerance apart"}; return num(n) + " points " + pn[g] + " " + on[o]; };
            e.add("large point maps", 4 * 3 * nl, 3, [=](uint64_t i, Case& c) {
                Dec d(i); int g = d.take(4), o = d.take(3), n = LEN[d.take(nl)]; std::string t = ptext(i); int st = 1; if (o == 2) for (st = n * 5 / 8; std::__gcd(st, n) != 1;) st++;
                auto pt = [&](int k) { int w = std::max(2, (int)std::sqrt((double)n)); return g == 0 ? Point(k * 0.25, 3) : g == 1 ? Point(-2, 100 - k * 0.25) : g == 2 ? Point(k % w, k / w - 20) : Point(3e-5 * (k % w), 1 + 3e-5 * (k / w)); };
                PointMap m; std::vector<std::vector<int>> w(n);
                for (int r = 0; r < 3; r++) for (int k = 0; k < n; k++) { int e = o == 0 ? k : o == 1 ? n - 1 - k : (int)((long long)k * st % n); if (r && e % (r + 1)) continue; c.op(); Point p = pt(e); if (r == 1) { std::vector<int> two{e + 5, 7}; m.insert(p, two); w[e].push_back(e + 5); w[e].push_back(7); } else { m.insert(p, r * 1000 + e); w[e].push_back(r * 1000 + e); } if (r == 0 && (k < 40 || k % 97 == 0) && m.size() != k + 1) { c.fail("size", t + " after " + num(k + 1)); return; } }
                PointMap cp(m); m.insert(Point(-1e4, 5), 1); if (cp.size() != n || m.size() != n + 1) { c.fail("size", t + ": " + num(cp.size())); return; }
                if (o == 2) { for (int k = 0; k < 100; k++) m.get(pt(n / 2)).add(k), w[n / 2].push_back(k); }
                for (int k = 0; k < n; k++) { auto it = m.getMap().find(pt(k)); c.op(2); if (it == m.getMap().end()) { c.fail("point-known", t + ": point " + num(k)); return; } if (it->second.getNeighbours() != w[k] || m.get(pt(k)).getNeighbours() != w[k]) { c.fail("point-neighbours", t + ": point " + num(k)); return; } if (!(o == 2 && k == n / 2) && cp.get(pt(k)).getNeighbours() != w[k]) { c.fail("point-neighbours", t + ": point " + num(k) + " of the copy"); return; } }
                if (m.size() != n + 1) { c.fail("lookup-inserts", t); return; }
                c.state(mc::mix(6, i));
            }, ptext);
        }
        {   // the records themselves
            static const int VV[] = {-1, 0, 1, 5, 1 << 30};
            e.add("neighbour records", 625, 50, [=](uint64_t i, Case& c) {
                Dec d(i); int a = VV[d.take(5)], b = VV[d.take(5)], x = VV[d.take(5)], y = VV[d.take(5)]; std::string t = num(a) + " " + num(b) + " and " + num(x) + " " + num(y);
                NeighboursBySegment n(a, b), p(Pair<int>(a, b)), z, one(a), q(x, y); c.op(5);
                if (n.getFirst() != a || n.getSecond() != b || p.getFirst() != a || p.getSecond() != b || z.getFirst() != -1 || z.getSecond() != -1 || one.getFirst() != a || one.getSecond() != -1) { c.fail("record", t); return; }
                bool eq = (a == x && b == y) || (a == y && b == x); if ((n == q) != eq || (q == n) != eq || !(n == p)) { c.fail("record-equality", t); return; }
                if (n.getString() != num(a) + " " + num(b)) { c.fail("record-string", n.getString()); return; }
                one.setNeighbour(b); if (!(one == n)) { c.fail("record-neighbour", t); return; }
                n.setFirst(x); if (n.getFirst() != x || n.getSecond() != b) { c.fail("record-set", t); return; } n.setSecond(y); if (n.getFirst() != x || n.getSecond() != y) { c.fail("record-set", t); return; } c.op(6);
                if (NeighboursHasher()(NeighboursBySegment(a, b)) != NeighboursHasher()(NeighboursBySegment(b, a))) { c.fail("record-hash", t); return; }
                EdgeData e1(a, b), e2(x, y); if (e1.t1 != -1 || e1.t2 != -1 || e1.p1 != a || e1.p2 != b || (e1 == e2) != eq || e1.getString() != num(a) + " " + num(b)) { c.fail("edge", t); return; }
                if (x >= 0 && y >= 0) { e1.setTriangle(x); if (e1.t1 != x || e1.t2 != -1) { c.fail("edge-triangles", t); return; } e1.setTriangle(y); if (e1.t1 != x || e1.t2 != y) { c.fail("edge-triangles", t); return; } c.op(2); }
                Key k1(a, b), k2(x, y); if ((k1 == k2) != eq || (eq && KeyHasher()(k1) != KeyHasher()(k2))) { c.fail("key", t); return; }
                std::unordered_map<Key, int, KeyHasher> km; km[k1] = 1; km[k2] = 2; if (km.size() != (eq ? 1u : 2u) || km[Key(b, a)] != (eq ? 2 : 1)) { c.fail("key-map", t); return; }
                NeighboursByPoint np, n1(a), nl(std::vector<int>{a, b}); np.add(a); np.insert({b, x}); nl.add(y);
                if (np.getNeighbours() != std::vector<int>{a, b, x} || n1.getNeighbours() != std::vector<int>{a} || nl.getNeighbours() != std::vector<int>{a, b, y}) { c.fail("point-record", t); return; } c.op(8);
                c.state(mc::mix(4, i));
            }, [=](uint64_t i) { Dec d(i); std::string s; for (int k = 0; k < 4; k++) s += " " + num(VV[d.take(5)]); return "values" + s; });
        }
    });
}
