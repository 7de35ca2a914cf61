// S01: every operation sequence on a UniqueList against a plain vector model, compared after every operation.
#include "common.hpp"
#include <utilities/UniqueList.h>

// values are numbered 0..K-1; rep[k] is the number of the first value that counts as the same as value k
template <class T> struct Dom { std::vector<T> val; std::vector<int> rep; std::vector<std::string> name; };

template <class T> struct Model {       // contents as value numbers (the one stored first)
    std::vector<int> l; const Dom<T>* d;
    int find(int k) const { for (size_t i = 0; i < l.size(); i++) if (d->rep[l[i]] == d->rep[k]) return i; return -1; }
    int push(int k) { int f = find(k); if (f >= 0) return f; l.push_back(k); return (int)l.size() - 1; }
    void erase(int k) { int f = find(k); if (f >= 0) l.erase(l.begin() + f); }
};
static bool same(int a, int b) { return a == b; }
static bool same(const Point& a, const Point& b) { return a.getX() == b.getX() && a.getY() == b.getY(); }

template <class T> static bool check(UniqueList<T>& u, const Model<T>& m, Case& c, const std::string& at) {
    const Dom<T>& d = *m.d; c.op(3);
    if (u.size() != (int)m.l.size()) { c.fail("size", at + ": " + num(u.size()) + " instead of " + num(m.l.size())); return false; }
    const UniqueList<T>& cu = u; std::vector<T> a = cu.getList(), b = u.getList();
    for (size_t i = 0; i < m.l.size(); i++) { c.op(); if (!same(a[i], d.val[m.l[i]]) || !same(b[i], a[i]) || !same(u[i], a[i])) { c.fail("contents", at + ": element " + num(i)); return false; } }
    for (size_t k = 0; k < d.val.size(); k++) { c.op(2); int f = m.find(k);
        if (u.contains(d.val[k]) != (f >= 0)) { c.fail("contains", at + ": value " + d.name[k]); return false; }
        if (u.indexOf(d.val[k]) != f) { c.fail("indexOf", at + ": value " + d.name[k] + " at " + num(u.indexOf(d.val[k])) + " instead of " + num(f)); return false; } }
    return true;
}
// operations: 0..K-1 push value k; K..2K-1 delete; then: pop_front, clear, copy, assign, push_list(vector), push_list(UniqueList), push again by force
enum { POP, CLEAR, COPY, ASSIGN, PLIST, PUNIQ, SWAPCOPY, EXTRA };
template <class T> static std::string opName(const Dom<T>& d, int o) {
    int K = d.val.size(); static const char* n[] = {"pop_front", "clear", "go on with a copy", "assign to a used list and go on", "push the list of all values twice", "push a unique list of two values", "change a copy"};
    return o < K ? "push " + d.name[o] : o < 2 * K ? "delete " + d.name[o - K] : n[o - 2 * K];
}
template <class T> static void run(const Dom<T>& d, const std::vector<int>& ops, Case& c) {
    int K = d.val.size(); UniqueList<T>* u = new UniqueList<T>(); Model<T> m; m.d = &d; std::string at;
    if (check(*u, m, c, "empty")) for (int o : ops) {
        at += (at.empty() ? "" : "; ") + opName(d, o);
        if (o < K) { T x = d.val[o]; int g = u->push_back(x), w = m.push(o); c.op(); if (g != w) { c.fail("push-index", at + ": returned " + num(g) + " instead of " + num(w)); break; } }
        else if (o < 2 * K) { u->delete_element(d.val[o - K]); m.erase(o - K); c.op(); }
        else switch (o - 2 * K) {
            case POP: if (!m.l.empty()) { u->pop_front(); m.l.erase(m.l.begin()); c.op(); } break;
            case CLEAR: u->clear(); m.l.clear(); c.op(); break;
            case COPY: { auto* n = new UniqueList<T>(*u); if (!(*n == *u)) c.fail("equality", at); delete u; u = n; c.op(2); break; }
            case ASSIGN: { UniqueList<T> n; T x = d.val[K - 1]; n.push_back(x); n = *u; UniqueList<T>* w = new UniqueList<T>(); *w = n; delete u; u = w; c.op(3); break; }
            case PLIST: { std::vector<T> l = d.val; l.insert(l.end(), d.val.begin(), d.val.end()); auto g = u->push_list(l); std::vector<int> w; for (int r = 0; r < 2; r++) for (int k = 0; k < K; k++) w.push_back(m.push(k)); c.op(); if (g != w) c.fail("push-list", at); break; }
            case PUNIQ: { UniqueList<T> l; T x = d.val[K - 1], y = d.val[0]; Model<T> lm; lm.d = &d; l.push_back(x); lm.push(K - 1); l.push_back(y); lm.push(0); auto g = u->push_list(l); std::vector<int> w; for (int k : lm.l) w.push_back(m.push(k)); c.op(3); if (g != w) c.fail("push-list", at); if (!check(l, lm, c, at + " (argument)")) break; break; }
            case SWAPCOPY: { UniqueList<T> n(*u); T x = d.val[1], y = d.val[2]; Model<T> nm = m; nm.push(1); n.push_back(x); nm.erase(2); n.delete_element(y); c.op(3);
                if (!check(n, nm, c, at + " (copy)")) break; bool eq = nm.l.size() == m.l.size(); for (size_t i = 0; eq && i < m.l.size(); i++) eq = d.rep[nm.l[i]] == d.rep[m.l[i]];
                if ((n == *u) != eq || (*u == n) != eq) { c.fail("equality", at); break; }
                bool com = false; for (int k : nm.l) com = com || m.find(k) >= 0; if (u->hasCommonElement(n) != com || n.hasCommonElement(*u) != com) { c.fail("hasCommonElement", at); break; }
                UniqueList<T> single; for (int k = 0; k < K; k++) { single.clear(); T z = d.val[k]; single.push_back(z); if (u->hasCommonElement(single) != (m.find(k) >= 0)) { c.fail("hasCommonElement", at + " value " + d.name[k]); break; } c.op(3); }
                break; }
        }
        if (c.failed() || !check(*u, m, c, at)) break;
        uint64_t h = 1; for (int k : m.l) h = mc::mix(h, k); c.state(h);
    }
    delete u;
}
// forced pushes: the element is appended in any case; lookups keep answering with the first one
template <class T> static void runForced(const Dom<T>& d, const std::vector<int>& ops, Case& c) {
    int K = d.val.size(); UniqueList<T> u; Model<T> m; m.d = &d; std::string at;
    for (int o : ops) {
        T x = d.val[o % K];
        if (o < K) { at += "; force " + d.name[o]; m.l.push_back(o); int g = u.force_push_back(x); if (g != (int)m.l.size() - 1) { c.fail("push-index", at); return; } }
        else if (o < 2 * K) { at += "; push " + d.name[o - K]; int g = u.push_back(x), w = m.push(o - K); if (g != w) { c.fail("push-index", at + ": returned " + num(g) + " instead of " + num(w)); return; } }
        else if (o < 3 * K) { at += "; delete " + d.name[o - 2 * K]; u.delete_element(x); m.erase(o - 2 * K); }
        else if (!m.l.empty()) { at += "; pop_front"; u.pop_front(); m.l.erase(m.l.begin()); }
        c.op(); if (!check(u, m, c, at)) return;
        {   // pushed into another list, empty or not, each value arrives once
            for (int r = 0; r < 3; r++) { UniqueList<T> t; Model<T> tm; tm.d = &d; if (r == 1) { T z = d.val[0]; t.push_back(z); tm.push(0); } if (r == 2) { T z = d.val[K - 1]; t.push_back(z); t.delete_element(z); }
                auto g = t.push_list(u); std::vector<int> w; for (int k : m.l) w.push_back(tm.push(k)); c.op(2); if (g != w) { c.fail("push-list", at + ": pushed into another list"); return; } if (!check(t, tm, c, at + " (pushed into another list)") || !check(u, m, c, at + " (after it was pushed into another list)")) return; } }
        uint64_t h = 2; for (int k : m.l) h = mc::mix(h, k); c.state(h);
    }
}
template <class T> static void spaces(Explorer& e, const std::string& what, const Dom<T>& dom, int depth, int fdepth) {
    auto d = std::make_shared<Dom<T>>(dom); int K = d->val.size(), A = 2 * K + EXTRA - 0, F = 3 * K + 1;
    uint64_t n = 1; for (int k = 0; k < depth; k++) n *= A;
    uint64_t f = 1; for (int k = 0; k < fdepth; k++) f *= F;
    auto dec = [](uint64_t i, int A, int depth) { Dec x(i); std::vector<int> o; for (int k = 0; k < depth; k++) o.push_back(x.take(A)); return o; };
    e.add("sequences on a list of " + what, n, std::max<uint64_t>(500, n / 400), [=](uint64_t i, Case& c) { run<T>(*d, dec(i, A, depth), c); },
          [=](uint64_t i) { std::string s; for (int o : dec(i, A, depth)) s += (s.empty() ? "" : "; ") + opName(*d, o); return s; });
    e.add("sequences with forced pushes on a list of " + what, f, std::max<uint64_t>(500, f / 400), [=](uint64_t i, Case& c) { runForced<T>(*d, dec(i, F, fdepth), c); },
          [=](uint64_t i) { std::string s; for (int o : dec(i, F, fdepth)) s += (s.empty() ? "" : "; ") + (o < K ? "force " + d->name[o] : o < 2 * K ? "push " + d->name[o - K] : o < 3 * K ? "delete " + d->name[o - 2 * K] : std::string("pop_front")); return s; });
}
int main(int argc, char** argv) {
    return mc::main_(argc, argv, [](Explorer& e) {
        e.rule = "one execution = one sequence of operations, compared with the model after every one; every one is non-trivial";
        bool th = e.thorough();
        Dom<int> a{{5, -1, 8}, {0, 1, 2}, {"5", "-1", "8"}}; spaces<int>(e, "three integers", a, th ? 7 : 6, th ? 7 : 6);
        Dom<int> b{{3, 1, 4, 2, 9}, {0, 1, 2, 3, 4}, {"3", "1", "4", "2", "9"}}; spaces<int>(e, "five integers", b, th ? 5 : 4, th ? 6 : 4);
        // the second is the first within the tolerance (1e-5), the others share one coordinate with the first
        Dom<Point> p{{Point(1, 2), Point(1 + 4e-6, 2 - 4e-6), Point(1, 7), Point(-3, 2)}, {0, 0, 2, 3}, {"(1,2)", "(1,2)+", "(1,7)", "(-3,2)"}}; spaces<Point>(e, "points", p, th ? 7 : 5, th ? 7 : 5);
        Dom<Point> q{{Point(0, 0), Point(0, 2e-5), Point(-4e-6, 3e-6), Point(2e-5, 1)}, {0, 1, 0, 3}, {"(0,0)", "(0,2e-5)", "(0,0)-", "(2e-5,1)"}}; spaces<Point>(e, "points a little more than the tolerance apart", q, th ? 6 : 5, th ? 6 : 5);
        // long lists: every length of the list x order of insertion x what is done then
        static const int LEN[] = {9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, 500, 1000, 1025, 2500, 5000};
        int nl = th ? 18 : 17;
        auto longText = [=](uint64_t i) { Dec x(i); int ty = x.take(2), o = x.take(5), w = x.take(8), n = LEN[x.take(nl)]; static const char* on[] = {"ascending", "descending", "from both ends", "shuffled", "shuffled with every value twice"}; static const char* wn[] = {"nothing", "delete every third from the front", "delete every third from the back", "pop the first half", "copy and change the copy", "assign over a list as long", "push into another list", "clear and fill again"}; return num(n) + (ty ? " points " : " integers ") + on[o] + ", then " + wn[w]; };
        auto longRun = [](auto make, int n, int o, int w, Case& c, const std::string& t) {
            typedef decltype(make(0)) T; Dom<T> d; Model<T> m; m.d = &d; UniqueList<T> u; std::vector<int> ord;
            for (int k = 0; k < n; k++) { d.val.push_back(make(k)); d.rep.push_back(k); d.name.push_back(num(k)); }
            int st = 1; if (o >= 3) for (st = n * 5 / 8; std::__gcd(st, n) != 1;) st++;
            for (int k = 0; k < n; k++) { int v = o == 0 ? k : o == 1 ? n - 1 - k : o == 2 ? (k % 2 ? n - 1 - k / 2 : k / 2) : (int)((long long)k * st % n); ord.push_back(v); if (o == 4 && k % 7 == 3) ord.push_back(ord[k / 2]); }
            if (o == 4) { auto c2 = ord; ord.insert(ord.end(), c2.begin(), c2.end()); }
            std::vector<int> at(n, -1);
            auto push = [&](UniqueList<T>& l, std::vector<int>& pos, int& len, int v) { T x = d.val[v]; int g = l.push_back(x), want = pos[v] >= 0 ? pos[v] : (pos[v] = len++); c.op(); if (g != want) { c.fail("push-index", t + ": value " + num(v) + " returned " + num(g) + " instead of " + num(want)); return false; } return true; };
            auto model = [&](const std::vector<int>& pos, int len) { m.l.assign(len, 0); for (int k = 0; k < n; k++) if (pos[k] >= 0) m.l[pos[k]] = k; };
            auto same_ = [&](UniqueList<T>& l, const std::vector<int>& l2, const std::string& what) {
                c.op(3); if (l.size() != (int)l2.size()) { c.fail("size", t + what + ": " + num(l.size()) + " instead of " + num(l2.size())); return false; }
                std::vector<int> pos(n, -1); for (size_t k = 0; k < l2.size(); k++) pos[l2[k]] = k; auto v = l.getList(); const UniqueList<T>& cl = l; auto v2 = cl.getList();
                for (size_t k = 0; k < l2.size(); k++) if (!same(v[k], d.val[l2[k]]) || !same(v2[k], v[k]) || !same(l[k], v[k])) { c.fail("contents", t + what + ": element " + num(k)); return false; }
                for (int k = 0; k < n; k++) { c.op(2); if (l.contains(d.val[k]) != (pos[k] >= 0)) { c.fail("contains", t + what + ": value " + num(k)); return false; } if (l.indexOf(d.val[k]) != pos[k]) { c.fail("indexOf", t + what + ": value " + num(k) + " at " + num(l.indexOf(d.val[k])) + " instead of " + num(pos[k])); return false; } }
                T none = make(n + 5); if (l.contains(none) || l.indexOf(none) != -1) { c.fail("contains", t + what + ": a value never put in"); return false; }
                return true; };
            int len = 0; for (int v : ord) if (!push(u, at, len, v)) return; model(at, len); if (!same_(u, m.l, "")) return;
            auto after = m.l;
            if (w == 1 || w == 2) { int q = 0; for (int k = 0; k < n; k += 3) { int v = after[w == 1 ? k - q : (int)(after.size()) - 1 - k + q]; u.delete_element(d.val[v]); after.erase(std::find(after.begin(), after.end(), v)); q++; c.op(); if (n < 70 && !same_(u, after, " after " + num(q) + " deletions")) return; } }
            if (w == 3) for (int k = 0; k < n / 2; k++) { u.pop_front(); after.erase(after.begin()); c.op(); }
            if (w == 4) { UniqueList<T> x(u); if (!(x == u) || !(u == x)) { c.fail("equality", t); return; } x.delete_element(d.val[after.back()]); if (x == u || u == x) { c.fail("equality", t + ": after a deletion"); return; } T z = make(n + 9); x.push_back(z); if (x == u || u == x || !u.hasCommonElement(x)) { c.fail("equality", t + ": after a replacement"); return; } c.op(5); }
            if (w == 5) { UniqueList<T> x; for (int k = 0; k < n; k++) { T z = make(3 * n + k); x.push_back(z); } if (x.hasCommonElement(u)) { c.fail("hasCommonElement", t); return; } x = u; if (!same_(x, after, " assigned")) return; c.op(n); }
            if (w == 6) { UniqueList<T> x; std::vector<int> pos(n, -1), want; int l2 = 0; for (int k = n - 1; k >= 0; k -= 4) if (!push(x, pos, l2, k)) return; for (int k : after) { if (pos[k] < 0) pos[k] = l2++; want.push_back(pos[k]); } auto g = x.push_list(u); c.op(); if (g != want) { c.fail("push-list", t); return; } model(pos, l2); if (!same_(x, m.l, " pushed into another list")) return;
                auto raw = u.getList(); g = x.push_list(raw); if (g != want || !same_(x, m.l, " pushed again")) { c.fail("push-list", t + ": again"); return; } }
            if (w == 7) { u.clear(); if (!same_(u, {}, " cleared")) return; std::vector<int> pos(n, -1); int l2 = 0; for (int k = n - 1; k >= 0; k -= 2) if (!push(u, pos, l2, k)) return; model(pos, l2); after = m.l; }
            if (!same_(u, after, " at the end")) return;
            uint64_t h = 5; for (int k : after) h = mc::mix(h, k); c.state(h);
        };
        e.add("long lists", 2 * 5 * 8 * nl, 5, [=](uint64_t i, Case& c) { Dec x(i); int ty = x.take(2), o = x.take(5), w = x.take(8), n = LEN[x.take(nl)]; std::string t = longText(i);
            if (ty) longRun([](int k) { return Point(k % 37 * 0.5, k / 37 - 20); }, n, o, w, c, t); else longRun([](int k) { return k * 7 - 50; }, n, o, w, c, t); }, longText);
        // long insertions: all permutations of 8 (7) values, every index stable
        int n = th ? 9 : 8; uint64_t tot = 1; for (int k = 2; k <= n; k++) tot *= k;
        auto perm = [=](uint64_t i) { std::vector<int> pool, o; for (int k = 0; k < n; k++) pool.push_back(k); Dec d(i); for (int k = n; k > 0; k--) { int t = d.take(k); o.push_back(pool[t]); pool.erase(pool.begin() + t); } return o; };
        e.add("insertion orders", tot, 2000, [=](uint64_t i, Case& c) {
            auto o = perm(i); Dom<Point> d; for (int k = 0; k < n; k++) { d.val.push_back(Point(k / 3, k % 3)); d.rep.push_back(k); d.name.push_back(num(k)); }
            UniqueList<Point> u; Model<Point> m; m.d = &d; for (int r = 0; r < 2; r++) for (int k : o) { Point x = d.val[k]; if (u.push_back(x) != m.push(k)) { c.fail("push-index", "value " + num(k)); return; } c.op(); }
            if (!check(u, m, c, "all")) return; int k = o[n / 2]; u.delete_element(d.val[k]); m.erase(k); if (!check(u, m, c, "after deleting " + num(k))) return;
            uint64_t h = 3; for (int k : m.l) h = mc::mix(h, k); c.state(h);
        }, [=](uint64_t i) { std::string s = "order"; for (int k : perm(i)) s += " " + num(k); return s; });
    });
}
