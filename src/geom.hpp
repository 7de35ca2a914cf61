// Geometry oracles. Nothing here uses the code under test.
#pragma once
#include "mc.hpp"

namespace g {

struct V { double x, y; };
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y}; }
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y}; }
inline V operator*(double k, V a) { return {k * a.x, k * a.y}; }
inline bool operator<(const V& a, const V& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
inline bool operator==(const V& a, const V& b) { return a.x == b.x && a.y == b.y; }
inline double cross(V a, V b) { return a.x * b.y - a.y * b.x; }
inline double dot(V a, V b) { return a.x * b.x + a.y * b.y; }
inline double orient(V a, V b, V c) { return cross(b - a, c - a); }
inline double dist(V a, V b) { return std::hypot(a.x - b.x, a.y - b.y); }
inline V mid(V a, V b) { return {(a.x + b.x) / 2, (a.y + b.y) / 2}; }
typedef std::vector<V> Poly;

inline std::string str(V v) { char b[64]; snprintf(b, 64, "(%.10g,%.10g)", v.x, v.y); return b; }
inline std::string str(const Poly& p) { std::string s = "["; for (auto& v : p) s += str(v); return s + "]"; }

inline double sarea(const Poly& p) {     // relative to the first vertex, so that far-away polygons keep their digits
    double s = 0;
    for (size_t i = 0; i < p.size(); i++) s += cross(p[i] - p[0], p[(i + 1) % p.size()] - p[0]);
    return s / 2;
}
inline V centroid(const Poly& p) {
    double a = 0, x = 0, y = 0;
    for (size_t i = 0; i < p.size(); i++) {
        V u = p[i] - p[0], v = p[(i + 1) % p.size()] - p[0]; double c = cross(u, v);
        a += c; x += (u.x + v.x) * c; y += (u.y + v.y) * c;
    }
    return {p[0].x + x / (3 * a), p[0].y + y / (3 * a)};
}
inline double segDist(V p, V a, V b) {
    V d = b - a; double l = dot(d, d);
    double t = l == 0 ? 0 : dot(p - a, d) / l; t = std::max(0.0, std::min(1.0, t));
    return dist(p, a + t * d);
}
inline double bndDist(const Poly& q, V p) {
    double m = 1e300;
    for (size_t i = 0; i < q.size(); i++) m = std::min(m, segDist(p, q[i], q[(i + 1) % q.size()]));
    return m;
}
// Crossing parity, only called away from the boundary.
inline bool insideRaw(const Poly& q, V p) {
    bool in = false;
    for (size_t i = 0, j = q.size() - 1; i < q.size(); j = i++)
        if ((q[i].y > p.y) != (q[j].y > p.y)) {
            double o = orient(q[i], q[j], p);
            if ((q[j].y > q[i].y) ? o > 0 : o < 0) in = !in;
        }
    return in;
}
// +1 inside, 0 within eps of the boundary, -1 outside
inline int where(const Poly& q, V p, double eps) { if (bndDist(q, p) <= eps) return 0; return insideRaw(q, p) ? 1 : -1; }

inline int sgn(double x, double eps = 0) { return x > eps ? 1 : x < -eps ? -1 : 0; }
inline bool properCross(V a, V b, V c, V d, double eps) {
    return sgn(orient(a, b, c), eps) * sgn(orient(a, b, d), eps) < 0 && sgn(orient(c, d, a), eps) * sgn(orient(c, d, b), eps) < 0;
}
inline bool between(V a, V b, V p) { return std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
// closed segments share a point; exact for the lattice inputs it is used on
inline bool segTouch(V a, V b, V c, V d) {
    int o1 = sgn(orient(a, b, c)), o2 = sgn(orient(a, b, d)), o3 = sgn(orient(c, d, a)), o4 = sgn(orient(c, d, b));
    if (o1 * o2 < 0 && o3 * o4 < 0) return true;
    return (!o1 && between(a, b, c)) || (!o2 && between(a, b, d)) || (!o3 && between(c, d, a)) || (!o4 && between(c, d, b));
}
inline double segSegDist(V a, V b, V c, V d) {
    if (properCross(a, b, c, d, 0)) return 0;
    return std::min(std::min(segDist(a, c, d), segDist(b, c, d)), std::min(segDist(c, a, b), segDist(d, a, b)));
}
// Exact for lattice vertices: non-adjacent edges disjoint, adjacent ones share only their common vertex.
inline bool simpleExact(const Poly& p) {
    int n = p.size();
    if (n < 3) return false;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        if (p[i] == p[j]) return false;
        V a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n];
        if (j == i + 1 || (i == 0 && j == n - 1)) {
            V u = j == i + 1 ? a : c, v = j == i + 1 ? b : d, w = j == i + 1 ? d : b;  // u-v-w
            if (orient(u, v, w) == 0 && dot(u - v, w - v) > 0) return false;
        } else if (segTouch(a, b, c, d)) return false;
    }
    return true;
}
// Same, for computed coordinates: no proper crossing and no vertex closer than eps to a foreign edge is *required*;
// this only reports definite crossings.
inline bool definitelyCrosses(const Poly& p, double eps) {
    int n = p.size();
    for (int i = 0; i < n; i++) for (int j = i + 2; j < n; j++) {
        if (i == 0 && j == n - 1) continue;
        V a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n];
        double la = dist(a, b), lc = dist(c, d);
        if (la < eps || lc < eps) continue;
        double o1 = orient(a, b, c) / la, o2 = orient(a, b, d) / la, o3 = orient(c, d, a) / lc, o4 = orient(c, d, b) / lc;
        if (sgn(o1, eps) * sgn(o2, eps) < 0 && sgn(o3, eps) * sgn(o4, eps) < 0) return true;
    }
    return false;
}
inline bool convexCCW(const Poly& p) {
    int n = p.size();
    for (int i = 0; i < n; i++) if (orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) < 0) return false;
    return true;
}
// clip subject (simple polygon) with a convex CCW polygon; area of the result is exact up to rounding
inline double clipArea(const Poly& subject, const Poly& conv) {
    // area of (subject ∩ conv) by integrating over the triangles of a fan is wrong for non-convex subjects only in shape,
    // not in signed area: Sutherland-Hodgman keeps signed area.
    Poly out = subject;
    for (size_t e = 0; e < conv.size() && !out.empty(); e++) {
        V a = conv[e], b = conv[(e + 1) % conv.size()];
        Poly in; in.swap(out);
        for (size_t i = 0; i < in.size(); i++) {
            V p = in[i], q = in[(i + 1) % in.size()];
            double sp = orient(a, b, p), sq = orient(a, b, q);
            if (sp >= 0) out.push_back(p);
            if ((sp > 0 && sq < 0) || (sp < 0 && sq > 0)) out.push_back(p + (sp / (sp - sq)) * (q - p));
        }
    }
    return out.size() < 3 ? 0 : std::fabs(sarea(out));
}

// A domain: outer polygon minus holes (holes may cross the outer boundary but not each other).
struct Domain {
    Poly outer; std::vector<Poly> holes;
    double area() const {
        double a = std::fabs(sarea(outer));
        for (auto& h : holes) a -= holeArea(h);
        return a;
    }
    double holeArea(const Poly& h) const {
        bool inner = true;
        for (auto& v : h) if (where(outer, v, 1e-9) < 0) inner = false;
        if (inner) for (size_t i = 0; i < h.size(); i++) for (size_t j = 0; j < outer.size(); j++)
            if (properCross(h[i], h[(i + 1) % h.size()], outer[j], outer[(j + 1) % outer.size()], 1e-12)) inner = false;
        if (inner) return std::fabs(sarea(h));
        if (convexCCW(h)) return clipArea(outer, h);
        Poly r(outer); return clipArea(h, r);     // outer convex
    }
    double bnd(V p) const { double m = bndDist(outer, p); for (auto& h : holes) m = std::min(m, bndDist(h, p)); return m; }
    int where(V p, double eps) const {
        if (bnd(p) <= eps) {      // on some boundary: outside only if clearly outside the outer or inside a hole
            if (g::where(outer, p, eps) < 0) return -1;
            for (auto& h : holes) if (g::where(h, p, eps) > 0) return -1;
            return 0;
        }
        if (!insideRaw(outer, p)) return -1;
        for (auto& h : holes) if (insideRaw(h, p)) return -1;
        return 1;
    }
    static int where(const Poly& q, V p, double eps) { return g::where(q, p, eps); }
    void edges(std::vector<std::pair<V, V>>& e) const {
        for (size_t i = 0; i < outer.size(); i++) e.push_back({outer[i], outer[(i + 1) % outer.size()]});
        for (auto& h : holes) for (size_t i = 0; i < h.size(); i++) e.push_back({h[i], h[(i + 1) % h.size()]});
    }
    // the open segment a-b certainly stays inside the domain (doubtful cases answer false)
    bool sees(V a, V b, double eps) const {
        V p = a + 0.001 * (b - a), q = a + 0.999 * (b - a);
        if (where(mid(a, b), eps) <= 0) return false;
        for (int k = -1; k < (int)holes.size(); k++) {
            const Poly& r = k < 0 ? outer : holes[k];
            for (size_t i = 0; i < r.size(); i++) if (segSegDist(p, q, r[i], r[(i + 1) % r.size()]) <= eps) return false;
        }
        return true;
    }
};

// All simple polygons with k vertices, mink<=k<=maxk, on the n x m integer lattice, counterclockwise, starting at their
// smallest vertex (each polygon once). collinear: also those with straight (180 degree) vertices.
inline std::vector<Poly> latticePolys(int n, int m, int mink, int maxk, bool collinear) {
    std::vector<Poly> out; Poly cur;
    std::vector<V> pts; for (int x = 0; x < n; x++) for (int y = 0; y < m; y++) pts.push_back({(double)x, (double)y});
    std::function<void()> rec = [&]() {
        int k = cur.size();
        if (k >= mink && k >= 3) {
            // close it
            if (simpleExact(cur) && sarea(cur) > 0) {
                bool ok = true;
                if (!collinear) for (int i = 0; i < k; i++) if (orient(cur[i], cur[(i + 1) % k], cur[(i + 2) % k]) == 0) ok = false;
                if (ok) out.push_back(cur);
            }
        }
        if (k == maxk) return;
        for (auto& p : pts) {
            if (!cur.empty() && !(cur[0] < p)) continue;
            bool ok = true;
            for (auto& q : cur) if (q == p) ok = false;
            if (!ok) continue;
            if (k >= 2) {     // the new edge must not touch earlier ones
                V a = cur[k - 1];
                for (int i = 0; i + 2 < k && ok; i++) if (segTouch(cur[i], cur[i + 1], a, p)) ok = false;
                if (ok && orient(cur[k - 2], a, p) == 0 && (!collinear || dot(cur[k - 2] - a, p - a) > 0)) ok = false;
            }
            if (!ok) continue;
            cur.push_back(p); rec(); cur.pop_back();
        }
    };
    rec();
    std::stable_sort(out.begin(), out.end(), [](const Poly& a, const Poly& b) { return a.size() < b.size(); });
    return out;
}
// one representative per class under the eight symmetries of the square lattice and translation
inline std::vector<Poly> uptoSymmetry(const std::vector<Poly>& in) {
    std::set<std::vector<std::pair<int, int>>> seen; std::vector<Poly> out;
    for (auto& p : in) {
        std::vector<std::pair<int, int>> best;
        for (int s = 0; s < 8; s++) {
            std::vector<std::pair<int, int>> q;
            for (auto& v : p) { int x = (int)v.x, y = (int)v.y; if (s & 1) x = -x; if (s & 2) y = -y; if (s & 4) std::swap(x, y); q.push_back({x, y}); }
            if (((s & 1) != 0) ^ ((s & 2) != 0) ^ ((s & 4) != 0)) std::reverse(q.begin(), q.end());
            int mx = 1 << 30, my = 1 << 30; for (auto& v : q) { mx = std::min(mx, v.first); my = std::min(my, v.second); }
            for (auto& v : q) { v.first -= mx; v.second -= my; }
            std::rotate(q.begin(), std::min_element(q.begin(), q.end()), q.end());
            if (best.empty() || q < best) best = q;
        }
        if (seen.insert(best).second) out.push_back(p);
    }
    return out;
}

// Outlines of about n corners, counterclockwise, none of them straight: circle, star, comb, rectangular spiral, staircase, zigzag
// band, gear with corners at irregular angles.
static const char* BIG[] = {"circle", "star", "comb", "spiral", "staircase", "zigzag band", "irregular gear"};
inline Poly bigPoly(int kind, int n) {
    Poly q;
    switch (kind) {
        case 0: { double r = std::max(5.0, n * 0.04); for (int i = 0; i < n; i++) q.push_back({r * std::cos(2 * M_PI * i / n + 0.1), r * std::sin(2 * M_PI * i / n + 0.1)}); break; }
        case 1: { double r = std::max(5.0, n * 0.05); for (int i = 0; i < n / 2 * 2; i++) { double s = i % 2 ? r : 0.55 * r; q.push_back({s * std::cos(M_PI * 2 * i / (n / 2 * 2)), s * std::sin(M_PI * 2 * i / (n / 2 * 2))}); } break; }
        case 2: { int t = std::max(1, n / 4); q = {{0, 0}, {2.0 * t - 1, 0}}; for (int i = t - 1; i >= 0; i--) { q.push_back({2.0 * i + 1, 5.0 + i % 3}); q.push_back({2.0 * i, 5.0 + i % 3}); if (i) { q.push_back({2.0 * i, 1 + 0.5 * (i % 2)}); q.push_back({2.0 * i - 1, 1 + 0.5 * (i % 2)}); } } break; }
        case 3: { int t = std::max(4, n / 2); Poly in, out; V p{0, 0}; static const V D[] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
            Poly c; c.push_back(p); for (int i = 0; i < t - 1; i++) { double len = 2 * (i / 2 + 1); p = p + len * D[i % 4]; c.push_back(p); }
            for (int i = 0; i < t; i++) { V a = i ? D[(i - 1) % 4] : D[0], b = i < t - 1 ? D[i % 4] : a; V l{-a.y, a.x}, m{-b.y, b.x}; V o = i == 0 ? 0.3 * m : i == t - 1 ? 0.3 * l : 0.3 * (l + m); in.push_back(c[i] + o); out.push_back(c[i] - o); }
            q = out; for (int i = t; i-- > 0;) q.push_back(in[i]); break; }
        case 4: { int t = std::max(1, (n - 2) / 2); q.push_back({0, 0}); q.push_back({(double)t, 0}); for (int i = t; i > 0; i--) { q.push_back({(double)i, (double)(t - i + 1)}); if (i > 1) q.push_back({(double)i - 1, (double)(t - i + 1)}); } q.push_back({0, (double)t}); break; }
        case 5: { int t = std::max(2, n / 2); for (int i = 0; i < t; i++) q.push_back({(double)i, i % 2 ? 3.0 : 0.0}); for (int i = t; i-- > 0;) q.push_back({(double)i, (i % 2 ? 3.0 : 0.0) + 1.5 + 0.1 * (i % 3)}); break; }
        default: { double r = std::max(5.0, n * 0.06), a = 0; Poly t; std::vector<double> st; double tot = 0; for (int i = 0; i < n; i++) { double s = 1 + 0.8 * std::fmod(i * 0.618033988749895, 1.0); st.push_back(s); tot += s; } for (int i = 0; i < n; i++) { double s = r * (1 - (i % 3 ? 0.2 : 0.0) - (i % 3 == 2 ? 0.06 : 0.0) - 0.05 * std::fmod(i * 0.7548776662466927, 1.0)); q.push_back({s * std::cos(a), s * std::sin(a)}); a += 2 * M_PI * st[i] / tot; } }
    }
    return q;
}

struct Affine { double sx, rot, tx, ty; const char* name; };
inline V apply(const Affine& a, V v) {
    double c = std::cos(a.rot), s = std::sin(a.rot);
    if (a.rot == 0) { c = 1; s = 0; }
    return {a.sx * (c * v.x - s * v.y) + a.tx, a.sx * (s * v.x + c * v.y) + a.ty};
}
inline Poly apply(const Affine& a, const Poly& p) { Poly q; for (auto& v : p) q.push_back(apply(a, v)); return q; }

// incircle sign, exact for integer coordinates below 2^30: >0 when d is strictly inside the circle of CCW a,b,c
inline int incircleExact(V a, V b, V c, V d) {
    typedef __int128 L;
    L ax = (L)(long long)a.x - (long long)d.x, ay = (L)(long long)a.y - (long long)d.y;
    L bx = (L)(long long)b.x - (long long)d.x, by = (L)(long long)b.y - (long long)d.y;
    L cx = (L)(long long)c.x - (long long)d.x, cy = (L)(long long)c.y - (long long)d.y;
    L A = ax * ax + ay * ay, B = bx * bx + by * by, C = cx * cx + cy * cy;
    L r = A * (bx * cy - by * cx) - B * (ax * cy - ay * cx) + C * (ax * by - ay * bx);
    return r > 0 ? 1 : r < 0 ? -1 : 0;
}
// how far (relative, dimensionless) d lies inside the circumcircle of a,b,c; >0 inside
inline bool circumcircle(V a, V b, V c, V& o, double& r) {
    V u = b - a, v = c - a; double d = 2 * cross(u, v); if (d == 0) return false;
    double uu = dot(u, u), vv = dot(v, v);
    o = {a.x + (v.y * uu - u.y * vv) / d, a.y + (u.x * vv - v.x * uu) / d}; r = dist(o, a); return true;
}
} // namespace g
