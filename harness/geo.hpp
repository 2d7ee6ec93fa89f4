// Reference geometry and workload generators.  Independent of the code under test: plain integer / long double
// arithmetic on (lon, lat) microdegree pairs, no use of the library's own predicates.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace ref {
typedef int64_t i64;
typedef __int128 i128;
typedef long double ld;

struct Pt {
    i64 x, y;
    bool operator==(const Pt &o) const { return x == o.x && y == o.y; }
    bool operator!=(const Pt &o) const { return !(*this == o); }
    bool operator<(const Pt &o) const { return x != o.x ? x < o.x : y < o.y; }
};
typedef std::vector<Pt> Poly;
typedef std::vector<Poly> World;

static const i64 PERIOD = 360000001;
static const i64 MAXLON = 180000000, MAXLAT = 90000000;

// ------------------------------------------------------------------ randomness
struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) {
        s[0] = mix(seed);
        s[1] = mix(seed + 0x9e3779b97f4a7c15ull) | 1;
    }
    static uint64_t mix(uint64_t z) {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        return s[1] + b;
    }
    i64 range(i64 lo, i64 hi) { return lo + (i64)(next() % (uint64_t)(hi - lo + 1)); } // inclusive
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template <class T> void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
    }
};

// ------------------------------------------------------------------ exact predicates
inline i128 cross(const Pt &o, const Pt &a, const Pt &b) {
    return (i128)(a.x - o.x) * (b.y - o.y) - (i128)(a.y - o.y) * (b.x - o.x);
}
inline int sgn(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline int orient(const Pt &o, const Pt &a, const Pt &b) { return sgn(cross(o, a, b)); }
inline bool on_seg(const Pt &a, const Pt &b, const Pt &p) {
    return orient(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) &&
           std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
inline bool segs_touch(const Pt &a, const Pt &b, const Pt &c, const Pt &d) {
    int o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
    if (o1 != o2 && o3 != o4) return true;
    return on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b);
}
inline i128 area2(const Poly &p) {
    i128 s = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        const Pt &a = p[i], &b = p[(i + 1) % p.size()];
        s += (i128)a.x * b.y - (i128)b.x * a.y;
    }
    return s;
}
// 1 inside, 0 on the boundary, -1 outside
inline int locate(const Poly &p, const Pt &q) {
    bool in = false;
    for (size_t i = 0, n = p.size(); i < n; ++i) {
        const Pt &a = p[i], &b = p[(i + 1) % n];
        if (on_seg(a, b, q)) return 0;
        if ((a.y > q.y) != (b.y > q.y)) {
            int o = orient(a, b, q);
            if ((b.y > a.y) == (o > 0)) in = !in;
        }
    }
    return in ? 1 : -1;
}
inline ld dist_pt_seg(ld px, ld py, const Pt &a, const Pt &b) {
    ld dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
    ld t = l2 == 0 ? 0 : ((px - a.x) * dx + (py - a.y) * dy) / l2;
    t = std::max((ld)0, std::min((ld)1, t));
    return hypotl(px - (a.x + t * dx), py - (a.y + t * dy));
}
inline ld dist_pt_seg(const Pt &p, const Pt &a, const Pt &b) { return dist_pt_seg((ld)p.x, (ld)p.y, a, b); }
inline ld seg_dist(const Pt &a, const Pt &b, const Pt &c, const Pt &d) {
    if (segs_touch(a, b, c, d)) return 0;
    return std::min(std::min(dist_pt_seg(a, c, d), dist_pt_seg(b, c, d)),
                    std::min(dist_pt_seg(c, a, b), dist_pt_seg(d, a, b)));
}
inline bool near_boxes(const Pt &a, const Pt &b, const Pt &c, const Pt &d, i64 m) {
    return std::max(a.x, b.x) + m >= std::min(c.x, d.x) && std::max(c.x, d.x) + m >= std::min(a.x, b.x) &&
           std::max(a.y, b.y) + m >= std::min(c.y, d.y) && std::max(c.y, d.y) + m >= std::min(a.y, b.y);
}
inline bool inside_ld(const Poly &p, ld x, ld y) {
    bool in = false;
    for (size_t i = 0, n = p.size(); i < n; ++i) {
        const Pt &a = p[i], &b = p[(i + 1) % n];
        if ((a.y > y) != (b.y > y)) {
            ld xx = a.x + (y - a.y) * (ld)(b.x - a.x) / (ld)(b.y - a.y);
            if (x < xx) in = !in;
        }
    }
    return in;
}
inline ld boundary_dist(const Poly &p, ld x, ld y) {
    ld d = INFINITY;
    for (size_t i = 0; i < p.size(); ++i) d = std::min(d, dist_pt_seg(x, y, p[i], p[(i + 1) % p.size()]));
    return d;
}
struct BB { i64 x0, y0, x1, y1; };
inline BB bbox(const Poly &p) {
    BB b{INT64_MAX, INT64_MAX, INT64_MIN, INT64_MIN};
    for (auto &v : p) {
        b.x0 = std::min(b.x0, v.x); b.x1 = std::max(b.x1, v.x);
        b.y0 = std::min(b.y0, v.y); b.y1 = std::max(b.y1, v.y);
    }
    return b;
}
inline bool bb_meets(const BB &b, const Pt &p, const Pt &q, i64 m = 0) {
    return std::max(p.x, q.x) >= b.x0 - m && std::min(p.x, q.x) <= b.x1 + m && std::max(p.y, q.y) >= b.y0 - m &&
           std::min(p.y, q.y) <= b.y1 + m;
}

// Depth (microdegrees, planar) by which the segment a-b penetrates the interior of p; 0 if it does not.
// With `enough`, the search ends at the first place deeper than that.
inline ld penetration(const Poly &p, const Pt &a, const Pt &b, ld min_len = 6, ld enough = INFINITY) {
    std::vector<ld> ts{0, 1};
    ld dx = b.x - a.x, dy = b.y - a.y, len = hypotl(dx, dy);
    if (len == 0) return inside_ld(p, a.x, a.y) ? boundary_dist(p, a.x, a.y) : 0;
    for (size_t i = 0; i < p.size(); ++i) {
        const Pt &c = p[i], &d = p[(i + 1) % p.size()];
        if (!segs_touch(a, b, c, d)) continue;
        ld ex = d.x - c.x, ey = d.y - c.y, den = dx * ey - dy * ex;
        if (den != 0) ts.push_back(std::max((ld)0, std::min((ld)1, ((c.x - a.x) * ey - (c.y - a.y) * ex) / den)));
        else
            for (const Pt *v : {&c, &d}) {
                ld t = ((v->x - a.x) * dx + (v->y - a.y) * dy) / (len * len);
                if (t > 0 && t < 1) ts.push_back(t);
            }
    }
    std::sort(ts.begin(), ts.end());
    ld deepest = 0;
    for (size_t i = 0; i + 1 < ts.size(); ++i) {
        if ((ts[i + 1] - ts[i]) * len < min_len) continue;
        for (ld f : {0.5L, 0.2L, 0.8L}) {
            ld t = ts[i] + (ts[i + 1] - ts[i]) * f, x = a.x + t * dx, y = a.y + t * dy;
            if (inside_ld(p, x, y)) deepest = std::max(deepest, boundary_dist(p, x, y));
            if (deepest > enough) return deepest;
        }
    }
    return deepest;
}

enum Sight { BLOCKED, CLEAR, UNCLEAR };
inline const char *name(Sight s) { return s == BLOCKED ? "blocked" : s == CLEAR ? "clear" : "unclear"; }

// Line of sight between a and b.  BLOCKED: some point of it lies deeper than tol inside an obstacle.  CLEAR: it keeps
// more than tol away from every obstacle edge, except where an endpoint is itself an obstacle vertex, and there it
// leaves strictly outside the wedge (or along the edge to the adjacent vertex, when that is the other endpoint).
inline Sight sight(const World &w, const std::vector<BB> &bbs, const Pt &a, const Pt &b, ld tol = 4) {
    bool unclear = false;
    for (size_t k = 0; k < w.size(); ++k) {
        const Poly &p = w[k];
        if (!bb_meets(bbs[k], a, b, (i64)tol + 2)) continue;
        size_t n = p.size();
        bool edge_of_p = false, touch = false, wedge_bad = false;
        for (size_t i = 0; i < n; ++i) {
            const Pt &c = p[i], &d = p[(i + 1) % n];
            if ((c == a && d == b) || (c == b && d == a)) { edge_of_p = true; continue; }
            bool inc_a = (c == a || d == a), inc_b = (c == b || d == b);
            if (!inc_a && !inc_b) {
                if (!touch && near_boxes(a, b, c, d, (i64)tol + 2) && seg_dist(a, b, c, d) <= tol) touch = true;
            } else {
                const Pt &o = (c == a || c == b) ? c : d; // shared endpoint
                const Pt &other = (c == a || c == b) ? d : c;
                const Pt &far_ = o == a ? b : a;
                // the far end of the incident edge close to our segment, or our far end close to the edge
                if (dist_pt_seg(other, a, b) <= tol || dist_pt_seg(far_, c, d) <= tol) touch = true;
            }
        }
        if (!edge_of_p)
            for (size_t i = 0; i < n; ++i) {
                if (p[i] != a && p[i] != b) continue;
                const Pt &o = p[i], &prev = p[(i + n - 1) % n], &next = p[(i + 1) % n], &t = o == a ? b : a;
                // CCW polygon: interior is swept counter-clockwise from next to prev
                int on = orient(o, next, t), op = orient(o, prev, t);
                bool convex = orient(prev, o, next) > 0;
                bool inside = convex ? (on > 0 && op < 0) : !(on <= 0 && op >= 0);
                bool border = (on == 0 || op == 0);
                if (inside) wedge_bad = true;
                else if (border) touch = true;
            }
        if (touch || wedge_bad) {
            if (penetration(p, a, b, 6, tol) > tol) return BLOCKED;
            unclear = true;
        }
    }
    return unclear ? UNCLEAR : CLEAR;
}

inline std::vector<BB> bboxes(const World &w) {
    std::vector<BB> r;
    for (auto &p : w) r.push_back(bbox(p));
    return r;
}
inline World shifted(const World &w, i64 dx) {
    World r = w;
    for (auto &p : r)
        for (auto &v : p) v.x += dx;
    return r;
}
inline World periodic(const World &w) {
    World r = w;
    for (i64 s : {PERIOD, -PERIOD})
        for (auto &p : shifted(w, s)) r.push_back(p);
    return r;
}

// ------------------------------------------------------------------ generators
inline bool simple_poly(const Poly &p) {
    size_t n = p.size();
    if (n < 3) return false;
    for (size_t i = 0; i < n; ++i) {
        if (orient(p[(i + n - 1) % n], p[i], p[(i + 1) % n]) == 0) return false;
        for (size_t j = i + 1; j < n; ++j) {
            if (p[i] == p[j]) return false;
            if (j == i + 1 || (i == 0 && j == n - 1)) continue;
            if (segs_touch(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])) return false;
        }
    }
    return true;
}
inline ld clearance_within(const Poly &p) { // smallest distance between non-adjacent edges
    ld d = INFINITY;
    size_t n = p.size();
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 2; j < n; ++j) {
            if (i == 0 && j == n - 1) continue;
            d = std::min(d, seg_dist(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]));
        }
    return d;
}
inline ld poly_gap(const Poly &p, const Poly &q) { // 0 if they touch or one contains the other
    if (locate(p, q[0]) >= 0 || locate(q, p[0]) >= 0) return 0;
    ld d = INFINITY;
    for (size_t i = 0; i < p.size(); ++i)
        for (size_t j = 0; j < q.size(); ++j)
            d = std::min(d, seg_dist(p[i], p[(i + 1) % p.size()], q[j], q[(j + 1) % q.size()]));
    return d;
}
inline void make_ccw(Poly &p) {
    if (area2(p) < 0) std::reverse(p.begin(), p.end());
}

inline Poly gen_star(Rng &r, ld cx, ld cy, ld rad, int n, ld inner) {
    std::vector<ld> ang;
    for (int i = 0; i < n; ++i) ang.push_back(2 * M_PIl * (i + 0.8L * r.unit()) / n);
    Poly p;
    for (int i = 0; i < n; ++i) {
        ld q = rad * (inner + (1 - inner) * r.unit());
        p.push_back(Pt{(i64)llroundl(cx + q * cosl(ang[i])), (i64)llroundl(cy + q * sinl(ang[i]))});
    }
    return p;
}
inline Poly gen_wall(Rng &r, ld cx, ld cy, ld len, ld thick) { // thin slanted quadrilateral
    ld a = 2 * M_PIl * r.unit(), ux = cosl(a), uy = sinl(a);
    Poly p;
    ld s[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
    for (auto &k : s)
        p.push_back(Pt{(i64)llroundl(cx + ux * k[0] * len / 2 - uy * k[1] * thick / 2),
                       (i64)llroundl(cy + uy * k[0] * len / 2 + ux * k[1] * thick / 2)});
    return p;
}
inline Poly gen_comb(Rng &r, ld cx, ld cy, ld rad) { // bays: a comb / spiral-like rectilinear shape, rotated
    int teeth = (int)r.range(2, 4);
    ld w = 2 * rad, h = 2 * rad * (0.4L + 0.5L * r.unit()), step = w / (2 * teeth - 1);
    std::vector<std::pair<ld, ld>> q;
    ld base = h * 0.25L;
    q.push_back({0, 0});
    q.push_back({w, 0});
    for (int t = teeth - 1; t >= 0; --t) {
        ld x1 = (2 * t + 1) * step, x0 = 2 * t * step, top = h * (0.6L + 0.4L * r.unit());
        q.push_back({x1, top});
        q.push_back({x0, h * (0.6L + 0.4L * r.unit())});
        if (t) {
            q.push_back({x0, base});
            q.push_back({(2 * t - 1) * step, base * (0.5L + r.unit())});
        }
    }
    ld a = 2 * M_PIl * r.unit();
    Poly p;
    for (auto &v : q) {
        ld x = v.first - w / 2, y = v.second - h / 2;
        p.push_back(Pt{(i64)llroundl(cx + x * cosl(a) - y * sinl(a)), (i64)llroundl(cy + x * sinl(a) + y * cosl(a))});
    }
    return p;
}
// Random 2-opt polygon: shuffled points untangled; gives wild concave shapes.
inline Poly gen_wild(Rng &r, ld cx, ld cy, ld rad, int n) {
    Poly p;
    for (int i = 0; i < n; ++i) {
        ld a = 2 * M_PIl * r.unit(), q = rad * sqrtl(r.unit());
        p.push_back(Pt{(i64)llroundl(cx + q * cosl(a)), (i64)llroundl(cy + q * sinl(a))});
    }
    for (int it = 0; it < 400; ++it) {
        bool changed = false;
        for (int i = 0; i < n && !changed; ++i)
            for (int j = i + 1; j < n && !changed; ++j) {
                const Pt &a = p[i], &b = p[(i + 1) % n], &c = p[j], &d = p[(j + 1) % n];
                if (j == i + 1 || (i == 0 && j == n - 1)) continue;
                if (segs_touch(a, b, c, d)) {
                    std::reverse(p.begin() + i + 1, p.begin() + j + 1);
                    changed = true;
                }
            }
        if (!changed) break;
    }
    return p;
}

// A point as little off the line through a and b as the integers allow (|cross| = k times the gcd of the offset), at
// about a + t (b - a).
inline Pt beside(const Pt &a, const Pt &b, ld t, i64 k) {
    i64 dx = b.x - a.x, dy = b.y - a.y, r0 = dx, r1 = dy, u0 = 1, u1 = 0, v0 = 0, v1 = 1;
    if (!dx && !dy) return a;
    while (r1) { // u dx + v dy = gcd
        i64 q = r0 / r1;
        std::tie(r0, r1) = std::make_pair(r1, r0 - q * r1);
        std::tie(u0, u1) = std::make_pair(u1, u0 - q * u1);
        std::tie(v0, v1) = std::make_pair(v1, v0 - q * v1);
    }
    i64 sx = dx / r0, sy = dy / r0; // primitive step along the line
    // cross(d, p) = dx py - dy px = k gcd for p = k (-v0, u0)
    ld px = (ld)-v0 * k, py = (ld)u0 * k, l2 = (ld)sx * sx + (ld)sy * sy;
    i64 m = llroundl((t * ((ld)dx * sx + (ld)dy * sy) - (px * sx + py * sy)) / l2);
    return Pt{a.x - v0 * k + m * sx, a.y + u0 * k + m * sy};
}
struct Spec {
    i64 x0, y0, x1, y1; // box
    int max_polys;
    i64 gap;            // minimal clearance between and within obstacles
    bool lattice = false; // snap to a coarse lattice: collinear, axis-parallel and equidistant configurations
    i64 pitch = 0;
    int max_verts = 60;
};
inline World gen_world(Rng &r, const Spec &s) {
    World w;
    ld W = s.x1 - s.x0, H = s.y1 - s.y0, sz = std::min(W, H);
    int target = (int)r.range(1, s.max_polys), tries = 0, verts = 0;
    while ((int)w.size() < target && tries++ < 60) {
        ld cx = s.x0 + W * r.unit(), cy = s.y0 + H * r.unit();
        ld rad = sz * (0.03L + 0.32L * r.unit() * r.unit());
        Poly p;
        switch (r.range(0, 4)) {
        case 0: p = gen_star(r, cx, cy, rad, (int)r.range(3, 9), 0.2L + 0.7L * r.unit()); break;
        case 1: p = gen_wall(r, cx, cy, rad * 2.4L, rad * (0.02L + 0.2L * r.unit())); break;
        case 2: p = gen_comb(r, cx, cy, rad); break;
        case 3: p = gen_wild(r, cx, cy, rad, (int)r.range(4, 11)); break;
        default: p = gen_star(r, cx, cy, rad, 3, 0.3L); break;
        }
        if (s.lattice)
            for (auto &v : p) {
                v.x = s.x0 + llroundl((ld)(v.x - s.x0) / s.pitch) * s.pitch;
                v.y = s.y0 + llroundl((ld)(v.y - s.y0) / s.pitch) * s.pitch;
            }
        // drop exactly collinear corners until none is left
        bool again = true;
        while (again && p.size() >= 3) {
            again = false;
            for (size_t i = 0; i < p.size(); ++i)
                if (orient(p[(i + p.size() - 1) % p.size()], p[i], p[(i + 1) % p.size()]) == 0) {
                    p.erase(p.begin() + i);
                    again = true;
                    break;
                }
        }
        if (!simple_poly(p) || clearance_within(p) < s.gap) continue;
        BB b = bbox(p);
        if (b.x0 < s.x0 || b.x1 > s.x1 || b.y0 < s.y0 || b.y1 > s.y1) continue;
        bool ok = true;
        for (size_t i = 0; i < p.size() && ok; ++i) { // no extremely short edges
            const Pt &a = p[i], &c = p[(i + 1) % p.size()];
            if (hypotl(a.x - c.x, a.y - c.y) < s.gap) ok = false;
        }
        for (auto &q : w)
            if (ok && poly_gap(p, q) < s.gap) ok = false;
        if (!ok || verts + (int)p.size() > s.max_verts) continue;
        make_ccw(p);
        verts += (int)p.size();
        w.push_back(p);
    }
    return w;
}

inline std::string show(const Pt &p) {
    char b[64];
    snprintf(b, sizeof b, "(%lld,%lld)", (long long)p.x, (long long)p.y);
    return b;
}
inline std::string show(const Poly &p) {
    std::string s = "[";
    for (size_t i = 0; i < p.size(); ++i) s += (i ? "," : "") + show(p[i]);
    return s + "]";
}
inline std::string show(const World &w) {
    std::string s = "{";
    for (size_t i = 0; i < w.size(); ++i) s += (i ? ";" : "") + show(w[i]);
    return s + "}";
}
} // namespace ref
