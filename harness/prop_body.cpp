// C04: the cells marked as body against exact clipped polygons.
#include <algorithm>
#include <array>
#include <set>
#include "sim.hpp"

namespace {

using P3 = std::array<double, 3>;
using Poly = std::vector<P3>;

// The walls as the simulator sees them: each corner is pulled by 1e-5 of the
// edges that leave it, to keep it off the cell borders.
void pull(double c[6][3]) {
    double r[6][3];
    for (int k = 0; k < 6; k++)
        for (int d = 0; d < 3; d++) {
            int side = k % 2, other = k ^ 1;
            double v = 0;
            for (int q = 0; q < 6; q++)
                if (q == other || (q != k && q % 2 == side)) v += c[q][d] - c[k][d];
            r[k][d] = c[k][d] + 1e-5 * v;
        }
    std::copy(&r[0][0], &r[0][0] + 18, &c[0][0]);
}

// Walls in cell units: x and y in columns, z in cells above the grid origin.
std::vector<Poly> walls(const ss::Body* body, bool blade, const sim::Pose& p,
                        const ss::Grid& g, bool pulled) {
    sim::Corners c = sim::corners(body, p);
    double n0[3];   // normal of the blade
    {
        double u[3], v[3];
        for (int d = 0; d < 3; d++) {
            u[d] = c.c[1][d] - c.c[0][d];
            v[d] = c.c[3][d] - c.c[0][d];
        }
        n0[0] = u[1] * v[2] - u[2] * v[1];
        n0[1] = u[2] * v[0] - u[0] * v[2];
        n0[2] = u[0] * v[1] - u[1] * v[0];
    }
    if (pulled) pull(c.c);
    auto pt = [&](int k, const double off[3]) {
        P3 q;
        for (int d = 0; d < 3; d++) q[d] = c.c[k][d] + off[d];
        q[0] = q[0] / g.cell_size_xy_ + g.half_length_x_;
        q[1] = q[1] / g.cell_size_xy_ + g.half_length_y_;
        q[2] = q[2] / g.cell_size_z_;
        return q;
    };
    const double zero[3] = {0, 0, 0};
    enum { JR, JL, BR, BL, TR, TL };
    std::vector<Poly> w;
    auto add = [&](std::initializer_list<int> ids, const double off[3]) {
        Poly q;
        for (int i : ids) q.push_back(pt(i, off));
        w.push_back(q);
    };
    if (!blade) {
        add({BR, BL, TL, TR}, zero);
        add({BR, BL, JL, JR}, zero);
        add({JR, BR, TR}, zero);
        add({JL, BL, TL}, zero);
    } else {
        const double* n = n0;
        double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
        double off[3];
        for (int d = 0; d < 3; d++) off[d] = n[d] / l * g.cell_size_xy_;
        add({BR, BL, JL, JR}, zero);
        add({BR, BL, JL, JR}, off);
        add({TR, TL, JL, JR}, zero);
        add({TR, TL, JL, JR}, off);
    }
    return w;
}

Poly clip(const Poly& in, int axis, double lim, int sign) {
    Poly out;
    size_t n = in.size();
    for (size_t k = 0; k < n; k++) {
        const P3& a = in[k];
        const P3& b = in[(k + 1) % n];
        double da = sign * (a[axis] - lim), db = sign * (b[axis] - lim);
        if (da <= 0) out.push_back(a);
        if ((da < 0 && db > 0) || (da > 0 && db < 0)) {
            double t = da / (da - db);
            P3 q;
            for (int d = 0; d < 3; d++) q[d] = a[d] + t * (b[d] - a[d]);
            out.push_back(q);
        }
    }
    return out;
}

struct Range {
    double a, b;
};

// Height range of the polygon in the column (i, j) grown by m.
bool range(const Poly& p, int i, int j, double m, Range* r) {
    Poly q = clip(p, 0, i + 0.5 + m, 1);
    if (!q.empty()) q = clip(q, 0, i - 0.5 - m, -1);
    if (!q.empty()) q = clip(q, 1, j + 0.5 + m, 1);
    if (!q.empty()) q = clip(q, 1, j - 0.5 - m, -1);
    if (q.empty()) return false;
    r->a = r->b = q[0][2];
    for (auto& v : q) {
        r->a = std::min(r->a, v[2]);
        r->b = std::max(r->b, v[2]);
    }
    return true;
}

// For single precision, a corner of the column (i, j) is on an edge or a vertex
// on its border. The code works with positions in cells from the corner of the
// grid: from 256 cells on, four of their rounding steps are more than the 1e-5
// by which it moves the vertices of a wall.
bool on_border(const Poly& p, int i, int j) {
    const double eps = std::max(1e-5, std::max(i, j) < 128 ? 0.0 : std::ldexp(
        1.0, std::ilogb(static_cast<double>(std::max(i, j))) - 21));
    for (size_t k = 0; k < p.size(); k++) {
        const P3& a = p[k];
        const P3& b = p[(k + 1) % p.size()];
        if (std::fabs(std::fabs(a[0] - i) - 0.5) < eps ||
            std::fabs(std::fabs(a[1] - j) - 0.5) < eps)
            return true;
        double dx = b[0] - a[0], dy = b[1] - a[1], l = std::hypot(dx, dy);
        for (int q = 0; q < 4; q++) {
            double x = i + (q & 1 ? 0.5 : -0.5) - a[0], y = j + (q & 2 ? 0.5 : -0.5) - a[1];
            double t = l > 0 ? std::clamp((x * dx + y * dy) / (l * l), 0.0, 1.0) : 0.0;
            if (std::hypot(x - t * dx, y - t * dy) < eps) return true;
        }
    }
    return false;
}

struct Verdict {
    int marked = 0, two = 0, must = 0, merged = 0, ties = 0;
};

void compare(const ss::SimOut& o, const ss::Grid& g, const ss::Body* body, bool blade,
             const sim::Pose& p, Verdict* v, pbt::Ctx* ctx) {
    const double m = 0.01;    // columns grazed by less than this do not count
    const double e = 0.02;    // heights closer to a cell border than this neither
    auto ws = walls(body, blade, p, g, false), pulled = walls(body, blade, p, g, true);
    int X = o.terrain_.size(), Y = o.terrain_[0].size();
    for (int i = 0; i < X; i++)
        for (int j = 0; j < Y; j++) {
            Range lay[2];
            int nl = 0;
            for (int l = 0; l < 4; l += 2)
                if (sim::body_at(o, l, i, j))
                    lay[nl++] = {o.body_[l][i][j] / static_cast<double>(g.cell_size_z_),
                                 o.body_[l + 1][i][j] / static_cast<double>(g.cell_size_z_)};
            v->marked += nl > 0;
            v->two += nl > 1;
            std::vector<Range> outer, sure;
            for (size_t k = 0; k < ws.size(); k++) {
                Range r;
                // an end exactly on a border of the column: one column of error
                bool tie = on_border(pulled[k], i, j);
                if (range(ws[k], i, j, tie ? 1.0 : m, &r)) {
                    outer.push_back(r);
                    Range in;
                    // a grazed or tied column may hold any part of it
                    sure.push_back(!tie && range(ws[k], i, j, -m, &in) ? in : Range{r.b, r.a});
                }
                if (range(ws[k], i, j, -m, &r)) {
                    v->must++;
                    double worst = 1e9;
                    for (int q = 0; q < nl; q++)
                        worst = std::min(worst, std::max(lay[q].a - r.a, r.b - lay[q].b));
                    if (worst > e && tie) {
                        v->ties++;
                        continue;
                    }
                    PBT_CHECK(worst <= e, "wall ", k, " spans [", r.a, ",", r.b,
                              "] cells at (", i, ",", j, ") but the body there is ",
                              sim::cell_str(o, i, j), " (", nl, " layers)");
                    ctx->maxi("wall beyond its layer [cells]", worst);
                }
            }
            if (!nl) continue;
            PBT_CHECK(!outer.empty(), "marked at (", i, ",", j,
                      ") although no wall crosses that column: ", sim::cell_str(o, i, j));
            // whole-cell ranges of the walls, merged when they touch
            std::sort(outer.begin(), outer.end(),
                      [](const Range& a, const Range& b) { return a.a < b.a; });
            std::vector<Range> comp;
            for (auto& r : outer) {
                Range c = {std::floor(r.a - e), std::ceil(r.b + e)};
                if (!comp.empty() && c.a <= comp.back().b + 0.5)
                    comp.back().b = std::max(comp.back().b, c.b);
                else
                    comp.push_back(c);
            }
            // three walls apart from each other: one is joined to another, and
            // this depends on the order
            auto apart = [&](const Range& x, const Range& y) {
                return std::floor(x.a + e) > std::ceil(y.b - e) + 0.5 ||
                       std::floor(y.a + e) > std::ceil(x.b - e) + 0.5;
            };
            bool three = false;
            for (size_t x = 0; x < sure.size(); x++)
                for (size_t y = 0; y < x; y++)
                    for (size_t z = 0; z < y; z++)
                        three |= apart(sure[x], sure[y]) && apart(sure[y], sure[z]) &&
                                 apart(sure[x], sure[z]);
            for (int q = 0; q < nl; q++) {
                bool in = false;
                bool lo = false, hi = false;
                for (auto& c : comp) {
                    in |= lay[q].a >= c.a - 0.1 && lay[q].b <= c.b + 0.1;
                }
                for (auto& r : outer) {
                    lo |= lay[q].a >= std::floor(r.a - e) - 0.1 && lay[q].a <= r.b + 0.1;
                    hi |= lay[q].b <= std::ceil(r.b + e) + 0.1 && lay[q].b >= r.a - 0.1;
                }
                if (!in && three && lo && hi) {
                    v->merged++;
                    in = true;
                }
                if (!in && ctx->verbose) {
                    std::printf("%s\n", sim::cell_str(o, i, j).c_str());
                    for (auto& r : outer) std::printf("wall [%g, %g]\n", r.a, r.b);
                }
                PBT_CHECK(in, "layer [", lay[q].a, ",", lay[q].b, "] cells at (", i, ",",
                          j, ") is more than the walls there, which span [", comp[0].a, ",",
                          comp[0].b, "]", comp.size() > 1 ? " and others" : "");
            }
            if (nl == 2) {
                Range lo = lay[0], hi = lay[1];
                if (lo.a > hi.a) std::swap(lo, hi);
                PBT_CHECK(lo.b <= hi.a - 0.5, "layers overlap or touch at (", i, ",", j,
                          "): ", sim::cell_str(o, i, j));
            }
        }
}

// A pose anywhere the body fits in the grid.
sim::Pose any_pose(pbt::Src& s, const sim::Scene& sc) {
    sim::Pose p = sim::gen_pose(s, sc, -sc.box_z, sc.box_z);
    if (s.chance(1, 3)) {   // heights on the lattice too
        double h = 0.5 * sc.cell_z;
        p.pos[2] = static_cast<float>(h * std::round(p.pos[2] / h));
    }
    return p;
}

void raster(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.big = 3;
    so.vast = 2;
    so.huge = 5;
    so.max_len = 10;
    so.max_ratio = 8;
    so.frac_xy = so.frac_z = s.chance(1, 4);
    sim::Scene sc = sim::gen_scene(s, so);
    ss::Grid g = sc.grid();
    ss::SimOut o(g);
    sim::AnyBody b(sc);
    Verdict v;
    sim::Pose p = any_pose(s, sc);
    ctx.desc << sc.str() << " pose " << sim::fmt(p.pos) << sim::fmt(p.ori);
    b.calc_pos(&o, p, g, sc.param());
    if (ctx.verbose) {
        for (auto* v : {&sc.o, &sc.j, &sc.b, &sc.t, &p.pos, &p.ori}) {
            for (float f : *v) std::printf("%a,", f);
            std::printf("\n");
        }
        std::printf("%a %a %a\n", sc.width, sc.cell_xy, sc.cell_z);
    }
    compare(o, g, b.get(), sc.kind == sim::BodyKind::blade, p, &v, &ctx);
    if (v.two) ctx.label("cells with two layers", v.two);
    if (v.merged) ctx.label("cells with a third wall", v.merged);
    ctx.label("walls in cells compared", v.must);
    ctx.label("marked cells", v.marked);
    if (v.ties) ctx.label("wall edges on a cell border", v.ties);
    ctx.label(sc.kind == sim::BodyKind::blade ? "blade" : "bucket");
    ctx.nontrivial = v.marked >= 6;
}

// ------------------------------------------------- C04.merge: two layers
using Span = std::pair<long, long>;

// All sets of layers the insertion of `n` may lead to.
std::set<std::set<Span>> insert(const std::set<Span>& l, Span n) {
    std::set<Span> rest;
    Span u = n;
    for (auto& x : l)
        if (x.first <= n.second && n.first <= x.second) {   // touching counts
            u.first = std::min(u.first, x.first);
            u.second = std::max(u.second, x.second);
        } else {
            rest.insert(x);
        }
    if (rest.size() < 2) {
        rest.insert(u);
        return {rest};
    }
    // a third separate wall joins the closest one
    std::set<std::set<Span>> out;
    auto dist = [&](const Span& x) {
        return x.first > n.second ? x.first - n.second : n.first - x.second;
    };
    long d = std::min(dist(*rest.begin()), dist(*rest.rbegin()));
    for (auto& x : rest)
        if (dist(x) == d) {
            std::set<Span> r = rest;
            r.erase(x);
            r.insert({std::min(x.first, n.first), std::max(x.second, n.second)});
            out.insert(r);
        }
    return out;
}

void merge(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    float cz = s.pick<float>({0.1f, 0.05f, 0.25f, 0.07f, 0.01f, 1.0f});
    ss::Grid g(4 * cz, 4 * cz, 40 * cz, cz, cz);
    ss::SimOut o(g);
    int i = s.range(0, 8), j = s.range(0, 8);
    auto H = [&](long k) { return static_cast<float>(static_cast<double>(cz) * k); };
    std::set<Span> now;
    int n = s.range(1, 6), third = 0, joined = 0;
    long base = s.sint(12);
    ctx.desc << "cell " << cz << " at (" << i << "," << j << "):";
    for (int k = 0; k < n; k++) {
        Span x;
        x.first = base + s.sint(10);
        x.second = x.first + s.range(1, s.chance(1, 4) ? 8 : 3);
        ctx.desc << " [" << x.first << "," << x.second << "]";
        auto may = insert(now, x);
        ss::IncludeNewBodyPos(&o, i, j, H(x.first), H(x.second), sim::kTol);
        std::set<Span> got;
        for (int l = 0; l < 4; l += 2)
            if (sim::body_at(o, l, i, j)) {
                double a = o.body_[l][i][j] / static_cast<double>(cz);
                double b = o.body_[l + 1][i][j] / static_cast<double>(cz);
                PBT_CHECK(std::fabs(a - std::round(a)) < 0.01 && std::fabs(b - std::round(b)) < 0.01,
                          "layer off the cells: ", a, " ", b);
                got.insert({std::lround(a), std::lround(b)});
            }
        bool all = now.size() == 2 && may.begin()->size() == 2 &&
                   [&]() { for (auto& y : now) if (y.first <= x.second && x.first <= y.second) return false; return true; }();
        third += all;
        joined += may.begin()->size() < now.size();
        std::ostringstream d;
        for (auto& y : got) d << " [" << y.first << "," << y.second << "]";
        PBT_CHECK(may.count(got), "adding [", x.first, ",", x.second, "] gives the layers", d.str());
        now = got;
    }
    for (int l = 0; l < 4; l++)
        for (int a = 0; a < 9; a++)
            for (int b = 0; b < 9; b++)
                PBT_CHECK((a == i && b == j) || o.body_[l][a][b] == 0, "another column was changed");
    if (third) ctx.label("third wall joined to the closest", third);
    if (joined) ctx.label("two layers joined by a wall", joined);
    ctx.nontrivial = n >= 3;
}

pbt::Register r1("C04.raster", raster);
pbt::Register r2("C04.merge", merge);

}  // namespace
