// C23: a scenario shifted by whole cells, or run in a larger grid, behaves the
// same.  All coordinates are exactly representable, so that the comparison is
// exact; what depends on the rounding of a wall edge is recognised by moving
// the body a little and left out.
#include <algorithm>
#include <cstring>
#include "lattice.hpp"

namespace {

using sim::Pose;
using sim::Scene;

// The rotations of a cube, with components that are not normalised.
const std::vector<std::vector<float>>& cube() {
    static const std::vector<std::vector<float>> q = []() {
        std::vector<std::vector<float>> r = {
            {1, 0, 0, 0}, {1, 0, 1, 0}, {1, 0, -1, 0}, {0, 0, 0, 1}, {1, 0, 0, 1},
            {1, 0, 0, -1}, {0, 0, 1, 0}, {0, 1, 0, 0}, {1, 1, 0, 0}, {1, -1, 0, 0},
            {0, 1, 1, 0}, {0, 1, -1, 0}, {0, 1, 0, 1}, {0, 1, 0, -1}, {0, 0, 1, 1},
            {0, 0, 1, -1}};
        for (int k = 0; k < 8; k++)
            r.push_back({1, k & 1 ? -1.0f : 1.0f, k & 2 ? -1.0f : 1.0f, k & 4 ? -1.0f : 1.0f});
        return r;
    }();
    return q;
}

struct Block { int i, j, w, h; long k; };

struct Case {
    Scene sc;
    std::vector<Block> blocks;   // terrain, indices from the centre
    std::vector<Pose> traj;
    long level = 0;
};

// A scene placed at (dx, dy, dz) cells, in a grid larger by (ex, ey, ez).
struct Place { int dx = 0, dy = 0, dz = 0, ex = 0, ey = 0, ez = 0; };

struct Run {
    Scene sc;
    ss::Grid g;
    ss::SimParam sp;
    ss::SimOut o;
    sim::AnyBody body;
    ss::SoilDynamics dyn;
    Place at;
    std::mt19937 rng;
    static Scene place(Scene sc, const Place& p) {
        sc.nx += p.ex;
        sc.ny += p.ey;
        sc.nz += p.ez;
        return sc;
    }
    Run(const Case& c, const Place& p)
        : sc(place(c.sc, p)), g(sc.grid()), sp(sc.param()), o(g), body(sc), at(p), rng(c.sc.seed) {
        auto set = [&](int i, int j, long k) {
            o.terrain_[i][j] = static_cast<float>(g.cell_size_z_ * static_cast<double>(k + p.dz));
        };
        int X = o.terrain_.size(), Y = o.terrain_[0].size();
        for (int i = 0; i < X; i++)
            for (int j = 0; j < Y; j++) set(i, j, c.level);
        for (auto& b : c.blocks)
            for (int i = b.i; i < b.i + b.w; i++)
                for (int j = b.j; j < b.j + b.h; j++)
                    set(i + p.dx + g.half_length_x_, j + p.dy + g.half_length_y_, b.k);
    }
    Pose pose(const Pose& q) const {
        Pose r = q;
        r.pos[0] += at.dx * sc.cell_xy;
        r.pos[1] += at.dy * sc.cell_xy;
        r.pos[2] += at.dz * sc.cell_z;
        return r;
    }
    bool step(const Pose& q) {
        ss::rng = rng;
        bool up = body.step(&dyn, &o, pose(q), g, sp);
        rng = ss::rng;
        return up;
    }
};

Case gen(pbt::Src& s) {
    sim::init_log();
    Case c;
    Scene& sc = c.sc;
    sc.cell_xy = s.pick({0.125f, 0.25f, 0.0625f, 1.0f});
    sc.cell_z = sc.cell_xy / s.pick({1, 2, 4});
    double u = sc.cell_xy / 4.0;
    sc.kind = s.chance(1, 3) ? sim::BodyKind::blade : sim::BodyKind::bucket;
    auto V = [&](int x, int y, int z) {
        return std::vector<float>{static_cast<float>(x * u), static_cast<float>(y * u),
                                  static_cast<float>(z * u)};
    };
    int L = s.range(10, 26), H = s.range(8, 22);
    sc.width = static_cast<float>(s.range(8, 24) * u);
    int ox = 0, oz = 0;
    if (s.chance(1, 3)) ox = s.sint(8), oz = s.sint(8);
    sc.o = V(ox, 0, oz);
    bool skew = s.chance(1, 2);
    if (sc.kind == sim::BodyKind::bucket) {
        sc.j = V(0, 0, 0);
        sc.b = V(skew ? s.sint(6) : 0, 0, -H);
        sc.t = V(L, 0, -H + (skew ? s.sint(8) : 0));
    } else {
        sc.j = V(skew ? s.sint(4) : 4, 0, -H / 2);
        sc.b = V(0, 0, H / 2);
        sc.t = V(6 + L / 2, 0, -H / 2 - s.range(1, 10));
    }
    if ((sc.b[0] - sc.j[0]) * (sc.t[2] - sc.j[2]) == (sc.b[2] - sc.j[2]) * (sc.t[0] - sc.j[0]))
        throw pbt::Discard();
    double r = 0;
    for (auto* v : {&sc.j, &sc.b, &sc.t})
        r = std::max(r, std::sqrt(std::pow((*v)[0] - sc.o[0], 2) + std::pow((*v)[2] - sc.o[2], 2)));
    r = std::sqrt(r * r + 0.25 * sc.width * sc.width);
    if (sc.kind == sim::BodyKind::blade) r += sc.cell_xy;
    sc.radius = r;
    sc.buffer = s.range(2, 5);
    sc.max_it = s.pick({3, 1, 10, 2, 5, 0});
    sc.repose = static_cast<float>(s.real(std::atan(0.8 * sc.cell_z / sc.cell_xy), 1.3, 256));
    if (s.chance(1, 3)) sc.repose = 0.85f;
    sc.seed = s.draw(100000);
    int box = s.range(0, 4);
    int reach = static_cast<int>(std::ceil(r / sc.cell_xy));
    sc.nx = reach + box + sc.buffer + 4 + s.range(0, 4);
    sc.ny = reach + box + sc.buffer + 4 + s.range(0, 4);
    int ratio = static_cast<int>(std::lround(sc.cell_xy / sc.cell_z));
    int K = 3 * ratio;
    sc.nz = (2 * reach + 16) * ratio;
    // terrain: level outside, blocks in the middle
    c.level = s.sint(K);
    long top = c.level;
    int n = s.range(0, 5);
    for (int q = 0; q < n; q++) {
        Block b;
        int m = 6;
        b.i = s.range(-sc.nx + m, sc.nx - m);
        b.j = s.range(-sc.ny + m, sc.ny - m);
        b.w = std::min(s.range(1, sc.nx), sc.nx - m + 1 - b.i);
        b.h = std::min(s.range(1, sc.ny), sc.ny - m + 1 - b.j);
        b.k = c.level + s.sint(K);
        top = std::max(top, b.k);
        c.blocks.push_back(b);
    }
    // trajectory on a fine lattice
    double v = std::min(sc.cell_xy, sc.cell_z) / 8.0;
    double off = v / 8.0;
    double cz = sc.cell_z;
    long bx = std::lround(box * sc.cell_xy / v);
    long zlo = std::lround((top * cz - 0.6 * r) / v), zhi = std::lround((top * cz + 1.5 * r) / v);
    long x = s.sint(static_cast<int>(bx)), y = s.sint(static_cast<int>(bx));
    long z = std::lround(top * cz / v) + s.range(0, static_cast<int>(r / v));
    int q = s.chance(1, 2) ? 0 : s.chance(2, 3) ? s.range(0, 5) : s.range(0, static_cast<int>(cube().size()) - 1);
    int ph[3] = {s.pick({1, -1, 3}), s.pick({1, 2, -3}), s.pick({1, 3, -2})};
    auto add = [&]() {
        Pose p;
        p.ori = cube()[q];
        p.pos = {static_cast<float>(x * v + ph[0] * off), static_cast<float>(y * v + ph[1] * off),
                 static_cast<float>(z * v + ph[2] * off)};
        c.traj.push_back(p);
    };
    add();
    int segs = s.range(1, 6);
    for (int g = 0; g < segs; g++) {
        if (s.chance(1, 8)) {
            q = s.range(0, 5);
            add();
            continue;
        }
        int d[3] = {0, 0, 0}, len = s.range(4, 8);
        switch (s.weighted({4, 4, 3, 2, 3})) {
            case 0: d[2] = -1; break;
            case 1: d[0] = s.chance(1, 3) ? -1 : 1; break;
            case 2: d[2] = 1; break;
            case 3: d[1] = s.chance(1, 2) ? -1 : 1; break;
            default: d[0] = s.range(-1, 1), d[1] = s.range(-1, 1), d[2] = s.range(-1, 1);
        }
        if (s.chance(1, 10)) len = s.range(8, 24);
        int steps = s.range(1, 12);
        for (int k = 0; k < steps; k++) {
            x = std::max(-bx, std::min(bx, x + d[0] * len));
            y = std::max(-bx, std::min(bx, y + d[1] * len));
            z = std::max(zlo, std::min(zhi, z + d[2] * len));
            add();
        }
    }
    return c;
}

using Layers = std::vector<std::vector<std::vector<float>>>;

Layers raster(const Run& r, const Pose& p) {
    ss::SimOut o(r.g);
    sim::AnyBody b(r.sc);
    b.calc_pos(&o, p, r.g, r.sp);
    return o.body_;
}

// A height of a present interval in B, expressed in A.
template <typename R>
float down(float h, const R& b) {
    return static_cast<float>(h - static_cast<double>(b.at.dz) * b.g.cell_size_z_);
}

// Soil of no height is no soil, wherever it is.
bool is_there(const Layers& l, int k, int i, int j, bool soil) {
    if (soil) return l[k][i][j] != l[k + 1][i][j];
    return l[k][i][j] != 0.0f || l[k + 1][i][j] != 0.0f;
}

// Compares the intervals of A with those of B; empty when equal.
template <typename R>
std::string same_layers(const Layers& a, const Layers& b, const R& A, const R& B, bool soil) {
    int X = A.o.terrain_.size(), Y = A.o.terrain_[0].size();
    int XB = B.o.terrain_.size(), YB = B.o.terrain_[0].size();
    int si = B.g.half_length_x_ - A.g.half_length_x_ + B.at.dx;
    int sj = B.g.half_length_y_ - A.g.half_length_y_ + B.at.dy;
    std::ostringstream e;
    e.precision(9);
    for (int k = 0; k < 4; k += 2) {
        for (int i = 0; i < XB; i++)
            for (int j = 0; j < YB; j++) {
                bool inside = i - si >= 0 && i - si < X && j - sj >= 0 && j - sj < Y;
                bool pb = is_there(b, k, i, j, soil);
                bool pa = inside && is_there(a, k, i - si, j - sj, soil);
                if (pa == pb && (!pa || (down(b[k][i][j], B) == a[k][i - si][j - sj] &&
                                         down(b[k + 1][i][j], B) == a[k + 1][i - si][j - sj])))
                    continue;
                e << (soil ? "the soil" : "the body") << " of layer " << k / 2 + 1 << " at (" << i - si << "," << j - sj << "): ";
                if (pa) e << "[" << a[k][i - si][j - sj] << "," << a[k + 1][i - si][j - sj] << "]";
                else e << "none";
                e << ", elsewhere ";
                if (pb) e << "[" << down(b[k][i][j], B) << "," << down(b[k + 1][i][j], B) << "]";
                else e << "none";
                return e.str();
            }
    }
    return "";
}

void shift(pbt::Src& s, pbt::Ctx& ctx) {
    Case c = gen(s);
    Place p;
    int mode = s.weighted({3, 3, 2, 2});
    if (mode != 1) {     // larger
        p.ex = s.range(0, 12);
        p.ey = s.range(0, 12);
        p.ez = s.range(0, 12);
    }
    if (mode != 0) {     // moved
        p.dx = s.sint(8);
        p.dy = s.sint(8);
        p.dz = s.sint(8);
        p.ex = std::max(p.ex, std::abs(p.dx));
        p.ey = std::max(p.ey, std::abs(p.dy));
        p.ez = std::max(p.ez, std::abs(p.dz));
    }
    if (s.chance(1, 64)) {   // to the far end of a grid of more than 256 cells
        int far = s.range(110, 250);
        (s.chance(1, 2) ? p.ex : p.ey) += far;
        int at = s.chance(1, 2) ? far : s.sint(far);
        (p.ex > p.ey ? p.dx : p.dy) += at;
        ctx.label("grid of more than 256 cells");
    }
    ctx.desc << c.sc.str() << " level " << c.level << " blocks " << c.blocks.size() << " poses "
             << c.traj.size() << " from " << sim::fmt(c.traj[0].pos) << " | shifted by (" << p.dx << ","
             << p.dy << "," << p.dz << ") grid +(" << p.ex << "," << p.ey << "," << p.ez << ")";
    Run A(c, Place()), B(c, p);
    PBT_CHECK(B.g.half_length_x_ == A.g.half_length_x_ + p.ex &&
              B.g.half_length_y_ == A.g.half_length_y_ + p.ey, "size of the larger grid");
    // the footprints, first
    for (size_t k = 0; k < c.traj.size(); k++) {
        Layers a = raster(A, c.traj[k]), b = raster(B, B.pose(c.traj[k]));
        std::string e = same_layers(a, b, A, B, false);
        if (e.empty()) continue;
        for (int d = 0; d < 6; d++) {
            Pose q = c.traj[k];
            q.pos[d % 3] += (d < 3 ? 1 : -1) * 1e-4f * A.sc.cell_z;
            if (raster(A, q) != a) throw pbt::Discard();   // an edge on a border
        }
        pbt::fail("pose ", k, ": ", e);
    }
    int X = A.o.terrain_.size(), Y = A.o.terrain_[0].size();
    int XB = B.o.terrain_.size(), YB = B.o.terrain_[0].size();
    int si = B.g.half_length_x_ - A.g.half_length_x_ + p.dx;
    int sj = B.g.half_length_y_ - A.g.half_length_y_ + p.dy;
    float flat = A.g.cell_size_z_ * c.level;
    int ups = 0, loaded = 0;
    bool moved = false;
    const auto start = A.o.terrain_;
    for (size_t k = 0; k < c.traj.size(); k++) {
        bool ua = A.step(c.traj[k]), ub = B.step(c.traj[k]);
        PBT_CHECK(ua == ub, "step ", k, " returned ", ua, ", elsewhere ", ub);
        ups += ua;
        // the avalanche must stay away from the border of the smaller grid
        for (int i = 0; i < X; i++)
            for (int j = 0; j < Y; j++)
                if ((i < 4 || j < 4 || i >= X - 4 || j >= Y - 4) && A.o.terrain_[i][j] != flat)
                    throw pbt::Discard();
        for (int i = 0; i < XB; i++)
            for (int j = 0; j < YB; j++) {
                bool inside = i - si >= 0 && i - si < X && j - sj >= 0 && j - sj < Y;
                float want = inside ? A.o.terrain_[i - si][j - sj] : flat;
                PBT_CHECK(down(B.o.terrain_[i][j], B) == want, "step ", k, ": the terrain at (", i - si,
                          ",", j - sj, ") is ", want, ", elsewhere ", down(B.o.terrain_[i][j], B));
            }
        std::string e = same_layers(A.o.body_, B.o.body_, A, B, false);
        PBT_CHECK(e.empty(), "step ", k, ": ", e);
        e = same_layers(A.o.body_soil_, B.o.body_soil_, A, B, true);
        PBT_CHECK(e.empty(), "step ", k, ": ", e);
        auto &ea = A.o.body_soil_pos_, &eb = B.o.body_soil_pos_;
        if (ctx.verbose && ea.size() != eb.size()) {
            for (auto& x : ea) std::printf("A %d (%d,%d) %g\n", x.ind, x.ii, x.jj, x.h_soil);
            for (auto& x : eb) std::printf("B %d (%d,%d) %g   %s\n", x.ind, x.ii - si, x.jj - sj, x.h_soil, sim::cell_str(B.o, x.ii, x.jj).c_str());
        }
        PBT_CHECK(ea.size() == eb.size(), "step ", k, ": ", ea.size(), " records of soil, elsewhere ",
                  eb.size());
        for (size_t n = 0; n < ea.size(); n++)
            PBT_CHECK(ea[n].ind == eb[n].ind && ea[n].ii == eb[n].ii - si && ea[n].jj == eb[n].jj - sj &&
                      ea[n].x_b == eb[n].x_b && ea[n].y_b == eb[n].y_b && ea[n].z_b == eb[n].z_b &&
                      ea[n].h_soil == eb[n].h_soil, "step ", k, ": record ", n, " differs");
        PBT_CHECK(A.rng == B.rng, "step ", k, ": the random numbers used differ");
        PBT_CHECK(A.o.equilibrium_ == B.o.equilibrium_, "step ", k, ": equilibrium differs");
        if (ua)
            for (int d = 0; d < 2; d++)
                for (int h = 0; h < 2; h++)
                    PBT_CHECK(A.o.body_area_[d][h] == B.o.body_area_[d][h] - (d ? sj : si), "step ", k,
                              ": the body area differs");
        loaded += !ea.empty();
        moved = moved || A.o.terrain_ != start;
    }
    ctx.label("steps", ups);
    if (loaded) ctx.label("steps with soil on the body", loaded);
    if (p.dz) ctx.label("shifted vertically");
    if (p.dx || p.dy) ctx.label("shifted horizontally");
    if (p.ex || p.ey || p.ez) ctx.label("larger grid");
    ctx.nontrivial = ups >= 2 && moved && (p.dx || p.dy || p.dz || p.ex || p.ey || p.ez);
}
const pbt::Register r1("C23.shift", shift);

// ------------------------------------------------------------- C23.local
// Arrangements of walls, soil and terrain around the centre of a level
// terrain, and the parts of a step applied to them.
struct Local {
    lat::Bench b;
    lat::State st;
    ss::Grid g;
    ss::SimOut o;
    ss::Bucket body;
    std::mt19937 rng;
    Place at;
    static lat::Bench place(lat::Bench b, const Place& p) {
        b.nx += p.ex;
        b.ny += p.ey;
        b.nz += p.ez;
        b.pos[0] += p.dx * b.cell_xy;
        b.pos[1] += p.dy * b.cell_xy;
        b.pos[2] += p.dz * b.cell_z;
        return b;
    }
    static lat::State place(const lat::State& a, long level, const Place& p) {
        lat::State r;
        r.X = a.X + 2 * p.ex;
        r.Y = a.Y + 2 * p.ey;
        lat::Cell flat;
        flat.T = level + p.dz;
        r.c.assign(r.X * r.Y, flat);
        for (int i = 0; i < r.X; i++)
            for (int j = 0; j < r.Y; j++) {
                int x = i - p.ex - p.dx, y = j - p.ey - p.dy;
                if (x < 0 || y < 0 || x >= a.X || y >= a.Y) continue;
                lat::Cell c = a.at(x, y);
                c.T += p.dz;
                for (int l = 0; l < 2; l++)
                    if (c.b[l]) c.lo[l] += p.dz, c.hi[l] += p.dz;
                r.at(i, j) = c;
            }
        for (auto& e : a.e) r.e.push_back({e.l, e.i + p.ex + p.dx, e.j + p.ey + p.dy, e.h});
        return r;
    }
    Local(const lat::Bench& b0, const lat::State& s0, long level, uint32_t seed, const int area[3][2][2],
          const Place& p)
        : b(place(b0, p)), st(place(s0, level, p)), g(b.grid()), o(g), body(lat::bench_body(b)),
          rng(seed), at(p) {
        lat::to_sim(st, b, g, &o);
        for (int d = 0; d < 2; d++)
            for (int h = 0; h < 2; h++) {
                int q = d ? p.ey + p.dy : p.ex + p.dx;
                o.body_area_[d][h] = area[0][d][h] + q;
                o.relax_area_[d][h] = area[1][d][h] + q;
                o.impact_area_[d][h] = area[2][d][h] + q;
            }
        sim::reset_warn();
    }
    void run(int op, const ss::SimParam& sp, const float mv[3]) {
        ss::rng = rng;
        switch (op) {
            case 0:
                ss::UpdateBodySoil(&o, {b.pos[0] + mv[0], b.pos[1] + mv[1], b.pos[2] + mv[2]}, b.ori, g, &body,
                                   sim::kTol);
                break;
            case 1: ss::MoveIntersectingBodySoil(&o, g, &body, sim::kTol); break;
            case 2: ss::MoveIntersectingBody(&o, sim::kTol); break;
            case 3: ss::RelaxTerrain(&o, g, &body, sp, sim::kTol); break;
            default: ss::RelaxBodySoil(&o, g, &body, sp, sim::kTol); break;
        }
        rng = ss::rng;
    }
};

void local(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    lat::GenOpt go;
    go.body_pct = s.pick({60, 30, 90});
    go.penetrate_terrain = s.chance(1, 2);
    go.penetrate_soil = s.chance(1, 2);
    lat::Bench b;
    b.cell_xy = s.pick({0.25f, 0.125f, 1.0f, 0.0625f});
    b.cell_z = b.cell_xy / s.pick({1, 2, 4});
    int kx = s.range(1, 3), ky = s.range(1, 3), far = s.range(5, 7);
    b.nx = kx + far;
    b.ny = ky + far;
    b.nz = 60;
    const float u = b.cell_xy / 4;
    b.pos = {s.sint(12) * u, s.sint(12) * u, s.sint(12) * u};
    b.ori = s.pick<std::vector<float>>({{1, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, 1, 0}, {0.5f, 0.5f, -0.5f, 0.5f}});
    long level = s.sint(6);
    lat::State st;
    st.X = 2 * b.nx + 1;
    st.Y = 2 * b.ny + 1;
    lat::Cell flat;
    flat.T = level;
    st.c.assign(st.X * st.Y, flat);
    int walls = 0;
    for (int i = b.nx - kx; i <= b.nx + kx; i++)
        for (int j = b.ny - ky; j <= b.ny + ky; j++) {
            lat::Cell c = lat::gen_cell(s, go, true);
            long up = level;
            c.T += up;
            for (int l = 0; l < 2; l++)
                if (c.b[l]) c.lo[l] += up, c.hi[l] += up, walls++;
            st.at(i, j) = c;
        }
    lat::gen_entries(s, &st);
    int area[3][2][2];
    for (int k = 0; k < 3; k++) {
        int m = k == 0 ? 1 : s.range(1, 3);
        lat::set_area(area[k], b.nx - kx - m, b.nx + kx + m, b.ny - ky - m, b.ny + ky + m);
    }
    long D = s.range(1, 3);
    ss::SimParam sp(lat::repose_for(b, D, s.sreal(0.3, 8)), 3, 2);
    uint32_t seed = s.draw(1u << 20);
    float mv[3];
    for (float& m : mv) m = s.sint(4) * u;
    Place p;
    p.dz = s.sint(10);
    if (s.chance(1, 2)) p.dx = s.sint(4), p.dy = s.sint(4);
    p.ex = std::abs(p.dx) + (s.chance(1, 3) ? s.range(0, 5) : 0);
    p.ey = std::abs(p.dy) + (s.chance(1, 3) ? s.range(0, 5) : 0);
    p.ez = std::abs(p.dz);
    if (s.chance(1, 128)) {   // to the far end of a grid of more than 256 cells
        int far = s.range(118, 250);
        bool x = s.chance(1, 2);
        (x ? p.ex : p.ey) += far;
        (x ? p.dx : p.dy) += s.chance(1, 2) ? far : s.sint(far);
        ctx.label("grid of more than 256 cells");
    }
    std::vector<int> ops;
    if (s.chance(1, 4)) ops.push_back(0);
    bool push = go.penetrate_soil || go.penetrate_terrain || !ops.empty();
    if (push || s.chance(1, 4)) ops.insert(ops.end(), {1, 2});
    for (int n = s.range(ops.empty() ? 1 : 0, 3); n > 0; n--) ops.push_back(s.range(3, 4));
    ctx.desc << b.str() << " D=" << D << " level " << level << " shifted by (" << p.dx << "," << p.dy << ","
             << p.dz << ") grid +(" << p.ex << "," << p.ey << ") ops";
    for (int k : ops) ctx.desc << " " << k;
    ctx.desc << ": " << st.str(b.nx - kx, b.nx + kx, b.ny - ky, b.ny + ky);
    Local A(b, st, level, seed, area, Place()), B(b, st, level, seed, area, p);
    int changed = 0;
    const float base = A.o.terrain_[0][0];
    for (size_t k = 0; k < ops.size(); k++) {
        sim::Snapshot was(A.o);
        A.run(ops[k], sp, mv);
        B.run(ops[k], sp, mv);
        int X = A.o.terrain_.size(), Y = A.o.terrain_[0].size();
        int si = p.ex + p.dx, sj = p.ey + p.dy;
        for (int i = 0; i < X; i++)
            for (int j = 0; j < Y; j++)
                if ((i < 3 || j < 3 || i >= X - 3 || j >= Y - 3) && A.o.terrain_[i][j] != base)
                    throw pbt::Discard();
        std::string tag = "after " + std::to_string(k + 1) + " operations: ";
        for (int i = 0; i < X; i++)
            for (int j = 0; j < Y; j++)
                PBT_CHECK(down(B.o.terrain_[i + si][j + sj], B) == A.o.terrain_[i][j], tag, "the terrain at (", i,
                          ",", j, ") is ", A.o.terrain_[i][j], ", elsewhere ",
                          down(B.o.terrain_[i + si][j + sj], B));
        std::string e = same_layers(A.o.body_soil_, B.o.body_soil_, A, B, true);
        PBT_CHECK(e.empty(), tag, e);
        // records, in order
        auto &ea = A.o.body_soil_pos_, &eb = B.o.body_soil_pos_;
        PBT_CHECK(ea.size() == eb.size(), tag, ea.size(), " records of soil, elsewhere ", eb.size());
        for (size_t n = 0; n < ea.size(); n++)
            PBT_CHECK(ea[n].ind == eb[n].ind && ea[n].ii == eb[n].ii - si && ea[n].jj == eb[n].jj - sj &&
                      ea[n].x_b == eb[n].x_b && ea[n].y_b == eb[n].y_b && ea[n].z_b == eb[n].z_b &&
                      ea[n].h_soil == eb[n].h_soil, tag, "record ", n, " differs");
        PBT_CHECK(A.rng == B.rng, tag, "the random numbers used differ");
        PBT_CHECK(A.o.equilibrium_ == B.o.equilibrium_, tag, "equilibrium differs");
        changed += !was.same(A.o);
        // soil of no height is not carried on: whether it counts as soil is open
        for (int i = 0; i < X; i++)
            for (int j = 0; j < Y; j++)
                for (int l = 0; l < 4; l += 2)
                    if (A.o.body_soil_[l][i][j] == A.o.body_soil_[l + 1][i][j])
                        for (int q = 0; q < 2; q++) {
                            A.o.body_soil_[l + q][i][j] = 0;
                            B.o.body_soil_[l + q][i + si][j + sj] = 0;
                        }
    }
    if (changed) ctx.label("operations that changed something", changed);
    for (int k : ops) ctx.label("operation " + std::to_string(k));
    ctx.nontrivial = changed > 0 && walls > 0 && (p.dx || p.dy || p.dz || p.ex || p.ey);
}
const pbt::Register r2("C23.local", local);

}  // namespace
