// C09: equilibrium and convergence.
#include <algorithm>
#include "model.hpp"

using lat::Bench;
using lat::Cell;
using lat::State;

namespace {

// Bare terrain relaxed as Step does, until the simulator reports equilibrium.
void bare(pbt::Src& s, pbt::Ctx& ctx) {
    lat::GenOpt go;
    go.half_min = 2;
    go.half_max = 5;
    Bench b = lat::gen_bench(s, go);
    b.nz = 60;
    State st;
    st.X = 2 * b.nx + 1;
    st.Y = 2 * b.ny + 1;
    st.c.assign(st.X * st.Y, Cell());
    long base = s.sint(10);
    int kind = s.weighted({3, 3, 2});
    int amp = s.chance(1, 8) ? s.range(25, 120) : s.range(1, 25);
    int pi = s.range(1, st.X - 2), pj = s.range(1, st.Y - 2);
    int si = s.sint(4), sj = s.sint(4);
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++) {
            long T = base;
            if (kind == 0) T += s.range(0, amp);
            else if (kind == 1) T += (i == pi && j == pj) ? 2 * amp : 0;
            else T += si * i + sj * j + s.range(0, 2);
            st.at(i, j).T = T;
        }
    lat::lift(s, b, &st);
    long D = s.chance(1, 8) ? s.range(8, 40) : s.range(1, 8);
    int i0 = 1, i1 = 2 * b.nx, j0 = 1, j1 = 2 * b.ny;
    ctx.desc << b.str() << " D=" << D << " " << st.str();
    lat::Run r(st, b);
    ss::SimParam sp(lat::repose_for(b, D, s.sreal(0.4, 8)), 3, s.range(2, 5));
    ss::rng.seed(s.draw(1u << 30));
    long mx = -1000000, mn = 1000000, sq = 0;
    for (auto& c : st.c) {
        mx = std::max(mx, c.T);
        mn = std::min(mn, c.T);
        sq += c.T * c.T;
    }
    // large compared with the rounding errors of heights of up to 50 cells
    float tol = 1e-3f * b.cell_z;
    std::string where;
    bool unstable = model::any_unstable_terrain(st, D, i0, i1, j0, j1, &where);
    int it = 0;
    State prev = st;
    for (;; it++) {
        lat::set_area(r.o.impact_area_, i0, i1, j0, j1);
        r.o.equilibrium_ = false;
        ss::RelaxTerrain(&r.o, r.g, &r.body, sp, tol);
        State now = lat::from_sim(r.o, r.g);
        PBT_CHECK(now.total() == st.total(), "the amount of soil changed");
        long q = 0;
        for (auto& c : now.c) {
            PBT_CHECK(c.T <= mx && c.T >= mn, "height ", c.T, " outside the initial range [",
                      mn, ",", mx, "]");
            q += c.T * c.T;
        }
        // each avalanche lowers the sum of the squares: the loop must end
        if (r.o.equilibrium_) {
            PBT_CHECK(lat::norm(now) == lat::norm(prev), "changed while reporting equilibrium");
            break;
        }
        PBT_CHECK(q < sq, "iteration ", it, " made no progress");
        sq = q;
        prev = now;
    }
    State end = lat::from_sim(r.o, r.g);
    PBT_CHECK(!model::any_unstable_terrain(end, D, i0, i1, j0, j1, &where),
              "equilibrium reported but unstable: ", where);
    if (!unstable) PBT_CHECK(it == 0, "stable terrain was relaxed");
    ctx.maxi("iterations", it);
    ctx.label("iterations", it);
    ctx.nontrivial = unstable;
}

// Whole simulations iterated to equilibrium in each step.
void sim_eq(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.big = 2;
    so.vast = 1;
    so.scoop = 2;
    so.max_len = 6;
    so.max_box = 4;
    so.max_ratio = 3;
    sim::TrajOpt to;
    to.max_segments = 3;
    to.max_steps = 10;
    sim::World w(s, so, to);
    bool many = s.chance(4, 5);
    w.sp.max_iterations_ = many ? 400 : s.range(1, 20);
    ctx.desc << w.str() << " iterations=" << w.sp.max_iterations_;
    double dh = std::tan(static_cast<double>(w.sc.repose)) * w.sc.cell_xy / w.sc.cell_z;
    if (std::fabs(dh - std::floor(dh) - 0.5) < 1e-3) throw pbt::Discard();
    long D = std::lround(dh);
    // start from terrain that is stable everywhere, or as generated
    State st0 = lat::from_sim(w.o, w.g);
    int X = st0.X, Y = st0.Y;
    bool stable = false;
    std::string where;
    for (int it = 0; it < 3000; it++) {
        if (!model::any_unstable_terrain(st0, D, 1, X - 1, 1, Y - 1, &where)) {
            stable = true;
            break;
        }
        for (int i = 1; i < X - 1; i++)
            for (int j = 1; j < Y - 1; j++)
                for (auto& d : model::kDir4)
                    model::relax_terrain(&st0, i, j, i + d[0], j + d[1], D);
    }
    bool use = s.chance(3, 4);
    if (use && stable) {
        for (int i = 0; i < X; i++)
            for (int j = 0; j < Y; j++)
                w.o.terrain_[i][j] = static_cast<float>(
                    static_cast<double>(w.g.cell_size_z_) * st0.at(i, j).T);
    } else {
        stable = false;
    }
    bool prev_eq = true;
    int eqs = 0, ups = 0;
    for (size_t k = 0; k < w.traj.size(); k++) {
        if (!w.step(k)) continue;
        ups++;
        bool eq = w.o.equilibrium_;
        if (eq) {
            eqs++;
            State now = lat::from_sim(w.o, w.g);
            PBT_CHECK(!model::any_unstable_body(now, D, &where), "step ", k,
                      " reports equilibrium but unstable: ", where);
            PBT_CHECK(!model::any_unstable_terrain(
                          now, D, w.o.impact_area_[0][0], w.o.impact_area_[0][1],
                          w.o.impact_area_[1][0], w.o.impact_area_[1][1], &where),
                      "step ", k, " reports equilibrium but unstable: ", where);
            if (stable && prev_eq)
                PBT_CHECK(!model::any_unstable_terrain(now, D, 2, X - 1, 2, Y - 1, &where),
                          "step ", k, " reports equilibrium but unstable elsewhere: ", where);
        }
        prev_eq = prev_eq && eq;
    }
    ctx.label("steps", ups);
    if (eqs) ctx.label("steps at equilibrium", eqs);
    if (stable) ctx.label("started stable");
    if (!w.o.body_soil_pos_.empty()) ctx.label("soil on the body");
    ctx.nontrivial = eqs >= 2;
}

pbt::Register r1("C09.bare", bare);
pbt::Register r2("C09.sim", sim_eq, 60);

}  // namespace
