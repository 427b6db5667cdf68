// C01, C02, C03: invariants checked after every step of a simulation.
#include <cmath>
#include "sim.hpp"

using sim::World;

namespace {

struct Opts {
    sim::SceneOpt so;
    sim::TrajOpt to;
};

Opts opts(int family) {
    Opts o;
    switch (family) {
        case 0: break;                                  // ordinary use
        case 1: o.so.frac_xy = o.so.frac_z = true; break;   // off-lattice grids
        case 2:                                         // long digging histories
            o.to.max_segments = 10;
            o.to.max_steps = 18;
            o.so.max_len = 5;
            o.so.ratio_one = true;
            break;
        case 3:                                         // moves up to two cells
            o.to.max_cells = 2.0;
            break;
    }
    return o;
}

// Calls after(world, k, amount of soil before) after each step.
template <typename F>
void history(pbt::Src& s, pbt::Ctx& ctx, F after, bool loose = false) {
    int family = s.weighted({5, 2, 2, 1});
    Opts op = opts(family);
    op.so.big = 3;
    op.so.vast = 1;
    op.so.scoop = loose ? 640 : 6;
    op.so.loose = loose;
    op.to.longer = 1;
    World w(s, op.so, op.to);
    ctx.desc << w.str();
    ctx.label("family " + std::to_string(family));
    if (w.sc.scoop) ctx.label("digs along a parabola"), ctx.maxi("records while digging", 0);
    if (w.sc.big) ctx.label("body of 8 to 24 cells");
    if (std::max(w.g.half_length_x_, w.g.half_length_y_) > 127) ctx.label("more than 255 cells along an axis");
    sim::Snapshot start(w.o);
    bool had_soil = false;
    int updates = 0, removed = 0, to_terrain = 0;
    for (size_t k = 0; k < w.traj.size(); k++) {
        long before = sim::total_int(w.o, w.g);
        bool up = w.step(k);
        updates += up;
        removed += sim::warn().removed;
        to_terrain += sim::warn().to_terrain;
        had_soil |= !w.o.body_soil_pos_.empty();
        if (w.sc.scoop) ctx.maxi("records while digging", static_cast<double>(w.o.body_soil_pos_.size()));
        after(w, k, before);
    }
    ctx.label("steps", static_cast<int>(w.traj.size()));
    if (removed) ctx.label("soil removal warned");
    if (to_terrain) ctx.label("body soil returned to the terrain");
    if (had_soil) ctx.label("soil on the body");
    bool changed = start.terrain != w.o.terrain_;
    if (changed) ctx.label("terrain changed");
    ctx.nontrivial = updates >= 2 && (had_soil || changed);
    ctx.maxi("steps", static_cast<double>(w.traj.size()));
}

// ------------------------------------------------------------------- C01
void mass(pbt::Src& s, pbt::Ctx& ctx) {
    history(s, ctx, [&](World& w, size_t k, long before) {
        long t = sim::total_int(w.o, w.g);
        if (sim::warn().removed == 0) {
            PBT_CHECK(t == before, "step ", k, " changed the amount of soil from ",
                      before, " to ", t, " cells without a warning");
        } else {
            PBT_CHECK(t <= before, "step ", k, " created soil: ", before, " to ", t,
                      " cells");
        }
    });
}

// ------------------------------------------------------------------- C02
void ledger(pbt::Src& s, pbt::Ctx& ctx) {
    history(s, ctx, [&](World& w, size_t k, long) {
        std::string e = sim::ledger(w.o, w.g);
        PBT_CHECK(e.empty(), "after step ", k, ": ", e);
    });
}

// ------------------------------------------------------------------- C03
void valid(pbt::Src& s, pbt::Ctx& ctx) {
    history(s, ctx, [&](World& w, size_t k, long) {
        std::string e = sim::physical(w.o, w.g);
        PBT_CHECK(e.empty(), "after step ", k, ": ", e);
        double off = sim::off_lattice(w.o, w.g);
        ctx.maxi("distance to the height lattice [cells]", off);
        // the rounding errors of thousands of avalanches meet in a few columns
        PBT_CHECK(off < (w.sc.scoop ? 0.1 : 0.02), "after step ", k, ": a height is ", off,
                  " cells away from a multiple of the cell height");
    });
}

// Soil that keeps moving: the repose angle allows no or one cell of difference.
void mass_loose(pbt::Src& s, pbt::Ctx& ctx) {
    double first = 0;
    history(s, ctx, [&](World& w, size_t k, long before) {
        long t = sim::total_int(w.o, w.g);
        PBT_CHECK(sim::warn().removed ? t <= before : t == before, "step ", k,
                  " changed the amount of soil from ", before, " to ", t, " cells");
        // neither does it change by fractions that add up
        double x = sim::total_cells(w.o, w.g);
        if (k == 0 || sim::warn().removed) first = x;
        ctx.maxi("fraction of a cell gained or lost", std::fabs(x - first));
        PBT_CHECK(std::fabs(x - first) < 0.4, "after step ", k, " the soil has changed by ", x - first, " cells");
    }, true);
}
void valid_loose(pbt::Src& s, pbt::Ctx& ctx) {
    history(s, ctx, [&](World& w, size_t k, long) {
        double off = sim::off_lattice(w.o, w.g);
        ctx.maxi("distance to the height lattice [cells]", off);
        PBT_CHECK(off < 0.1, "after step ", k, ": a height is ", off,
                  " cells away from a multiple of the cell height");
        std::string e = sim::physical(w.o, w.g);
        PBT_CHECK(e.empty(), "after step ", k, ": ", e);
    }, true);
}

pbt::Register r1("C01.hist", mass);
pbt::Register r4("C01.loose", mass_loose);
pbt::Register r5("C03.loose", valid_loose);
pbt::Register r2("C02.hist", ledger);
pbt::Register r3("C03.hist", valid);

}  // namespace
