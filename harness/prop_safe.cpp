// C19: valid use never crashes, hangs, throws or touches foreign memory.
// Built with sanitizers; no result is judged beyond being finite.
#include <algorithm>
#include "sim.hpp"

namespace {

void finite(const sim::World& w, size_t k) {
    auto bad = [](float f) { return !std::isfinite(f); };
    for (size_t i = 0; i < w.o.terrain_.size(); i++)
        for (size_t j = 0; j < w.o.terrain_[0].size(); j++) {
            bool b = bad(w.o.terrain_[i][j]);
            for (int l = 0; l < 4; l++) b = b || bad(w.o.body_[l][i][j]) || bad(w.o.body_soil_[l][i][j]);
            PBT_CHECK(!b, "step ", k, ": a height at (", i, ",", j, ") is not finite");
        }
    for (auto& e : w.o.body_soil_pos_) {
        PBT_CHECK(!bad(e.x_b) && !bad(e.y_b) && !bad(e.z_b) && !bad(e.h_soil), "step ", k,
                  ": a record is not finite");
        PBT_CHECK((e.ind == 0 || e.ind == 2) && e.ii >= 0 && e.jj >= 0 &&
                  e.ii < static_cast<int>(w.o.terrain_.size()) &&
                  e.jj < static_cast<int>(w.o.terrain_[0].size()), "step ", k,
                  ": a record points outside the grid");
    }
    const int X = w.o.terrain_.size(), Y = w.o.terrain_[0].size();
    PBT_CHECK(w.o.body_area_[0][0] >= 0 && w.o.body_area_[1][0] >= 0 && w.o.body_area_[0][1] <= X &&
              w.o.body_area_[1][1] <= Y, "step ", k, ": the body area leaves the grid");
}

void run(pbt::Src& s, pbt::Ctx& ctx, sim::SceneOpt so) {
    sim::TrajOpt to;
    to.max_segments = 4;
    to.max_steps = 8;
    to.max_cells = s.pick({1.0, 1.0, 2.0, 6.0});
    sim::World w(s, so, to);
    int jumps = 0;
    if (s.chance(1, 3)) {
        int n = s.range(1, 5);
        for (int k = 0; k < n; k++) {
            w.traj.insert(w.traj.begin() + s.range(0, static_cast<int>(w.traj.size())),
                          sim::gen_pose(s, w.sc, w.top - w.sc.box_z - 0.5 * w.sc.radius,
                                        w.top + w.sc.radius));
            jumps++;
        }
    }
    ctx.desc << w.str();
    int ups = 0, loaded = 0;
    long vol = sim::total_int(w.o, w.g);
    for (size_t k = 0; k < w.traj.size(); k++) {
        ups += w.step(k);
        finite(w, k);
        loaded += !w.o.body_soil_pos_.empty();
        if (s.chance(1, 6)) w.dyn.Check(&w.o, static_cast<int>(vol), w.g, sim::kTol);
    }
    ctx.label("steps", ups);
    if (loaded) ctx.label("steps with soil on the body", loaded);
    if (jumps) ctx.label("jumps", jumps);
    if (w.sc.max_it == 0) ctx.label("no iteration");
    ctx.nontrivial = ups >= 2;
}

// The body comes close to the border, two free cells are left.
void near(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.max_len = s.pick({5, 4, 7});
    so.max_box = s.pick({4, 2, 6});
    so.small_margin = true;
    const char* m = getenv("SAFE_MARGIN");
    so.margin = m ? atoi(m) : s.pick({2, 3});
    so.max_ratio = s.pick({3, 2, 8, 20});
    so.frac_xy = s.chance(1, 3);
    so.frac_z = s.chance(1, 3);
    run(s, ctx, so);
}
const pbt::Register r1("C19.near", near, 60);

// Anything, away from the border.
void wide(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.big = 2;
    so.vast = 1;
    so.max_len = s.pick({6, 4, 10});
    so.max_box = s.pick({3, 6});
    so.max_ratio = s.pick({5, 20});
    run(s, ctx, so);
}
const pbt::Register r2("C19.wide", wide, 60);

}  // namespace
