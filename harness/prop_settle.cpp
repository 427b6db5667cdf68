// C24: a step relaxes until the soil is at rest or its limit is reached.
#include <algorithm>
#include <cmath>
#include "model.hpp"
#include "sim.hpp"

using lat::State;

namespace {

bool same_soil(const ss::SimOut& a, const ss::SimOut& b) {
    return a.terrain_ == b.terrain_ && a.body_soil_ == b.body_soil_;
}

std::string first_diff(const ss::SimOut& a, const ss::SimOut& b) {
    for (size_t i = 0; i < a.terrain_.size(); i++)
        for (size_t j = 0; j < a.terrain_[0].size(); j++) {
            bool d = a.terrain_[i][j] != b.terrain_[i][j];
            for (int l = 0; l < 4; l++)
                d |= a.body_soil_[l][i][j] != b.body_soil_[l][i][j];
            if (d) return sim::cell_str(a, i, j) + " against " + sim::cell_str(b, i, j);
        }
    return "no cell";
}

// Allowed height difference in cells; 0 when it cannot be restored in whole
// cells, discards when a rounding decides.
long critical(const sim::Scene& sc) {
    double dh = std::tan(static_cast<double>(sc.repose)) * sc.cell_xy / sc.cell_z;
    if (std::fabs(dh - std::floor(dh) - 0.5) < 1e-3) throw pbt::Discard();
    return std::lround(dh);
}

// Heights are multiples of the cell height up to an accumulated rounding. A
// slope that exceeds the critical one only by such a rounding counts as
// unstable, but no whole cell can be moved to restore it.
bool rounding_decides(const ss::SimOut& o, const ss::Grid& g, long D) {
    auto surfaces = [&](int i, int j) {
        std::vector<double> v = {o.terrain_[i][j]};
        for (int l = 0; l < 4; l++) {
            v.push_back(o.body_[l][i][j]);
            v.push_back(o.body_soil_[l][i][j]);
        }
        return v;
    };
    double cz = g.cell_size_z_;
    for (int i = 1; i + 1 < static_cast<int>(o.terrain_.size()); i++)
        for (int j = 1; j + 1 < static_cast<int>(o.terrain_[0].size()); j++)
            for (auto& d : model::kDir4)
                for (double a : surfaces(i, j))
                    for (double b : surfaces(i + d[0], j + d[1])) {
                        double over = a - b - D * cz;
                        if (over > sim::kTol / 2 && over < 0.05 * cz) return true;
                    }
    return false;
}

// The longest relaxations seen took some hundred iterations.
constexpr int kLong = 20000;

// Unstable terrain: piles on what was generated, high ones take many passes.
void add_piles(pbt::Src& s, sim::World& w) {
    int X = w.o.terrain_.size(), Y = w.o.terrain_[0].size();
    int piles = s.range(0, 3);
    int high = s.pick({12, 12, 50});
    for (int p = 0; p < piles; p++) {
        int i = s.range(1, X - 2), j = s.range(1, Y - 2);
        int r = s.range(0, 2), h = s.range(1, high);
        for (int a = std::max(0, i - r); a <= std::min(X - 1, i + r); a++)
            for (int b = std::max(0, j - r); b <= std::min(Y - 1, j + r); b++)
                w.o.terrain_[a][b] += static_cast<float>(
                    h * static_cast<double>(w.g.cell_size_z_));
    }
}

// Every step of a history with several limits, from the same state and seed.
void limit(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.big = 1;
    so.vast = 1;
    so.max_len = 5;
    so.max_box = 5;
    so.max_ratio = 3;
    sim::TrajOpt to;
    to.max_segments = 3;
    to.max_steps = 6;
    to.max_cells = s.pick({1.0, 2.0});
    sim::World w(s, so, to);
    int N = s.range(1, 5);
    if (s.chance(1, 3)) add_piles(s, w);
    ctx.desc << w.str() << " limits up to " << N;
    long D = critical(w.sc);
    if (D < 1) throw pbt::Discard();
    int ups = 0, early = 0, settled = 0;
    for (size_t k = 0; k < w.traj.size(); k++) {
        const ss::SimOut o0 = w.o;
        const sim::AnyBody b0 = w.body;
        const std::mt19937 rng0 = ss::rng;
        auto with = [&](int n) {
            w.o = o0;
            w.body = b0;
            ss::rng = rng0;
            w.sp.max_iterations_ = n;
            return w.step(k);
        };
        if (!with(0)) continue;
        ups++;
        // one more pass over soil at rest does nothing
        auto at_rest = [&]() {
            ss::SimOut o = w.o;
            ss::RelaxTerrain(&o, w.g, w.body.get(), w.sp, sim::kTol);
            ss::RelaxBodySoil(&o, w.g, w.body.get(), w.sp, sim::kTol);
            PBT_CHECK(same_soil(o, w.o) && o.equilibrium_, "step ", k,
                      " ends at rest, but another pass moves soil: ", first_diff(w.o, o));
        };
        ss::SimOut prev = w.o;
        bool eq = false;
        for (int n = 1; n <= N; n++) {
            std::mt19937 rp = ss::rng;
            with(n);
            bool same = same_soil(prev, w.o);
            if (eq) {
                PBT_CHECK(same && ss::rng == rp && w.o.equilibrium_, "step ", k,
                          ": at rest within ", n - 1, " iterations, but a limit of ", n,
                          " gives another result: ", first_diff(prev, w.o));
            } else if (same) {
                PBT_CHECK(w.o.equilibrium_ || rounding_decides(w.o, w.g, D), "step ", k, ": iteration ", n,
                          " moves nothing, but no equilibrium is reported");
            }
            if (!eq && w.o.equilibrium_) {
                early++;
                std::mt19937 after = ss::rng;
                at_rest();
                ss::rng = after;
            }
            eq = w.o.equilibrium_;
            prev = w.o;
        }
        if (!eq) {
            with(10);
            if (!w.o.equilibrium_) ctx.label("more than 10 passes");
            for (int n = 50; n <= kLong && !w.o.equilibrium_; n *= 20) {
                with(n);
                if (rounding_decides(w.o, w.g, D)) break;
            }
            if (!w.o.equilibrium_ && rounding_decides(w.o, w.g, D)) {
                ctx.label("left to a rounding");
                break;
            }
            PBT_CHECK(w.o.equilibrium_, "step ", k, " does not settle within ", kLong,
                      " iterations");
            at_rest();
            settled++;
            // go on with the short run, so that states that have not settled
            // are followed as well
            if (s.chance(1, 2)) with(N);
        }
    }
    ctx.label("steps", ups);
    if (early) ctx.label("settled within the first limits", early);
    if (settled) ctx.label("settled later", settled);
    if (!w.o.body_soil_pos_.empty()) ctx.label("soil on the body");
    ctx.nontrivial = ups >= 2 && early + settled > 0;
}

// A body hovering over bare terrain and moved vertically only: n steps of one
// iteration do what one step of n iterations does.
void hover(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.max_len = 5;
    so.max_box = 5;
    so.max_ratio = 3;
    sim::TrajOpt to;
    to.max_segments = 1;
    to.max_steps = 1;
    sim::World w(s, so, to);
    long D = critical(w.sc);
    if (D < 1) throw pbt::Discard();
    int X = w.o.terrain_.size(), Y = w.o.terrain_[0].size();
    double top = 0;
    add_piles(s, w);
    double bottom = 0;
    for (auto& c : w.o.terrain_)
        for (float h : c) {
            top = std::max<double>(top, h);
            bottom = std::min<double>(bottom, h);
        }
    double cell = std::min(w.sc.cell_xy, w.sc.cell_z);
    double zmax = w.g.half_length_z_ * static_cast<double>(w.sc.cell_z);
    double reach = w.sc.radius + 3 * w.sc.cell_xy;
    double z = top + reach + 2 * w.sc.cell_z;
    if (z + 2 * cell + reach > zmax) {
        // a higher grid for the same scene
        w.sc.nz = static_cast<int>((z + 2 * cell + 2 * reach) / w.sc.cell_z) + 2;
        ss::Grid g = w.sc.grid();
        ss::SimOut o(g);
        o.terrain_ = w.o.terrain_;
        w.g = g;
        w.o = o;
    }
    sim::Pose low = w.traj[0], high;
    low.pos[2] = static_cast<float>(z);
    high = low;
    high.pos[2] = static_cast<float>(z + 1.5 * cell);
    sim::Pose far = low;
    far.pos[2] = static_cast<float>(z + 3.5 * cell);
    w.traj = {low, high, far};
    int n = s.range(0, 6);
    ctx.desc << w.str() << " iterations=" << n << " D=" << D;
    // take the place of the first pose without relaxing
    w.sp.max_iterations_ = 0;
    ss::SimOut start = w.o;
    bool ok = w.step(1);
    PBT_CHECK(ok, "the first step is refused");
    PBT_CHECK(same_soil(start, w.o), "a step without iterations moved soil: ",
              first_diff(start, w.o));
    const ss::SimOut o0 = w.o;
    const sim::AnyBody b0 = w.body;
    const std::mt19937 rng0 = ss::rng;
    auto reset = [&](int it) {
        w.o = o0;
        w.body = b0;
        ss::rng = rng0;
        w.sp.max_iterations_ = it;
    };
    reset(n);
    w.step(0);
    const ss::SimOut once = w.o;
    const std::mt19937 rng1 = ss::rng;
    reset(1);
    for (int k = 0; k < n; k++) w.step(k % 2);
    PBT_CHECK(same_soil(once, w.o) && ss::rng == rng1, n, " steps of one iteration and one step of ",
              n, " iterations differ: ", first_diff(once, w.o));
    PBT_CHECK(n == 0 || once.equilibrium_ == w.o.equilibrium_, n,
              " steps of one iteration report ", w.o.equilibrium_, " and one step of ", n,
              " iterations ", once.equilibrium_);
    // settles
    reset(kLong);
    w.step(0);
    PBT_CHECK(w.o.equilibrium_, "does not settle within ", kLong, " iterations");
    State end = lat::from_sim(w.o, w.g);
    std::string where;
    PBT_CHECK(!model::any_unstable_terrain(end, D, w.o.body_area_[0][0], w.o.body_area_[0][1],
                                           w.o.body_area_[1][0], w.o.body_area_[1][1], &where),
              "settled but unstable: ", where);
    // the first pass covers the whole grid, each further one what the former moved
    PBT_CHECK(!model::any_unstable_terrain(end, D, 2, X - 1, 2, Y - 1, &where),
              "settled but unstable away from the body: ", where);
    bool moved = !same_soil(start, w.o);
    if (moved) ctx.label("avalanches");
    reset(10);
    w.step(0);
    if (!w.o.equilibrium_) ctx.label("more than 10 passes");
    if (moved && !once.equilibrium_) ctx.label("cut short by the limit");
    ctx.nontrivial = moved;
}

// A heap collapses below a body hovering above, which may leave: the
// avalanches go on where they are, over as many steps as it takes, and no
// unstable slope is left anywhere once the equilibrium is reported.
void heap(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    sim::SceneOpt so;
    so.max_len = 5;
    so.max_box = 5;
    so.max_ratio = 3;
    so.allow_zero_it = false;
    sim::Scene sc = sim::gen_scene(s, so);
    if (s.chance(2, 3))          // a flat angle: the heap runs far
        sc.repose = static_cast<float>(std::atan(s.real(0.6, 1.4, 32) * sc.cell_z / sc.cell_xy));
    long D = critical(sc);
    if (D < 1) throw pbt::Discard();
    int extra = s.range(0, 30);
    sc.nx += extra;
    sc.ny += s.chance(1, 3) ? s.range(0, 30) : extra;
    int hw = s.range(1, 5), hh = s.chance(1, 3) ? s.range(20, 60) : s.range(4, 20);
    hw = std::min(hw, std::min(sc.nx, sc.ny) - 2);
    int ci = sc.nx + s.sint(std::min(8, sc.nx - hw - 1)), cj = sc.ny + s.sint(std::min(8, sc.ny - hw - 1));
    long base = s.sint(8);
    double z = (base + hh + 2) * static_cast<double>(sc.cell_z) + sc.radius + 3 * sc.cell_xy;
    double cell = std::min(sc.cell_xy, sc.cell_z);
    sc.nz = std::max(sc.nz, static_cast<int>((z + 4 * cell + 2 * sc.radius) / sc.cell_z) + 4);
    ss::Grid g = sc.grid();
    ss::SimOut o(g);
    int X = o.terrain_.size(), Y = o.terrain_[0].size();
    for (int i = 0; i < X; i++)
        for (int j = 0; j < Y; j++) {
            bool in = std::abs(i - ci) <= hw && std::abs(j - cj) <= hw;
            long k = base + (in ? hh : 0);
            o.terrain_[i][j] = static_cast<float>(static_cast<double>(g.cell_size_z_) * k);
        }
    sim::AnyBody body(sc);
    // two poses in turn, at the same place or moving away
    double bx = sc.box_x, by = sc.box_y;
    sim::Pose p{{static_cast<float>(s.sreal(1.0, 16) * bx), static_cast<float>(s.sreal(1.0, 16) * by),
                 static_cast<float>(z)},
                {1, 0, 0, 0}};
    double vx = s.chance(1, 2) ? s.sreal(1.0, 4) * sc.cell_xy : 0;
    int it = s.pick({3, 1, 10, 40, 400});
    ss::SimParam sp(sc.repose, it, sc.buffer);
    ss::SoilDynamics sd;
    ss::rng.seed(s.draw(1u << 30));
    ctx.desc << sc.str() << " iterations=" << it << " D=" << D << " heap of " << 2 * hw + 1 << "x" << hh
             << " on " << base << " at (" << ci << "," << cj << ") body at " << sim::fmt(p.pos) << " moved by " << vx;
    double total = sim::total_cells(o, g);
    bool eq = false;
    int steps = 0, passes = 0;
    std::string where;
    for (; passes < kLong && !eq; steps++) {
        sim::Pose q = p;
        q.pos[2] = static_cast<float>(z + (steps % 2 ? 1.5 : 0) * cell);
        double x = p.pos[0] + steps * vx;
        if (std::fabs(x) > bx) x = std::copysign(bx, x);
        q.pos[0] = static_cast<float>(x);
        body.get()->pos_[2] = static_cast<float>(z + (steps % 2 ? 0 : 1.5) * cell);
        PBT_CHECK(body.step(&sd, &o, q, g, sp), "step ", steps, " is refused");
        eq = o.equilibrium_;
        passes += it;
    }
    PBT_CHECK(std::fabs(sim::total_cells(o, g) - total) < 0.1, "the amount of soil changed");
    if (!eq && rounding_decides(o, g, D)) {
        ctx.label("left to a rounding");
        return;
    }
    PBT_CHECK(eq, "does not settle within ", kLong, " iterations");
    State end = lat::from_sim(o, g);
    PBT_CHECK(!model::any_unstable_terrain(end, D, 2, X - 1, 2, Y - 1, &where),
              "equilibrium reported but unstable: ", where);
    int far = 0;
    for (int i = 0; i < X; i++)
        for (int j = 0; j < Y; j++)
            if (end.at(i, j).T > base)
                far = std::max({far, o.body_area_[0][0] - i, i - o.body_area_[0][1] + 1,
                                o.body_area_[1][0] - j, j - o.body_area_[1][1] + 1});
    ctx.label(far > 20 ? "runs further than 20 cells from the body" : far > 10 ? "runs 11 to 20 cells away"
              : far > 2 ? "runs 3 to 10 cells away" : "stays near the body");
    ctx.maxi("steps", steps);
    ctx.nontrivial = hh > D;
}

pbt::Register r0("C09.heap", heap, 60);
pbt::Register r1("C24.limit", limit, 60);
pbt::Register r2("C24.hover", hover, 60);

}  // namespace
