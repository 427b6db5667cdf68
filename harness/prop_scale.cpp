// C25: the unit of length does not matter.  C26: which of the two layers a
// wall is stored in does not matter.
#include <algorithm>
#include <cmath>
#include "lattice.hpp"

namespace {

using Layers = std::vector<std::vector<std::vector<float>>>;

std::vector<float> scaled(std::vector<float> v, float f) {
    for (float& x : v) x *= f;
    return v;
}

// The same simulation with all lengths multiplied by a power of two, which is
// exact in floating point.
struct Scaled {
    sim::Scene sc;
    ss::Grid g;
    ss::SimParam sp;
    ss::SimOut o;
    sim::AnyBody body;
    ss::SoilDynamics dyn;
    std::vector<sim::Pose> traj;
    float f;
    static sim::Scene scene(sim::Scene sc, float f) {
        sc.cell_xy *= f;
        sc.cell_z *= f;
        sc.o = scaled(sc.o, f);
        sc.j = scaled(sc.j, f);
        sc.b = scaled(sc.b, f);
        sc.t = scaled(sc.t, f);
        sc.width *= f;
        sc.radius *= f;
        return sc;
    }
    Scaled(const sim::World& w, float f_)
        : sc(scene(w.sc, f_)), g(sc.grid()), sp(w.sp), o(g), body(sc), traj(w.traj), f(f_) {
        for (auto& p : traj) p.pos = scaled(p.pos, f);
        o.terrain_ = w.o.terrain_;
        for (auto& c : o.terrain_)
            for (float& h : c) h *= f;
    }
    bool step(size_t k) {
        if (body.kind == sim::BodyKind::bucket)
            return dyn.Step(&o, traj[k].pos, traj[k].ori, g, &body.bucket, sp, sim::kTol * f);
        return dyn.Step(&o, traj[k].pos, traj[k].ori, g, &body.blade, sp, sim::kTol * f);
    }
};

std::string differs(const Layers& a, const Layers& b, float f) {
    std::ostringstream e;
    e.precision(9);
    for (size_t l = 0; l < a.size(); l++)
        for (size_t i = 0; i < a[l].size(); i++)
            for (size_t j = 0; j < a[l][i].size(); j++)
                if (a[l][i][j] * f != b[l][i][j]) {
                    e << "[" << l << "](" << i << "," << j << ") is " << a[l][i][j] << ", in the other unit "
                      << b[l][i][j] / f;
                    return e.str();
                }
    return "";
}

void scale(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.big = 2;
    so.vast = 1;
    so.max_len = 6;
    so.max_box = 5;
    so.frac_xy = s.chance(1, 4);
    so.frac_z = s.chance(1, 4);
    sim::TrajOpt to;
    to.longer = 1;
    to.max_segments = 4;
    to.max_steps = 10;
    to.max_cells = s.pick({1.0, 2.0});
    sim::World w(s, so, to);
    int e = s.pick({1, -1, 2, -2, 3, -3});
    float f = std::ldexp(1.0f, e);
    Scaled v(w, f);
    ctx.desc << w.str() << " lengths times " << f;
    PBT_CHECK(v.g.half_length_x_ == w.g.half_length_x_ && v.g.half_length_y_ == w.g.half_length_y_ &&
              v.g.half_length_z_ == w.g.half_length_z_, "the grid has another number of cells");
    PBT_CHECK(v.g.cell_area_ == w.g.cell_area_ * f * f && v.g.cell_volume_ == w.g.cell_volume_ * f * f * f,
              "the area or volume of a cell does not scale");
    for (size_t i = 0; i < w.g.vect_x_.size(); i++)
        PBT_CHECK(v.g.vect_x_[i] == w.g.vect_x_[i] * f, "position ", i, " of the grid does not scale");
    for (size_t i = 0; i < w.g.vect_z_.size(); i++)
        PBT_CHECK(v.g.vect_z_[i] == w.g.vect_z_[i] * f, "height ", i, " of the grid does not scale");
    // The tolerance is a length everywhere but where the corners of the body are
    // moved by a fraction of the edges: poses for which that matters are left out.
    for (auto& p : w.traj) {
        auto raster = [&](float tol) {
            ss::SimOut o(w.g);
            sim::AnyBody b(w.sc);
            if (b.kind == sim::BodyKind::bucket) ss::CalcBodyPos(&o, p.pos, p.ori, w.g, &b.bucket, w.sp, tol);
            else ss::CalcBodyPos(&o, p.pos, p.ori, w.g, &b.blade, w.sp, tol);
            return o.body_;
        };
        if (raster(sim::kTol) != raster(sim::kTol * f)) throw pbt::Discard();
    }
    const auto start = w.o.terrain_;
    std::mt19937 rng = ss::rng;
    int ups = 0, loaded = 0, removed = 0;
    for (size_t k = 0; k < w.traj.size(); k++) {
        ss::rng = rng;
        sim::reset_warn();
        bool ua = w.step(k);
        std::mt19937 after = ss::rng;
        const sim::Warn was = sim::warn();
        int warned = was.removed + was.to_terrain;
        ss::rng = rng;
        sim::reset_warn();
        bool ub = v.step(k);
        PBT_CHECK(ua == ub, "step ", k, " returned ", ua, ", in the other unit ", ub);
        const sim::Warn& now = sim::warn();
        PBT_CHECK(was.removed == now.removed && was.to_terrain == now.to_terrain &&
                  was.large_move == now.large_move && was.other == now.other, "step ", k,
                  ": other warnings in the other unit");
        removed += warned;
        std::string d = differs(w.o.body_, v.o.body_, f);
        PBT_CHECK(d.empty(), "step ", k, ": body", d);
        d = differs({w.o.terrain_}, {v.o.terrain_}, f);
        PBT_CHECK(d.empty(), "step ", k, ": terrain", d);
        d = differs(w.o.body_soil_, v.o.body_soil_, f);
        PBT_CHECK(d.empty(), "step ", k, ": body soil", d);
        auto &ea = w.o.body_soil_pos_, &eb = v.o.body_soil_pos_;
        PBT_CHECK(ea.size() == eb.size(), "step ", k, ": ", ea.size(), " records, in the other unit ", eb.size());
        for (size_t n = 0; n < ea.size(); n++)
            PBT_CHECK(ea[n].ind == eb[n].ind && ea[n].ii == eb[n].ii && ea[n].jj == eb[n].jj &&
                      ea[n].x_b * f == eb[n].x_b && ea[n].y_b * f == eb[n].y_b &&
                      ea[n].z_b * f == eb[n].z_b && ea[n].h_soil * f == eb[n].h_soil,
                      "step ", k, ": record ", n, " does not scale");
        PBT_CHECK(after == ss::rng, "step ", k, ": the random numbers used differ");
        PBT_CHECK(w.o.equilibrium_ == v.o.equilibrium_, "step ", k, ": equilibrium differs");
        for (int a = 0; a < 2; a++)
            for (int h = 0; h < 2; h++)
                PBT_CHECK(w.o.body_area_[a][h] == v.o.body_area_[a][h] &&
                          w.o.relax_area_[a][h] == v.o.relax_area_[a][h] &&
                          w.o.impact_area_[a][h] == v.o.impact_area_[a][h],
                          "step ", k, ": an active area differs");
        rng = after;
        ups += ua;
        loaded += !ea.empty();
    }
    ctx.label("steps", ups);
    if (loaded) ctx.label("steps with soil on the body", loaded);
    if (removed) ctx.label("with warnings");
    ctx.nontrivial = ups >= 2 && w.o.terrain_ != start;
}
const pbt::Register r1("C25.scale", scale, 60);


// ------------------------------------------------------------------- layers
void swap_layers(ss::SimOut* o) {
    std::swap(o->body_[0], o->body_[2]);
    std::swap(o->body_[1], o->body_[3]);
    std::swap(o->body_soil_[0], o->body_soil_[2]);
    std::swap(o->body_soil_[1], o->body_soil_[3]);
    for (auto& e : o->body_soil_pos_) e.ind = 2 - e.ind;
}

// Does the terrain enter both walls of a cell?  They are emptied in the order
// in which the walls are stored.
bool both_in_terrain(const ss::SimOut& o) {
    for (size_t i = 0; i < o.terrain_.size(); i++)
        for (size_t j = 0; j < o.terrain_[0].size(); j++)
            if (sim::body_at(o, 0, i, j) && sim::body_at(o, 2, i, j) &&
                o.terrain_[i][j] > std::max(o.body_[0][i][j], o.body_[2][i][j]))
                return true;
    return false;
}

struct Ops {
    ss::Grid g;
    ss::SimParam sp;
    ss::Body* body;
    std::vector<float> pos, ori;
    void run(int op, ss::SimOut* o) const {
        switch (op) {
            case 0: ss::UpdateBodySoil(o, pos, ori, g, body, sim::kTol); break;
            case 1: ss::MoveIntersectingBodySoil(o, g, body, sim::kTol); break;
            case 2: ss::MoveIntersectingBody(o, sim::kTol); break;
            case 3: ss::RelaxTerrain(o, g, body, sp, sim::kTol); break;
            default: ss::RelaxBodySoil(o, g, body, sp, sim::kTol); break;
        }
    }
};

// Applies the operations to o and to o with the layers swapped; returns the
// number of operations that changed something.
int both_ways(const Ops& ops, const std::vector<int>& list, ss::SimOut* o) {
    int changed = 0;
    const double eps = 1e-3 * ops.g.cell_size_z_;
    auto eq = [&](float a, float b) { return std::fabs(a - b) <= eps; };
    for (size_t k = 0; k < list.size(); k++) {
        if (list[k] == 0) {
            // not compared: of two walls at the same distance either is right
            ops.run(0, o);
            continue;
        }
        if (list[k] == 2 && both_in_terrain(*o)) continue;
        sim::Snapshot was(*o);
        // only this operation is compared
        ss::SimOut m = *o;
        swap_layers(&m);
        std::mt19937 rng = ss::rng;
        sim::reset_warn();
        ops.run(list[k], o);
        const sim::Warn w = sim::warn();
        std::mt19937 after = ss::rng;
        ss::rng = rng;
        sim::reset_warn();
        ops.run(list[k], &m);
        ss::SimOut r = m;
        swap_layers(&r);
        for (size_t i = 0; i < r.terrain_.size(); i++)
            for (size_t j = 0; j < r.terrain_[0].size(); j++) {
                bool same = eq(o->terrain_[i][j], r.terrain_[i][j]);
                for (int l = 0; l < 4; l++)
                    same = same && o->body_[l][i][j] == r.body_[l][i][j] &&
                           eq(o->body_soil_[l][i][j], r.body_soil_[l][i][j]);
                PBT_CHECK(same, "operation ", list[k], " gives ", sim::cell_str(*o, i, j),
                          ", with the layers swapped ", sim::cell_str(r, i, j));
            }
        auto &ea = o->body_soil_pos_, &eb = r.body_soil_pos_;
        PBT_CHECK(ea.size() == eb.size(), "operation ", list[k], " leaves ", ea.size(),
                  " records, with the layers swapped ", eb.size());
        for (size_t n = 0; n < ea.size(); n++)
            PBT_CHECK(ea[n].ind == eb[n].ind && ea[n].ii == eb[n].ii && ea[n].jj == eb[n].jj &&
                      eq(ea[n].x_b, eb[n].x_b) && eq(ea[n].y_b, eb[n].y_b) &&
                      eq(ea[n].z_b, eb[n].z_b) && eq(ea[n].h_soil, eb[n].h_soil),
                      "operation ", list[k], ": record ", n, " differs with the layers swapped");
        PBT_CHECK(after == ss::rng, "operation ", list[k], ": the random numbers used differ");
        PBT_CHECK(o->equilibrium_ == r.equilibrium_, "operation ", list[k],
                  ": equilibrium differs with the layers swapped");
        PBT_CHECK(w.removed == sim::warn().removed && w.to_terrain == sim::warn().to_terrain,
                  "operation ", list[k], ": other warnings with the layers swapped");
        changed += !was.same(*o);
    }
    return changed;
}

void layers(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    lat::GenOpt go;
    bool push = s.chance(1, 2);
    if (push) {          // room for what is pushed out
        go.half_min = 5;
        go.half_max = 6;
        go.margin = 3;
    } else {
        go.half_max = 5;
    }
    go.body_pct = s.pick({60, 30, 90});
    go.penetrate_terrain = push && s.chance(1, 2);
    go.penetrate_soil = push && s.chance(2, 3);
    go.max_soil = s.pick({5, 2, 9});
    go.narrow = true;
    int wide = lat::widen(s, &go);
    lat::Bench b = lat::gen_bench(s, go);
    lat::State st = lat::gen_state(s, b, go);
    lat::lift(s, b, &st);
    long D = s.range(1, 4 * wide);
    std::vector<int> list;
    if (push && s.chance(1, 3)) list.push_back(0);
    if (go.penetrate_terrain || go.penetrate_soil || !list.empty())
        list.insert(list.end(), {1, 2});
    for (int n = s.range(list.empty() ? 1 : 0, 4); n > 0; n--) list.push_back(s.range(3, 4));
    lat::Run r(st, b);
    Ops ops{r.g, ss::SimParam(lat::repose_for(b, D, s.sreal(0.4, 8)), 3, 3), &r.body, b.pos, b.ori};
    for (int d = 0; d < 3; d++)
        ops.pos[d] += s.sint(8) * 0.25f * (d == 2 ? b.cell_z : b.cell_xy);
    ss::rng.seed(s.draw(1u << 30));
    ctx.desc << b.str() << " D=" << D << " ops";
    for (int k : list) ctx.desc << " " << k;
    ctx.desc << ": " << st.str();
    int changed = both_ways(ops, list, &r.o);
    if (!st.e.empty()) ctx.label("soil on the body");
    if (list[0] == 0) ctx.label("body moved");
    ctx.label("operations that changed something", changed);
    ctx.nontrivial = changed > 0;
}
const pbt::Register r2("C26.layers", layers);

// States met in simulations.
void met(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.max_len = 6;
    so.max_box = 4;
    so.scoop = 2;
    sim::TrajOpt to;
    to.longer = 1;
    to.max_segments = 3;
    to.max_steps = 10;
    sim::World w(s, so, to);
    ctx.desc << w.str();
    int changed = 0, loaded = 0;
    for (size_t k = 0; k + 1 < w.traj.size(); k++) {
        if (!w.step(k)) continue;
        if (!s.chance(1, 2)) continue;
        // the next pose is taken, then everything but the footprint is done
        // both ways
        ss::SimOut o = w.o;
        sim::AnyBody next = w.body;
        sim::Pose p = w.traj[k + 1];
        std::mt19937 rng = ss::rng;
        next.calc_pos(&o, p, w.g, w.sp);
        Ops ops{w.g, w.sp, next.get(), p.pos, p.ori};
        changed += both_ways(ops, {0, 1, 2, 3, 4, 3, 4}, &o);
        loaded += !w.o.body_soil_pos_.empty();
        ss::rng = rng;
    }
    if (loaded) ctx.label("states with soil on the body", loaded);
    ctx.label("operations that changed something", changed);
    ctx.nontrivial = changed > 0;
}
const pbt::Register r3("C26.met", met, 60);

}  // namespace
