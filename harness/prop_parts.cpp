// C01, C02, C03 on the parts of a step: dense random states of walls, soil and
// terrain, met rarely in simulations of digging.
#include <cmath>
#include "lattice.hpp"

namespace {

struct Parts {
    lat::Bench b;
    lat::State st;
    ss::SimParam sp{0.85f, 3, 3};
    std::vector<int> list;
    std::vector<float> pos, ori;
};

const char* kName[] = {"UpdateBodySoil", "MoveIntersectingBodySoil", "MoveIntersectingBody",
                       "RelaxTerrain", "RelaxBodySoil"};

Parts gen(pbt::Src& s, pbt::Ctx& ctx) {
    Parts p;
    lat::GenOpt go;
    bool push = s.chance(1, 2), moved = push && s.chance(1, 3);
    if (push) {          // room for what is pushed out
        go.margin = moved ? 4 : 3;
        go.half_min = go.margin + 2;
        go.half_max = go.margin + 3;
    } else {
        go.half_max = 5;
    }
    go.body_pct = s.pick({60, 30, 90});
    go.penetrate_terrain = push && s.chance(1, 2);
    go.penetrate_soil = push && s.chance(1, 2);
    go.max_soil = s.pick({5, 2, 12});
    go.max_gap = s.pick({4, 1, 8});
    go.narrow = !moved;   // far from the centre a rotation moves soil out of the grid
    int wide = lat::widen(s, &go);
    p.b = lat::gen_bench(s, go);
    p.st = lat::gen_state(s, p.b, go);
    lat::lift(s, p.b, &p.st);
    p.pos = p.b.pos;
    p.ori = p.b.ori;
    if (moved) {
        p.list.push_back(0);
        for (int d = 0; d < 3; d++)
            p.pos[d] += s.sint(8) * 0.25f * (d == 2 ? p.b.cell_z : p.b.cell_xy);
        if (s.chance(1, 3)) p.ori = sim::qmul(p.ori, sim::axis_quat(0, 0, 1, s.sreal(0.08, 16)));
    }
    if (go.penetrate_terrain || go.penetrate_soil || moved) {
        p.list.push_back(1);
        p.list.push_back(2);
    }
    for (int n = s.range(p.list.empty() ? 1 : 0, 4); n > 0; n--) p.list.push_back(s.range(3, 4));
    long D = s.range(0, 4 * wide);
    p.sp = ss::SimParam(lat::repose_for(p.b, D, D ? s.sreal(0.4, 8) : 0.25), 3, 3);
    ss::rng.seed(s.draw(1u << 30));
    ctx.desc << p.b.str() << " D=" << D << " parts";
    for (int k : p.list) ctx.desc << " " << kName[k];
    if (moved) ctx.desc << " to " << sim::fmt(p.pos) << sim::fmt(p.ori);
    ctx.desc << ": " << p.st.str();
    return p;
}

// Calls check(o, g, k, name) after each part.
template <typename F>
void run(pbt::Src& s, pbt::Ctx& ctx, F check) {
    Parts p = gen(s, ctx);
    lat::Run r(p.st, p.b);
    int changed = 0;
    for (size_t k = 0; k < p.list.size(); k++) {
        sim::Snapshot was(r.o);
        double before = sim::total_cells(r.o, r.g);
        sim::reset_warn();
        switch (p.list[k]) {
            case 0: ss::UpdateBodySoil(&r.o, p.pos, p.ori, r.g, &r.body, sim::kTol); break;
            case 1: ss::MoveIntersectingBodySoil(&r.o, r.g, &r.body, sim::kTol); break;
            case 2: ss::MoveIntersectingBody(&r.o, sim::kTol); break;
            case 3: ss::RelaxTerrain(&r.o, r.g, &r.body, p.sp, sim::kTol); break;
            default: ss::RelaxBodySoil(&r.o, r.g, &r.body, p.sp, sim::kTol); break;
        }
        changed += !was.same(r.o);
        if (sim::warn().removed) ctx.label("soil removal warned");
        ctx.label(kName[p.list[k]]);
        check(r, p.list[k], before, std::string("part ") + std::to_string(k) + " " + kName[p.list[k]]);
    }
    ctx.nontrivial = changed > 0;
}

void mass(pbt::Src& s, pbt::Ctx& ctx) {
    run(s, ctx, [](lat::Run& r, int op, double before, const std::string& name) {
        double t = sim::total_cells(r.o, r.g);
        if (sim::warn().removed && op == 1)
            PBT_CHECK(t < before, name, " warned that soil was removed, and the amount went from ", before,
                      " to ", t);
        else
            PBT_CHECK(std::fabs(t - before) < 0.1, name, " changed the amount of soil from ", before, " to ", t,
                      " cells without a warning");
    });
}

void ledger(pbt::Src& s, pbt::Ctx& ctx) {
    run(s, ctx, [](lat::Run& r, int, double, const std::string& name) {
        std::string e = sim::ledger(r.o, r.g);
        PBT_CHECK(e.empty(), "after ", name, ": ", e);
    });
}

void valid(pbt::Src& s, pbt::Ctx& ctx) {
    run(s, ctx, [](lat::Run& r, int op, double, const std::string& name) {
        // soil and terrain enter walls until both have been moved out
        if (op >= 2) {
            std::string e = sim::physical(r.o, r.g);
            PBT_CHECK(e.empty(), "after ", name, ": ", e);
        }
        PBT_CHECK(sim::off_lattice(r.o, r.g) < 0.02, "after ", name,
                  " a height is no multiple of the cell height");
    });
}

const pbt::Register r1("C01.parts", mass);
const pbt::Register r2("C02.parts", ledger);
const pbt::Register r3("C03.parts", valid);

}  // namespace
