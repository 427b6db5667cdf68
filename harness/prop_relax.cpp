// C07, C08: the avalanche rules against exact whole-cell models.
#include <algorithm>
#include <set>
#include "model.hpp"

using lat::Bench;
using lat::Cell;
using lat::Entry;
using lat::GenOpt;
using lat::State;

namespace {

void check_after(const ss::SimOut& o, const ss::Grid& g, const Bench& b,
                 const State& before, const State& after) {
    PBT_CHECK(before.total() == after.total(), "the amount of soil changed from ",
              before.total(), " to ", after.total());
    std::string e = lat::ledger(after);
    PBT_CHECK(e.empty(), e);
    e = lat::entry_positions(o, g, b);
    PBT_CHECK(e.empty(), e);
}

Cell free_cell(long T) {
    Cell c;
    c.T = T;
    return c;
}

// ------------------------------------------------------------- C07: pairs
void terrain_pair(pbt::Src& s, pbt::Ctx& ctx) {
    GenOpt go;
    go.half_min = 2;
    go.half_max = 3;
    go.max_gap = 5;
    go.narrow = true;
    int k = lat::widen(s, &go);
    Bench b = lat::gen_bench(s, go);
    State st;
    st.X = 2 * b.nx + 1;
    st.Y = 2 * b.ny + 1;
    st.c.assign(st.X * st.Y, Cell());
    int i = s.range(1, st.X - 2), j = s.range(1, st.Y - 2);
    auto& d = model::kDir4[s.draw(4)];
    int ic = i + d[0], jc = j + d[1];
    long D = s.range(s.chance(1, 12) ? 0 : 1, 6 * k);
    go.body_pct = 85;
    st.at(ic, jc) = lat::gen_cell(s, go, true);
    Cell& c = st.at(ic, jc);
    go.body_pct = 25;
    st.at(i, j) = lat::gen_cell(s, go, true);
    // the source: around what the neighbour offers
    std::vector<long> levels = {c.T};
    for (int l = 0; l < 2; l++)
        if (c.b[l]) {
            levels.push_back(c.hi[l] + c.s[l]);
            levels.push_back(c.lo[l]);
        }
    long H = levels[s.draw(static_cast<uint32_t>(levels.size()))] + D + s.sint(3);
    if (s.chance(1, 3)) H += s.range(0, 8 * k);
    Cell& src = st.at(i, j);
    long up = H - src.T;
    src.T += up;
    for (int l = 0; l < 2; l++) { src.lo[l] += src.b[l] ? up : 0; src.hi[l] += src.b[l] ? up : 0; }
    lat::gen_entries(s, &st);
    H += lat::lift(s, b, &st);
    ctx.desc << b.str() << " D=" << D << " (" << i << "," << j << ")->(" << ic << ","
             << jc << ") " << st.str();
    lat::Run r(st, b);
    float dh = static_cast<float>(r.g.cell_size_z_ * D);
    float hmin = r.o.terrain_[i][j] - dh;
    State want = st;
    model::Recv rc = model::terrain_recv(st.at(ic, jc), H - D);
    int status = ss::CheckUnstableTerrainCell(&r.o, ic, jc, hmin, sim::kTol);
    PBT_CHECK(status == (rc.unstable ? rc.status : 0), "status ", status,
              ", expected ", rc.unstable ? rc.status : 0);
    ctx.label("status " + std::to_string(status));
    if (!rc.unstable) return;
    ctx.nontrivial = true;
    model::relax_terrain(&want, i, j, ic, jc, D);
    long m = H - want.at(i, j).T;
    if (rc.room >= 0 && m == rc.room) ctx.label("limited by the space available");
    ss::RelaxUnstableTerrainCell(&r.o, status, dh, i, j, ic, jc, r.g, &r.body, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    PBT_CHECK(lat::norm(got) == lat::norm(want), "wrong avalanche (got vs expected): ",
              lat::diff(lat::norm(got), lat::norm(want), st.Y));
    check_after(r.o, r.g, b, st, got);
}

// ----------------------------------------- C07: whole passes on few cells
void terrain_pass(pbt::Src& s, pbt::Ctx& ctx) {
    GenOpt go;
    go.half_min = 3;
    go.half_max = 4;
    int wide = lat::widen(s, &go);
    Bench b = lat::gen_bench(s, go);
    long D = s.range(1, 4 * wide);
    State st;
    st.X = 2 * b.nx + 1;
    st.Y = 2 * b.ny + 1;
    st.c.assign(st.X * st.Y, Cell());
    long base = s.sint(4);
    for (auto& c : st.c) c = free_cell(base);
    int n = s.range(1, 2);
    std::vector<std::pair<int, int>> pil;
    int pi = s.range(2, st.X - 3), pj = s.range(2, st.Y - 3);
    for (int k = 0; k < n; k++) {
        if (k == 1) {
            auto& d = model::kDir4[s.draw(4)];
            int step = s.range(1, 2);
            pi = std::clamp(pi + step * d[0], 2, st.X - 3);
            pj = std::clamp(pj + step * d[1], 2, st.Y - 3);
        }
        st.at(pi, pj).T = base + D + s.range(1, 9 * wide);
        pil.push_back({pi, pj});
    }
    // walls around
    go.body_pct = 60;
    for (auto& p : pil)
        for (auto& d : model::kDir4) {
            int i = p.first + d[0], j = p.second + d[1];
            long T = st.at(i, j).T;
            go.tlo = 0;
            Cell c = lat::gen_cell(s, go, true);
            if (!model::has_wall(c)) continue;
            long up = T - c.T;
            c.T += up;
            for (int l = 0; l < 2; l++)
                if (c.b[l]) { c.lo[l] += up; c.hi[l] += up; }
            st.at(i, j) = c;
        }
    lat::gen_entries(s, &st);
    lat::lift(s, b, &st);
    std::vector<std::pair<int, int>> cand;
    for (int i = 1; i < st.X - 1; i++)
        for (int j = 1; j < st.Y - 1; j++)
            if (model::terrain_candidate(st, i, j, D)) cand.push_back({i, j});
    if (cand.size() > 3) throw pbt::Discard();
    ctx.desc << b.str() << " D=" << D << " " << st.str();
    lat::Run r(st, b);
    ss::SimParam sp(lat::repose_for(b, D, s.sreal(0.4, 8)), 3, s.range(2, 5));
    ss::rng.seed(s.draw(1u << 30));
    std::string where;
    bool unstable = model::any_unstable_terrain(st, D, 1, st.X - 1, 1, st.Y - 1, &where);
    r.o.equilibrium_ = s.chance(1, 2);
    ss::RelaxTerrain(&r.o, r.g, &r.body, sp, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    check_after(r.o, r.g, b, st, got);
    PBT_CHECK(!unstable || !r.o.equilibrium_, "equilibrium reported although unstable: ", where);
    PBT_CHECK(unstable || r.o.equilibrium_, "instability reported on stable terrain");
    // all orders of the cells and of the directions
    std::set<lat::Norm> all;
    std::vector<int> idx(cand.size());
    for (size_t k = 0; k < idx.size(); k++) idx[k] = static_cast<int>(k);
    do {
        std::map<lat::Norm, State> cur;
        cur[lat::norm(st)] = st;
        for (int k : idx) {
            std::map<lat::Norm, State> next;
            for (auto& kv : cur) {
                int perm[4] = {0, 1, 2, 3};
                do {
                    State t = kv.second;
                    for (int q : perm)
                        model::relax_terrain(&t, cand[k].first, cand[k].second,
                                             cand[k].first + model::kDir4[q][0],
                                             cand[k].second + model::kDir4[q][1], D);
                    next.insert({lat::norm(t), t});
                } while (std::next_permutation(perm, perm + 4));
            }
            cur.swap(next);
            if (cur.size() > 4000) throw pbt::Discard();
        }
        for (auto& kv : cur) all.insert(kv.first);
    } while (std::next_permutation(idx.begin(), idx.end()));
    ctx.label("outcomes", static_cast<int>(all.size()));
    ctx.label("unstable cells " + std::to_string(cand.size()));
    ctx.nontrivial = unstable;
    if (!all.count(lat::norm(got))) {
        pbt::fail("the result follows no order of cells and directions: ",
                  lat::diff(lat::norm(st), lat::norm(got), st.Y));
    }
}

// --------------------------------------------- C07: crowded random fields
void terrain_field(pbt::Src& s, pbt::Ctx& ctx) {
    GenOpt go;
    go.half_min = 3;
    go.half_max = 5;
    go.narrow = true;
    go.body_pct = s.pick({30, 60, 0, 90});
    if (s.chance(1, 3)) go.thi = go.tlo + s.range(0, 8);
    int wide = lat::widen(s, &go);
    Bench b = lat::gen_bench(s, go);
    State st = lat::gen_state(s, b, go);
    lat::lift(s, b, &st);
    long D = s.range(1, 7 * wide);
    ctx.desc << b.str() << " D=" << D << " " << st.str();
    lat::Run r(st, b);
    ss::SimParam sp(lat::repose_for(b, D, s.sreal(0.4, 8)), 3, s.range(2, 5));
    ss::rng.seed(s.draw(1u << 30));
    int i0 = 1, i1 = 2 * b.nx, j0 = 1, j1 = 2 * b.ny;
    if (s.chance(1, 3)) {
        i0 = s.range(1, b.nx);
        i1 = s.range(b.nx, 2 * b.nx);
        j0 = s.range(1, b.ny);
        j1 = s.range(b.ny, 2 * b.ny);
        lat::set_area(r.o.impact_area_, i0, i1, j0, j1);
        ctx.label("partial impact area");
    }
    std::string where;
    bool unstable = model::any_unstable_terrain(st, D, i0, i1, j0, j1, &where);
    r.o.equilibrium_ = s.chance(1, 2);
    ss::RelaxTerrain(&r.o, r.g, &r.body, sp, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    check_after(r.o, r.g, b, st, got);
    std::string v = lat::valid(got);
    PBT_CHECK(v.empty(), v);
    if (unstable) PBT_CHECK(!r.o.equilibrium_, "equilibrium reported although unstable: ", where);
    if (!unstable)
        PBT_CHECK(lat::norm(got) == lat::norm(st), "a stable state was changed: ",
                  lat::diff(lat::norm(st), lat::norm(got), st.Y));
    if (unstable)
        PBT_CHECK(!(lat::norm(got) == lat::norm(st)), "nothing moved although unstable: ", where);
    PBT_CHECK(r.o.equilibrium_ == !unstable, "instability reported on stable terrain");
    // changes stay within the impact area and its border; walls never move
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++) {
            const Cell &p = st.at(i, j), &q = got.at(i, j);
            bool near = i >= i0 - 1 && i <= i1 && j >= j0 - 1 && j <= j1;
            if (!near) PBT_CHECK(p == q, "cell (", i, ",", j, ") outside the area changed");
            PBT_CHECK(p.b[0] == q.b[0] && p.b[1] == q.b[1] && p.lo[0] == q.lo[0] &&
                      p.hi[0] == q.hi[0] && p.lo[1] == q.lo[1] && p.hi[1] == q.hi[1],
                      "a wall changed at (", i, ",", j, ")");
            PBT_CHECK(q.s[0] >= p.s[0] && q.s[1] >= p.s[1],
                      "soil on the body dropped at (", i, ",", j, ")");
        }
    if (unstable) ctx.label("unstable");
    ctx.nontrivial = unstable;
}

// ------------------------------------------------------------- C08: pairs
void body_pair(pbt::Src& s, pbt::Ctx& ctx) {
    GenOpt go;
    go.half_min = 2;
    go.half_max = 3;
    go.max_gap = 5;
    go.narrow = true;
    int k = lat::widen(s, &go);
    Bench b = lat::gen_bench(s, go);
    State st;
    st.X = 2 * b.nx + 1;
    st.Y = 2 * b.ny + 1;
    st.c.assign(st.X * st.Y, Cell());
    int i = s.range(1, st.X - 2), j = s.range(1, st.Y - 2);
    auto& d = model::kDir4[s.draw(4)];
    int ic = i + d[0], jc = j + d[1];
    long D = s.range(s.chance(1, 12) ? 0 : 1, 6 * k);
    go.body_pct = 85;
    st.at(ic, jc) = lat::gen_cell(s, go, true);
    Cell& c = st.at(ic, jc);
    // the source: one wall, or two with the soil between or above
    Cell src;
    int l = s.range(0, 1);
    std::vector<long> levels = {c.T};
    for (int q = 0; q < 2; q++)
        if (c.b[q]) {
            levels.push_back(c.hi[q] + c.s[q]);
            levels.push_back(c.lo[q]);
            levels.push_back(c.hi[q]);
        }
    src.b[l] = true;
    src.s[l] = s.range(1, 8 * k);
    long S = levels[s.draw(static_cast<uint32_t>(levels.size()))] + D + s.sint(3);
    if (s.chance(1, 3)) S += s.range(0, 8 * k);
    src.hi[l] = S - src.s[l];
    src.lo[l] = src.hi[l] - s.range(1, 3 * k);
    src.T = src.lo[l] - s.range(0, 3 * k);
    if (s.chance(1, 4)) {
        src.b[1 - l] = true;
        if (s.chance(1, 2)) {
            src.lo[1 - l] = S + s.range(0, 2);
            src.hi[1 - l] = src.lo[1 - l] + s.range(1, 3);
        } else {
            src.hi[1 - l] = src.lo[l] - s.range(1, 3);
            src.lo[1 - l] = src.hi[1 - l] - s.range(1, 3);
            src.T = src.lo[1 - l] - s.range(0, 3);
        }
    }
    st.at(i, j) = src;
    lat::gen_entries(s, &st);
    S += lat::lift(s, b, &st);
    src = st.at(i, j);
    int n = -1;
    for (size_t m = 0; m < st.e.size(); m++)
        if (st.e[m].l == l && st.e[m].i == i && st.e[m].j == j) {
            n = static_cast<int>(m);
            break;
        }
    ctx.desc << b.str() << " D=" << D << " layer " << l + 1 << " entry " << n << " ("
             << i << "," << j << ")->(" << ic << "," << jc << ") " << st.str();
    lat::Run r(st, b);
    float dh = static_cast<float>(r.g.cell_size_z_ * D);
    int ind = 2 * l;
    float hmin = r.o.body_soil_[ind + 1][i][j] - dh;
    model::Recv rc = model::body_recv(st.at(ic, jc), src.hi[l], S - D);
    int status = ss::CheckUnstableBodyCell(&r.o, i, j, ind, ic, jc, hmin, sim::kTol);
    PBT_CHECK(status == (rc.unstable ? rc.status : 0), "status ", status,
              ", expected ", rc.unstable ? rc.status : 0);
    ctx.label("status " + std::to_string(status));
    if (!rc.unstable) return;
    ctx.nontrivial = true;
    State want = st;
    std::vector<Entry> added;
    model::relax_body(&want, n, ic, jc, D, &added);
    if (st.e[n].h - want.e[n].h == st.e[n].h) ctx.label("whole entry moved");
    if (rc.room >= 0 && st.e[n].h - want.e[n].h == rc.room) ctx.label("limited by the space available");
    std::vector<ss::body_soil> out;
    ss::RelaxUnstableBodyCell(&r.o, status, &out, dh, n, i, j, ind, ic, jc, r.g,
                              &r.body, sim::kTol);
    for (auto& e : out) r.o.body_soil_pos_.push_back(e);
    State got = lat::from_sim(r.o, r.g);
    PBT_CHECK(lat::norm(got) == lat::norm(want), "wrong avalanche (got vs expected): ",
              lat::diff(lat::norm(got), lat::norm(want), st.Y));
    PBT_CHECK(got.e[n].h == want.e[n].h, "the entry keeps ", got.e[n].h,
              " cells, expected ", want.e[n].h);
    check_after(r.o, r.g, b, st, got);
}

// ---------------------------------------- C08: whole passes, few columns
void body_pass(pbt::Src& s, pbt::Ctx& ctx) {
    GenOpt go;
    go.half_min = 3;
    go.half_max = 4;
    go.soil = false;
    go.body_pct = s.pick({50, 80, 95});
    int wide = lat::widen(s, &go);
    Bench b = lat::gen_bench(s, go);
    State st = lat::gen_state(s, b, go);
    long D = s.range(1, 4 * wide);
    int n = s.range(1, 3);
    int i = s.range(1, st.X - 2), j = s.range(1, st.Y - 2);
    for (int k = 0; k < n; k++) {
        Cell& c = st.at(i, j);
        if (model::has_wall(c)) {
            int l = c.b[0] && c.b[1] ? static_cast<int>(s.draw(2)) : c.b[0] ? 0 : 1;
            long room = 999;
            if (c.b[0] && c.b[1] && l == c.bot()) room = c.lo[1 - l] - c.hi[l];
            c.s[l] = std::min<long>(room, s.range(1, 9 * wide));
        }
        i = std::clamp(i + s.sint(1), 1, st.X - 2);
        j = std::clamp(j + s.sint(1), 1, st.Y - 2);
    }
    lat::gen_entries(s, &st);
    lat::lift(s, b, &st);
    if (st.e.empty() || st.e.size() > 4) throw pbt::Discard();
    ctx.desc << b.str() << " D=" << D << " " << st.str();
    lat::Run r(st, b);
    ss::SimParam sp(lat::repose_for(b, D, s.sreal(0.4, 8)), 3, 4);
    ss::rng.seed(s.draw(1u << 30));
    std::string where;
    bool unstable = model::any_unstable_body(st, D, &where);
    bool eq0 = s.chance(1, 2);
    r.o.equilibrium_ = eq0;
    ss::RelaxBodySoil(&r.o, r.g, &r.body, sp, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    check_after(r.o, r.g, b, st, got);
    if (unstable || !eq0)
        PBT_CHECK(!r.o.equilibrium_, "equilibrium reported although unstable: ", where);
    else
        PBT_CHECK(r.o.equilibrium_, "instability reported although the soil on the body is stable");
    std::map<std::pair<lat::Norm, std::vector<long>>, State> cur;
    auto key = [&](const State& t) {
        std::vector<long> h;
        for (size_t k = 0; k < st.e.size(); k++) h.push_back(t.e[k].h);
        return std::make_pair(lat::norm(t), h);
    };
    cur[key(st)] = st;
    for (size_t k = 0; k < st.e.size(); k++) {
        decltype(cur) next;
        for (auto& kv : cur) {
            int perm[4] = {0, 1, 2, 3};
            do {
                State t = kv.second;
                std::vector<Entry> added;
                if (t.e[k].h > 0)
                    for (int q : perm)
                        model::relax_body(&t, static_cast<int>(k),
                                          t.e[k].i + model::kDir4[q][0],
                                          t.e[k].j + model::kDir4[q][1], D, &added);
                next.insert({key(t), t});
            } while (std::next_permutation(perm, perm + 4));
        }
        cur.swap(next);
        if (cur.size() > 3000) throw pbt::Discard();
    }
    ctx.label("outcomes", static_cast<int>(cur.size()));
    ctx.nontrivial = unstable;
    if (!cur.count(key(got)))
        pbt::fail("the result follows no order of directions: ",
                  lat::diff(lat::norm(st), lat::norm(got), st.Y));
}

// --------------------------------------------- C08: crowded random fields
void body_field(pbt::Src& s, pbt::Ctx& ctx) {
    GenOpt go;
    go.half_min = 3;
    go.half_max = 5;
    go.narrow = true;
    go.body_pct = s.pick({60, 90, 30});
    go.max_soil = s.pick({5, 9, 2});
    int wide = lat::widen(s, &go);
    Bench b = lat::gen_bench(s, go);
    if (s.chance(1, 3)) {
        go.max_soil = s.range(1, 2);
        go.thi = go.tlo + s.range(0, 1);
    }
    State st = lat::gen_state(s, b, go);
    lat::lift(s, b, &st);
    long D = s.chance(1, 3) ? s.range(8, 25) : s.range(1, 7 * wide);
    ctx.desc << b.str() << " D=" << D << " " << st.str();
    lat::Run r(st, b);
    ss::SimParam sp(lat::repose_for(b, D, s.sreal(0.4, 8)), 3, 4);
    ss::rng.seed(s.draw(1u << 30));
    std::string where;
    bool unstable = model::any_unstable_body(st, D, &where);
    r.o.equilibrium_ = true;
    ss::RelaxBodySoil(&r.o, r.g, &r.body, sp, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    check_after(r.o, r.g, b, st, got);
    std::string v = lat::valid(got);
    PBT_CHECK(v.empty(), v);
    if (unstable) {
        PBT_CHECK(!r.o.equilibrium_, "equilibrium kept although unstable: ", where);
        PBT_CHECK(!(lat::norm(got) == lat::norm(st)), "nothing moved although unstable: ", where);
    } else {
        PBT_CHECK(lat::norm(got) == lat::norm(st), "a stable state was changed: ",
                  lat::diff(lat::norm(st), lat::norm(got), st.Y));
        PBT_CHECK(r.o.equilibrium_, "instability reported although the soil on the body is stable");
    }
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++)
            PBT_CHECK(got.at(i, j).T >= st.at(i, j).T, "the terrain dropped at (", i, ",", j, ")");
    ctx.nontrivial = unstable;
    if (unstable) ctx.label("unstable");
}

pbt::Register r1("C07.pair", terrain_pair);
pbt::Register r2("C07.pass", terrain_pass);
pbt::Register r3("C07.field", terrain_field);
pbt::Register r4("C08.pair", body_pair);
pbt::Register r5("C08.pass", body_pass);
pbt::Register r6("C08.field", body_field);

}  // namespace
