// C05, C06: soil run over by the body and soil squeezed between walls.
#include <algorithm>
#include <map>
#include <set>
#include "model.hpp"

using lat::Bench;
using lat::Cell;
using lat::Entry;
using lat::GenOpt;
using lat::State;

namespace {

bool same_walls(const Cell& p, const Cell& q) {
    return p.b[0] == q.b[0] && p.b[1] == q.b[1] && p.lo[0] == q.lo[0] &&
           p.hi[0] == q.hi[0] && p.lo[1] == q.lo[1] && p.hi[1] == q.hi[1];
}

GenOpt move_opt(pbt::Src& s) {
    GenOpt go;
    go.half_min = 3;
    go.half_max = 5;
    go.body_pct = s.pick({60, 90, 100, 30});
    go.margin = s.range(1, 2);
    return go;
}

// ----------------------------------------------------- C05: a single cell
void body_single(pbt::Src& s, pbt::Ctx& ctx) {
    GenOpt go = move_opt(s);
    int wide = lat::widen(s, &go);
    Bench b = lat::gen_bench(s, go);
    State st = lat::gen_state(s, b, go);
    lat::lift(s, b, &st);
    std::vector<std::pair<int, int>> walls;
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++)
            if (model::has_wall(st.at(i, j))) walls.push_back({i, j});
    if (walls.empty()) throw pbt::Discard();
    auto [i, j] = walls[s.draw(static_cast<uint32_t>(walls.size()))];
    Cell& c = st.at(i, j);
    c.T = model::lowest(c) + (s.chance(1, 3) ? s.range(1, 25 * wide) : s.range(1, 6 * wide));
    ctx.desc << b.str() << " pushed (" << i << "," << j << ") " << st.str();
    std::map<lat::Norm, State> all = model::push_terrain(st, i, j, model::lowest(c));
    if (c.b[0] && c.b[1]) {
        // first out of the upper wall, then out of the lower one
        long up = c.lo[1 - c.bot()];
        if (c.T > up)
            for (auto& kv : model::push_terrain(st, i, j, up))
                for (auto& kw : model::push_terrain(kv.second, i, j, model::lowest(c)))
                    all.insert(kw);
        ctx.label("two walls");
    }
    lat::Run r(st, b);
    ss::rng.seed(s.draw(1u << 30));
    ss::MoveIntersectingBody(&r.o, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    ctx.label("outcomes", static_cast<int>(all.size()));
    ctx.nontrivial = true;
    if (!all.count(lat::norm(got)))
        pbt::fail("the soil did not go to the nearest free places in some order: ",
                  lat::diff(lat::norm(st), lat::norm(got), st.Y));
    PBT_CHECK(got.e == st.e, "soil on the body was affected");
}

// --------------------------------------------------------- C05: many cells
void body_field(pbt::Src& s, pbt::Ctx& ctx) {
    GenOpt go = move_opt(s);
    go.penetrate_terrain = true;
    go.max_gap = s.range(1, 8);
    go.narrow = true;
    lat::widen(s, &go);
    Bench b = lat::gen_bench(s, go);
    State st = lat::gen_state(s, b, go);
    lat::lift(s, b, &st);
    ctx.desc << b.str() << " " << st.str();
    lat::Run r(st, b);
    ss::rng.seed(s.draw(1u << 30));
    bool all = s.chance(1, 2);
    if (all)
        ss::MoveIntersectingCells(&r.o, r.g, &r.body, sim::kTol);
    else
        ss::MoveIntersectingBody(&r.o, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    PBT_CHECK(got.total() == st.total(), "the amount of soil changed from ", st.total(),
              " to ", got.total());
    std::string v = lat::valid(got);
    PBT_CHECK(v.empty(), v);
    PBT_CHECK(got.e == st.e, "soil on the body was affected");
    // cells that may receive soil: on the rays up to the first free cell
    std::set<std::pair<int, int>> may;
    int pushed = 0;
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++) {
            const Cell& c = st.at(i, j);
            if (!model::has_wall(c) || c.T <= model::lowest(c)) continue;
            pushed++;
            for (int pp = 1;; pp++) {
                bool open = false;
                for (auto& d : model::kDir8) {
                    int ip = i + pp * d[0], jp = j + pp * d[1];
                    if (ip < 0 || jp < 0 || ip >= st.X || jp >= st.Y) continue;
                    may.insert({ip, jp});
                    open |= !model::has_wall(st.at(ip, jp));
                }
                if (open) break;
            }
        }
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++) {
            const Cell &p = st.at(i, j), &q = got.at(i, j);
            PBT_CHECK(same_walls(p, q) && p.s[0] == q.s[0] && p.s[1] == q.s[1],
                      "walls or body soil changed at (", i, ",", j, ")");
            if (model::has_wall(p) && p.T > model::lowest(p)) {
                PBT_CHECK(q.T == model::lowest(p), "the terrain below the body is at ", q.T,
                          " instead of the wall at (", i, ",", j, ") ", p.str());
            } else {
                PBT_CHECK(q.T >= p.T, "terrain dropped at (", i, ",", j, ")");
                PBT_CHECK(q.T == p.T || may.count({i, j}),
                          "soil moved beyond the nearest free cell to (", i, ",", j, ")");
            }
        }
    ctx.label("pushed cells", pushed);
    ctx.nontrivial = pushed > 0;
}

// ------------------------------------------- C05: the free places are far away
// A column pushed out below a wide body that leaves no or little room: ring
// after ring is filled, and the soil ends in the ring where it fits.
void body_far(pbt::Src& s, pbt::Ctx& ctx) {
    GenOpt go;
    int R = s.weighted({3, 3, 1}) == 0 ? s.range(3, 12) : s.range(8, 30);
    if (s.chance(1, 10)) R = s.range(25, 70);
    go.half_min = go.half_max = R + 2;
    Bench b = lat::gen_bench(s, go);
    State st;
    st.X = 2 * b.nx + 1;
    st.Y = 2 * b.ny + 1;
    st.c.resize(st.X * st.Y);
    const int ci = b.nx, cj = b.ny;
    long base = s.chance(1, 8) ? s.sint(60) : s.sint(4);
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++) {
            Cell& c = st.at(i, j);
            c.T = base;
            if (std::max(std::abs(i - ci), std::abs(j - cj)) > R) continue;
            int l = (i * 7 + j * 3) % 2;
            c.b[l] = true;
            c.lo[l] = base;
            c.hi[l] = base + 1 + (i + j) % 2;
        }
    // little spaces below the body, some of them by a second wall only
    int gaps = s.range(0, 6);
    for (int k = 0; k < gaps; k++) {
        const int* d = model::kDir8[s.draw(8)];
        int pp = s.range(1, R);
        Cell& c = st.at(ci + pp * d[0], cj + pp * d[1]);
        c.T = base - (s.chance(1, 8) ? s.range(1, 40) : s.range(1, 4));
        ctx.desc << "space (" << ci + pp * d[0] << "," << cj + pp * d[1] << ")x" << base - c.T << " ";
    }
    Cell& c0 = st.at(ci, cj);
    c0.T = base + (s.chance(1, 8) ? s.range(1, 200) : s.range(1, 30));
    ctx.desc << b.str() << " walls up to " << R << " cells from (" << ci << "," << cj << ") T"
             << c0.T << " on " << base;
    lat::Run r(st, b);
    ss::rng.seed(s.draw(1u << 30));
    ss::MoveIntersectingBody(&r.o, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    PBT_CHECK(got.total() == st.total(), "the amount of soil changed from ", st.total(), " to ",
              got.total());
    long h = c0.T - base;
    c0.T = base;
    int pp = 1;
    for (; h > 0; pp++) {
        long cap[8], in[8], tot = 0;
        bool open = false;
        for (int d = 0; d < 8; d++) {
            int i = ci + pp * model::kDir8[d][0], j = cj + pp * model::kDir8[d][1];
            Cell& c = st.at(i, j);
            cap[d] = model::has_wall(c) ? std::max(0L, model::room_below(c)) : -1;
            open |= cap[d] < 0;
            tot += std::max(0L, cap[d]);
            in[d] = got.at(i, j).T - c.T;
            c.T = got.at(i, j).T;     // judged here
        }
        int partial = 0;
        long sum = 0;
        for (int d = 0; d < 8; d++) {
            PBT_CHECK(in[d] >= 0 && (cap[d] < 0 || in[d] <= cap[d]), "direction ", d, " at distance ",
                      pp, " received ", in[d], " of at most ", cap[d]);
            sum += in[d];
            partial += in[d] > 0 && in[d] != cap[d];
        }
        long want = open ? h : std::min(h, tot);
        PBT_CHECK(sum == want, sum, " cells went to the places ", pp, " cells away, of ", h,
                  " with room for ", open ? -1 : tot);
        PBT_CHECK(partial <= 1, "several places ", pp, " cells away are filled in part");
        h -= want;
    }
    PBT_CHECK(lat::norm(got) == lat::norm(st), "soil elsewhere: ",
              lat::diff(lat::norm(st), lat::norm(got), st.Y));
    PBT_CHECK(got.e == st.e, "soil on the body was affected");
    ctx.label(pp > 20 ? "further than 20 cells" : pp > 8 ? "9 to 20 cells" : "up to 8 cells");
    ctx.nontrivial = true;
}

// ------------------------------------------------- C06: one or two columns
// C01 judges the amount of soil only: it may decrease, with a warning, only
// where some order of the directions leaves as much without a place.
void squeeze_few_judged(pbt::Src& s, pbt::Ctx& ctx, bool amount_only) {
    GenOpt go = move_opt(s);
    Bench b = lat::gen_bench(s, go);
    State st = lat::gen_state(s, b, go);
    // two-wall cells around a chosen place, the first with too much soil
    int n = s.range(1, 2);
    int i = s.range(go.margin, st.X - 1 - go.margin), j = s.range(go.margin, st.Y - 1 - go.margin);
    bool surrounded = s.chance(2, 3);
    uint32_t block = s.pick<uint32_t>({1, 4, 6, 8});
    bool levels = s.chance(1, 2);     // the neighbours' walls at other heights
    int wide = s.chance(1, 8) ? s.range(2, 12) : 1;
    auto two = [&](int i0, int j0, bool excess, long base) {
        Cell c;
        c.T = base + s.sint(3);
        int lo = s.range(0, 1), up = 1 - lo;
        c.b[0] = c.b[1] = true;
        c.lo[lo] = c.T + s.range(0, 3 * wide);
        c.hi[lo] = c.lo[lo] + s.range(1, 2 * wide);
        c.lo[up] = c.hi[lo] + s.range(1, 4 * wide);
        c.hi[up] = c.lo[up] + s.range(1, 2 * wide);
        long room = c.lo[up] - c.hi[lo];
        c.s[lo] = excess ? room + s.range(1, 10 * wide) : s.range(0, static_cast<int>(room));
        if (s.chance(1, 3)) c.s[up] = s.range(1, 4 * wide);
        st.at(i0, j0) = c;
    };
    two(i, j, true, 0);
    if (surrounded) {
        const Cell mid = st.at(i, j);
        int rings = levels ? s.range(1, 3) : 1;
        for (int ring = 1; ring <= rings; ring++)
            for (auto& d : model::kDir8) {
                int ip = i + ring * d[0], jp = j + ring * d[1];
                if (ip < go.margin || jp < go.margin || ip >= st.X - go.margin ||
                    jp >= st.Y - go.margin)
                    continue;
                if (levels && s.chance(1, 2)) {
                    // a wall around the heights of the squeezed soil
                    Cell c;
                    int l = s.range(0, 1);
                    c.b[l] = true;
                    c.lo[l] = mid.hi[mid.bot()] + s.sint(5 * wide);
                    c.hi[l] = c.lo[l] + s.range(1, 3);
                    c.T = c.lo[l] - s.range(0, 4 * wide);
                    if (s.chance(1, 3)) c.s[l] = s.range(1, 3);
                    st.at(ip, jp) = c;
                } else if (s.chance(8 - block, 8)) {
                    two(ip, jp, false, levels ? s.sint(6) : 0);
                } else if (block > 1 || s.chance(1, 2)) {
                    // a high wall: blocks the way
                    Cell c;
                    c.T = -2;
                    int l = s.range(0, 1);
                    c.b[l] = true;
                    c.lo[l] = -2 + s.range(0, 2);
                    c.hi[l] = 12 * wide;
                    st.at(ip, jp) = c;
                }
            }
    }
    if (n == 2) {
        int i2 = std::clamp(i + s.sint(2), go.margin, st.X - 1 - go.margin);
        int j2 = std::clamp(j + s.sint(2), go.margin, st.Y - 1 - go.margin);
        if (i2 != i || j2 != j) two(i2, j2, true, 0);
    }
    lat::gen_entries(s, &st);
    lat::lift(s, b, &st);
    long x;
    int sq = 0;
    for (size_t k = 0; k < st.e.size(); k++) sq += model::squeezed(st, static_cast<int>(k), &x);
    if (sq > 3 || sq == 0) throw pbt::Discard();
    ctx.desc << b.str() << " (" << i << "," << j << ") " << st.str();
    // model: every entry in turn, all orders of directions
    std::map<std::pair<lat::Norm, bool>, State> cur, done;
    cur[{lat::norm(st), false}] = st;
    for (size_t k = 0; k < 60 && !cur.empty(); k++) {
        decltype(cur) next;
        for (auto& kv : cur) {
            if (k >= kv.second.e.size()) { done.insert(kv); continue; }
            for (auto& q : model::squeeze(kv.second, static_cast<int>(k)))
                next.insert({{lat::norm(q.st), kv.first.second || q.left > 0}, q.st});
        }
        cur.swap(next);
        if (cur.size() > 1500) throw pbt::Discard();
    }
    if (!cur.empty()) throw pbt::Discard();
    lat::Run r(st, b);
    ss::rng.seed(s.draw(1u << 30));
    ss::MoveIntersectingBodySoil(&r.o, r.g, &r.body, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    bool warned = sim::warn().removed > 0;
    ctx.label("outcomes", static_cast<int>(done.size()));
    ctx.label("squeezed columns " + std::to_string(sq));
    if (warned) ctx.label("soil removed");
    ctx.nontrivial = true;
    if (amount_only) {
        bool ok = false;
        for (auto& kv : done)
            ok = ok || (kv.first.second == warned && kv.second.total() == got.total());
        PBT_CHECK(ok, "the amount of soil went from ", st.total(), " to ", got.total(),
                  warned ? " with" : " without", " a warning, which no order of directions explains");
        return;
    }
    std::string e = lat::ledger(got);
    PBT_CHECK(e.empty(), e);
    e = lat::entry_positions(r.o, r.g, b);
    PBT_CHECK(e.empty(), e);
    if (!warned)
        PBT_CHECK(got.total() == st.total(), "the amount of soil changed without a warning from ",
                  st.total(), " to ", got.total());
    if (!done.count({lat::norm(got), warned}))
        pbt::fail("the result follows no order of directions",
                  done.count({lat::norm(got), !warned}) ? " (only the warning differs)" : "", ": ",
                  lat::diff(lat::norm(st), lat::norm(got), st.Y));
}

// ------------------------------------------------------ C06: long ways out
// Squeezed soil that travels far between walls before it finds room.
void squeeze_far_judged(pbt::Src& s, pbt::Ctx& ctx, bool amount_only) {
    GenOpt go;
    bool diagonal = s.chance(1, 5);
    int R = diagonal ? s.range(4, 14) : s.chance(1, 4) ? s.range(20, 60) : s.range(4, 24);
    go.half_min = go.half_max = R + 1;
    Bench b = lat::gen_bench(s, go);
    if (!diagonal) (s.chance(1, 2) ? b.nx : b.ny) = 3;
    State st;
    st.X = 2 * b.nx + 1;
    st.Y = 2 * b.ny + 1;
    st.c.resize(st.X * st.Y);
    const int ci = b.nx, cj = b.ny;
    auto two = [&](Cell& c, long lo, long room) {
        int l = s.range(0, 1);
        c = Cell();
        c.b[0] = c.b[1] = true;
        c.lo[l] = lo;
        c.hi[l] = lo + 1;
        c.lo[1 - l] = lo + 1 + room;
        c.hi[1 - l] = c.lo[1 - l] + 1;
        c.T = lo - s.range(0, 2);
        return l;
    };
    Cell& c0 = st.at(ci, cj);
    int l0 = two(c0, 0, s.range(1, 3));
    long x = s.chance(1, 8) ? s.range(1, 150) : s.range(1, 12);
    c0.s[l0] = c0.lo[1 - l0] - c0.hi[l0] + x;
    const uint32_t shut = s.pick<uint32_t>({0, 5, 7, 9});   // ways blocked at once or at the end, of 10
    for (int d = 0; d < 8; d++) {
        int mx = 0;      // the cells of this direction inside the margin
        while (true) {
            int i = ci + (mx + 1) * model::kDir8[d][0], j = cj + (mx + 1) * model::kDir8[d][1];
            if (i < 1 || j < 1 || i >= st.X - 1 || j >= st.Y - 1) break;
            mx++;
        }
        // a way of full (or nearly full) places, then its end
        int len = s.chance(1, 3) ? 0 : s.range(0, mx - 1);
        if (mx > 3 && s.chance(1, 2)) len = s.range(mx / 2, mx - 1);
        bool blocked = s.draw(10) < shut;
        if (blocked && s.chance(1, 2)) len = 0;
        long lo = 0;
        for (int pp = 1; pp <= len; pp++) {
            Cell& c = st.at(ci + pp * model::kDir8[d][0], cj + pp * model::kDir8[d][1]);
            if (s.chance(1, 8)) lo += s.sint(2);
            int l = two(c, lo, s.range(1, 3));
            long room = c.lo[1 - l] - c.hi[l];
            c.s[l] = s.chance(1, 12) ? s.range(0, static_cast<int>(room)) : room;
            if (s.chance(1, 8)) c.s[1 - l] = s.range(1, 3);
        }
        Cell& c = st.at(ci + (len + 1) * model::kDir8[d][0], cj + (len + 1) * model::kDir8[d][1]);
        int l = s.range(0, 1);
        switch (blocked ? 0 : s.weighted({1, 2, 2})) {
            case 0:          // blocked
                c.b[l] = true;
                c.lo[l] = lo - 3;
                c.hi[l] = lo + 15;
                c.T = lo - 4;
                break;
            case 1:          // out of the body
                c.T = lo - s.range(0, 3);
                break;
            default:         // one more wall
                c.b[l] = true;
                c.lo[l] = lo + s.sint(3);
                c.hi[l] = c.lo[l] + s.range(1, 2);
                c.T = c.lo[l] - s.range(0, 2);
                if (s.chance(1, 3)) c.s[l] = s.range(1, 3);
        }
    }
    // the terrain beyond reaches no wall
    lat::gen_entries(s, &st);
    lat::lift(s, b, &st);
    // one record for the squeezed column, so that the model has one to try
    auto& e = st.e;
    e.erase(std::remove_if(e.begin(), e.end(), [&](const Entry& k) { return k.i == ci && k.j == cj && k.l == l0; }),
            e.end());
    e.insert(e.begin() + s.draw(static_cast<uint32_t>(e.size() + 1)), Entry{l0, ci, cj, c0.s[l0]});
    size_t n = 0;
    while (e[n].i != ci || e[n].j != cj || e[n].l != l0) n++;
    ctx.desc << b.str() << " (" << ci << "," << cj << ") " << st.str();
    std::vector<model::Squeeze> res = model::squeeze(st, static_cast<int>(n));
    lat::Run r(st, b);
    ss::rng.seed(s.draw(1u << 30));
    ss::MoveIntersectingBodySoil(&r.o, r.g, &r.body, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    bool warned = sim::warn().removed > 0;
    if (amount_only) {
        ctx.nontrivial = true;
        bool ok = false;
        for (auto& q : res) ok = ok || (warned == (q.left > 0) && q.st.total() == got.total());
        PBT_CHECK(ok, "the amount of soil went from ", st.total(), " to ", got.total(),
                  warned ? " with" : " without", " a warning, which no order of directions explains");
        return;
    }
    std::string err = lat::ledger(got);
    PBT_CHECK(err.empty(), err);
    err = lat::entry_positions(r.o, r.g, b);
    PBT_CHECK(err.empty(), err);
    bool ok = false;
    lat::Norm g = lat::norm(got);
    for (auto& q : res) ok = ok || (warned == (q.left > 0) && lat::norm(q.st) == g);
    int dist = 0;
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++)
            if (!(got.at(i, j) == st.at(i, j)))
                dist = std::max({dist, std::abs(i - ci), std::abs(j - cj)});
    ctx.label(dist > 20 ? "further than 20 cells" : dist > 8 ? "9 to 20 cells" : "up to 8 cells");
    if (warned) ctx.label("soil removed");
    ctx.nontrivial = true;
    if (!ok)
        pbt::fail("the result follows no order of directions", warned ? " (soil was removed)" : "", ": ",
                  lat::diff(lat::norm(st), g, st.Y));
}

// -------------------------------------------------------- C06: many columns
void squeeze_field(pbt::Src& s, pbt::Ctx& ctx) {
    GenOpt go = move_opt(s);
    go.penetrate_soil = true;
    go.penetrate_terrain = s.chance(1, 2);
    go.max_gap = s.range(1, 5);
    go.narrow = true;
    lat::widen(s, &go);
    Bench b = lat::gen_bench(s, go);
    State st = lat::gen_state(s, b, go);
    if (s.chance(1, 3)) {
        // high walls everywhere but on the squeezed columns
        uint32_t pct = s.pick<uint32_t>({100, 90, 60});
        for (int i = go.margin; i < st.X - go.margin; i++)
            for (int j = go.margin; j < st.Y - go.margin; j++) {
                Cell& c = st.at(i, j);
                if ((c.b[0] && c.b[1]) || s.draw(100) >= pct) continue;
                c = Cell();
                c.T = -8;
                int l = s.range(0, 1);
                c.b[l] = true;
                c.lo[l] = -8;
                c.hi[l] = 25;
            }
        lat::gen_entries(s, &st);
    }
    lat::lift(s, b, &st);
    ctx.desc << b.str() << " " << st.str();
    lat::Run r(st, b);
    ss::rng.seed(s.draw(1u << 30));
    int sq = 0;
    long x, tot = 0;
    for (size_t k = 0; k < st.e.size(); k++)
        if (model::squeezed(st, static_cast<int>(k), &x)) { sq++; tot += x; }
    ss::MoveIntersectingBodySoil(&r.o, r.g, &r.body, sim::kTol);
    State got = lat::from_sim(r.o, r.g);
    bool warned = sim::warn().removed > 0;
    std::string e = lat::ledger(got);
    PBT_CHECK(e.empty(), e);
    e = lat::entry_positions(r.o, r.g, b);
    PBT_CHECK(e.empty(), e);
    if (warned)
        PBT_CHECK(got.total() < st.total() && got.total() >= st.total() - tot,
                  "soil removal warned, total ", st.total(), " to ", got.total());
    else
        PBT_CHECK(got.total() == st.total(), "the amount of soil changed without a warning from ",
                  st.total(), " to ", got.total());
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++) {
            const Cell &p = st.at(i, j), &q = got.at(i, j);
            PBT_CHECK(same_walls(p, q), "a wall changed at (", i, ",", j, ")");
            PBT_CHECK(q.T >= p.T, "terrain dropped at (", i, ",", j, ")");
            for (int l = 0; l < 2; l++) {
                if (!p.b[l]) continue;
                long room = -1;
                if (p.b[1 - l] && p.lo[1 - l] > p.lo[l]) room = p.lo[1 - l] - p.hi[l];
                if (room >= 0) {
                    PBT_CHECK(q.s[l] <= room, "soil still enters the upper wall at (", i, ",",
                              j, ") ", q.str());
                    PBT_CHECK(q.s[l] >= std::min(p.s[l], room),
                              "more than the excess was moved at (", i, ",", j, ")");
                } else {
                    PBT_CHECK(q.s[l] >= p.s[l], "body soil dropped at (", i, ",", j, ")");
                }
            }
        }
    ctx.label("squeezed columns", sq);
    if (warned) ctx.label("soil removed");
    ctx.nontrivial = sq > 0;
}

void squeeze_few(pbt::Src& s, pbt::Ctx& ctx) { squeeze_few_judged(s, ctx, false); }
void squeeze_far(pbt::Src& s, pbt::Ctx& ctx) { squeeze_far_judged(s, ctx, false); }
void amount_few(pbt::Src& s, pbt::Ctx& ctx) { squeeze_few_judged(s, ctx, true); }
void amount_far(pbt::Src& s, pbt::Ctx& ctx) { squeeze_far_judged(s, ctx, true); }

pbt::Register r7("C01.squeeze", amount_few);
pbt::Register r8("C01.far", amount_far);
pbt::Register r9("C01.push", body_far);
pbt::Register r1("C05.single", body_single);
pbt::Register r2("C05.field", body_field);
pbt::Register r3("C06.few", squeeze_few);
pbt::Register r4("C06.field", squeeze_field);
pbt::Register r5("C05.far", body_far);
pbt::Register r6("C06.far", squeeze_far);

}  // namespace
