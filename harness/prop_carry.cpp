// C10: the soil on the body follows the body (UpdateBodySoil).
#include <algorithm>
#include <map>
#include <set>
#include "lattice.hpp"

namespace {

using Spot = std::tuple<int, int, int>;      // layer (-1: terrain), i, j

struct Before {
    std::vector<std::vector<float>> terrain;
    std::vector<std::vector<std::vector<float>>> body, soil;
    std::vector<ss::body_soil> pos;
    explicit Before(const ss::SimOut& o)
        : terrain(o.terrain_), body(o.body_), soil(o.body_soil_), pos(o.body_soil_pos_) {}
};

struct Tally {
    int same = 0, neighbour = 0, closest = 0, terrain = 0, unclear = 0, moved = 0;
};

// Where an entry may go: one place, unless a rounding decides.
std::set<Spot> places(const ss::body_soil& e, const ss::SimOut& o, const ss::Grid& g,
                      const sim::Pose& from, const sim::Pose& to, Tally* t) {
    double v[3] = {e.x_b, e.y_b, e.z_b}, a[3], b[3];
    sim::rotate(from.ori, v, a);
    sim::rotate(to.ori, v, b);
    double ext = 0;
    for (int k = 0; k < 3; k++) {
        a[k] += from.pos[k];
        b[k] += to.pos[k];
        ext = std::max({ext, std::fabs(a[k]), std::fabs(b[k]), std::fabs(v[k])});
    }
    double eps = 1e-6 + 3e-6 * ext;
    double dx = b[0] - a[0], dy = b[1] - a[1];
    std::set<int> mains, sxs, sys;
    if (std::fabs(dx) > std::fabs(dy) - 2 * eps) mains.insert(0);
    if (std::fabs(dx) < std::fabs(dy) + 2 * eps) mains.insert(1);
    if (dx > -2 * eps) sxs.insert(1);
    if (dx < 2 * eps) sxs.insert(-1);
    if (dy > -2 * eps) sys.insert(1);
    if (dy < 2 * eps) sys.insert(-1);
    std::set<int> is, js;
    for (int k = -1; k <= 1; k += 2) {
        is.insert(static_cast<int>(std::floor((b[0] + k * eps) / g.cell_size_xy_ + g.half_length_x_ + 0.5 + k * 1e-5)));
        js.insert(static_cast<int>(std::floor((b[1] + k * eps) / g.cell_size_xy_ + g.half_length_y_ + 0.5 + k * 1e-5)));
    }
    std::set<Spot> out;
    int kind = 0;
    for (int i : is) for (int j : js) for (int m : mains) for (int sx : sxs) for (int sy : sys) {
        // direction of travel first, then around
        int dir[9][2] = {{0, 0}, {sx, 0}, {sx, sy}, {0, sy}, {sx, -sy},
                         {0, -sy}, {-sx, sy}, {-sx, 0}, {-sx, -sy}};
        int alt[9][2] = {{0, 0}, {0, sy}, {sx, sy}, {sx, 0}, {-sx, sy},
                         {-sx, 0}, {sx, -sy}, {0, -sy}, {-sx, -sy}};
        auto& d = m == 0 ? dir : alt;
        double best = 1e9;
        bool found = false;
        std::vector<std::pair<double, Spot>> all;
        for (int q = 0; q < 9 && !found; q++) {
            int x = i + d[q][0], y = j + d[q][1];
            for (int l = 0; l < 2 && !found; l++) {
                if (!sim::body_at(o, 2 * l, x, y)) continue;
                double z = std::fabs(b[2] - o.body_[2 * l + 1][x][y]);
                double lim = g.cell_size_z_ + sim::kTol;
                if (z < lim + eps) {
                    out.insert({l, x, y});       // if it is not certain go on
                    kind = q == 0 ? 0 : 1;
                    found = z < lim - eps;
                }
                all.push_back({z, {l, x, y}});
                best = std::min(best, z);
            }
        }
        if (found) continue;
        if (all.empty()) {
            out.insert({-1, i, j});
            kind = 3;
        } else {
            for (auto& w : all)
                if (w.first <= best + 2 * eps) out.insert(w.second);
            kind = 2;
        }
    }
    t->moved++;
    if (out.size() > 1) t->unclear++;
    else if (kind == 0) t->same++;
    else if (kind == 1) t->neighbour++;
    else if (kind == 2) t->closest++;
    else t->terrain++;
    return out;
}

// Compares what UpdateBodySoil did to `o` with the rule.
void judge(const Before& was, const ss::SimOut& o, const ss::Grid& g, const sim::Pose& from,
           const sim::Pose& to, const ss::Body* body, int warnings, Tally* t) {
    int X = o.terrain_.size(), Y = o.terrain_[0].size();
    double cz = g.cell_size_z_;
    PBT_CHECK(body->pos_ == to.pos && body->ori_ == to.ori, "the body is not at the new pose");
    PBT_CHECK(was.body == o.body_, "the walls changed");
    typedef std::tuple<float, float, float, long> Key;
    std::map<Key, std::vector<Spot>> got;
    for (auto& e : o.body_soil_pos_) {
        PBT_CHECK(e.ind % 2 == 0 && e.ind >= 0 && e.ind < 4 && e.ii >= 0 && e.ii < X &&
                      e.jj >= 0 && e.jj < Y, "entry out of range");
        double h = e.h_soil / cz;
        PBT_CHECK(std::fabs(h - std::round(h)) < 1e-4, "entry of ", h, " cells");
        got[{e.x_b, e.y_b, e.z_b, std::lround(h)}].push_back({e.ind / 2, e.ii, e.jj});
    }
    std::map<Key, std::vector<std::set<Spot>>> want;
    for (auto& e : was.pos) {
        long h = std::lround(e.h_soil / cz);
        if (h == 0) continue;
        auto s = places(e, o, g, from, to, t);
        want[{e.x_b, e.y_b, e.z_b, h}].push_back(s);
    }
    std::map<Spot, long> rise;
    long lost = 0, loose = 0;
    std::set<Spot> loose_at;
    for (auto& [k, sets] : want) {
        auto& spots = got[k];
        for (auto& w : spots)
            PBT_CHECK(sets[0].count(w), "the column of ", std::get<3>(k), " cells at (",
                      std::get<0>(k), ",", std::get<1>(k), ",", std::get<2>(k),
                      ") of the body went to wall ", std::get<0>(w) + 1, " of (",
                      std::get<1>(w), ",", std::get<2>(w), ") instead of wall ",
                      std::get<0>(*sets[0].begin()) + 1, " of (", std::get<1>(*sets[0].begin()),
                      ",", std::get<2>(*sets[0].begin()), ")", sets[0].size() > 1 ? " or others" : "");
        PBT_CHECK(spots.size() <= sets.size(), "a column was duplicated");
        long missing = static_cast<long>(sets.size() - spots.size());
        if (missing) {
            std::set<Spot> down;
            for (auto& w : sets[0]) if (std::get<0>(w) < 0) down.insert(w);
            PBT_CHECK(!down.empty(), "the column of ", std::get<3>(k), " cells at (",
                      std::get<0>(k), ",", std::get<1>(k), ",", std::get<2>(k),
                      ") of the body is not recorded any more, it belongs to wall ",
                      std::get<0>(*sets[0].begin()) + 1, " of (", std::get<1>(*sets[0].begin()),
                      ",", std::get<2>(*sets[0].begin()), ")");
            lost += missing;
            if (down.size() == 1) {
                rise[*down.begin()] += missing * std::get<3>(k);
            } else {
                loose += missing * std::get<3>(k);
                for (auto& w : down) loose_at.insert(w);
            }
        }
        got.erase(k);
    }
    PBT_CHECK(got.empty(), "an entry was made up");
    PBT_CHECK(warnings == lost, lost, " columns moved to the terrain and ", warnings, " warnings");
    // heights
    std::map<Spot, long> load;
    for (auto& e : o.body_soil_pos_)
        load[{e.ind / 2, e.ii, e.jj}] += std::lround(e.h_soil / cz);
    double left = 0;
    for (int i = 0; i < X; i++)
        for (int j = 0; j < Y; j++) {
            double up = (o.terrain_[i][j] - was.terrain[i][j]) / cz;
            auto r = rise.find({-1, i, j});
            double extra = up - (r == rise.end() ? 0 : r->second);
            if (loose_at.count({-1, i, j})) {
                PBT_CHECK(extra > -0.01, "terrain too low at (", i, ",", j, ")");
                left += extra;
            } else {
                PBT_CHECK(std::fabs(extra) < 0.01, "terrain at (", i, ",", j, ") rose by ", up,
                          " cells instead of ", up - extra);
            }
            for (int l = 0; l < 2; l++) {
                auto w = load.find({l, i, j});
                float b = o.body_soil_[2 * l][i][j], u = o.body_soil_[2 * l + 1][i][j];
                if (w == load.end()) {
                    PBT_CHECK(b == 0 && u == 0, "soil left behind: ", sim::cell_str(o, i, j));
                } else {
                    float top = o.body_[2 * l + 1][i][j];
                    PBT_CHECK(sim::body_at(o, 2 * l, i, j) && b == top &&
                                  std::fabs((u - b) / cz - w->second) < 0.01,
                              "expected ", w->second, " cells of soil on wall ", l + 1, " at (", i,
                              ",", j, "): ", sim::cell_str(o, i, j));
                }
            }
        }
    PBT_CHECK(std::fabs(left - loose) < 0.01, "terrain rose by ", left, " instead of ", loose);
}

// --------------------------------------------------------- any configuration
void any(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    double c = s.pick({0.1, 0.05, 0.2, 0.25, 0.03, 1.5, 3.0});
    double cz = s.pick({1.0, 0.5, 0.2, 0.73}) * c;
    int nx = s.range(3, 6), ny = s.range(3, 6), nz = s.range(4, 20);
    ss::Grid g(nx * c, ny * c, nz * cz, c, cz);
    ss::SimOut o(g);
    int X = 2 * nx + 1, Y = 2 * ny + 1;
    int pct = s.pick({60, 20, 5, 90});
    for (int i = 0; i < X; i++)
        for (int j = 0; j < Y; j++) {
            o.terrain_[i][j] = static_cast<float>(cz * s.sint(3));
            if (static_cast<int>(s.draw(100)) >= pct) continue;
            int n = s.range(1, 2), l = s.range(0, 1), z = s.sint(nz - 1);
            for (int k = 0; k < n && z < nz; k++, l = 1 - l) {
                int th = s.range(1, 3);
                o.body_[2 * l][i][j] = static_cast<float>(g.cell_size_z_ * z);
                o.body_[2 * l + 1][i][j] = static_cast<float>(g.cell_size_z_ * (z + th));
                z += th + s.range(1, 3);
            }
        }
    auto pose = [&]() {
        sim::Pose p{{0, 0, 0}, {1, 0, 0, 0}};
        if (s.chance(3, 4))
            for (int k = 0; k < 3; k++)
                p.pos[k] = static_cast<float>(s.sreal(2, 64) * (k < 2 ? c : cz));
        switch (s.weighted({2, 2, 2})) {
            case 0: break;
            case 1: p.ori = sim::axis_quat(0, 0, 1, s.sreal(3.1, 64)); break;
            default:
                p.ori = sim::qmul(sim::axis_quat(0, 1, 0, s.sreal(3.1, 64)),
                                  sim::axis_quat(1, 0, s.sreal(1), s.sreal(3.1, 64)));
        }
        return p;
    };
    sim::Pose to = pose(), from = to;
    switch (s.weighted({3, 2, 1})) {
        case 0:
            for (int k = 0; k < 3; k++)
                from.pos[k] += static_cast<float>(s.sreal(1, 16) * c);
            break;
        case 1:
            for (int k = 0; k < 3; k++)
                from.pos[k] += static_cast<float>(s.sreal(1, 16) * c);
            from.ori = sim::qmul(sim::axis_quat(s.sreal(1, 8), s.sreal(1, 8), 1, s.sreal(0.5, 16)), from.ori);
            break;
        default: from = pose();
    }
    int n = s.range(1, 12);
    bool drift = s.chance(1, 3);
    std::map<Spot, double> old;
    for (int k = 0; k < n; k++) {
        // position in the grid, at most places that keep the neighbours inside
        double p[3];
        p[0] = (s.range(1, X - 2) - nx + s.sreal(0.49, 32)) * c;
        p[1] = (s.range(1, Y - 2) - ny + s.sreal(0.49, 32)) * c;
        p[2] = (s.sint(nz) + s.sreal(1, 32)) * cz;
        // near an existing wall
        int i = static_cast<int>(std::floor(p[0] / c + nx + 0.5)) + (s.chance(1, 2) ? s.sint(1) : 0),
            j = static_cast<int>(std::floor(p[1] / c + ny + 0.5)) + (s.chance(1, 2) ? s.sint(1) : 0);
        int l = s.range(0, 1);
        if (s.chance(3, 4) && sim::body_at(o, 2 * l, i, j))
            p[2] = o.body_[2 * l + 1][i][j] + s.sreal(1.6, 32) * cz;
        double w[3], v[3];
        for (int d = 0; d < 3; d++) w[d] = p[d] - to.pos[d];
        std::vector<float> inv = {to.ori[0], -to.ori[1], -to.ori[2], -to.ori[3]};
        sim::rotate(inv, w, v);
        ss::body_soil e;
        e.ind = 2 * s.range(0, 1);
        e.ii = s.range(0, X - 1);
        e.jj = s.range(0, Y - 1);
        e.x_b = static_cast<float>(v[0]);
        e.y_b = static_cast<float>(v[1]);
        e.z_b = static_cast<float>(v[2]);
        double h = s.weighted({1, 8}) == 0 ? 0 : s.range(1, 6);
        if (drift) h = std::max(0.0, h + s.sreal(0.05, 16));
        e.h_soil = static_cast<float>(h * cz);
        if (h > 0) old[{e.ind, e.ii, e.jj}] += e.h_soil;
        o.body_soil_pos_.push_back(e);
        ctx.desc << " entry " << h << "@" << e.ind << "," << e.ii << "," << e.jj << " -> "
                 << p[0] / c + nx << "," << p[1] / c + ny << "," << p[2] / cz;
    }
    for (auto& [k, h] : old) {
        float base = static_cast<float>(g.cell_size_z_ * s.sint(3));
        auto [l, i, j] = k;
        o.body_soil_[l][i][j] = base;
        o.body_soil_[l + 1][i][j] = static_cast<float>(base + h);
    }
    ctx.desc << " cells " << c << "/" << cz << " grid " << nx << "x" << ny << "x" << nz
             << " from " << sim::fmt(from.pos) << sim::fmt(from.ori) << " to " << sim::fmt(to.pos)
             << sim::fmt(to.ori);
    ss::Bucket b;
    b.pos_ = from.pos;
    b.ori_ = from.ori;
    Before was(o);
    sim::reset_warn();
    ss::UpdateBodySoil(&o, to.pos, to.ori, g, &b, sim::kTol);
    Tally t;
    judge(was, o, g, from, to, &b, sim::warn().to_terrain, &t);
    if (t.same) ctx.label("columns kept on the wall found at their place", t.same);
    if (t.neighbour) ctx.label("columns moved to a neighbouring wall", t.neighbour);
    if (t.closest) ctx.label("columns moved to the vertically closest wall", t.closest);
    if (t.terrain) ctx.label("columns without wall around", t.terrain);
    if (t.unclear) ctx.label("columns whose place depends on rounding", t.unclear);
    ctx.nontrivial = t.moved - t.unclear >= 1;
}
const pbt::Register r1("C10.any", any);

// ------------------------------------------------ states of real simulations
void real(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.big = 3;
    so.vast = 1;
    so.scoop = 2;
    so.max_len = 7;
    sim::TrajOpt to;
    to.longer = 1;
    to.max_segments = 5;
    to.max_steps = 10;
    sim::World w(s, so, to);
    ctx.desc << w.str();
    Tally t;
    int loaded = 0;
    for (size_t k = 0; k < w.traj.size(); k++) {
        if (!w.o.body_soil_pos_.empty() && w.o.body_soil_pos_.size() > 0) {
            // the movement alone, on a copy
            ss::SimOut o = w.o;
            sim::AnyBody b = w.body;
            sim::Pose from{b.get()->pos_, b.get()->ori_};
            Before was(o);
            b.calc_pos(&o, w.traj[k], w.g, w.sp);
            was.body = o.body_;
            double d = 0;
            sim::Corners x = sim::corners(b.get(), from), y = sim::corners(b.get(), w.traj[k]);
            for (int q = 0; q < 6; q++)
                for (int a = 0; a < 3; a++) d = std::max(d, std::fabs(x.c[q][a] - y.c[q][a]));
            sim::reset_warn();
            ss::UpdateBodySoil(&o, w.traj[k].pos, w.traj[k].ori, w.g, b.get(), sim::kTol);
            judge(was, o, w.g, from, w.traj[k], b.get(), sim::warn().to_terrain, &t);
            loaded++;
        }
        w.step(k);
    }
    if (loaded) ctx.label("moves with soil on the body", loaded);
    if (t.same) ctx.label("columns kept on the wall found at their place", t.same);
    if (t.neighbour) ctx.label("columns moved to a neighbouring wall", t.neighbour);
    if (t.closest) ctx.label("columns moved to the vertically closest wall", t.closest);
    if (t.terrain) ctx.label("columns without wall around", t.terrain);
    if (t.unclear) ctx.label("columns whose place depends on rounding", t.unclear);
    ctx.nontrivial = t.same + t.neighbour + t.closest >= 3;
}
const pbt::Register r2("C10.real", real);

}  // namespace
