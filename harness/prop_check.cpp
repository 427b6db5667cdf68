// C17: CheckVolume, CheckSoil and Check.
#include <algorithm>
#include "lattice.hpp"

namespace {

constexpr double kAmb = 3e-6;      // heights this close are equal
constexpr double kGap = 1e-4;      // heights this far are different

// -1: depends on rounding, 0: breaks a convention, 1: follows all
int sound(const ss::SimOut& o, std::string* why) {
    int out = 1;
    auto bad = [&](const char* w, int i, int j) {
        *why = std::string(w) + " at (" + std::to_string(i) + "," + std::to_string(j) + ")";
        out = 0;
    };
    bool unclear = false;
    // a is above b
    auto above = [&](double a, double b) {
        if (std::fabs(a - b) > kAmb && std::fabs(a - b) < kGap) unclear = true;
        return a > b + kAmb;
    };
    for (int i = o.body_area_[0][0]; i < o.body_area_[0][1]; i++)
        for (int j = o.body_area_[1][0]; j < o.body_area_[1][1]; j++) {
            double T = o.terrain_[i][j];
            for (int l = 0; l < 2; l++) {
                int m = 1 - l;
                bool w = sim::body_at(o, 2 * l, i, j), v = sim::body_at(o, 2 * m, i, j);
                bool s = sim::soil_at(o, 2 * l, i, j);
                double lo = o.body_[2 * l][i][j], hi = o.body_[2 * l + 1][i][j];
                double mlo = o.body_[2 * m][i][j], mhi = o.body_[2 * m + 1][i][j];
                double a = o.body_soil_[2 * l][i][j], b = o.body_soil_[2 * l + 1][i][j];
                if (w && above(T, lo)) bad("the terrain enters a wall", i, j);
                if (w && !above(hi, lo)) bad("a wall has no height", i, j);
                if (w && v && !above(lo, mhi) && !above(mlo, hi)) bad("walls overlap or touch", i, j);
                if (s && !w) bad("soil without wall", i, j);
                if (s && above(a, b)) bad("soil of negative height", i, j);
                if (s && v && above(b, mlo) && above(mhi, a)) bad("soil enters a wall", i, j);
                if (s && w && a != hi) {
                    if (std::fabs(a - hi) < kGap) unclear = true;
                    else bad("soil not resting on its wall", i, j);
                }
            }
        }
    return unclear ? -1 : out;
}

// As above for the volume.
int volume(const ss::SimOut& o, const ss::Grid& g, long init, std::string* why) {
    double cz = g.cell_size_z_;
    int X = o.terrain_.size(), Y = o.terrain_[0].size();
    std::vector<double> rec(4 * X * Y, 0);
    for (auto& e : o.body_soil_pos_) rec[(e.ind / 2 * X + e.ii) * Y + e.jj] += e.h_soil;
    long total = 0;
    int out = 1;
    bool half = false;
    auto whole = [&](double h) {
        double q = h / cz;
        half |= std::fabs(q - std::floor(q) - 0.5) < 1e-3;
        return std::lround(q);
    };
    for (int i = 0; i < X; i++)
        for (int j = 0; j < Y; j++) {
            total += whole(o.terrain_[i][j]);
            for (int l = 0; l < 2; l++) {
                double h = double(o.body_soil_[2 * l + 1][i][j]) - o.body_soil_[2 * l][i][j];
                double d = std::fabs(h - rec[(l * X + i) * Y + j]);
                if (d > 0.02 * cz && d < 0.2 * cz) return -1;
                if (d >= 0.2 * cz) {
                    out = 0;
                    *why = "records differ from the soil at (" + std::to_string(i) + "," + std::to_string(j) + ")";
                }
                total += whole(h);
            }
        }
    if (half && out) return -1;
    if (total != init) {
        out = 0;
        *why = std::to_string(total) + " cells instead of " + std::to_string(init);
    }
    return out;
}

void judge(ss::SimOut* o, const ss::Grid& g, long init, pbt::Ctx* ctx, const char* what) {
    std::string w1, w2;
    int a = sound(*o, &w1), b = volume(*o, g, init, &w2);
    ss::SimOut was = *o;
    sim::reset_warn();
    bool ga = ss::CheckSoil(o, sim::kTol);
    int na = sim::warn().other;
    sim::reset_warn();
    bool gb = ss::CheckVolume(o, static_cast<int>(init), g, sim::kTol);
    int nb = sim::warn().other;
    sim::reset_warn();
    ss::SoilDynamics dyn;
    dyn.Check(o, static_cast<int>(init), g, sim::kTol);
    int n = sim::warn().other;
    if (a >= 0)
        PBT_CHECK(ga == (a == 1), what, ": the soil check ", ga ? "succeeds" : "fails",
                  a == 1 ? " on a valid state" : ": ", w1);
    if (b >= 0)
        PBT_CHECK(gb == (b == 1), what, ": the volume check ", gb ? "succeeds" : "fails",
                  b == 1 ? " on a consistent state" : ": ", w2);
    PBT_CHECK(na == (ga ? 0 : 1) && nb == (gb ? 0 : 1), what, ": a failed check logs ", na, "/", nb, " warnings");
    PBT_CHECK(n == na + nb, what, ": the whole check logs ", n, " warnings instead of ", na + nb);
    PBT_CHECK(sim::Snapshot(was).same(*o), what, ": the state was changed by the checks");
    ctx->label(std::string(what) + (a < 0 || b < 0 ? ": unclear" : a && b ? ": accepted" : ": rejected"));
    if (!a) ctx->label("rejected: " + w1.substr(0, w1.find(" at ")));
    if (!b) ctx->label(w2[0] == 'r' ? "rejected: records" : "rejected: volume");
}

void corrupt(pbt::Src& s, pbt::Ctx& ctx) {
    lat::GenOpt go;
    go.half_min = 2;
    go.half_max = 4;
    go.margin = 0;
    go.body_pct = s.pick({70, 30, 90});
    go.narrow = true;
    lat::widen(s, &go);
    lat::Bench b = lat::gen_bench(s, go);
    lat::State st = lat::gen_state(s, b, go);
    lat::lift(s, b, &st);
    lat::Run r(st, b);
    ss::SimOut& o = r.o;
    int X = st.X, Y = st.Y;
    if (s.chance(2, 3))
        lat::set_area(o.body_area_, 0, X, 0, Y);
    else
        lat::set_area(o.body_area_, s.range(0, X / 2), s.range(X / 2 + 1, X), s.range(0, Y / 2),
                      s.range(Y / 2 + 1, Y));
    long total = st.total();
    ctx.desc << b.str() << " " << st.str() << " area " << o.body_area_[0][0] << "-"
             << o.body_area_[0][1] << "," << o.body_area_[1][0] << "-" << o.body_area_[1][1];
    judge(&o, r.g, total, &ctx, "generated state");
    // changes
    double cz = r.g.cell_size_z_;
    int n = s.range(0, 3);
    for (int k = 0; k < n; k++) {
        int i = s.range(0, X - 1), j = s.range(0, Y - 1), l = s.range(0, 3);
        // half of the time where something is
        if (s.chance(2, 3)) {
            std::vector<std::pair<int, int>> at;
            for (int p = 0; p < X; p++)
                for (int q = 0; q < Y; q++)
                    if (sim::body_at(o, 0, p, q) || sim::body_at(o, 2, p, q)) at.push_back({p, q});
            if (!at.empty()) std::tie(i, j) = at[s.draw(at.size())];
        }
        double d = cz * (s.chance(1, 4) ? s.pick({0.3, -0.3, 0.6, -0.6}) : s.pick({1, -1, 2, -2, 3, -3, 5, -5}));
        float f = static_cast<float>(d);
        switch (s.weighted({3, 3, 3, 2, 2, 2, 2, 2, 1})) {
            case 0:
                o.terrain_[i][j] += f;
                ctx.desc << " terrain(" << i << "," << j << ")+" << f;
                break;
            case 1:
                if (!sim::body_at(o, l / 2 * 2, i, j)) break;
                o.body_[l][i][j] += f;
                ctx.desc << " body" << l << "(" << i << "," << j << ")+" << f;
                break;
            case 2:
                o.body_soil_[l][i][j] += f;
                ctx.desc << " soil" << l << "(" << i << "," << j << ")+" << f;
                break;
            case 3:        // a wall goes away
                o.body_[l / 2 * 2][i][j] = o.body_[l / 2 * 2 + 1][i][j] = 0;
                ctx.desc << " no wall " << l / 2 << "(" << i << "," << j << ")";
                break;
            case 4:        // the soil and its records move up or down together
                o.body_soil_[l / 2 * 2][i][j] += f;
                o.body_soil_[l / 2 * 2 + 1][i][j] += f;
                ctx.desc << " lifted soil " << l / 2 << "(" << i << "," << j << ")+" << f;
                break;
            case 5:        // records
                if (o.body_soil_pos_.empty()) break;
                {
                    auto& e = o.body_soil_pos_[s.draw(o.body_soil_pos_.size())];
                    switch (s.range(0, 3)) {
                        case 0: e.h_soil += f; break;
                        case 1: e.ii = i; e.jj = j; break;
                        case 2: e.ind = 2 - e.ind; break;
                        default: o.body_soil_pos_.push_back(ss::body_soil(e)); break;
                    }
                    ctx.desc << " record changed " << f;
                }
                break;
            case 6:
                if (!o.body_soil_pos_.empty()) {
                    o.body_soil_pos_.erase(o.body_soil_pos_.begin() + s.draw(o.body_soil_pos_.size()));
                    ctx.desc << " record removed";
                }
                break;
            case 7:        // soil moved from the terrain to the body or back, records kept right
                if (sim::soil_at(o, l / 2 * 2, i, j) && !o.body_soil_pos_.empty()) {
                    for (auto& e : o.body_soil_pos_)
                        if (e.ind == l / 2 * 2 && e.ii == i && e.jj == j) {
                            e.h_soil += f;
                            o.body_soil_[l / 2 * 2 + 1][i][j] += f;
                            if (s.chance(1, 2)) o.terrain_[i][j] -= f;
                            ctx.desc << " column " << l / 2 << "(" << i << "," << j << ")+" << f;
                            break;
                        }
                }
                break;
            default:
                total += s.sint(3);
                ctx.desc << " volume " << total;
        }
    }
    // swapped layers change nothing, a zero record neither
    if (s.chance(1, 6)) o.body_soil_pos_.push_back({0, s.range(0, X - 1), s.range(0, Y - 1), 0, 0, 0, 0.0f});
    judge(&o, r.g, total, &ctx, "changed state");
    ctx.nontrivial = n > 0;
}
const pbt::Register r1("C17.corrupt", corrupt);

void real(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.big = 2;
    so.vast = 1;
    so.scoop = 2;
    so.max_len = 6;
    sim::TrajOpt to;
    to.longer = 1;
    to.max_segments = 4;
    to.max_steps = 10;
    sim::World w(s, so, to);
    ctx.desc << w.str();
    long init = sim::total_int(w.o, w.g);
    int ups = 0, loaded = 0;
    for (size_t k = 0; k < w.traj.size(); k++) {
        if (!w.step(k)) continue;
        ups++;
        if (sim::warn().removed) init = sim::total_int(w.o, w.g);
        loaded += sim::body_soil_cells(w.o, w.g) > 0;
        PBT_CHECK(ss::CheckVolume(&w.o, static_cast<int>(init), w.g, sim::kTol), "step ", k,
                  ": the volume check fails: ", sim::warn().last);
        PBT_CHECK(ss::CheckSoil(&w.o, sim::kTol), "step ", k, ": the soil check fails: ",
                  sim::warn().last);
        PBT_CHECK(!ss::CheckVolume(&w.o, static_cast<int>(init) + 1, w.g, sim::kTol),
                  "step ", k, ": the volume check accepts any volume");
    }
    ctx.label("states of a simulation checked", ups);
    ctx.label("with soil on the body", loaded);
    ctx.nontrivial = ups >= 2 && loaded >= 1;
}
const pbt::Register r2("C17.real", real);

// Many cells of soil: every single one counts.  Also tall columns on the body.
void large(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    float cell = s.pick({0.1f, 0.05f, 0.25f, 1.0f}), cz = cell / s.pick({1, 2, 5});
    int nx = s.range(8, 70), ny = s.range(8, 70);
    ss::Grid g((nx + 0.01f) * cell, (ny + 0.01f) * cell, 20 * cell, cell, cz);
    ss::SimOut o(g);
    int X = o.terrain_.size(), Y = o.terrain_[0].size();
    // up to half of what an int holds
    int top = static_cast<int>(std::min(30000.0, 1e9 / (static_cast<double>(X) * Y)));
    int lo = s.pick({0, 1, -1}), at = s.range(1, top), spread = s.range(0, std::min(at, 50));
    long base = lo < 0 ? -at : at, total = 0;
    auto put = [&](int i, int j, long n) {
        total += n;
        o.terrain_[i][j] = static_cast<float>(static_cast<double>(cz) * n);
    };
    uint32_t x = s.draw(1u << 30) | 1;
    auto any = [&](int n) { x = x * 1664525u + 1013904223u; return static_cast<int>((x >> 8) % n); };
    for (int i = 0; i < X; i++)
        for (int j = 0; j < Y; j++) put(i, j, base + any(spread + 1));
    int cols = s.range(0, 40), tall = s.pick({1, 20, 255, 256, 300, 5000});
    ss::Bucket body({0, 0, 0}, {0, 0, 0}, {0, 0, -cell}, {cell, 0, -cell}, cell);
    body.ori_ = {1, 0, 0, 0};
    for (int k = 0; k < cols; k++) {
        int i = any(X - 4) + 2, j = any(Y - 4) + 2, l = any(2) * 2, n = any(tall) + 1;
        if (sim::body_at(o, 0, i, j) || sim::body_at(o, 2, i, j)) continue;
        // level with the lowest wall, above the ground
        long h = std::lround(o.terrain_[i][j] / cz) + 1;
        if (h == 0 || h + 1 == 0) h += 2;
        if (h + 1 + n == 0) n++;
        auto H = [&](long k) { return static_cast<float>(static_cast<double>(cz) * k); };
        o.body_[l][i][j] = H(h);
        o.body_[l + 1][i][j] = H(h + 1);
        o.body_soil_[l][i][j] = H(h + 1);
        o.body_soil_[l + 1][i][j] = H(h + 1 + n);
        float left = o.body_soil_[l + 1][i][j] - o.body_soil_[l][i][j];
        int parts = n > 1 ? any(3) + 1 : 1;
        for (int q = 0; q < parts; q++) {
            auto p = ss::CalcBodyFramePos(i, j, H(h + 1), g, &body);
            float part = q + 1 == parts ? left : H(n / parts);
            left -= part;
            o.body_soil_pos_.push_back(ss::body_soil{l, i, j, p[0], p[1], p[2], part});
        }
        total += n;
    }
    ctx.desc << "grid " << X << "x" << Y << " cells " << cell << "/" << cz << " terrain " << base << " +"
             << spread << " columns " << cols << " up to " << tall << ": " << total << " cells";
    PBT_CHECK(ss::CheckVolume(&o, static_cast<int>(total), g, sim::kTol), "the volume check fails: ",
              sim::warn().last);
    for (int d : {1, -1, 2, 17})
        PBT_CHECK(!ss::CheckVolume(&o, static_cast<int>(total) + d, g, sim::kTol),
                  "the volume check accepts ", d, " cells too much");
    // one cell of soil disappears somewhere
    int i = any(X), j = any(Y);
    o.terrain_[i][j] = static_cast<float>(static_cast<double>(cz) * (std::lround(o.terrain_[i][j] / cz) - 1));
    PBT_CHECK(!ss::CheckVolume(&o, static_cast<int>(total), g, sim::kTol), "one cell less at (", i, ",", j,
              ") is not noticed");
    PBT_CHECK(ss::CheckVolume(&o, static_cast<int>(total) - 1, g, sim::kTol),
              "the volume check fails after one cell was taken away: ", sim::warn().last);
    if (std::labs(total) > (1l << 24)) ctx.label("more cells than a float can count");
    ctx.nontrivial = std::labs(total) > 65536;
}
const pbt::Register r3("C17.large", large);

}  // namespace
