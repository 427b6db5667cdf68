// C21: no preferred direction.  Scenes with the eightfold symmetry of the
// square: over the random seeds every cell must fare like its mirror images.
#include <algorithm>
#include <functional>
#include "lattice.hpp"

namespace {

// Sum and sum of squares of what is observed at every cell, by orbit.
struct Stats {
    int X, Q;                       // grid size, observables per cell
    long n = 0;
    std::vector<double> s, s2;
    Stats(int x, int q) : X(x), Q(q), s(x * x * q, 0), s2(x * x * q, 0) {}
    void add(int i, int j, int q, double v) {
        size_t k = (i * X + j) * Q + q;
        s[k] += v;
        s2[k] += v * v;
    }
};

// Largest deviation from the mean of the mirror images, in standard errors.
double worst(const Stats& t, std::string* what) {
    int c = t.X / 2;
    double out = 0;
    for (int a = 0; a <= c; a++)
        for (int b = 0; b <= a; b++)
            for (int q = 0; q < t.Q; q++) {
                std::vector<std::pair<int, int>> orb;
                for (int i = -c; i <= c; i++)
                    for (int j = -c; j <= c; j++)
                        if (std::max(std::abs(i), std::abs(j)) == a && std::min(std::abs(i), std::abs(j)) == b)
                            orb.push_back({i + c, j + c});
                double m = 0, v = 0;
                for (auto& [i, j] : orb) {
                    size_t k = (i * t.X + j) * t.Q + q;
                    m += t.s[k];
                    v += t.s2[k];
                }
                double N = static_cast<double>(t.n) * orb.size();
                m /= N;
                v = v / N - m * m;
                if (v < 1e-9) continue;
                for (auto& [i, j] : orb) {
                    double x = t.s[(i * t.X + j) * t.Q + q] / t.n;
                    double z = std::fabs(x - m) / std::sqrt(v / t.n);
                    if (z > out) {
                        out = z;
                        std::ostringstream o;
                        const char* name[] = {"terrain", "soil on wall 1", "soil on wall 2"};
                        o << name[q] << " at (" << i - c << "," << j - c << ") from the centre rises by " << x
                          << " cells on average over " << t.n << " seeds, its mirror images by " << m;
                        *what = o.str();
                    }
                }
            }
    return out;
}

// Runs the operation over many seeds.  A suspicion is looked at again with
// fresh seeds, so that chance alone does not make a failure.
void judge(pbt::Src& s, pbt::Ctx& ctx, const lat::State& st, const lat::Bench& b,
           const std::function<void(lat::Run&)>& op, bool shuffle) {
    int X = st.X;
    uint32_t seed = s.draw(1u << 30);
    std::mt19937 own(seed ^ 0x5bd1e995u);
    ss::rng.seed(seed);
    lat::Run r0(st, b);
    ss::SimOut base = r0.o;
    double cz = r0.g.cell_size_z_;
    bool moved = false;
    std::string what;
    double z = 0;
    for (long N : {200L, 4000L, 40000L}) {
        Stats t(X, 3);
        for (long k = 0; k < N; k++) {
            lat::Run& r = r0;
            r.o.terrain_ = base.terrain_;
            r.o.body_soil_ = base.body_soil_;
            r.o.body_soil_pos_ = base.body_soil_pos_;
            if (shuffle)
                for (int a = static_cast<int>(r.o.body_soil_pos_.size()) - 1; a > 0; a--)
                    std::swap(r.o.body_soil_pos_[a], r.o.body_soil_pos_[own() % (a + 1)]);
            op(r);
            for (int i = 0; i < X; i++)
                for (int j = 0; j < X; j++) {
                    double d[3] = {r.o.terrain_[i][j] - base.terrain_[i][j], 0, 0};
                    for (int l = 0; l < 2; l++)
                        d[l + 1] = (r.o.body_soil_[2 * l + 1][i][j] - r.o.body_soil_[2 * l][i][j]) -
                                   (base.body_soil_[2 * l + 1][i][j] - base.body_soil_[2 * l][i][j]);
                    for (int q = 0; q < 3; q++) {
                        double v = std::round(d[q] / cz);
                        if (v != 0) {
                            t.add(i, j, q, v);
                            moved = true;
                        }
                    }
                }
        }
        t.n = N;
        z = worst(t, &what);
        ctx.maxi("largest deviation [standard errors]", z);
        if (z < (N == 200 ? 4.0 : N == 4000 ? 5.0 : 7.0)) {
            z = 0;
            break;
        }
        if (N >= 4000) ctx.label("looked at again");
        if (ctx.verbose) std::printf("%ld seeds: %g standard errors, %s\n", N, z, what.c_str());
    }
    PBT_CHECK(z == 0, what, ", that is ", z, " standard errors");
    if (moved) ctx.label("scenes where soil moves");
    ctx.nontrivial = moved;
}

lat::Bench sym_bench(pbt::Src& s, int half) {
    lat::GenOpt go;
    go.half_min = go.half_max = half;
    lat::Bench b = lat::gen_bench(s, go);
    b.pos = {0, 0, 0};
    b.ori = {1, 0, 0, 0};
    return b;
}

// Gives every cell the content of its orbit.
template <typename F>
lat::State sym_state(const lat::Bench& b, F content) {
    lat::State st;
    st.X = st.Y = 2 * b.nx + 1;
    st.c.resize(st.X * st.Y);
    std::map<std::pair<int, int>, lat::Cell> orb;
    for (int a = 0; a <= b.nx; a++)
        for (int k = 0; k <= a; k++) orb[{a, k}] = content(a, k);
    for (int i = -b.nx; i <= b.nx; i++)
        for (int j = -b.nx; j <= b.nx; j++)
            st.at(i + b.nx, j + b.nx) = orb[{std::max(std::abs(i), std::abs(j)), std::min(std::abs(i), std::abs(j))}];
    return st;
}

void one_entry_each(lat::State* st) {
    for (int i = 0; i < st->X; i++)
        for (int j = 0; j < st->Y; j++)
            for (int l = 0; l < 2; l++)
                if (st->at(i, j).s[l]) st->e.push_back({l, i, j, st->at(i, j).s[l]});
}

// ------------------------------------------------------ terrain avalanches
void terrain(pbt::Src& s, pbt::Ctx& ctx) {
    lat::Bench b = sym_bench(s, s.range(3, 4));
    lat::GenOpt go;
    int kind = s.weighted({2, 2, 3});
    go.body_pct = s.pick({0, 40, 70});
    go.tlo = -4;
    go.thi = 6;
    long D = s.range(0, 3);
    long k = s.range(1, 4);
    lat::State st = sym_state(b, [&](int a, int c) {
        lat::Cell x;
        if (a == b.nx) return x;
        if (kind == 0) {                 // a peak
            if (a == 0) x.T = D + k;
        } else if (kind == 1) {          // hills around a hole
            if (a == 0) x.T = -k;
            if (a == 2 || (a == 1 && c == 1)) x.T = D + (c ? 0 : 1);
        } else {
            x = lat::gen_cell(s, go, a < b.nx - 1);
        }
        return x;
    });
    one_entry_each(&st);
    float rep = lat::repose_for(b, D);
    ctx.desc << b.str() << " critical " << D << " " << st.str();
    ss::SimParam sp(rep, 1, 2);
    judge(s, ctx, st, b, [&](lat::Run& r) {
        lat::set_area(r.o.impact_area_, 1, st.X - 1, 1, st.Y - 1);
        lat::set_area(r.o.relax_area_, 1, st.X - 1, 1, st.Y - 1);
        ss::RelaxTerrain(&r.o, r.g, &r.body, sp, sim::kTol);
    }, true);
}
const pbt::Register r1("C21.terrain", terrain, 120);

// --------------------------------------------- avalanches of soil on the body
void body_soil(pbt::Src& s, pbt::Ctx& ctx) {
    lat::Bench b = sym_bench(s, s.range(3, 4));
    lat::GenOpt go;
    go.body_pct = s.pick({100, 70, 40});
    go.tlo = -6;
    go.thi = 2;
    go.max_soil = 6;
    long D = s.range(0, 2);
    bool flat = s.chance(1, 2);
    long h = D + s.range(1, 5);
    lat::State st = sym_state(b, [&](int a, int) {
        lat::Cell x;
        if (a >= b.nx - 1) return x;
        if (!flat) return lat::gen_cell(s, go, true);
        x.b[0] = true;
        x.hi[0] = 1;
        if (a == 0 || s.chance(1, 3)) x.s[0] = h;
        return x;
    });
    one_entry_each(&st);
    ctx.desc << b.str() << " critical " << D << " " << st.str();
    ss::SimParam sp(lat::repose_for(b, D), 1, 2);
    judge(s, ctx, st, b, [&](lat::Run& r) {
        lat::set_area(r.o.impact_area_, 1, st.X - 1, 1, st.Y - 1);
        ss::RelaxBodySoil(&r.o, r.g, &r.body, sp, sim::kTol);
    }, true);
}
const pbt::Register r2("C21.body", body_soil, 120);

// ------------------------------------------------- soil squeezed by two walls
void squeeze(pbt::Src& s, pbt::Ctx& ctx) {
    lat::Bench b = sym_bench(s, s.range(3, 5));
    lat::GenOpt go;
    go.body_pct = s.pick({0, 40, 80});
    go.tlo = -6;
    go.thi = -1;
    lat::State st = sym_state(b, [&](int a, int) {
        lat::Cell x;
        if (a > 0) {
            x = lat::gen_cell(s, go, a < b.nx - 1);
            return x;
        }
        int l = s.range(0, 1);
        x.b[0] = x.b[1] = true;
        x.lo[l] = s.sint(2);
        x.hi[l] = x.lo[l] + 1;
        x.lo[1 - l] = x.hi[l] + s.range(1, 2);
        x.hi[1 - l] = x.lo[1 - l] + 1;
        x.s[l] = x.lo[1 - l] - x.hi[l] + s.range(1, 6);
        x.T = std::min(x.lo[0], x.lo[1]) - s.range(0, 3);
        return x;
    });
    one_entry_each(&st);
    ctx.desc << b.str() << " " << st.str();
    judge(s, ctx, st, b, [&](lat::Run& r) {
        ss::MoveIntersectingBodySoil(&r.o, r.g, &r.body, sim::kTol);
    }, true);
}
const pbt::Register r3("C21.squeeze", squeeze, 120);

// ------------------------------------------------- terrain inside the body
void displace(pbt::Src& s, pbt::Ctx& ctx) {
    lat::Bench b = sym_bench(s, s.range(3, 5));
    lat::GenOpt go;
    go.body_pct = s.pick({0, 60, 100});
    lat::State st = sym_state(b, [&](int a, int) {
        lat::Cell x;
        if (a > 0) return lat::gen_cell(s, go, a < b.nx - 1);
        int l = s.range(0, 1);
        x.b[l] = true;
        x.lo[l] = s.sint(3);
        x.hi[l] = x.lo[l] + s.range(1, 3);
        x.T = x.lo[l] + s.range(1, 8);
        return x;
    });
    one_entry_each(&st);
    ctx.desc << b.str() << " " << st.str();
    judge(s, ctx, st, b, [&](lat::Run& r) {
        lat::set_area(r.o.body_area_, 1, st.X - 1, 1, st.Y - 1);
        ss::MoveIntersectingBody(&r.o, sim::kTol);
    }, true);
}
const pbt::Register r4("C21.displace", displace, 120);

// --------------------------------------- order in which columns are treated
void order(pbt::Src& s, pbt::Ctx& ctx) {
    // a bucket in the air with a few stable columns
    sim::init_log();
    float c = 0.1f;
    ss::Grid g(1.2, 1.2, 2.0, c, c);
    std::vector<float> o{0, 0, 0}, j{0, 0, 0}, bb{0, 0, -0.4f}, t{0.5f, 0, -0.4f};
    ss::SimParam sp(static_cast<float>(s.real(0.6, 1.2, 16)), s.range(1, 3), s.range(2, 4));
    sim::Pose p{{0, 0, 1.02f}, {1, 0, 0, 0}}, q = p;
    q.pos[s.range(0, 2)] += static_cast<float>(s.pick({0.06, -0.06, 0.1}));
    ss::Bucket probe(o, j, bb, t, 0.6f);
    ss::SimOut start(g);
    ss::SoilDynamics dyn;
    ss::rng.seed(1);
    dyn.Step(&start, p.pos, p.ori, g, &probe, sp, sim::kTol);
    std::vector<std::pair<int, int>> base;
    for (int i = 0; i < static_cast<int>(start.terrain_.size()); i++)
        for (int k = 0; k < static_cast<int>(start.terrain_[0].size()); k++)
            if (sim::body_at(start, 0, i, k) && !sim::body_at(start, 2, i, k) &&
                start.body_[1][i][k] - start.body_[0][i][k] < 1.5 * c)
                base.push_back({i, k});
    PBT_CHECK(base.size() >= 8, "no base found");
    int n = s.range(2, 6);
    for (int k = 0; k < n; k++) {
        int z = s.draw(base.size());
        auto [i, m] = base[z];
        base.erase(base.begin() + z);
        start.body_soil_[0][i][m] = start.body_[1][i][m];
        start.body_soil_[1][i][m] = start.body_[1][i][m] + c;
        auto f = ss::CalcBodyFramePos(i, m, start.body_[1][i][m], g, &probe);
        start.body_soil_pos_.push_back({0, i, m, f[0], f[1], f[2], c});
    }
    // one more kind of order: two steps in a row
    ctx.desc << n << " columns, repose " << sp.repose_angle_ << " max_it " << sp.max_iterations_;
    uint32_t seed = s.draw(1u << 30);
    ss::rng.seed(seed);
    double z = 0;
    std::string what;
    for (long N : {240L, 4000L, 30000L}) {
        std::vector<long> count(n * n, 0);
        for (long k = 0; k < N; k++) {
            ss::SimOut out = start;
            ss::Bucket b = probe;
            PBT_CHECK(dyn.Step(&out, q.pos, q.ori, g, &b, sp, sim::kTol), "no update");
            if (out.body_soil_pos_.size() != static_cast<size_t>(n)) throw pbt::Discard();
            for (int e = 0; e < n; e++) {
                auto& x = out.body_soil_pos_[e];
                for (int f = 0; f < n; f++) {
                    auto& y = start.body_soil_pos_[f];
                    if (x.x_b == y.x_b && x.y_b == y.y_b) count[f * n + e]++;
                }
            }
        }
        z = 0;
        double m = static_cast<double>(N) / n, sd = std::sqrt(m * (1 - 1.0 / n));
        for (int k = 0; k < n * n; k++) {
            double d = std::fabs(count[k] - m) / sd;
            if (d > z) {
                z = d;
                std::ostringstream w;
                w << "column " << k / n << " of " << n << " is treated as number " << k % n << " " << count[k]
                  << " times out of " << N;
                what = w.str();
            }
        }
        ctx.maxi("largest deviation [standard errors]", z);
        if (z < (N == 240 ? 4.0 : N == 4000 ? 5.0 : 7.0)) {
            z = 0;
            break;
        }
    }
    PBT_CHECK(z == 0, what);
    ctx.nontrivial = true;
}
const pbt::Register r5("C21.order", order, 120);

}  // namespace
