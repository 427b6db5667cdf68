// C15: the initial terrain (Init, simplex_noise).
#include <array>
#include <cstring>
#include <numeric>
#include "sim.hpp"

namespace {

// Textbook two-dimensional simplex noise with eight gradients, in double.
double simplex(double x, double y, const std::vector<int>& p) {
    static const int grad[8][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1},
                                   {1, 1}, {1, -1}, {-1, 1}, {-1, -1}};
    const double F = 0.5 * (std::sqrt(3.0) - 1), G = (3 - std::sqrt(3.0)) / 6;
    double skew = (x + y) * F;
    long i = static_cast<long>(std::floor(x + skew)), j = static_cast<long>(std::floor(y + skew));
    double sum = 0;
    double ux = x - (i - (i + j) * G), uy = y - (j - (i + j) * G);
    int a = ux > uy ? 1 : 0;
    int corner[3][2] = {{0, 0}, {a, 1 - a}, {1, 1}};
    for (auto& c : corner) {
        double dx = ux - c[0] + (c[0] + c[1]) * G, dy = uy - c[1] + (c[0] + c[1]) * G;
        double t = 0.5 - dx * dx - dy * dy;
        if (t <= 0) continue;
        long row = p[(j + c[1]) & 255];
        const int* g = grad[p[(i + c[0] + row) & 255] % 8];
        sum += t * t * t * t * (dx * g[0] + dy * g[1]);
    }
    return sum;
}

void noise(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    std::vector<int> p(256);
    std::iota(p.begin(), p.end(), 0);
    std::mt19937 r(s.draw(100000));
    if (s.chance(4, 5))
        for (int k = 255; k > 0; k--) std::swap(p[k], p[r() % (k + 1)]);
    double m = s.pick({1.0, 8.0, 30.0});
    double worst = 0, top = 0;
    for (int n = 0; n < 16; n++) {
        float x = static_cast<float>(s.real(0, m, 1 << 20)), y = static_cast<float>(s.real(0, m, 1 << 20));
        if (s.chance(1, 8)) y = x;
        double want = simplex(x, y, p), got = ss::simplex_noise(x, y, p);
        PBT_CHECK(std::fabs(want - got) < 1e-5, "noise of ", got, " at (", x, ",", y,
                  ") instead of ", want);
        worst = std::max(worst, std::fabs(want - got));
        top = std::max(top, std::fabs(got));
        // continuity
        float d = static_cast<float>(m * 1e-4);
        double next = ss::simplex_noise(x + d, y, p);
        PBT_CHECK(std::fabs(next - got) < 0.5 * d + 1e-5, "the noise jumps from ", got, " to ", next,
                  " at (", x, ",", y, ")");
    }
    ctx.maxi("error of the noise", worst);
    ctx.maxi("largest noise", top);
    ctx.nontrivial = top > 1e-3;
}
const pbt::Register r1("C15.noise", noise);

void init(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    double c = s.pick({0.1, 0.05, 0.37, 1.0});
    double cz = c * s.pick({1.0, 0.1, 0.5, 0.03});
    int nx = s.range(1, 24), ny = s.range(1, 24);
    ss::Grid g(nx * c, ny * c, cz * 40, c, cz);
    double amp = s.weighted({1, 9}) == 0 ? 0
                 : s.pick({100.0, 1000.0, 10.0, 10000.0}) * cz * s.real(0.1, 5) *
                       (s.chance(1, 10) ? -1 : 1);
    uint32_t seed = s.draw(1u << 31);
    float fa = static_cast<float>(amp);
    ctx.desc << "cells " << c << "/" << cz << " grid " << nx << "x" << ny << " amplitude " << fa
             << " seed " << seed;
    ss::SimOut o(g);
    // something was there before
    bool dirty = s.chance(1, 2);
    if (dirty) {
        for (int n = s.range(1, 20); n > 0; n--) {
            int i = s.range(0, 2 * nx), j = s.range(0, 2 * ny), l = s.range(0, 3);
            o.terrain_[i][j] = static_cast<float>(s.sreal(5));
            o.body_[l][i][j] = static_cast<float>(s.sreal(5));
            o.body_soil_[l][i][j] = static_cast<float>(s.sreal(5));
        }
        o.body_soil_pos_.push_back({0, 1, 1, 0.5f, 0.25f, 0.125f, 1.0f});
        o.equilibrium_ = s.chance(1, 2);
        o.body_area_[0][0] = s.range(0, nx);
        o.relax_area_[1][1] = s.range(ny, 2 * ny);
    }
    ss::SimOut was = o;
    ss::rng.seed(seed);
    ss::SoilDynamics dyn;
    dyn.Init(&o, g, fa);
    // the same table from the same generator
    std::vector<int> p(256);
    std::iota(p.begin(), p.end(), 0);
    std::mt19937 r(seed);
    for (int k = 255; k > 0; k--) {
        std::uniform_int_distribution<int> d(0, k);
        std::swap(p[k], p[d(r)]);
    }
    int rough = 0;
    double worst = 0;
    PBT_CHECK(o.terrain_.size() == size_t(2 * nx + 1), "the terrain has ", o.terrain_.size(), " rows");
    for (int i = 0; i <= 2 * nx; i++) {
        PBT_CHECK(o.terrain_[i].size() == size_t(2 * ny + 1), "row of ", o.terrain_[i].size(), " cells");
        for (int j = 0; j <= 2 * ny; j++) {
            double x = i / (2.0 * nx), y = j / (2.0 * ny), ref = 0;
            for (int k = 0; k < 4; k++)
                ref += simplex(x * (1 << k), y * (1 << k), p) / (2 << k);
            ref *= fa;
            double h = o.terrain_[i][j];
            double n = h / g.cell_size_z_;
            PBT_CHECK(std::fabs(n - std::round(n)) < 1e-3, "height of ", n, " cells at (", i, ",", j, ")");
            double e = std::fabs(n - ref / g.cell_size_z_);
            PBT_CHECK(e <= 0.5 + 1e-3 + 1e-5 * std::fabs(amp) / cz, "height of ", n, " cells at (", i, ",",
                      j, ") where the noise is ", ref / g.cell_size_z_);
            PBT_CHECK(std::fabs(h) <= std::fabs(fa) + 0.5001 * g.cell_size_z_, "height ", h, " beyond the amplitude");
            PBT_CHECK(amp != 0 || h == 0, "not flat");
            worst = std::max(worst, e);
            rough += std::lround(n) != 0;
        }
    }
    ctx.maxi("distance to the noise [cells]", worst);
    sim::Snapshot a(o), b(was);
    PBT_CHECK(a.body == b.body && a.body_soil == b.body_soil, "the body or the soil on it changed");
    PBT_CHECK(a.eq == b.eq && std::memcmp(a.area, b.area, sizeof a.area) == 0, "areas or state changed");
    PBT_CHECK(o.body_soil_pos_.size() == was.body_soil_pos_.size(), "records changed");
    // again on a fresh output, something else having been drawn before
    ss::SimOut o2(g);
    ss::SimOut o3(g);
    dyn.Init(&o3, g, 1.0f);
    ss::rng.seed(seed);
    dyn.Init(&o2, g, fa);
    PBT_CHECK(o2.terrain_ == o.terrain_, "the same seed gives another terrain");
    if (amp == 0) ctx.label("flat");
    if (dirty) ctx.label("started from another terrain");
    ctx.nontrivial = rough > 3;
}
const pbt::Register r2("C15.init", init);

}  // namespace
