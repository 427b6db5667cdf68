// C11, C16, C20, C22: what one call of Step does and does not do.
#include <malloc.h>
#include <algorithm>
#include <cstring>
#include "sim.hpp"

namespace {

double corner_move(const ss::Body* b, const sim::Pose& p, const sim::Pose& q) {
    sim::Corners a = sim::corners(b, p), c = sim::corners(b, q);
    double m = 0;
    for (int k = 0; k < 6; k++) {
        double d = 0;
        for (int i = 0; i < 3; i++) d += (a.c[k][i] - c.c[k][i]) * (a.c[k][i] - c.c[k][i]);
        m = std::max(m, std::sqrt(d));
    }
    return m;
}

// ------------------------------------------------------------------- C11
// Random walk with moves from far below to far above half a cell.
std::vector<sim::Pose> walk(pbt::Src& s, const sim::Scene& sc, double top) {
    double mc = std::min(sc.cell_xy, sc.cell_z);
    double zlo = top - sc.box_z - 0.5 * sc.radius, zhi = top + sc.radius + sc.box_z;
    std::vector<sim::Pose> out;
    sim::Pose p = sim::gen_pose(s, sc, top + 0.2 * sc.radius, zhi);
    out.push_back(p);
    bool creep = s.chance(1, 12);
    int n = s.range(2, creep ? 6 : 24);
    double size = 0.1, d[3] = {0, 0, -1}, rot = 0;
    for (int k = 0; k < n; k++) {
        int times = 1;      // creeping: many moves that are tiny
        if (k == 0 || s.chance(1, 4)) {
            switch (s.weighted({4, 4, 2, 1})) {
                case 0: size = s.real(0.02, 0.45, 64); break;
                case 1: size = s.real(0.4, 0.6, 64); break;
                case 2: size = s.real(0.6, 1.9, 64); break;
                default: size = s.real(1.9, 3.0, 64);
            }
            for (double& v : d) v = s.sreal(1, 16);
            double l = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
            if (l == 0) d[2] = -1, l = 1;
            for (double& v : d) v /= l;
            rot = s.chance(1, 3) ? (s.chance(1, 2) ? 1 : -1) : 0;
        }
        double move = size;
        if (creep && s.chance(1, 3)) {
            move = std::pow(10.0, s.real(-3.7, -1.2, 32));
            times = std::min(400, static_cast<int>(s.real(0.1, 1.2, 16) / move) + 1);
        }
        if (times == 1 && s.chance(1, 8) && out.size() > 1) {
            p = out[out.size() - 1 - s.range(0, static_cast<int>(out.size()) - 1)];   // back to an earlier pose
        } else {
            for (int m = 0; m < times; m++) {
                if (m > 0) out.push_back(p);
                for (int i = 0; i < 3; i++)
                    p.pos[i] = static_cast<float>(p.pos[i] + (rot != 0 ? 0.3 : 1.0) * move * mc * d[i]);
                p.pos[0] = std::max<float>(-sc.box_x, std::min<float>(sc.box_x, p.pos[0]));
                p.pos[1] = std::max<float>(-sc.box_y, std::min<float>(sc.box_y, p.pos[1]));
                p.pos[2] = std::max<float>(zlo, std::min<float>(zhi, p.pos[2]));
                if (rot != 0)
                    p.ori = sim::qmul(sim::axis_quat(d[2], 1, d[0], 0.7 * rot * move * mc / sc.radius), p.ori);
            }
        }
        out.push_back(p);
    }
    return out;
}

void gate(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.max_len = 6;
    so.max_ratio = 3;
    sim::TrajOpt to;
    to.longer = 1;
    to.max_segments = 2;
    to.max_steps = 8;
    sim::World w(s, so, to);
    if (s.chance(3, 4)) w.traj = walk(s, w.sc, w.top);
    ctx.desc << w.str();
    double mc = std::min(w.sc.cell_xy, w.sc.cell_z);
    sim::Pose last;
    bool first = true;
    int refused = 0, done = 0, warned = 0, accumulated = 0;
    double prev = 0;
    for (size_t k = 0; k < w.traj.size(); k++) {
        const sim::Pose& p = w.traj[k];
        sim::Snapshot before(w.o);
        std::mt19937 rng = ss::rng;
        auto bpos = w.body.get()->pos_;
        auto bori = w.body.get()->ori_;
        double d = first ? 1e9 : corner_move(w.body.get(), last, p) / mc;
        bool alone = !first && k > 0 && corner_move(w.body.get(), w.traj[k - 1], p) < 0.5 * mc;
        if (!first && (std::fabs(d - 0.5) < 1e-3 || std::fabs(d - 2.0) < 1e-3)) throw pbt::Discard();
        bool up = w.step(k);
        PBT_CHECK(up == (d >= 0.5), "step ", k, " moved ", d,
                  " cells since the last update and returned ", up);
        if (up) {
            PBT_CHECK(w.body.get()->pos_ == p.pos && w.body.get()->ori_ == p.ori,
                      "step ", k, " was executed but the body is at ",
                      sim::fmt(w.body.get()->pos_), sim::fmt(w.body.get()->ori_));
            if (!first)
                PBT_CHECK((sim::warn().large_move > 0) == (d > 2.0), "step ", k, " of ", d,
                          " cells: ", sim::warn().large_move, " warnings of a large move");
            warned += !first && d > 2.0;
            accumulated += alone && prev < 0.5;
            done++;
            last = p;
            first = false;
        } else {
            PBT_CHECK(before.same(w.o), "step ", k, " returned false but changed the outputs");
            PBT_CHECK(rng == ss::rng, "step ", k, " returned false but used random numbers");
            PBT_CHECK(w.body.get()->pos_ == bpos && w.body.get()->ori_ == bori,
                      "step ", k, " returned false but moved the body");
            const sim::Warn& n = sim::warn();
            PBT_CHECK(n.removed + n.to_terrain + n.large_move + n.other == 0,
                      "step ", k, " returned false with a warning");
            refused++;
        }
        prev = up ? 0 : d;
    }
    if (refused) ctx.label("steps without effect", refused);
    if (warned) ctx.label("large moves", warned);
    if (accumulated) ctx.label("updates due to accumulated small moves", accumulated);
    if (refused > 60) ctx.label("creeping");
    ctx.label("executed steps", done);
    ctx.nontrivial = done >= 2 && (refused || warned);
}

// ------------------------------------------------------------------- C22
void footprint(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.big = 3;
    so.vast = 2;
    so.scoop = 2;
    so.max_len = 7;
    so.max_ratio = 4;
    sim::TrajOpt to;
    to.longer = 1;
    to.max_segments = 3;
    to.max_steps = 8;
    to.max_cells = s.pick({1.0, 2.0, 4.0});
    sim::World w(s, so, to);
    if (s.chance(1, 3)) {      // jumps
        int n = s.range(1, 6);
        for (int k = 0; k < n; k++)
            w.traj.insert(w.traj.begin() + s.range(0, static_cast<int>(w.traj.size())),
                          sim::gen_pose(s, w.sc, w.top - w.sc.box_z, w.top + w.sc.radius));
    }
    ctx.desc << w.str();
    int ups = 0;
    double far = 0;
    for (size_t k = 0; k < w.traj.size(); k++) {
        if (!w.step(k)) continue;
        if (ups) far = std::max(far, corner_move(w.body.get(), w.traj[k - 1], w.traj[k]));
        ups++;
        ss::SimOut fresh(w.g);
        sim::AnyBody b(w.sc);
        b.calc_pos(&fresh, w.traj[k], w.g, w.sp);
        for (int l = 0; l < 4; l++)
            for (size_t i = 0; i < fresh.terrain_.size(); i++)
                for (size_t j = 0; j < fresh.terrain_[0].size(); j++)
                    PBT_CHECK(fresh.body_[l][i][j] == w.o.body_[l][i][j], "after step ", k,
                              " the body at (", i, ",", j, ") is ", sim::cell_str(w.o, i, j),
                              " but the pose alone gives ", sim::cell_str(fresh, i, j));
        PBT_CHECK(std::memcmp(fresh.body_area_, w.o.body_area_, sizeof(fresh.body_area_)) == 0,
                  "after step ", k, " the body area differs from that of the pose alone");
    }
    ctx.label("steps", ups);
    ctx.maxi("largest move [cells]", far / w.sc.cell_xy);
    ctx.nontrivial = ups >= 3;
}

// ------------------------------------------------------------------- C16
// Leaves recognisable junk where the next call puts its variables.
__attribute__((noinline)) void junk(int byte) {
    volatile char a[20000];
    for (size_t k = 0; k < sizeof(a); k++) a[k] = static_cast<char>(byte);
    mallopt(M_PERTURB, byte);
    std::vector<char*> v;
    for (int n = 8; n < 20000; n = n * 3 / 2) {
        char* p = static_cast<char*>(malloc(n));
        std::memset(p, byte, n);
        v.push_back(p);
    }
    for (char* p : v) free(p);
}

void repeat(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.big = 2;
    so.vast = 1;
    so.scoop = 2;
    so.max_len = 6;
    so.max_ratio = 3;
    sim::TrajOpt to;
    to.longer = 1;
    to.max_segments = 4;
    to.max_steps = 10;
    sim::World w(s, so, to);
    sim::SceneOpt so2;
    so2.max_len = 5;
    so2.max_box = 3;
    sim::TrajOpt to2;
    to2.max_segments = 2;
    to2.max_steps = 6;
    sim::World other(s, so2, to2);
    std::string init;
    float amp = static_cast<float>(s.real(0, 30, 32) * w.sc.cell_xy);
    bool use_init = s.chance(1, 2);
    ctx.desc << w.str() << " | interleaved with " << other.str() << " init=" << use_init;
    int n = static_cast<int>(w.traj.size());
    int cut = s.range(0, n - 1);
    const ss::SimOut start = w.o;
    const sim::AnyBody body0 = w.body;

    std::vector<sim::Snapshot> ref;
    std::vector<std::mt19937> rngs;
    std::vector<char> ups;
    ss::rng.seed(w.sc.seed);
    if (use_init) w.dyn.Init(&w.o, w.g, amp);
    for (int k = 0; k < n; k++) {
        junk(0);
        ups.push_back(w.step(k));
        ref.emplace_back(w.o);
        rngs.push_back(ss::rng);
    }
    auto same = [&](const ss::SimOut& o, int k, bool up, const char* what) {
        PBT_CHECK(up == static_cast<bool>(ups[k]), what, ": step ", k, " returned ", up);
        PBT_CHECK(ref[k].same(o), what, ": different state after step ", k);
        PBT_CHECK(rngs[k] == ss::rng, what, ": different random state after step ", k);
    };
    // 1. again, another simulation running in between
    {
        ss::SimOut o = start;
        sim::AnyBody b = body0;
        ss::SoilDynamics d;
        std::mt19937 mine(w.sc.seed), its(7);
        ss::rng = mine;
        if (use_init) d.Init(&o, w.g, amp);
        mine = ss::rng;
        for (int k = 0; k < n; k++) {
            ss::rng = its;
            junk(0x55 + k % 64);
            other.step(k % other.traj.size());
            its = ss::rng;
            ss::rng = mine;
            junk(0xa3);
            bool up = b.step(&d, &o, w.traj[k], w.g, w.sp);
            mine = ss::rng;
            same(o, k, up, "interleaved");
        }
    }
    // 2. interrupted: continued from copies, the originals being destroyed
    {
        ss::SimOut* o = new ss::SimOut(start);
        sim::AnyBody* b = new sim::AnyBody(body0);
        ss::SoilDynamics* d = new ss::SoilDynamics;
        ss::rng.seed(w.sc.seed);
        if (use_init) d->Init(o, w.g, amp);
        for (int k = 0; k < n; k++) {
            if (k == cut) {
                std::stringstream st;
                st << ss::rng;
                ss::SimOut* o2 = new ss::SimOut(*o);
                sim::AnyBody* b2 = new sim::AnyBody(*b);
                delete o;
                delete b;
                delete d;
                junk(0xff);
                o = o2;
                b = b2;
                d = new ss::SoilDynamics;
                ss::rng.seed(1);
                st >> ss::rng;
            }
            bool up = b->step(d, o, w.traj[k], w.g, w.sp);
            same(*o, k, up, "resumed");
        }
        delete o;
        delete b;
        delete d;
    }
    mallopt(M_PERTURB, 0);
    int c = 0;
    for (char u : ups) c += u;
    ctx.label("steps", c);
    if (!w.o.body_soil_pos_.empty()) ctx.label("soil on the body");
    ctx.nontrivial = c >= 3 && (w.o.terrain_ != start.terrain_ || !w.o.body_soil_pos_.empty());
}

// ------------------------------------------------------------------- C20
struct Box {
    int x0, x1, y0, y1;     // x1 and y1 excluded
    explicit Box(const int a[2][2]) : x0(a[0][0]), x1(a[0][1]), y0(a[1][0]), y1(a[1][1]) {}
    Box join(const Box& b) const {
        Box r = *this;
        r.x0 = std::min(x0, b.x0);
        r.x1 = std::max(x1, b.x1);
        r.y0 = std::min(y0, b.y0);
        r.y1 = std::max(y1, b.y1);
        return r;
    }
    bool has(int i, int j, int grow) const {
        return i >= x0 - grow && i < x1 + grow && j >= y0 - grow && j < y1 + grow;
    }
    std::string str() const {
        std::ostringstream o;
        o << "[" << x0 << "," << x1 << ")x[" << y0 << "," << y1 << ")";
        return o.str();
    }
};

// Extent of the body along an axis, in cell indices.
void extent(const sim::World& w, const sim::Pose& p, int ax, double* lo, double* hi) {
    sim::Corners c = sim::corners(w.body.get(), p);
    double u[3], v[3], n[3];
    for (int d = 0; d < 3; d++) {
        u[d] = c.c[1][d] - c.c[0][d];
        v[d] = c.c[3][d] - c.c[0][d];
    }
    n[0] = u[1] * v[2] - u[2] * v[1];
    n[1] = u[2] * v[0] - u[0] * v[2];
    n[2] = u[0] * v[1] - u[1] * v[0];
    double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
    *lo = 1e9, *hi = -1e9;
    for (int k = 0; k < 6; k++)
        for (int back = 0; back < 2; back++) {
            if (back && w.sc.kind == sim::BodyKind::bucket) continue;
            double x = c.c[k][ax] / w.g.cell_size_xy_ + (back ? n[ax] / l : 0) +
                       (ax ? w.g.half_length_y_ : w.g.half_length_x_);
            *lo = std::min(*lo, x);
            *hi = std::max(*hi, x);
        }
}

void local(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.big = 1;
    so.vast = 1;
    so.scoop = 2;
    so.max_len = 5;
    so.max_box = 5;
    so.max_ratio = 3;
    sim::TrajOpt to;
    to.longer = 1;
    to.max_segments = 3;
    to.max_steps = 6;
    to.max_cells = s.pick({1.0, 2.0});
    sim::World w(s, so, to);
    int N = s.range(0, 4);
    ctx.desc << w.str() << " iterations=" << N;
    int X = w.o.terrain_.size(), Y = w.o.terrain_[0].size();
    double dh = std::tan(static_cast<double>(w.sc.repose)) * w.sc.cell_xy / w.sc.cell_z;
    if (std::fabs(dh - std::floor(dh) - 0.5) < 1e-3) throw pbt::Discard();
    double dmax = std::round(dh) * w.sc.cell_z, eps = 0.1 * w.sc.cell_z;
    int ups = 0, moved_out = 0, outside_cells = 0;
    // the first pose may be anywhere: its area replaces one that is the grid
    for (size_t k = 0; k < w.traj.size(); k++) {
        const ss::SimOut o0 = w.o;
        const sim::AnyBody b0 = w.body;
        const std::mt19937 rng0 = ss::rng;
        ss::SimOut prev = o0;
        bool up = false;
        for (int n = 0; n <= N; n++) {
            w.o = o0;
            w.body = b0;
            ss::rng = rng0;
            w.sp.max_iterations_ = n;
            up = w.step(k);
            if (!up) break;
            const ss::SimOut& o = w.o;
            // the areas
            for (auto* a : {&o.body_area_, &o.relax_area_, &o.impact_area_}) {
                Box b(*a);
                PBT_CHECK(b.x0 >= 1 && b.y0 >= 1 && b.x1 <= X - 1 && b.y1 <= Y - 1,
                          "step ", k, ": active area ", b.str(), " outside the grid ", X, "x", Y);
            }
            Box body(o.body_area_), old(o0.body_area_), relax(prev.relax_area_);
            if (n == 0) {
                for (int ax = 0; ax < 2; ax++) {
                    double lo, hi;
                    extent(w, w.traj[k], ax, &lo, &hi);
                    int half = ax ? w.g.half_length_y_ : w.g.half_length_x_;
                    int B = w.sp.cell_buffer_;
                    int a = o.body_area_[ax][0], b = o.body_area_[ax][1];
                    // cells of the ends, both answers when on a cell border
                    int l0 = std::max<int>(1, std::lround(lo - 1e-3) - B);
                    int l1 = std::max<int>(1, std::lround(lo + 1e-3) - B);
                    int h0 = std::min<int>(2 * half, std::lround(hi - 1e-3) + B);
                    int h1 = std::min<int>(2 * half, std::lround(hi + 1e-3) + B);
                    PBT_CHECK((a == l0 || a == l1) && (b == h0 || b == h1), "step ", k,
                              ": the body spans cells ", lo, " to ", hi, " along axis ", ax,
                              ", buffer ", B, ", but the body area is [", a, ",", b, ")");
                }
                for (int i = 0; i < X; i++)
                    for (int j = 0; j < Y; j++)
                        if (sim::body_at(o, 0, i, j) || sim::body_at(o, 2, i, j))
                            PBT_CHECK(body.has(i, j, 0), "step ", k, ": wall at (", i, ",", j,
                                      ") outside the body area ", body.str());
            } else if (!prev.equilibrium_) {
                Box imp(o.impact_area_), e = body.join(relax);
                PBT_CHECK(imp.x0 == e.x0 && imp.x1 == e.x1 && imp.y0 == e.y0 && imp.y1 == e.y1,
                          "step ", k, " iteration ", n, ": impact area ", imp.str(),
                          " instead of ", e.str());
            }
            Box area = n == 0 ? body.join(old) : body.join(relax);
            for (int i = 0; i < X; i++)
                for (int j = 0; j < Y; j++) {
                    outside_cells += !area.has(i, j, 1);
                    bool t = o.terrain_[i][j] != prev.terrain_[i][j];
                    bool soil = false;
                    for (int l = 0; l < 4; l++) {
                        soil |= o.body_soil_[l][i][j] != prev.body_soil_[l][i][j];
                        if (n > 0)
                            PBT_CHECK(o.body_[l][i][j] == prev.body_[l][i][j],
                                      "the body changed during the relaxation");
                    }
                    if (!t && !soil) continue;
                    PBT_CHECK(area.has(i, j, 1), "step ", k, " iteration ", n, ": (", i, ",", j,
                              ") changed although the active area is ", area.str());
                    if (n == 0 || !t) continue;
                    moved_out += !body.has(i, j, 0);
                    // next to a slope at or above the limit (rounding may make
                    // the former unstable) or to the body
                    bool cause = false;
                    for (auto& d : {std::pair{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}}) {
                        int a = i + d.first, b = j + d.second;
                        if (a < 0 || b < 0 || a >= X || b >= Y) continue;
                        for (int l = 0; l < 4; l += 2)
                            cause |= sim::body_at(o, l, a, b);
                        for (auto& q : {std::pair{1, 0}, {-1, 0}, {0, 1}, {0, -1}}) {
                            int x = a + q.first, y = b + q.second;
                            if (x < 0 || y < 0 || x >= X || y >= Y) continue;
                            cause |= prev.terrain_[x][y] < prev.terrain_[a][b] - dmax + eps;
                        }
                    }
                    if (!cause && ctx.verbose)
                        for (int a = std::max(0, i - 3); a <= std::min(X - 1, i + 3); a++)
                            std::printf("%s   -> %s\n", sim::cell_str(prev, a, j).c_str(),
                                        sim::cell_str(o, a, j).c_str());
                    PBT_CHECK(cause, "step ", k, " iteration ", n, ": the terrain at (", i, ",", j,
                              ") moved although it is stable and away from the body");
                    // and in the area of the next iteration
                    Box next = body.join(Box(o.relax_area_));
                    if (i >= 2 && j >= 2 && i < X - 1 && j < Y - 1)
                        PBT_CHECK(next.has(i, j, 0), "step ", k, " iteration ", n, ": (", i, ",", j,
                                  ") moved but is outside the area of the next iteration ", next.str());
                }
            prev = o;
        }
        ups += up;
    }
    ctx.label("steps", ups);
    if (moved_out) ctx.label("avalanches outside the body area", moved_out);
    ctx.label("cells outside the areas compared", outside_cells);
    ctx.nontrivial = ups >= 2 && outside_cells > 0;
}

pbt::Register r1("C11.gate", gate);
pbt::Register r2("C22.path", footprint);
pbt::Register r3("C16.repeat", repeat);
pbt::Register r4("C20.local", local);

}  // namespace
