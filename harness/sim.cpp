#include "sim.hpp"
#include <glog/logging.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <map>
#include <tuple>

// The simulator expects the application to define its generator.
std::mt19937 soil_simulator::rng __attribute__((weak));

namespace sim {

static Warn g_warn;
Warn& warn() { return g_warn; }
void reset_warn() { g_warn = Warn(); }

namespace {
class Sink : public google::LogSink {
 public:
    void send(google::LogSeverity, const char*, const char*, int,
              const google::LogMessageTime&, const char* message,
              size_t len) override {
        std::string m(message, len);
        g_warn.last = m;
        if (m.find("Not all soil intersecting") != std::string::npos)
            g_warn.removed++;
        else if (m.find("could not be updated") != std::string::npos)
            g_warn.to_terrain++;
        else if (m.find("two cell size") != std::string::npos)
            g_warn.large_move++;
        else
            g_warn.other++;
    }
};
struct InitLog {
    Sink sink;
    InitLog() {
        FLAGS_logtostderr = false;
        FLAGS_alsologtostderr = false;
        FLAGS_stderrthreshold = 3;   // FATAL only
        google::InitGoogleLogging("harness");
        for (int s = 0; s < 4; s++) google::SetLogDestination(s, "");
        google::AddLogSink(&sink);
    }
};
}  // namespace

void init_log() {
    static InitLog* l = new InitLog;
    (void)l;
}

std::string fmt(const std::vector<float>& v) {
    std::ostringstream o;
    o.precision(6);
    o << "(";
    for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
    o << ")";
    return o.str();
}

ss::Grid Scene::grid() const {
    if (fx == 0 && fy == 0 && fz == 0)
        return ss::Grid(nx * cell_xy, ny * cell_xy, nz * cell_z, cell_xy, cell_z);
    return ss::Grid(
        static_cast<float>((nx + fx) * cell_xy),
        static_cast<float>((ny + fy) * cell_xy),
        static_cast<float>((nz + fz) * cell_z), cell_xy, cell_z);
}

std::string Scene::str() const {
    std::ostringstream s;
    s << (kind == BodyKind::bucket ? "bucket" : "blade") << " o" << fmt(o)
      << " j" << fmt(j) << " b" << fmt(b) << " t" << fmt(t) << " w=" << width
      << " cell=" << cell_xy << "/" << cell_z << " grid=" << nx << "x" << ny
      << "x" << nz
      << (fx || fy || fz ? "+frac" + fmt({static_cast<float>(fx), static_cast<float>(fy), static_cast<float>(fz)}) : "")
      << " repose=" << repose << " max_it=" << max_it
      << " buffer=" << buffer << " seed=" << seed << " terrain=" << terrain_kind;
    return s.str();
}

AnyBody::AnyBody(const Scene& sc)
    : kind(sc.kind),
      bucket(sc.o, sc.j, sc.b, sc.t, sc.width),
      blade(sc.o, sc.j, sc.b, sc.t, sc.width) {}

static double norm3(const double v[3]) {
    return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
}

Scene gen_scene(pbt::Src& s, const SceneOpt& opt) {
    init_log();
    Scene sc;
    switch (s.weighted({4, 3, 2})) {
        case 0: sc.cell_xy = s.pick<float>({0.1f, 0.05f, 0.2f, 0.25f, 0.125f}); break;
        case 1: sc.cell_xy = static_cast<float>(s.real(0.04, 0.3)); break;
        default: sc.cell_xy = static_cast<float>(s.real(0.02, 0.08)); break;
    }
    double ratio = 1.0;
    if (!opt.ratio_one) {
        switch (s.weighted({4, 3, 2, 2})) {
            case 0: ratio = 1.0; break;
            case 1: ratio = 0.5; break;
            case 2: ratio = 1.0 / s.range(2, opt.max_ratio); break;
            default: ratio = s.real(1.0, 1.0 / opt.max_ratio, 64); break;
        }
    }
    sc.cell_z = static_cast<float>(sc.cell_xy * ratio);
    if (sc.cell_z > sc.cell_xy) sc.cell_z = sc.cell_xy;
    if (sc.cell_z < 0.008f) sc.cell_z = std::min(0.008f, sc.cell_xy);
    double c = sc.cell_xy;

    if (opt.force_kind >= 0)
        sc.kind = opt.force_kind ? BodyKind::blade : BodyKind::bucket;
    else
        sc.kind = s.chance(1, 3) ? BodyKind::blade : BodyKind::bucket;

    // Body profile in its own XZ plane, in cells.
    auto V = [&](double x, double y, double z) {
        return std::vector<float>{static_cast<float>(x * c),
                                  static_cast<float>(y * c),
                                  static_cast<float>(z * c)};
    };
    double L = s.real(3.0, opt.max_len, 256);
    double H = s.real(2.5, std::min(6.0, opt.max_len * 1.0), 256);
    double W = s.real(2.0, std::min(8.0, opt.max_len * 1.0), 256);
    if (opt.big && s.chance(opt.big, 64)) {
        sc.big = true;
        L = s.real(8.0, 24.0, 256);
        W = s.real(6.0, 24.0, 256);
        H = s.real(4.0, 12.0, 256);
    }
    if (opt.huge && s.chance(opt.huge, 640)) {
        sc.big = true;
        double x = s.real(30.0, 150.0, 256);
        (s.chance(1, 3) ? L : s.chance(1, 2) ? W : H) = x;
    }
    sc.width = static_cast<float>(W * c);
    int shape = s.weighted({4, 3, opt.planar_only ? 0 : 1});
    double ox = 0, oy = 0, oz = 0;
    if (s.chance(1, 3)) {
        ox = s.sreal(2.0, 64);
        oz = s.sreal(2.0, 64);
        if (s.chance(1, 3)) oy = s.sreal(1.5, 64);
    }
    sc.o = V(ox, oy, oz);
    if (sc.kind == BodyKind::bucket) {
        if (shape == 0) {
            sc.j = V(0, 0, 0);
            sc.b = V(0, 0, -H);
            sc.t = V(L, 0, -H);
        } else if (shape == 1) {
            sc.j = V(0, 0, 0);
            sc.b = V(s.sreal(1.5, 64), 0, -H);
            sc.t = V(L, 0, -H + s.sreal(2.0, 64));
        } else {
            sc.j = V(0, s.sreal(1.0, 64), 0);
            sc.b = V(s.sreal(1.5, 64), s.sreal(1.0, 64), -H);
            sc.t = V(L, s.sreal(1.0, 64), -H + s.sreal(2.0, 64));
        }
    } else {
        if (shape == 0) {
            sc.j = V(1, 0, -H * 0.5);
            sc.b = V(0, 0, H * 0.5);
            sc.t = V(1 + L * 0.5, 0, -H * 0.5 - L * 0.3);
        } else if (shape == 1) {
            sc.j = V(s.sreal(1.0, 64), 0, -H * 0.5);
            sc.b = V(s.sreal(1.5, 64), 0, H * 0.5);
            sc.t = V(1.5 + L * 0.5, 0, -H * 0.5 - s.real(0.2, 3.0, 64));
        } else {
            sc.j = V(s.sreal(1.0, 64), s.sreal(1.0, 64), -H * 0.5);
            sc.b = V(s.sreal(1.5, 64), s.sreal(1.0, 64), H * 0.5);
            sc.t = V(1.5 + L * 0.5, s.sreal(1.0, 64), -H * 0.5 - s.real(0.2, 3.0, 64));
        }
    }
    double r = 0;
    for (auto* v : {&sc.j, &sc.b, &sc.t}) {
        double d[3] = {(*v)[0] - sc.o[0], (*v)[1] - sc.o[1], (*v)[2] - sc.o[2]};
        r = std::max(r, norm3(d));
    }
    r = std::sqrt(r * r + 0.25 * sc.width * sc.width);
    if (sc.kind == BodyKind::blade) r += c;
    sc.radius = r;

    sc.buffer = s.pick({4, 2, 3, 6});
    sc.max_it = s.pick({3, 1, 10, 2, 5});
    if (opt.allow_zero_it && s.chance(1, 10)) sc.max_it = 0;
    if (s.chance(1, 32)) sc.buffer = s.range(7, 60);
    if (s.chance(1, 64)) sc.max_it = s.pick({20, 100, 300});
    switch (s.weighted({4, 4})) {
        case 0: sc.repose = 0.85f; break;
        default: {
            // at least one cell of height difference allowed
            double lo = std::max(0.1, std::atan(1.0 * sc.cell_z / sc.cell_xy) * 0.75);
            sc.repose = static_cast<float>(s.real(lo, 1.4, 256));
        }
    }
    sc.seed = s.draw(100000);

    // Reach of the origin.
    sc.box_x = s.range(0, opt.max_box) * c;
    sc.box_y = s.range(0, opt.max_box) * c;
    sc.box_z = s.range(1, opt.max_box) * c;
    int margin = opt.margin >= 0 ? opt.margin : opt.small_margin ? 3 : 4 + s.range(0, 3);
    sc.nx = static_cast<int>(std::ceil((r + sc.box_x) / c)) + margin;
    sc.ny = static_cast<int>(std::ceil((r + sc.box_y) / c)) + margin;
    if (s.chance(1, 3)) sc.nx += s.range(0, 4);
    if (s.chance(1, 3)) sc.ny += s.range(0, 4);
    if (opt.vast && s.chance(opt.vast, 64))
        (s.chance(1, 2) ? sc.nx : sc.ny) += 120 + s.range(0, 200);
    // Z: terrain heights are generated below 4*cell_xy, the box hangs on them
    sc.nz = static_cast<int>(std::ceil((2 * r + 2 * sc.box_z + 9 * c) / sc.cell_z)) + 4;
    if (opt.frac_xy) {
        sc.fx = s.sreal(0.45, 64);
        sc.fy = s.sreal(0.45, 64);
    }
    if (opt.frac_z) sc.fz = s.sreal(0.45, 64);
    return sc;
}

void gen_terrain(pbt::Src& s, const Scene& sc, const ss::Grid& g,
                 ss::SimOut* out, double* top) {
    int X = out->terrain_.size(), Y = out->terrain_[0].size();
    double cz = sc.cell_z;
    auto set = [&](int i, int j, long k) {
        out->terrain_[i][j] = static_cast<float>(g.cell_size_z_ * static_cast<double>(k));
    };
    long K = std::max<long>(1, static_cast<long>(3 * sc.cell_xy / cz));
    const_cast<Scene&>(sc).terrain_kind = s.weighted({3, 3, 2, 2});
    switch (sc.terrain_kind) {
        case 0: {   // flat
            long k = s.sint(static_cast<int>(K));
            for (int i = 0; i < X; i++)
                for (int j = 0; j < Y; j++) set(i, j, k);
            break;
        }
        case 1: {   // simulator noise
            ss::SoilDynamics d;
            double amp = s.real(0.0, 60.0, 64) * sc.cell_xy;
            d.Init(out, g, static_cast<float>(amp));
            // keep the terrain in the expected range of heights
            for (int i = 0; i < X; i++)
                for (int j = 0; j < Y; j++) {
                    long k = std::lround(out->terrain_[i][j] / cz);
                    set(i, j, std::max(-K, std::min(K, k)));
                }
            break;
        }
        case 2: {   // a few blocks
            long k0 = s.sint(static_cast<int>(K));
            for (int i = 0; i < X; i++)
                for (int j = 0; j < Y; j++) set(i, j, k0);
            int n = s.range(1, 5);
            for (int q = 0; q < n; q++) {
                int i0 = s.range(0, X - 1), j0 = s.range(0, Y - 1);
                int w = s.range(1, X / 2 + 1), h = s.range(1, Y / 2 + 1);
                long k = s.sint(static_cast<int>(K));
                for (int i = i0; i < std::min(X, i0 + w); i++)
                    for (int j = j0; j < std::min(Y, j0 + h); j++) set(i, j, k);
            }
            break;
        }
        default: {  // slope with bumps
            double ax = s.sreal(1.0, 32), ay = s.sreal(1.0, 32);
            uint64_t z = s.draw(1u << 30);
            int amp = s.range(0, static_cast<int>(K));
            for (int i = 0; i < X; i++)
                for (int j = 0; j < Y; j++) {
                    z = z * 6364136223846793005ull + 1442695040888963407ull;
                    long bump = amp ? static_cast<long>((z >> 40) % (amp + 1)) : 0;
                    double k = ax * K * (i - X / 2) / (X / 2.0) * 0.5 +
                               ay * K * (j - Y / 2) / (Y / 2.0) * 0.5;
                    long kk = std::lround(k) + bump;
                    set(i, j, std::max(-K, std::min(K, kk)));
                }
        }
    }
    double t = -1e9;
    for (int i = 0; i < X; i++)
        for (int j = 0; j < Y; j++)
            t = std::max<double>(t, out->terrain_[i][j]);
    *top = t;
}

std::vector<float> axis_quat(double ax, double ay, double az, double ang) {
    double n = std::sqrt(ax * ax + ay * ay + az * az);
    if (n == 0) return {1, 0, 0, 0};
    double h = std::sin(ang / 2) / n;
    return {static_cast<float>(std::cos(ang / 2)), static_cast<float>(ax * h),
            static_cast<float>(ay * h), static_cast<float>(az * h)};
}

std::vector<float> qmul(const std::vector<float>& a, const std::vector<float>& b) {
    double q[4] = {
        1.0 * a[0] * b[0] - 1.0 * a[1] * b[1] - 1.0 * a[2] * b[2] - 1.0 * a[3] * b[3],
        1.0 * a[0] * b[1] + 1.0 * a[1] * b[0] + 1.0 * a[2] * b[3] - 1.0 * a[3] * b[2],
        1.0 * a[0] * b[2] - 1.0 * a[1] * b[3] + 1.0 * a[2] * b[0] + 1.0 * a[3] * b[1],
        1.0 * a[0] * b[3] + 1.0 * a[1] * b[2] - 1.0 * a[2] * b[1] + 1.0 * a[3] * b[0]};
    double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
    return {static_cast<float>(q[0] / n), static_cast<float>(q[1] / n),
            static_cast<float>(q[2] / n), static_cast<float>(q[3] / n)};
}

void rotate(const std::vector<float>& q, const double v[3], double out[3]) {
    // conj(q) v q is the rotation by the inverse of q
    double w = q[0], x = -q[1], y = -q[2], z = -q[3];
    double n = w * w + x * x + y * y + z * z;
    double R[3][3] = {
        {(w * w + x * x - y * y - z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n},
        {2 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z - w * x) / n},
        {2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, (w * w - x * x - y * y + z * z) / n}};
    for (int i = 0; i < 3; i++)
        out[i] = R[i][0] * v[0] + R[i][1] * v[1] + R[i][2] * v[2];
}

Corners corners(const ss::Body* body, const Pose& p) {
    double P[3][3];
    const std::vector<float>* src[3] = {
        &body->j_pos_init_, &body->b_pos_init_, &body->t_pos_init_};
    for (int k = 0; k < 3; k++) {
        double v[3] = {(*src[k])[0], (*src[k])[1], (*src[k])[2]};
        rotate(p.ori, v, P[k]);
        for (int d = 0; d < 3; d++) P[k][d] += p.pos[d];
    }
    double u[3], w[3], n[3];
    for (int d = 0; d < 3; d++) {
        u[d] = P[1][d] - P[0][d];
        w[d] = P[2][d] - P[0][d];
    }
    n[0] = u[1] * w[2] - u[2] * w[1];
    n[1] = u[2] * w[0] - u[0] * w[2];
    n[2] = u[0] * w[1] - u[1] * w[0];
    double nn = norm3(n);
    Corners c;
    for (int k = 0; k < 3; k++)
        for (int d = 0; d < 3; d++) {
            double off = 0.5 * body->width_ * n[d] / nn;
            c.c[2 * k][d] = P[k][d] + off;
            c.c[2 * k + 1][d] = P[k][d] - off;
        }
    return c;
}

static std::vector<float> gen_quat(pbt::Src& s) {
    std::vector<float> q = {1, 0, 0, 0};
    switch (s.weighted({3, 4, 3, 2})) {
        case 0: break;
        case 1: q = axis_quat(0, 1, 0, s.sreal(2.0, 200)); break;
        case 2: {
            auto yaw = axis_quat(0, 0, 1, s.sreal(3.14, 200));
            auto pit = axis_quat(0, 1, 0, s.sreal(1.6, 200));
            q = qmul(yaw, pit);
            break;
        }
        default: {
            auto yaw = axis_quat(0, 0, 1, s.sreal(3.14, 200));
            auto pit = axis_quat(0, 1, 0, s.sreal(3.14, 200));
            auto rol = axis_quat(1, 0, 0, s.sreal(1.0, 200));
            q = qmul(qmul(yaw, pit), rol);
        }
    }
    return q;
}

Pose gen_pose(pbt::Src& s, const Scene& sc, double zlo, double zhi) {
    Pose p;
    p.ori = gen_quat(s);
    double x = sc.box_x * s.sreal(1.0, 64), y = sc.box_y * s.sreal(1.0, 64);
    if (s.chance(1, 2)) {   // on the lattice or on a cell border
        double h = 0.5 * sc.cell_xy;
        x = h * std::round(x / h);
        y = h * std::round(y / h);
        x = std::max(-sc.box_x, std::min(sc.box_x, x));
        y = std::max(-sc.box_y, std::min(sc.box_y, y));
    }
    double z = s.real(zlo, zhi, 128);
    p.pos = {static_cast<float>(x), static_cast<float>(y), static_cast<float>(z)};
    return p;
}

static double max_move(const ss::Body* b, const Pose& p, const Pose& q) {
    Corners a = corners(b, p), c = corners(b, q);
    double m = 0;
    for (int k = 0; k < 6; k++) {
        double d[3];
        for (int i = 0; i < 3; i++) d[i] = a.c[k][i] - c.c[k][i];
        m = std::max(m, norm3(d));
    }
    return m;
}

std::vector<Pose> gen_traj(pbt::Src& s, const Scene& sc, double top,
                           const TrajOpt& opt) {
    AnyBody ab(sc);
    const ss::Body* body = ab.get();
    double mc = std::min(sc.cell_xy, sc.cell_z);
    std::vector<Pose> out;
    // The origin moves in [top - box_z - radius/2, top + radius + box_z]
    double zlo = top - sc.box_z - 0.5 * sc.radius;
    double zhi = top + sc.radius + sc.box_z;
    int start = s.weighted({5, 3, opt.start_inside ? 3 : 0});
    Pose p;
    if (start == 0) p = gen_pose(s, sc, top + 0.3 * sc.radius, top + 0.9 * sc.radius);
    else if (start == 1) p = gen_pose(s, sc, top + sc.radius, zhi);
    else p = gen_pose(s, sc, zlo, top + 0.3 * sc.radius);
    if (sc.big) {
        Corners c = corners(body, p);
        double low = c.c[0][2];
        for (auto& v : c.c) low = std::min(low, v[2]);
        p.pos[2] += static_cast<float>(top - low + (s.range(0, 4) - 1) * sc.cell_z);
        zlo = p.pos[2] - 8 * sc.cell_xy;
    }
    out.push_back(p);
    int nseg = s.range(1, opt.max_segments);
    if (opt.longer && s.chance(opt.longer, 64)) nseg = s.range(8, 32);
    for (int g = 0; g < nseg; g++) {
        int n = s.range(1, opt.max_steps);
        double step = mc * opt.max_cells;
        switch (s.weighted({4, 3, opt.allow_tiny ? 1 : 0})) {
            case 0: step *= 0.95; break;
            case 1: step *= s.real(0.55, 0.98, 32); break;
            default: step *= s.real(0.05, 0.6, 32); break;
        }
        // direction of travel, in body or world frame
        double d[3] = {0, 0, 0};
        double rot = 0, ax[3] = {0, 1, 0};
        switch (s.weighted({4, 4, 3, 3, 3, 2, 2})) {
            case 0: d[2] = -1; break;                       // plunge
            case 1: d[0] = s.chance(1, 3) ? -1 : 1; d[2] = s.sreal(0.6, 32); break;
            case 2: d[2] = 1; break;                        // lift
            case 3: rot = s.chance(1, 2) ? 1 : -1; break;   // pitch
            case 4: d[0] = s.chance(1, 3) ? -1 : 1; d[2] = s.sreal(0.7, 32);
                    rot = s.chance(1, 2) ? 0.5 : -0.5; break;   // scoop
            case 5: d[1] = s.chance(1, 2) ? 1 : -1; d[0] = s.sreal(1, 32); break;
            default: {
                d[0] = s.sreal(1, 32); d[1] = s.sreal(1, 32); d[2] = s.sreal(1, 32);
                rot = s.sreal(1.0, 16);
                ax[0] = s.sreal(1, 16); ax[1] = 1; ax[2] = s.sreal(1, 16);
            }
        }
        double nd = norm3(d);
        if (nd > 0) for (double& v : d) v /= nd;
        if (nd == 0 && rot == 0) d[2] = -1;
        double tr = nd > 0 ? (rot != 0 ? 1.0 - 0.5 * std::fabs(rot) : 1.0) : 0.0;
        for (int k = 0; k < n; k++) {
            Pose q = p;
            double scale = 1.0;
            for (int tries = 0; tries < 12; tries++) {
                for (int i = 0; i < 3; i++)
                    q.pos[i] = static_cast<float>(p.pos[i] + scale * tr * step * d[i]);
                q.pos[0] = std::max<float>(-sc.box_x, std::min<float>(sc.box_x, q.pos[0]));
                q.pos[1] = std::max<float>(-sc.box_y, std::min<float>(sc.box_y, q.pos[1]));
                q.pos[2] = std::max<float>(zlo, std::min<float>(zhi, q.pos[2]));
                if (rot != 0) {
                    auto dq = axis_quat(ax[0], ax[1], ax[2],
                                        scale * rot * step / sc.radius);
                    q.ori = qmul(dq, p.ori);
                }
                if (max_move(body, p, q) <= opt.max_cells * mc) break;
                scale *= 0.8;
            }
            if (max_move(body, p, q) > opt.max_cells * mc) break;
            out.push_back(q);
            p = q;
        }
    }
    return out;
}

Scene gen_scoop_scene(pbt::Src& s, bool loose) {
    init_log();
    Scene sc;
    sc.scoop = true;
    sc.cell_xy = s.pick<float>({0.05f, 0.1f, 0.125f, 0.07f});
    sc.cell_z = sc.cell_xy / s.pick({5, 1, 2, 3});
    double c = sc.cell_xy;
    auto V = [&](double x, double z) {
        return std::vector<float>{static_cast<float>(x * c), 0.0f, static_cast<float>(z * c)};
    };
    sc.kind = s.chance(1, 4) ? BodyKind::blade : BodyKind::bucket;
    double L = s.real(14.0, 5.0, 64), H = s.real(10.0, 4.0, 64), W = s.real(10.0, 4.0, 64);
    sc.o = V(0, 0);
    if (sc.kind == BodyKind::bucket) {
        sc.j = V(0, 0);
        sc.b = V(s.chance(1, 3) ? s.sreal(2.0, 16) : 0, -H);
        sc.t = V(L, -H);
    } else {
        sc.j = V(0.9 * L / 1.6, 0.1 * H);
        sc.b = V(0.75 * L / 1.6, 0.8 * H);
        sc.t = V(L, -0.2 * H);
        W *= 2;
    }
    sc.width = static_cast<float>(W * c);
    sc.radius = c * std::sqrt(L * L + (H + 2) * (H + 2) + 0.25 * W * W) + c;
    sc.buffer = s.pick({4, 2, 6});
    sc.max_it = s.pick({3, 1, 10});
    sc.repose = s.chance(1, 2) ? static_cast<float>(s.real(0.4, 1.3, 64)) : 0.85f;
    if (loose) {
        sc.cell_z = sc.cell_xy / s.pick({1, 2, 3});
        sc.max_it = s.pick({10, 20, 30});
        sc.repose = static_cast<float>(s.real(0.1, std::atan(1.4 * sc.cell_z / sc.cell_xy), 64));
    }
    sc.seed = s.draw(100000);
    sc.box_x = sc.box_y = c * s.range(8, loose ? 12 : 24);
    sc.box_z = 2 * sc.radius;
    int margin = 6 + s.range(0, 8);
    sc.nx = sc.ny = static_cast<int>(std::ceil((sc.box_x + sc.radius) / c)) + margin;
    sc.nz = static_cast<int>(std::ceil((4 * sc.radius + 12 * c) / sc.cell_z));
    return sc;
}

std::vector<Pose> gen_scoop(pbt::Src& s, const Scene& sc, double top) {
    AnyBody ab(sc);
    const ss::Body* body = ab.get();
    double mc = std::min(sc.cell_xy, sc.cell_z), c = sc.cell_xy;
    double low = std::min({sc.j[2], sc.b[2], sc.t[2]});
    std::vector<Pose> out;
    // x, y, z, heading and inclination of the nose (up is positive)
    using Par = std::array<double, 5>;
    // the inclination first, then the heading, in whichever sign and order of factors that is
    const double ex[3] = {1, 0, 0};
    double v[3];
    rotate(axis_quat(0, 0, 1, 1.0), ex, v);
    double sy = v[1] < 0 ? -1 : 1;
    rotate(axis_quat(0, 1, 0, 1.0), ex, v);
    double sp = v[2] < 0 ? -1 : 1;
    rotate(qmul(axis_quat(0, 0, 1, sy), axis_quat(0, 1, 0, sp)), ex, v);
    bool yaw_first = std::fabs(v[2] - std::sin(1.0)) < 1e-3;
    auto pose = [&](const Par& q) {
        auto yaw = axis_quat(0, 0, 1, sy * q[3]), pitch = axis_quat(0, 1, 0, sp * q[4]);
        auto a = yaw_first ? qmul(yaw, pitch) : qmul(pitch, yaw);
        return Pose{{static_cast<float>(q[0]), static_cast<float>(q[1]), static_cast<float>(q[2])}, a};
    };
    Par at{};
    // Adds poses of f(0) to f(1), each corner moving by less than a cell.
    auto follow = [&](auto f) {
        double t = 0, dt = 0.01;
        for (int tries = 0; t < 1 && out.size() < 2000 && tries < 40000; tries++) {
            double n = std::min(1.0, t + dt);
            Pose q = pose(f(n));
            double m = max_move(body, out.back(), q);
            if (m > 0.98 * mc) {
                dt *= 0.7;
                if (dt < 1e-7) return;
                continue;
            }
            if (n < 1 && m < 0.6 * mc) {
                dt *= 1.3;
                continue;
            }
            out.push_back(q);
            at = f(n);
            t = n;
        }
    };
    auto go = [&](const Par& to) {
        Par from = at;
        follow([&](double t) {
            Par q;
            for (int d = 0; d < 5; d++) q[d] = from[d] + (to[d] - from[d]) * t;
            return q;
        });
    };
    double high = top + sc.radius + c;      // everything is above the terrain
    int scoops = s.range(1, 2);
    for (int k = 0; k < scoops; k++) {
        double yaw = s.chance(2, 3) ? s.sreal(3.14, 64) : 0;
        double D = s.real(0.9 * sc.box_x, 0.5 * sc.box_x, 16);
        double depth = c * s.real(4.0, -1.0, 32);       // of the lowest point below the terrain
        double rise = s.real(0.9, 0.1, 16) * D;         // of the ends of the parabola
        double off = s.sreal(0.5, 16) * c;
        bool keep = sc.kind == BodyKind::blade;         // the blade keeps its orientation
        if (keep) rise *= 0.15;
        double zmin = top - depth - low;
        auto path = [&](double t) {
            double u = (2 * t - 1) * D;
            double pitch = keep ? 0 : std::atan(2 * rise * u / (D * D));
            return Par{std::cos(yaw) * u - std::sin(yaw) * off, std::sin(yaw) * u + std::cos(yaw) * off,
                       zmin + rise * (u / D) * (u / D), yaw, pitch};
        };
        Par start = path(0), above = start;
        above[2] = std::max(high, start[2]);
        if (out.empty()) {                              // down to the start
            // close above the terrain
            Corners cn = corners(body, pose(above));
            double lowest = 1e9;
            for (auto& v : cn.c) lowest = std::min(lowest, v[2]);
            above[2] = std::max(start[2], above[2] - (lowest - top) + mc);
            at = above;
            out.push_back(pose(at));
        } else {
            Par up = at;
            up[2] = std::max(high, at[2]);
            go(up);
            go(above);
        }
        go(start);
        follow(path);
        if (s.chance(1, 2)) {                           // dumped by turning the nose down
            Par e = at;
            e[2] += s.real(2.0, 8.0, 8) * c;
            e[4] = s.real(-1.2, -2.4, 16);
            go(e);
        }
    }
    return out;
}

World::World(pbt::Src& s, const SceneOpt& so, const TrajOpt& to)
    : World(s, so.scoop && s.chance(so.scoop, 640) ? gen_scoop_scene(s, so.loose) : gen_scene(s, so), to) {}
World::World(pbt::Src& s, const Scene& scene, const TrajOpt& to)
    : sc(scene), g(sc.grid()), sp(sc.param()), o(g), body(sc) {
    ss::rng.seed(sc.seed);
    gen_terrain(s, sc, g, &o, &top);
    traj = sc.scoop ? gen_scoop(s, sc, top) : gen_traj(s, sc, top, to);
    reset_warn();
}
std::string World::str() const {
    std::ostringstream d;
    d << sc.str() << " top=" << top << " poses=" << traj.size();
    for (size_t k = 0; k < traj.size() && k < 3; k++)
        d << " " << fmt(traj[k].pos) << fmt(traj[k].ori);
    if (traj.size() > 3)
        d << " ... " << fmt(traj.back().pos) << fmt(traj.back().ori);
    return d.str();
}

// ------------------------------------------------------------------ observers
std::string cell_str(const ss::SimOut& o, int i, int j) {
    std::ostringstream e;
    e.precision(7);
    e << "(" << i << "," << j << ") terrain=" << o.terrain_[i][j];
    for (int l = 0; l < 4; l += 2)
        if (body_at(o, l, i, j)) {
            e << " wall" << l / 2 + 1 << "=[" << o.body_[l][i][j] << ","
              << o.body_[l + 1][i][j] << "]";
            if (soil_at(o, l, i, j))
                e << " soil" << l / 2 + 1 << "=[" << o.body_soil_[l][i][j] << ","
                  << o.body_soil_[l + 1][i][j] << "]";
        }
    return e.str();
}

long total_int(const ss::SimOut& o, const ss::Grid& g) {
    long t = 0;
    auto k = [&](float h) {
        return std::isfinite(h) ? std::lround(static_cast<double>(h) / g.cell_size_z_)
                                : 1000000000L;
    };
    for (size_t i = 0; i < o.terrain_.size(); i++)
        for (size_t j = 0; j < o.terrain_[0].size(); j++)
            t += k(o.terrain_[i][j]) + k(o.body_soil_[1][i][j]) -
                 k(o.body_soil_[0][i][j]) + k(o.body_soil_[3][i][j]) -
                 k(o.body_soil_[2][i][j]);
    return t;
}
double terrain_cells(const ss::SimOut& o, const ss::Grid& g) {
    double t = 0;
    for (auto& r : o.terrain_)
        for (float h : r) t += static_cast<double>(h) / g.cell_size_z_;
    return t;
}
double body_soil_cells(const ss::SimOut& o, const ss::Grid& g) {
    double t = 0;
    for (int l = 0; l < 4; l += 2)
        for (size_t i = 0; i < o.terrain_.size(); i++)
            for (size_t j = 0; j < o.terrain_[0].size(); j++)
                t += (static_cast<double>(o.body_soil_[l + 1][i][j]) -
                      o.body_soil_[l][i][j]) / g.cell_size_z_;
    return t;
}
double total_cells(const ss::SimOut& o, const ss::Grid& g) {
    return terrain_cells(o, g) + body_soil_cells(o, g);
}

double off_lattice(const ss::SimOut& o, const ss::Grid& g) {
    double m = 0;
    auto chk = [&](float h) {
        double k = static_cast<double>(h) / g.cell_size_z_;
        double d = std::fabs(k - std::round(k));
        if (!(d <= m)) m = d;
    };
    for (size_t i = 0; i < o.terrain_.size(); i++)
        for (size_t j = 0; j < o.terrain_[0].size(); j++) {
            chk(o.terrain_[i][j]);
            for (int l = 0; l < 4; l++) {
                chk(o.body_[l][i][j]);
                chk(o.body_soil_[l][i][j]);
            }
        }
    return m;
}

std::string physical(const ss::SimOut& o, const ss::Grid& g) {
    const double tol = 0.1 * g.cell_size_z_;
    std::ostringstream e;
    e.precision(7);
    for (size_t i = 0; i < o.terrain_.size(); i++)
        for (size_t j = 0; j < o.terrain_[0].size(); j++) {
            double t = o.terrain_[i][j];
            auto where = [&]() {
                e << " at (" << i << "," << j << "): terrain=" << t << " body=["
                  << o.body_[0][i][j] << "," << o.body_[1][i][j] << "] ["
                  << o.body_[2][i][j] << "," << o.body_[3][i][j] << "] soil=["
                  << o.body_soil_[0][i][j] << "," << o.body_soil_[1][i][j] << "] ["
                  << o.body_soil_[2][i][j] << "," << o.body_soil_[3][i][j] << "]";
                return e.str();
            };
            if (!std::isfinite(t)) { e << "terrain height is not finite"; return where(); }
            bool b[2], s[2];
            for (int l = 0; l < 2; l++) {
                b[l] = body_at(o, 2 * l, i, j);
                s[l] = soil_at(o, 2 * l, i, j);
                double lo = o.body_[2 * l][i][j], hi = o.body_[2 * l + 1][i][j];
                double slo = o.body_soil_[2 * l][i][j], shi = o.body_soil_[2 * l + 1][i][j];
                if (!std::isfinite(lo) || !std::isfinite(hi) ||
                    !std::isfinite(slo) || !std::isfinite(shi)) {
                    e << "height not finite"; return where();
                }
                if (b[l] && t > lo + tol) { e << "terrain inside or above a body wall"; return where(); }
                if (b[l] && hi - lo < g.cell_size_z_ - tol) { e << "body wall thinner than a cell"; return where(); }
                if (s[l] && !b[l]) { e << "body soil without a body wall"; return where(); }
                if (s[l] && shi < slo - tol) { e << "body soil of negative height"; return where(); }
                if (s[l] && std::fabs(slo - hi) > tol) { e << "body soil not resting on its wall"; return where(); }
            }
            if (b[0] && b[1]) {
                double a0 = o.body_[0][i][j], a1 = o.body_[1][i][j];
                double c0 = o.body_[2][i][j], c1 = o.body_[3][i][j];
                if (a1 > c0 - tol && c1 > a0 - tol) { e << "two body walls overlap or touch"; return where(); }
                for (int l = 0; l < 2; l++)
                    if (s[l]) {
                        double slo = o.body_soil_[2 * l][i][j], shi = o.body_soil_[2 * l + 1][i][j];
                        double lo = o.body_[2 - 2 * l][i][j], hi = o.body_[3 - 2 * l][i][j];
                        if (shi > lo + tol && slo < hi - tol) { e << "body soil inside the other wall"; return where(); }
                    }
            }
        }
    return "";
}

std::string ledger(const ss::SimOut& o, const ss::Grid& g) {
    std::map<std::tuple<int, int, int>, double> sum;
    std::ostringstream e;
    e.precision(7);
    int X = o.terrain_.size(), Y = o.terrain_[0].size();
    for (auto& p : o.body_soil_pos_) {
        if ((p.ind != 0 && p.ind != 2) || p.ii < 0 || p.jj < 0 || p.ii >= X || p.jj >= Y) {
            e << "entry with invalid cell ind=" << p.ind << " (" << p.ii << "," << p.jj << ")";
            return e.str();
        }
        if (!(p.h_soil >= -1e-4 * g.cell_size_z_ - 1e-5)) {
            e << "entry with negative height " << p.h_soil << " ind=" << p.ind
              << " (" << p.ii << "," << p.jj << ")";
            return e.str();
        }
        sum[{p.ind, p.ii, p.jj}] += p.h_soil;
    }
    for (int l = 0; l < 4; l += 2)
        for (int i = 0; i < X; i++)
            for (int j = 0; j < Y; j++) {
                double h = static_cast<double>(o.body_soil_[l + 1][i][j]) - o.body_soil_[l][i][j];
                auto it = sum.find({l, i, j});
                double s = it == sum.end() ? 0.0 : it->second;
                if (std::fabs(h - s) > 0.1 * g.cell_size_z_) {
                    e << "layer " << l << " (" << i << "," << j << "): column "
                      << h / g.cell_size_z_ << " cells, entries "
                      << s / g.cell_size_z_ << " cells";
                    return e.str();
                }
            }
    return "";
}

Snapshot::Snapshot(const ss::SimOut& o)
    : terrain(o.terrain_), body(o.body_), body_soil(o.body_soil_),
      pos(o.body_soil_pos_), eq(o.equilibrium_) {
    std::memcpy(area[0], o.body_area_, sizeof(area[0]));
    std::memcpy(area[1], o.relax_area_, sizeof(area[1]));
    std::memcpy(area[2], o.impact_area_, sizeof(area[2]));
}
bool Snapshot::same(const ss::SimOut& o) const {
    Snapshot n(o);
    if (n.terrain != terrain || n.body != body || n.body_soil != body_soil ||
        n.eq != eq || n.pos.size() != pos.size() ||
        std::memcmp(n.area, area, sizeof(area)) != 0)
        return false;
    for (size_t k = 0; k < pos.size(); k++) {
        const ss::body_soil &a = pos[k];
        const ss::body_soil &b = n.pos[k];
        if (a.ind != b.ind || a.ii != b.ii || a.jj != b.jj || a.x_b != b.x_b ||
            a.y_b != b.y_b || a.z_b != b.z_b || a.h_soil != b.h_soil)
            return false;
    }
    return true;
}

}  // namespace sim
