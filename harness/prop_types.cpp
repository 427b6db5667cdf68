// C12, C13, C14: pose arithmetic, constructors, grid.
#include <cfloat>
#include <climits>
#include <limits>
#include <memory>
#include "sim.hpp"

namespace {

const float kNan = std::numeric_limits<float>::quiet_NaN();
const float kInf = std::numeric_limits<float>::infinity();

// ------------------------------------------------------------------- C12
typedef std::array<double, 3> V3;
typedef std::array<double, 4> Q4;

V3 d3(const std::vector<float>& v) { return {v[0], v[1], v[2]}; }
double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
V3 sub(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
V3 cross(const V3& a, const V3& b) {
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
double len(const V3& a) { return std::sqrt(dot(a, a)); }
double dist(const V3& a, const V3& b) { return len(sub(a, b)); }

// Rotation matrix of the simulator for the quaternion q (transpose of the
// usual one), from its axis and angle.
V3 turn(const std::vector<float>& q, const V3& v) {
    double n = std::sqrt(double(q[0]) * q[0] + double(q[1]) * q[1] + double(q[2]) * q[2] +
                         double(q[3]) * q[3]);
    V3 ax = {q[1] / n, q[2] / n, q[3] / n};
    double s = len(ax), c = q[0] / n;
    if (s < 1e-300) return v;
    double ang = -2 * std::atan2(s, c);
    V3 u = {ax[0] / s, ax[1] / s, ax[2] / s}, w = cross(u, v);
    double k = dot(u, v) * (1 - std::cos(ang));
    V3 r;
    for (int i = 0; i < 3; i++) r[i] = v[i] * std::cos(ang) + w[i] * std::sin(ang) + u[i] * k;
    return r;
}

std::vector<float> gen_quat(pbt::Src& s) {
    std::vector<float> q;
    switch (s.weighted({1, 3, 3, 1})) {
        case 0: q = {1, 0, 0, 0}; break;
        case 1:
            q = {static_cast<float>(s.sreal(1, 64)), static_cast<float>(s.sreal(1, 64)),
                 static_cast<float>(s.sreal(1, 64)), static_cast<float>(s.sreal(1, 64))};
            break;
        case 2: q = sim::axis_quat(s.sreal(1, 16), s.sreal(1, 16), 1, s.sreal(6.3)); break;
        default:
            q = {0, 0, 0, 0};
            q[s.range(0, 3)] = s.chance(1, 2) ? -1.0f : 1.0f;
    }
    double n = 0;
    for (float x : q) n += double(x) * x;
    if (n < 1e-3) q[0] = 1;
    float k = s.pick({1.0f, 1.0f, 0.01f, 7.5f, 300.0f});
    for (float& x : q) x *= k;
    return q;
}

std::vector<float> gen_vec(pbt::Src& s, double m) {
    std::vector<float> v(3);
    for (float& x : v) x = static_cast<float>(s.sreal(m));
    return v;
}

void rotation(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    auto q = gen_quat(s), q2 = gen_quat(s);
    double m = s.pick({1.0, 0.01, 50.0});
    auto v = gen_vec(s, m), w = gen_vec(s, m);
    ctx.desc << "q " << sim::fmt(q) << " q2 " << sim::fmt(q2) << " v " << sim::fmt(v) << " w "
             << sim::fmt(w);
    V3 rv = d3(ss::CalcRotationQuaternion(q, v)), rw = d3(ss::CalcRotationQuaternion(q, w));
    double e = 4e-6 * m;
    V3 want = turn(q, d3(v));
    PBT_CHECK(dist(rv, want) < e, "v is rotated to (", rv[0], ",", rv[1], ",", rv[2],
              ") instead of (", want[0], ",", want[1], ",", want[2], ")");
    PBT_CHECK(std::fabs(len(rv) - len(d3(v))) < e, "the length changes");
    PBT_CHECK(std::fabs(dot(rv, rw) - dot(d3(v), d3(w))) < 4 * e * m, "the angle changes");
    V3 c1 = cross(rv, rw), c2 = turn(q, cross(d3(v), d3(w)));
    PBT_CHECK(dist(c1, c2) < 8 * e * m, "the orientation changes");
    // q then q2
    auto q12 = ss::MultiplyQuaternion(q, q2);
    PBT_CHECK(q12.size() == 4, "product of size ", q12.size());
    Q4 p = {double(q[0]) * q2[0] - double(q[1]) * q2[1] - double(q[2]) * q2[2] - double(q[3]) * q2[3],
            double(q[0]) * q2[1] + double(q[1]) * q2[0] + double(q[2]) * q2[3] - double(q[3]) * q2[2],
            double(q[0]) * q2[2] - double(q[1]) * q2[3] + double(q[2]) * q2[0] + double(q[3]) * q2[1],
            double(q[0]) * q2[3] + double(q[1]) * q2[2] - double(q[2]) * q2[1] + double(q[3]) * q2[0]};
    double n1 = 0, n2 = 0;
    for (int k = 0; k < 4; k++) n1 += double(q[k]) * q[k], n2 += double(q2[k]) * q2[k];
    for (int k = 0; k < 4; k++)
        PBT_CHECK(std::fabs(q12[k] - p[k]) < 2e-6 * std::sqrt(n1 * n2), "component ", k,
                  " of the product is ", q12[k], " instead of ", p[k]);
    V3 a = d3(ss::CalcRotationQuaternion(q2, ss::CalcRotationQuaternion(q, v)));
    V3 b = d3(ss::CalcRotationQuaternion(q12, v));
    PBT_CHECK(dist(a, b) < 2 * e, "rotating by q then q2 is not rotating by q*q2");
    // there and back
    auto inv = q;
    for (int k = 1; k < 4; k++) inv[k] = -inv[k];
    V3 back = d3(ss::CalcRotationQuaternion(inv, ss::CalcRotationQuaternion(q, v)));
    PBT_CHECK(dist(back, d3(v)) < 2 * e, "the inverse does not bring the point back");
    ctx.nontrivial = len(d3(v)) > 0.1 * m && std::fabs(q[0] * q[0] / n1) < 0.999;
    ctx.maxi("rotation error relative to the size", dist(rv, want) / m);
}
const pbt::Register r12a("C12.rotation", rotation);

void angles(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    double lim = s.pick({1.6, 3.2, 7.0});
    auto a = gen_vec(s, lim);
    ctx.desc << "angles " << sim::fmt(a);
    auto q = ss::AngleToQuat(a);
    PBT_CHECK(q.size() == 4, "quaternion of size ", q.size());
    double n = 0;
    for (float x : q) n += double(x) * x;
    PBT_CHECK(std::fabs(n - 1) < 4e-6, "not a unit quaternion: ", sim::fmt(q));
    PBT_CHECK(q[0] >= 0, "negative scalar part: ", sim::fmt(q));
    // yaw about Z, then pitch about the new Y, then roll about the new X:
    // usual matrix Rz Ry Rx, the quaternion q gives q v conj(q)
    auto v = gen_vec(s, 1);
    V3 x = d3(v);
    auto rot = [](int k, double t, V3 p) {
        int i = (k + 1) % 3, j = (k + 2) % 3;
        V3 r = p;
        r[i] = std::cos(t) * p[i] - std::sin(t) * p[j];
        r[j] = std::sin(t) * p[i] + std::cos(t) * p[j];
        return r;
    };
    V3 want = rot(2, a[0], rot(1, a[1], rot(0, a[2], x)));
    std::vector<float> conj = {q[0], -q[1], -q[2], -q[3]};
    V3 got = turn(conj, x);
    PBT_CHECK(dist(want, got) < 1e-5, "the angles give (", want[0], ",", want[1], ",", want[2],
              ") and the quaternion ", sim::fmt(q), " gives (", got[0], ",", got[1], ",", got[2], ")");
    // and so does the simulator with the inverse
    V3 mine = d3(ss::CalcRotationQuaternion(conj, v));
    PBT_CHECK(dist(mine, want) < 1e-5, "the rotation by the quaternion of the angles differs");
    int big = 0;
    for (float t : a) big += std::fabs(t) > 0.05;
    ctx.nontrivial = big >= 2;
    if (std::fabs(a[0]) > M_PI || std::fabs(a[1]) > M_PI || std::fabs(a[2]) > M_PI)
        ctx.label("angles beyond half a turn");
}
const pbt::Register r12b("C12.angles", angles);

void body_frame(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    double m = s.pick({1.0, 0.1, 5.0});
    std::vector<float> zero = {0, 0, 0}, o = s.chance(1, 2) ? gen_vec(s, m) : zero;
    auto j = gen_vec(s, m), b = gen_vec(s, m), t = gen_vec(s, m);
    V3 n = cross(sub(d3(b), d3(j)), sub(d3(t), d3(j)));
    if (len(n) < 0.05 * m * m) throw pbt::Discard();
    float width = static_cast<float>(m * s.real(0.01, 2));
    bool blade = s.chance(1, 2);
    std::unique_ptr<ss::Bucket> bu;
    std::unique_ptr<ss::Blade> bl;
    ss::Body* body;
    if (blade) {
        bl = std::make_unique<ss::Blade>(o, j, b, t, width);
        body = bl.get();
    } else {
        bu = std::make_unique<ss::Bucket>(o, j, b, t, width);
        body = bu.get();
    }
    sim::Pose p{gen_vec(s, 4 * m), gen_quat(s)};
    ctx.desc << "o " << sim::fmt(o) << " j " << sim::fmt(j) << " b " << sim::fmt(b) << " t "
             << sim::fmt(t) << " width " << width << " pos " << sim::fmt(p.pos) << " ori "
             << sim::fmt(p.ori);
    // the normal of a plane
    V3 nn = d3(ss::CalcNormal(j, b, t)), un = {n[0] / len(n), n[1] / len(n), n[2] / len(n)};
    PBT_CHECK(dist(nn, un) < 1e-4, "the normal is (", nn[0], ",", nn[1], ",", nn[2],
              ") instead of (", un[0], ",", un[1], ",", un[2], ")");
    V3 on = d3(ss::CalcNormal(j, t, b));
    PBT_CHECK(dist(on, {-un[0], -un[1], -un[2]}) < 1e-4, "the normal does not turn with the points");
    // corners
    auto [jr, jl, br, bl_, tr, tl] = ss::CalcBodyCornerPos(p.pos, p.ori, body);
    std::vector<float>* c[6] = {&jr, &jl, &br, &bl_, &tr, &tl};
    const char* name[6] = {"j_r", "j_l", "b_r", "b_l", "t_r", "t_l"};
    const std::vector<float>* ref[3] = {&j, &b, &t};
    V3 un2 = turn(p.ori, un);
    double worst = 0;
    for (int k = 0; k < 6; k++) {
        V3 r = turn(p.ori, sub(d3(*ref[k / 2]), d3(o)));
        for (int d = 0; d < 3; d++)
            r[d] += p.pos[d] + (k % 2 ? -0.5 : 0.5) * width * un2[d];
        double e = dist(r, d3(*c[k]));
        worst = std::max(worst, e / m);
        PBT_CHECK(e < 2e-4 * m, name[k], " is at ", sim::fmt(*c[k]), " instead of (", r[0], ",",
                  r[1], ",", r[2], ")");
    }
    ctx.maxi("corner error relative to the size", worst);
    // a cell in the frame of the body
    double cell = m * s.pick({0.1, 0.04});
    ss::Grid g(cell * s.range(3, 20), cell * s.range(3, 20), cell * s.range(3, 20), cell,
               cell * s.pick({1.0, 0.5, 0.13}));
    int ii = s.range(0, 2 * g.half_length_x_), jj = s.range(0, 2 * g.half_length_y_);
    float z = static_cast<float>(s.sreal(2 * m));
    body->pos_ = p.pos;
    body->ori_ = p.ori;
    auto f = ss::CalcBodyFramePos(ii, jj, z, g, body);
    // the frame position does not depend on the scale of the quaternion
    V3 back = turn(p.ori, d3(f)), want = {g.vect_x_[ii], g.vect_y_[jj], z};
    for (int d = 0; d < 3; d++) back[d] += p.pos[d];
    PBT_CHECK(dist(back, want) < 4e-5 * m, "cell (", ii, ",", jj, ") at ", z,
              " comes back from the frame of the body at (", back[0], ",", back[1], ",", back[2], ")");
    ctx.maxi("round trip error relative to the size", dist(back, want) / m);
    ctx.nontrivial = true;
}
const pbt::Register r12c("C12.frame", body_frame);

// ------------------------------------------------------------------- C13
// An unusable number, or a usable one.
float odd(pbt::Src& s) {
    return s.pick({0.0f, -0.0f, -0.1f, -1e30f, kNan, kInf, -kInf, -FLT_MIN, -FLT_TRUE_MIN});
}

template <typename F>
bool accepted(F f, const std::string& what) {
    try {
        f();
        return true;
    } catch (const std::invalid_argument&) {
        return false;
    } catch (const std::exception& e) {
        pbt::fail(what, " threw something else: ", e.what());
    }
}

void make_grid(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    float xy = static_cast<float>(s.pick({0.1, 0.05, 1.0, 0.001, 30.0, 0.37}) * s.real(1, 2));
    float cz = static_cast<float>(xy * s.pick({1.0, 0.2, 0.5, 1.01, 0.7, 0.03}));
    float size[3];
    for (int k = 0; k < 3; k++) {
        float c = k < 2 ? xy : cz;
        switch (s.weighted({20, 1, 1, 1})) {
            case 0: size[k] = static_cast<float>(c * s.real(1, 30)); break;
            case 1: size[k] = c; break;
            case 2: size[k] = std::nextafter(c, 0.0f); break;
            default: size[k] = static_cast<float>(c * s.real(0.01, 1.2));
        }
    }
    int bad = 0;
    if (s.chance(1, 2)) {
        bad = s.range(1, 2);
        for (int k = 0; k < bad; k++) {
            float v = odd(s);
            switch (s.range(0, 4)) {
                case 0: size[0] = v; break;
                case 1: size[1] = v; break;
                case 2: size[2] = v; break;
                case 3: xy = v; break;
                default: cz = v;
            }
        }
    }
    bool good = true;
    for (float v : {size[0], size[1], size[2], xy, cz}) good &= std::isfinite(v) && v > 0;
    good = good && cz <= xy && xy <= size[0] && xy <= size[1] && cz <= size[2];
    ctx.desc << "Grid(" << size[0] << "," << size[1] << "," << size[2] << "," << xy << "," << cz << ")";
    // an infinite number of cells in an accepted grid is not tried
    std::unique_ptr<ss::Grid> g;
    bool ok = accepted([&]() {
        g = std::make_unique<ss::Grid>(size[0], size[1], size[2], xy, cz);
    }, "Grid");
    PBT_CHECK(ok == good, good ? "a usable grid is rejected" : "an unusable grid is accepted");
    if (ok)
        PBT_CHECK(g->cell_size_xy_ == xy && g->cell_size_z_ == cz, "holds the cells ",
                  g->cell_size_xy_, "/", g->cell_size_z_);
    ctx.label(good ? "usable" : "unusable");
    ctx.nontrivial = true;
}
const pbt::Register r13a("C13.grid", make_grid);

void make_param(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    double pi2 = M_PI / 2;
    float rep = 0;
    switch (s.weighted({3, 1, 1, 1, 1})) {
        case 0: rep = static_cast<float>(s.real(0, 1.57)); break;
        case 1: rep = s.pick({0.0f, -0.0f, std::nextafter(1.5707963f, 0.0f)}); break;
        case 2: rep = s.pick({-FLT_TRUE_MIN, 1.5708f, 3.0f, -0.1f, FLT_MAX, -FLT_MAX}); break;
        case 3: rep = s.pick({kNan, kInf, -kInf}); break;
        default: rep = static_cast<float>(s.sreal(3.2));
    }
    int it = s.pick({3, 0, 1, 100, INT_MAX, -1, INT_MIN, -7}), buf = s.pick({4, 2, 3, 100, INT_MAX, 1, 0, -1, INT_MIN});
    if (s.chance(1, 3)) it = s.sint(50);
    if (s.chance(1, 3)) buf = s.sint(8);
    ctx.desc << "SimParam(" << rep << "," << it << "," << buf << ")";
    if (std::fabs(rep - pi2) < 5e-8) throw pbt::Discard();   // closest float to pi/2
    bool good = rep >= 0 && rep <= pi2 && it >= 0 && buf >= 2;
    std::unique_ptr<ss::SimParam> p;
    bool ok = accepted([&]() { p = std::make_unique<ss::SimParam>(rep, it, buf); }, "SimParam");
    PBT_CHECK(ok == good, good ? "usable parameters are rejected" : "unusable parameters are accepted");
    if (ok)
        PBT_CHECK(p->repose_angle_ == rep && p->max_iterations_ == it && p->cell_buffer_ == buf,
                  "holds ", p->repose_angle_, ",", p->max_iterations_, ",", p->cell_buffer_);
    ctx.label(good ? "usable" : "unusable");
    ctx.nontrivial = true;
}
const pbt::Register r13b("C13.param", make_param);

void make_body(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    std::vector<float> v[4];      // o, j, b, t
    for (int k = 0; k < 4; k++) v[k] = {0, 0, 0};
    double m = s.pick({1.0, 0.125, 16.0});
    if (s.chance(1, 2)) v[0] = gen_vec(s, m);
    if (s.chance(1, 2)) v[1] = gen_vec(s, m);
    v[2] = gen_vec(s, m);
    v[3] = gen_vec(s, m);
    float width = static_cast<float>(s.real(0.001, 3));
    std::string why;
    switch (s.weighted({6, 2, 2, 2, 3, 2})) {
        case 0: break;
        case 1:       // two equal points
            v[s.range(1, 3)] = v[s.range(1, 3)];
            why = "points";
            break;
        case 2: {     // a number
            float x = s.chance(1, 2) ? odd(s) : s.pick({kNan, kInf, -kInf});
            if (s.chance(1, 2)) width = x;
            else v[s.range(0, 3)][s.range(0, 2)] = x;
            why = "number";
            break;
        }
        case 3:       // a size
            v[s.range(0, 3)].resize(s.pick({0, 1, 2, 4, 5, 7}), 0.5f);
            why = "size";
            break;
        case 4: {     // aligned
            int a = s.sint(8), b = s.sint(8);
            double d[3] = {s.sreal(1, 8), s.sreal(1, 8), s.sreal(1, 8)};
            for (int k = 0; k < 3; k++) {
                v[1][k] = static_cast<float>(m * s.sreal(1, 8));
                v[2][k] = static_cast<float>(v[1][k] + a * m * d[k] / 8);
                v[3][k] = static_cast<float>(v[1][k] + b * m * d[k] / 8);
            }
            why = "aligned";
            break;
        }
        default:
            width = odd(s);
            why = "width";
    }
    bool good = width > 0 && std::isfinite(width);
    for (int k = 0; k < 4; k++) good &= v[k].size() == 3;
    for (int k = 0; k < 4; k++) for (float x : v[k]) good &= std::isfinite(x);
    if (good) {
        V3 a = sub(d3(v[2]), d3(v[1])), b = sub(d3(v[3]), d3(v[1]));
        if (len(a) == 0 || len(b) == 0 || v[2] == v[3]) {
            good = false;
        } else {
            double sn = len(cross(a, b)) / len(a) / len(b);
            if (sn > 2e-7 && sn < 1e-4) throw pbt::Discard();      // hardly a triangle
            good = sn >= 1e-4;
            if (len(a) > 1e10 || len(b) > 1e10) throw pbt::Discard();
        }
    }
    bool blade = s.chance(1, 2);
    ctx.desc << (blade ? "Blade" : "Bucket") << "(" << sim::fmt(v[0]) << sim::fmt(v[1])
             << sim::fmt(v[2]) << sim::fmt(v[3]) << width << ")";
    std::unique_ptr<ss::Bucket> bu;
    std::unique_ptr<ss::Blade> bl;
    bool ok = accepted([&]() {
        if (blade) bl = std::make_unique<ss::Blade>(v[0], v[1], v[2], v[3], width);
        else bu = std::make_unique<ss::Bucket>(v[0], v[1], v[2], v[3], width);
    }, "constructor");
    PBT_CHECK(ok == good, good ? "a usable body is rejected" : "an unusable body is accepted");
    ctx.label(good ? "usable" : "unusable: " + why);
    ctx.nontrivial = true;
    if (!ok) return;
    const ss::Body* b = blade ? static_cast<ss::Body*>(bl.get()) : bu.get();
    PBT_CHECK(b->width_ == width, "holds the width ", b->width_);
    PBT_CHECK(b->j_pos_init_.size() == 3 && b->b_pos_init_.size() == 3 &&
                  b->t_pos_init_.size() == 3 && b->pos_.size() == 3 && b->ori_.size() == 4,
              "members of the wrong size");
    const std::vector<float>* held[3] = {&b->j_pos_init_, &b->b_pos_init_, &b->t_pos_init_};
    for (int k = 0; k < 3; k++)
        for (int d = 0; d < 3; d++) {
            double want = double(v[k + 1][d]) - v[0][d];
            PBT_CHECK(std::fabs((*held[k])[d] - want) <= 1e-6 * m, "point ", k,
                      " is held as ", sim::fmt(*held[k]));
        }
}
const pbt::Register r13c("C13.body", make_body);

// ------------------------------------------------------------------- C14
void grid_axes(pbt::Src& s, pbt::Ctx& ctx) {
    sim::init_log();
    float xy = static_cast<float>(s.pick({0.1, 0.05, 1.0, 0.01, 7.0, 0.3}) * s.real(1, 2, 64));
    float cz = static_cast<float>(xy * s.pick({1.0, 0.2, 0.5, 0.37, 0.03}));
    float size[3];
    int want[3];
    int top = s.pick({10, 60, 300});
    for (int k = 0; k < 3; k++) {
        float c = k < 2 ? xy : cz;
        double r = s.chance(1, 2) ? s.range(1, k < 2 ? std::min(top, 80) : top)
                                  : s.real(1, k < 2 ? std::min(top, 80) : top);
        size[k] = std::max(c, static_cast<float>(c * r));
        double q = double(size[k]) / c;
        if (std::fabs(q - std::floor(q) - 0.5) < 1e-4) throw pbt::Discard();
        want[k] = static_cast<int>(std::floor(q + 0.5));
        if (std::fabs(q - std::round(q)) > 0.01) ctx.label("sizes that are no multiple of the cell");
    }
    ctx.desc << "Grid(" << size[0] << "," << size[1] << "," << size[2] << "," << xy << "," << cz << ")";
    ss::Grid g(size[0], size[1], size[2], xy, cz);
    int half[3] = {g.half_length_x_, g.half_length_y_, g.half_length_z_};
    size_t sizes[3] = {g.vect_x_.size(), g.vect_y_.size(), g.vect_z_.size()};
    for (int k = 0; k < 3; k++) {
        PBT_CHECK(half[k] == want[k], "axis ", k, " has ", half[k], " cells instead of ", want[k]);
        PBT_CHECK(sizes[k] == size_t(2 * want[k] + 1), "axis ", k, " has ", sizes[k], " positions");
        double c = k < 2 ? xy : cz;
        double e = 2e-3 * c;
        double worst = 0;
        for (int i = 0; i < 2 * want[k] + 1; i++) {
            double v = k == 0 ? g.vect_x_[i] : k == 1 ? g.vect_y_[i] : g.vect_z_[i];
            double x = (i - want[k] + (k == 2 ? 1 : 0)) * c;
            worst = std::max(worst, std::fabs(v - x) / c);
            PBT_CHECK(std::fabs(v - x) <= e, "position ", i, " of axis ", k,
                      " is ", v, " instead of ", x);
        }
        ctx.maxi("largest error of a position [cells]", worst);
    }
    PBT_CHECK(std::fabs(g.cell_area_ - double(xy) * xy) <= 1e-6 * xy * xy, "cell area ", g.cell_area_);
    PBT_CHECK(std::fabs(g.cell_volume_ - double(xy) * xy * cz) <= 1e-6 * xy * xy * cz,
              "cell volume ", g.cell_volume_);
    PBT_CHECK(g.cell_size_xy_ == xy && g.cell_size_z_ == cz, "cell sizes");
    // what a simulation starts from
    ss::SimOut o(g);
    size_t X = 2 * want[0] + 1, Y = 2 * want[1] + 1;
    auto flat = [&](const std::vector<std::vector<float>>& a, const char* what) {
        PBT_CHECK(a.size() == X, what, " has ", a.size(), " rows");
        for (auto& r : a) {
            PBT_CHECK(r.size() == Y, what, " has ", r.size(), " columns");
            for (float v : r) PBT_CHECK(v == 0, what, " is not empty");
        }
    };
    flat(o.terrain_, "terrain");
    PBT_CHECK(o.body_.size() == 4 && o.body_soil_.size() == 4, "number of layers");
    for (int l = 0; l < 4; l++) {
        flat(o.body_[l], "body");
        flat(o.body_soil_[l], "body soil");
    }
    PBT_CHECK(o.body_soil_pos_.empty(), "soil is recorded on the body");
    PBT_CHECK(!o.equilibrium_, "starts at equilibrium");
    for (auto a : {o.body_area_, o.relax_area_, o.impact_area_})
        for (int k = 0; k < 2; k++)
            PBT_CHECK(a[k][0] >= 0 && a[k][0] <= a[k][1] && a[k][1] <= 2 * want[k],
                      "active area [", a[k][0], ",", a[k][1], ") outside of the grid");
    ctx.nontrivial = want[0] > 1 || want[1] > 1 || want[2] > 1;
}
const pbt::Register r14("C14.axes", grid_axes);

}  // namespace
