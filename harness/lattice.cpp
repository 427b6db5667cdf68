#include "lattice.hpp"
#include <cmath>

namespace lat {

bool Cell::operator<(const Cell& o) const {
    auto key = [](const Cell& c) {
        return std::make_tuple(c.T, c.b[0], c.b[1], c.lo[0], c.lo[1], c.hi[0],
                               c.hi[1], c.s[0], c.s[1]);
    };
    return key(*this) < key(o);
}

std::string Cell::str() const {
    std::ostringstream o;
    o << "T" << T;
    for (int l = 0; l < 2; l++)
        if (b[l]) {
            o << " w" << l + 1 << "[" << lo[l] << "," << hi[l] << "]";
            if (s[l]) o << "+s" << s[l];
        }
    return o.str();
}

long State::total() const {
    long t = 0;
    for (auto& k : c) t += k.T + k.s[0] + k.s[1];
    return t;
}

std::string State::str(int i0, int i1, int j0, int j1) const {
    if (i0 < 0) { i0 = 0; i1 = X - 1; j0 = 0; j1 = Y - 1; }
    std::ostringstream o;
    for (int i = std::max(0, i0); i <= std::min(X - 1, i1); i++)
        for (int j = std::max(0, j0); j <= std::min(Y - 1, j1); j++) {
            const Cell& k = at(i, j);
            if (k.T || k.b[0] || k.b[1])
                o << "(" << i << "," << j << ") " << k.str() << "; ";
        }
    o << "entries:";
    for (auto& k : e) o << " " << k.l + 1 << "@(" << k.i << "," << k.j << ")x" << k.h;
    return o.str();
}

std::string Bench::str() const {
    std::ostringstream o;
    o << "cell " << cell_xy << "/" << cell_z << " half " << nx << "x" << ny
      << " body pos " << sim::fmt(pos) << " ori " << sim::fmt(ori);
    return o.str();
}

int widen(pbt::Src& s, GenOpt* opt) {
    if (!s.chance(1, 8)) return 1;
    int k = s.range(2, 12);
    opt->tlo *= k;
    opt->thi *= k;
    opt->max_soil *= k;
    opt->max_gap *= k;
    opt->max_thick *= k;
    return k;
}

long lift(pbt::Src& s, const Bench& b, State* st) {
    if (!s.chance(1, 6)) return 0;
    long k = s.pick({8, 25, 70, 200});
    k = std::min(k, static_cast<long>(6 / b.cell_z));     // heights exact to 1e-6
    if (s.chance(1, 2)) k = -k;
    for (auto& c : st->c) {
        c.T += k;
        for (int l = 0; l < 2; l++)
            if (c.b[l]) {
                c.lo[l] += k;
                c.hi[l] += k;
            }
    }
    return k;
}

Bench gen_bench(pbt::Src& s, const GenOpt& opt) {
    sim::init_log();
    Bench b;
    b.cell_xy = s.pick<float>({0.1f, 0.05f, 0.2f, 0.25f, 0.07f, 0.03f, 0.4f, 1.0f, 0.02f});
    double r = s.pick<double>({1.0, 0.5, 0.2, 0.73, 0.34, 0.125, 0.05});
    b.cell_z = std::max(0.01f, static_cast<float>(b.cell_xy * r));
    b.nx = s.range(opt.half_min, opt.half_max);
    b.ny = s.range(opt.half_min, opt.half_max);
    if (opt.narrow && s.chance(1, 400)) (s.chance(1, 2) ? b.nx : b.ny) = s.range(16, 140);
    if (s.chance(1, 2)) {
        b.pos = {static_cast<float>(s.sreal(3, 64) * b.cell_xy),
                 static_cast<float>(s.sreal(3, 64) * b.cell_xy),
                 static_cast<float>(s.sreal(3, 64) * b.cell_xy)};
        b.ori = sim::qmul(sim::axis_quat(0, 0, 1, s.sreal(3.1, 64)),
                          sim::axis_quat(0, 1, 0, s.sreal(1.5, 64)));
    }
    return b;
}

Cell gen_cell(pbt::Src& s, const GenOpt& opt, bool walls) {
    Cell c;
    c.T = s.range(0, 1) ? opt.tlo + s.range(0, opt.thi - opt.tlo)
                        : s.sint(std::max(0, std::min(-opt.tlo, opt.thi)));
    if (!walls || s.draw(100) >= static_cast<uint32_t>(opt.body_pct)) return c;
    int n = s.range(1, 2);
    int first = s.range(0, 1);        // layer index of the lower wall
    long base = c.T;
    for (int k = 0; k < n; k++) {
        int l = k == 0 ? first : 1 - first;
        // gap to what is below: touching terrain is common
        long gap = k == 0 ? (s.chance(1, 2) ? s.range(0, opt.max_gap) : 0)
                          : s.range(1, opt.max_gap);
        if (k == 0 && opt.penetrate_terrain && s.chance(1, 2))
            gap = -s.range(0, opt.max_gap);
        c.b[l] = true;
        c.lo[l] = base + gap;
        c.hi[l] = c.lo[l] + s.range(1, opt.max_thick);
        base = c.hi[l];
    }
    if (opt.soil) {
        if (n == 2) {
            int lo = first, up = 1 - first;
            long room = c.lo[up] - c.hi[lo];
            switch (s.weighted({3, 3, 3})) {
                case 0: break;
                case 1: c.s[lo] = s.range(0, static_cast<int>(room)); break;
                default: c.s[lo] = room;
            }
            if (opt.penetrate_soil && s.chance(1, 2)) c.s[lo] = s.range(0, opt.max_soil + 3);
            if (s.chance(1, 2)) c.s[up] = s.range(0, opt.max_soil);
        } else if (s.chance(1, 2)) {
            c.s[first] = s.range(0, opt.max_soil);
        }
    }
    return c;
}

void gen_entries(pbt::Src& s, State* st) {
    st->e.clear();
    for (int i = 0; i < st->X; i++)
        for (int j = 0; j < st->Y; j++)
            for (int l = 0; l < 2; l++) {
                long h = st->at(i, j).s[l];
                while (h > 0) {
                    long k = s.chance(1, 3) ? s.range(1, static_cast<int>(h)) : h;
                    st->e.push_back({l, i, j, k});
                    h -= k;
                }
            }
    // shuffle
    for (int k = static_cast<int>(st->e.size()) - 1; k > 0; k--)
        std::swap(st->e[k], st->e[k - static_cast<int>(s.draw(k + 1))]);
}

State gen_state(pbt::Src& s, const Bench& b, const GenOpt& opt) {
    State st;
    st.X = 2 * b.nx + 1;
    st.Y = 2 * b.ny + 1;
    st.c.resize(st.X * st.Y);
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++) {
            bool inside = i >= opt.margin && j >= opt.margin &&
                          i < st.X - opt.margin && j < st.Y - opt.margin;
            st.at(i, j) = gen_cell(s, opt, inside);
        }
    gen_entries(s, &st);
    return st;
}

void set_area(int a[2][2], int i0, int i1, int j0, int j1) {
    a[0][0] = i0; a[0][1] = i1; a[1][0] = j0; a[1][1] = j1;
}

void to_sim(const State& st, const Bench& b, const ss::Grid& g, ss::SimOut* o) {
    auto H = [&](long k) {
        return static_cast<float>(static_cast<double>(g.cell_size_z_) * k);
    };
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++) {
            const Cell& c = st.at(i, j);
            o->terrain_[i][j] = H(c.T);
            for (int l = 0; l < 2; l++) {
                bool w = c.b[l];
                o->body_[2 * l][i][j] = w ? H(c.lo[l]) : 0.0f;
                o->body_[2 * l + 1][i][j] = w ? H(c.hi[l]) : 0.0f;
                bool so = w && c.s[l] > 0;
                o->body_soil_[2 * l][i][j] = so ? H(c.hi[l]) : 0.0f;
                o->body_soil_[2 * l + 1][i][j] = so ? H(c.hi[l] + c.s[l]) : 0.0f;
            }
        }
    o->body_soil_pos_.clear();
    ss::Bucket body;
    body.pos_ = b.pos;
    body.ori_ = b.ori;
    for (auto& e : st.e) {
        // reference position of the cell in the body frame (forward rotation
        // of the world offset by the inverse of the body rotation)
        double v[3] = {g.vect_x_[e.i] - b.pos[0], g.vect_y_[e.j] - b.pos[1],
                       H(st.at(e.i, e.j).hi[e.l]) - b.pos[2]};
        std::vector<float> inv = {b.ori[0], -b.ori[1], -b.ori[2], -b.ori[3]};
        double r[3];
        sim::rotate(inv, v, r);
        o->body_soil_pos_.push_back(ss::body_soil{
            2 * e.l, e.i, e.j, static_cast<float>(r[0]), static_cast<float>(r[1]),
            static_cast<float>(r[2]), H(e.h)});
    }
    set_area(o->body_area_, 1, 2 * b.nx, 1, 2 * b.ny);
    set_area(o->relax_area_, 1, 2 * b.nx, 1, 2 * b.ny);
    set_area(o->impact_area_, 1, 2 * b.nx, 1, 2 * b.ny);
}

State from_sim(const ss::SimOut& o, const ss::Grid& g) {
    State st;
    st.X = o.terrain_.size();
    st.Y = o.terrain_[0].size();
    st.c.resize(st.X * st.Y);
    auto K = [&](float h, const char* what, int i, int j) {
        double k = static_cast<double>(h) / g.cell_size_z_;
        if (!std::isfinite(k) || std::fabs(k - std::round(k)) > 0.02)
            pbt::fail(what, " height ", h, " at (", i, ",", j,
                      ") is not a multiple of the cell height");
        return std::lround(k);
    };
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++) {
            Cell& c = st.at(i, j);
            c.T = K(o.terrain_[i][j], "terrain", i, j);
            for (int l = 0; l < 2; l++) {
                c.b[l] = sim::body_at(o, 2 * l, i, j);
                if (c.b[l]) {
                    c.lo[l] = K(o.body_[2 * l][i][j], "body", i, j);
                    c.hi[l] = K(o.body_[2 * l + 1][i][j], "body", i, j);
                }
                long a = K(o.body_soil_[2 * l][i][j], "body soil", i, j);
                long z = K(o.body_soil_[2 * l + 1][i][j], "body soil", i, j);
                c.s[l] = z - a;
                if (c.s[l] != 0 && (!c.b[l] || a != c.hi[l]))
                    pbt::fail("body soil [", a, ",", z, "] of layer ", l + 1,
                              " at (", i, ",", j, ") does not rest on a wall: ", c.str());
            }
        }
    for (auto& p : o.body_soil_pos_) {
        if ((p.ind != 0 && p.ind != 2) || p.ii < 0 || p.jj < 0 ||
            p.ii >= st.X || p.jj >= st.Y)
            pbt::fail("soil entry outside the grid: ind ", p.ind, " (", p.ii, ",", p.jj, ")");
        st.e.push_back({p.ind / 2, p.ii, p.jj, K(p.h_soil, "entry", p.ii, p.jj)});
    }
    return st;
}

Norm norm(const State& st) {
    Norm n;
    n.c = st.c;
    return n;
}

std::string diff(const Norm& a, const Norm& b, int Y) {
    std::ostringstream o;
    for (size_t k = 0; k < a.c.size() && k < b.c.size(); k++)
        if (!(a.c[k] == b.c[k]))
            o << "(" << k / Y << "," << k % Y << ") " << a.c[k].str() << " vs "
              << b.c[k].str() << "; ";
    return o.str();
}

std::string ledger(const State& st) {
    std::map<std::tuple<int, int, int>, long> m;
    for (auto& e : st.e) {
        if (e.h < 0) return "entry with negative height";
        m[{e.l, e.i, e.j}] += e.h;
    }
    std::ostringstream o;
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++)
            for (int l = 0; l < 2; l++) {
                auto it = m.find({l, i, j});
                long h = it == m.end() ? 0 : it->second;
                if (h != st.at(i, j).s[l]) {
                    o << "entries of layer " << l + 1 << " at (" << i << "," << j
                      << ") sum to " << h << " cells, the column is "
                      << st.at(i, j).s[l];
                    return o.str();
                }
            }
    return "";
}

std::string valid(const State& st) {
    std::ostringstream o;
    for (int i = 0; i < st.X; i++)
        for (int j = 0; j < st.Y; j++) {
            const Cell& c = st.at(i, j);
            std::string why;
            for (int l = 0; l < 2; l++) {
                if (c.b[l] && c.T > c.lo[l]) why = "terrain enters a wall";
                if (c.s[l] < 0) why = "negative soil column";
                if (c.s[l] && !c.b[l]) why = "soil without wall";
                int m = 1 - l;
                if (c.b[0] && c.b[1] && c.lo[m] > c.lo[l] && c.hi[l] + c.s[l] > c.lo[m])
                    why = "soil enters the upper wall";
            }
            if (!why.empty()) {
                o << why << " at (" << i << "," << j << "): " << c.str();
                return o.str();
            }
        }
    return "";
}

}  // namespace lat

namespace lat {

std::string entry_positions(const ss::SimOut& o, const ss::Grid& g, const Bench& b) {
    std::ostringstream e;
    for (auto& p : o.body_soil_pos_) {
        if (p.h_soil < 0.5 * g.cell_size_z_) continue;
        double v[3] = {p.x_b, p.y_b, p.z_b}, r[3];
        sim::rotate(b.ori, v, r);
        for (int k = 0; k < 3; k++) r[k] += b.pos[k];
        double w[3] = {g.vect_x_[p.ii], g.vect_y_[p.jj], o.body_[p.ind + 1][p.ii][p.jj]};
        for (int k = 0; k < 3; k++)
            if (!(std::fabs(r[k] - w[k]) <= 0.01 * g.cell_size_z_ + 1e-5)) {
                e << "the entry of layer " << p.ind / 2 + 1 << " at (" << p.ii << ","
                  << p.jj << ") is recorded at (" << r[0] << "," << r[1] << "," << r[2]
                  << ") instead of (" << w[0] << "," << w[1] << "," << w[2] << ")";
                return e.str();
            }
    }
    return "";
}

float repose_for(const Bench& b, long D, double frac) {
    return static_cast<float>(std::atan((D + frac) * b.cell_z / b.cell_xy));
}

ss::Bucket bench_body(const Bench& b) {
    ss::Bucket body;
    body.pos_ = b.pos;
    body.ori_ = b.ori;
    return body;
}

Run::Run(const State& st, const Bench& b) : g(b.grid()), o(g), body(bench_body(b)) {
    to_sim(st, b, g, &o);
    sim::reset_warn();
}

}  // namespace lat
