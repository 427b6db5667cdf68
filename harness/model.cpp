#include "model.hpp"
#include <algorithm>
#include <map>

namespace model {

const int kDir8[8][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1},
                         {1, 1}, {1, -1}, {-1, 1}, {-1, -1}};
const int kDir4[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};

long floor2(long v) { return v >= 0 ? v / 2 : -((-v + 1) / 2); }

long room_below(const Cell& c) {
    if (!has_wall(c)) return -1;
    return lowest(c) - c.T;
}

static Recv onto(const Cell& c, int l) {
    Recv r;
    r.layer = l;
    r.top = c.hi[l] + c.s[l];
    return r;
}
static int digit(const Cell& c, int l) {   // second digit of the code
    return l == 1 ? (c.s[1] ? 1 : 2) : (c.s[0] ? 3 : 4);
}

Recv terrain_recv(const Cell& c, long hmin) {
    Recv r;
    if (c.T >= hmin) return r;
    if (!has_wall(c)) {
        r.top = c.T;
        r.status = 40;
        r.unstable = true;
        return r;
    }
    int base = c.b[0] && c.b[1] ? 30 : c.b[0] ? 10 : 20;
    long lo = lowest(c);
    if (c.T < lo) {              // space under the body
        r.top = c.T;
        r.room = lo - c.T;
        r.status = base;
        r.unstable = true;
        return r;
    }
    int l;
    if (base != 30) {
        l = c.b[0] ? 0 : 1;
        r = onto(c, l);
    } else {
        int b = c.bot(), t = 1 - b;
        if (c.s[b] && c.hi[b] + c.s[b] >= c.lo[t]) {
            l = t;
            r = onto(c, t);
        } else {
            l = b;
            r = onto(c, b);
            r.room = c.lo[t] - r.top;
        }
    }
    if (r.top < hmin) {
        r.unstable = true;
        r.status = base + digit(c, l);
    }
    return r;
}

Recv body_recv(const Cell& c, long hb, long hmin) {
    Recv r;
    if (!has_wall(c)) {
        r.top = c.T;
        if (c.T < hmin) {
            r.unstable = true;
            r.status = 40;
        }
        return r;
    }
    if (!(c.b[0] && c.b[1])) {
        int l = c.b[0] ? 0 : 1;
        int base = c.b[0] ? 10 : 20;
        int code;
        if (hb < c.lo[l] && c.T < c.lo[l]) {
            r.top = c.T;
            r.room = c.lo[l] - c.T;
            code = base;
        } else {
            r = onto(c, l);
            code = base + digit(c, l);
        }
        if (r.top < hmin) {
            r.unstable = true;
            r.status = code;
        }
        return r;
    }
    int b = c.bot(), t = 1 - b;
    int l = t;
    if (hb < c.lo[t] && (c.s[b] == 0 || c.hi[b] + c.s[b] < c.lo[t])) l = b;
    r = onto(c, l);
    if (l == b) r.room = c.lo[t] - r.top;
    if (r.top < hmin) {
        r.unstable = true;
        r.status = 30 + digit(c, l);
    }
    return r;
}

long amount(long S, long D, const Recv& r) {
    long m = S - floor2(D + S + r.top);
    if (r.room >= 0) m = std::min(m, r.room);
    return m;
}

bool relax_terrain(State* st, int i, int j, int ic, int jc, long D) {
    long H = st->at(i, j).T;
    Cell& c = st->at(ic, jc);
    Recv r = terrain_recv(c, H - D);
    if (!r.unstable) return false;
    long m = amount(H, D, r);
    st->at(i, j).T -= m;
    if (r.layer < 0) {
        c.T += m;
    } else {
        c.s[r.layer] += m;
        st->e.push_back({r.layer, ic, jc, m});
    }
    return true;
}

bool relax_body(State* st, int n, int ic, int jc, long D,
                std::vector<lat::Entry>* added) {
    lat::Entry& e = st->e[n];
    Cell& src = st->at(e.i, e.j);
    if (e.h == 0) return false;      // nothing left to move
    long S = src.hi[e.l] + src.s[e.l];
    Cell& c = st->at(ic, jc);
    Recv r = body_recv(c, src.hi[e.l], S - D);
    if (!r.unstable) return false;
    long m = std::max(0L, std::min(amount(S, D, r), e.h));
    e.h -= m;
    src.s[e.l] -= m;
    if (r.layer < 0) {
        c.T += m;
    } else {
        c.s[r.layer] += m;
        added->push_back({r.layer, ic, jc, m});
    }
    return true;
}

bool terrain_candidate(const State& st, int i, int j, long D) {
    for (auto& d : kDir4)
        if (st.at(i + d[0], j + d[1]).T < st.at(i, j).T - D) return true;
    return false;
}

bool any_unstable_terrain(const State& st, long D, int i0, int i1, int j0, int j1,
                          std::string* where) {
    for (int i = i0; i < i1; i++)
        for (int j = j0; j < j1; j++)
            for (auto& d : kDir4) {
                int ic = i + d[0], jc = j + d[1];
                if (ic < 0 || jc < 0 || ic >= st.X || jc >= st.Y) continue;
                Recv r = terrain_recv(st.at(ic, jc), st.at(i, j).T - D);
                if (r.unstable && r.room != 0) {
                    std::ostringstream o;
                    o << "terrain of (" << i << "," << j << ") "
                      << st.at(i, j).str() << " towards (" << ic << "," << jc
                      << ") " << st.at(ic, jc).str();
                    *where = o.str();
                    return true;
                }
            }
    return false;
}

bool any_unstable_body(const State& st, long D, std::string* where) {
    for (auto& e : st.e) {
        if (e.h <= 0) continue;
        const Cell& src = st.at(e.i, e.j);
        long S = src.hi[e.l] + src.s[e.l];
        for (auto& d : kDir4) {
            int ic = e.i + d[0], jc = e.j + d[1];
            if (ic < 0 || jc < 0 || ic >= st.X || jc >= st.Y) continue;
            Recv r = body_recv(st.at(ic, jc), src.hi[e.l], S - D);
            if (r.unstable && r.room != 0) {
                std::ostringstream o;
                o << "soil of layer " << e.l + 1 << " at (" << e.i << "," << e.j
                  << ") " << src.str() << " towards (" << ic << "," << jc << ") "
                  << st.at(ic, jc).str();
                *where = o.str();
                return true;
            }
        }
    }
    return false;
}

// ------------------------------------------------------------ pushed terrain
std::map<lat::Norm, State> push_terrain(const State& st0, int i, int j, long level) {
    std::map<lat::Norm, State> res;
    State st = st0;
    long h = st.at(i, j).T - level;
    st.at(i, j).T = level;
    // capacity of each direction in a ring: -1 unlimited
    for (int pp = 1; pp < 200; pp++) {
        long cap[8], tot = 0;
        bool open = false;
        for (int d = 0; d < 8; d++) {
            int ip = i + pp * kDir8[d][0], jp = j + pp * kDir8[d][1];
            if (ip < 0 || jp < 0 || ip >= st.X || jp >= st.Y) throw pbt::Discard();
            const Cell& c = st.at(ip, jp);
            cap[d] = has_wall(c) ? std::max(0L, room_below(c)) : -1;
            if (cap[d] < 0) open = true; else tot += cap[d];
        }
        auto put = [&](State* s, int d, long m) {
            s->at(i + pp * kDir8[d][0], j + pp * kDir8[d][1]).T += m;
        };
        if (!open && tot < h) {
            for (int d = 0; d < 8; d++) put(&st, d, cap[d]);
            h -= tot;
            continue;
        }
        // the last ring: any subset is filled before the last direction
        for (int mask = 0; mask < 256; mask++) {
            long sum = 0;
            bool ok = true;
            for (int d = 0; d < 8; d++)
                if (mask >> d & 1) {
                    if (cap[d] < 0) ok = false;
                    sum += cap[d];
                }
            if (!ok || sum > h) continue;
            for (int d = 0; d < 8; d++) {
                if (mask >> d & 1) continue;
                long rest = h - sum;
                if (cap[d] >= 0 && cap[d] < rest) continue;
                State s = st;
                for (int q = 0; q < 8; q++)
                    if (mask >> q & 1) put(&s, q, cap[q]);
                put(&s, d, rest);
                res.insert({lat::norm(s), s});
            }
        }
        return res;
    }
    throw pbt::Discard();
}

// ------------------------------------------------------------- squeezed soil
Move move_body_soil(State* st, int pl, int pi, int pj, long max_h, int i, int j,
                    long h, bool wall) {
    Cell& c = st->at(i, j);
    long hb = st->at(pi, pj).hi[pl];
    if (!has_wall(c)) {
        c.T += h;
        return {pl, pi, pj, 0, wall};
    }
    if (!(c.b[0] && c.b[1])) {
        int l = c.b[0] ? 0 : 1;
        if (c.lo[l] > hb) {
            c.T += h;
            return {pl, pi, pj, 0, wall};
        }
        if (c.hi[l] >= max_h) return {pl, pi, pj, h, true};
        c.s[l] += h;
        st->e.push_back({l, i, j, h});
        return {pl, pi, pj, 0, wall};
    }
    int b = c.bot(), t = 1 - b;
    long room = c.lo[t] - c.hi[b] - c.s[b];
    if (c.s[b] && room <= 0) return {b, i, j, h, wall};
    long m = std::min(room, h);
    c.s[b] += m;
    st->e.push_back({b, i, j, m});
    if (m < h) return {b, i, j, h - m, wall};
    return {pl, pi, pj, 0, wall};
}

bool squeezed(const State& st, int n, long* excess) {
    const lat::Entry& e = st.e[n];
    const Cell& c = st.at(e.i, e.j);
    int t = 1 - e.l;
    if (!c.b[t] || !c.b[e.l] || c.lo[t] <= c.lo[e.l]) return false;
    long x = c.hi[e.l] + c.s[e.l] - c.lo[t];
    if (x <= 0) return false;
    *excess = std::min(x, e.h);
    return true;
}

static void ray(State* st, const lat::Entry& e, int d, long* h) {
    const Cell& c0 = st->at(e.i, e.j);
    long max_h = c0.lo[1 - e.l];
    int pl = e.l, pi = e.i, pj = e.j;
    bool wall = false;
    for (int pp = 1; !wall && *h > 0; pp++) {
        int i = e.i + pp * kDir8[d][0], j = e.j + pp * kDir8[d][1];
        if (i < 0 || j < 0 || i >= st->X || j >= st->Y) throw pbt::Discard();
        Move m = move_body_soil(st, pl, pi, pj, max_h, i, j, *h, wall);
        pl = m.l; pi = m.i; pj = m.j; *h = m.h; wall = m.wall;
        const Cell& p = st->at(pi, pj);
        max_h = std::max(p.b[0] ? p.lo[0] : 0, p.b[1] ? p.lo[1] : 0);
    }
}

static void squeeze_dfs(const State& st, const lat::Entry& e, int mask, long h,
                        std::set<int>* seen, std::vector<Squeeze>* out) {
    if (!seen->insert(mask).second) return;
    if (mask == 255) {
        out->push_back({st, h});
        return;
    }
    for (int d = 0; d < 8; d++) {
        if (mask >> d & 1) continue;
        State s = st;
        long r = h;
        ray(&s, e, d, &r);
        if (r == 0) out->push_back({s, 0});
        else squeeze_dfs(s, e, mask | 1 << d, r, seen, out);
    }
}

std::vector<Squeeze> squeeze(const State& st0, int n) {
    std::vector<Squeeze> out;
    long x = 0;
    if (!squeezed(st0, n, &x)) {
        out.push_back({st0, 0});
        return out;
    }
    State st = st0;
    lat::Entry e = st.e[n];
    st.e[n].h -= x;
    st.at(e.i, e.j).s[e.l] -= x;
    std::set<int> seen;
    // directions are independent, so while soil is left the state depends on
    // the set of directions tried only
    squeeze_dfs(st, e, 0, x, &seen, &out);
    // same columns: same result
    std::map<std::pair<lat::Norm, long>, bool> uniq;
    std::vector<Squeeze> res;
    for (auto& o : out)
        if (uniq.insert({{lat::norm(o.st), o.left}, true}).second) res.push_back(o);
    return res;
}

}  // namespace model
