// Integer-lattice states: every height is a whole number of cells.
// Used to reach every local configuration of walls, soil and terrain and to
// run exact reference models of the soil movement rules.
#pragma once
#include <map>
#include <string>
#include <tuple>
#include <vector>
#include "sim.hpp"

namespace lat {

struct Cell {
    long T = 0;                 // terrain
    bool b[2] = {false, false};  // wall present on layer 1 / 2
    long lo[2] = {0, 0}, hi[2] = {0, 0};
    long s[2] = {0, 0};         // soil height resting on the wall (0: none)
    bool operator==(const Cell&) const = default;
    bool operator<(const Cell& o) const;
    int bot() const {           // lower wall when both are present
        return lo[0] < lo[1] ? 0 : 1;
    }
    std::string str() const;
};

struct Entry {
    int l, i, j;
    long h;
    bool operator==(const Entry&) const = default;
};

struct State {
    int X = 0, Y = 0;           // grid size, 2*half+1
    std::vector<Cell> c;
    std::vector<Entry> e;
    Cell& at(int i, int j) { return c[i * Y + j]; }
    const Cell& at(int i, int j) const { return c[i * Y + j]; }
    long total() const;
    std::string str(int i0 = -1, int i1 = -1, int j0 = -1, int j1 = -1) const;
};

// What a state looks like when zero-height entries and layers are ignored and
// the entries of a column are summed.
struct Norm {
    std::vector<Cell> c;
    bool operator==(const Norm&) const = default;
    bool operator<(const Norm& o) const { return c < o.c; }
};

struct Bench {                  // grid and body that go with a state
    float cell_xy = 0.1f, cell_z = 0.1f;
    int nx = 5, ny = 5, nz = 20;
    std::vector<float> pos{0, 0, 0}, ori{1, 0, 0, 0};
    ss::Grid grid() const {
        return ss::Grid(nx * cell_xy, ny * cell_xy, nz * cell_z, cell_xy, cell_z);
    }
    std::string str() const;
};

struct GenOpt {
    int half_min = 3, half_max = 4;
    int body_pct = 60;          // percentage of cells with a wall
    int margin = 1;             // cells without wall along the border
    bool soil = true;
    bool penetrate_terrain = false;   // terrain may enter walls
    bool penetrate_soil = false;      // soil may enter the upper wall
    int tlo = -3, thi = 4;      // terrain range
    int max_soil = 5;
    int max_gap = 4;
    int max_thick = 3;          // walls
    bool narrow = false;        // rarely a long and narrow grid
};

// Rarely makes the walls, gaps and heights several times larger; the factor.
int widen(pbt::Src& s, GenOpt* opt);
// Rarely moves a whole state up or down by as many cells as returned: nothing
// but the heights may depend on it.
long lift(pbt::Src& s, const Bench& b, State* st);
Bench gen_bench(pbt::Src& s, const GenOpt& opt);
Cell gen_cell(pbt::Src& s, const GenOpt& opt, bool walls);
// The body soil columns of the state are split in entries.
State gen_state(pbt::Src& s, const Bench& b, const GenOpt& opt);
void gen_entries(pbt::Src& s, State* st);

void to_sim(const State& st, const Bench& b, const ss::Grid& g, ss::SimOut* o);
// Reads a state back.  Throws pbt::Fail when a height is off the lattice.
State from_sim(const ss::SimOut& o, const ss::Grid& g);
Norm norm(const State& st);
std::string diff(const Norm& a, const Norm& b, int Y);
// Entry sums equal the columns?
std::string ledger(const State& st);
std::string valid(const State& st);
void set_area(int a[2][2], int i0, int i1, int j0, int j1);

}  // namespace lat

namespace lat {
// The recorded body-frame position of every entry is its cell: empty if so.
std::string entry_positions(const ss::SimOut& o, const ss::Grid& g, const Bench& b);
// Repose angle whose height difference is D cells.
float repose_for(const Bench& b, long D, double frac = 0);
// The body standing for the bench pose.
ss::Bucket bench_body(const Bench& b);
// state -> simulator -> f -> state
struct Run {
    ss::Grid g;
    ss::SimOut o;
    ss::Bucket body;
    Run(const State& st, const Bench& b);
};
}  // namespace lat
