// Reference models of the soil movement rules, on whole-cell states.
#pragma once
#include <map>
#include <set>
#include <vector>
#include "lattice.hpp"

namespace model {
using lat::Cell;
using lat::State;

// Where the soil leaving a column towards a neighbour would end.
struct Recv {
    bool unstable = false;
    int layer = -1;       // -1: terrain, else the layer of the receiving wall
    long top = 0;         // height of the receiver
    long room = -1;       // space available, -1: unlimited
    int status = 0;       // code documented in relax.cpp
};
// Soil on the terrain: neighbour c, lowest height allowed hmin.
Recv terrain_recv(const Cell& c, long hmin);
// Soil on a wall whose top is hb.
Recv body_recv(const Cell& c, long hb, long hmin);

// Amount leaving a source of height S towards r, D the height difference kept.
long amount(long S, long D, const Recv& r);

// Performs the avalanche when the pair is unstable; returns true if it is.
bool relax_terrain(State* st, int i, int j, int ic, int jc, long D);
// Entry n of the state is the source.  New entries go to added.
bool relax_body(State* st, int n, int ic, int jc, long D,
                std::vector<lat::Entry>* added);

// Is some pair of cells unstable?
bool terrain_candidate(const State& st, int i, int j, long D);
bool any_unstable_terrain(const State& st, long D, int i0, int i1, int j0, int j1,
                          std::string* where);
bool any_unstable_body(const State& st, long D, std::string* where);

// Space below the lowest wall, -1 when there is no wall.
long room_below(const Cell& c);
inline bool has_wall(const Cell& c) { return c.b[0] || c.b[1]; }
inline long lowest(const Cell& c) {
    if (c.b[0] && c.b[1]) return std::min(c.lo[0], c.lo[1]);
    return c.b[0] ? c.lo[0] : c.lo[1];
}

// All results of pushing the terrain of one cell down to a level.
std::map<lat::Norm, State> push_terrain(const State& st, int i, int j, long level);

// All results of moving the excess of entry n (soil in the upper wall).
// removed: true when some order leaves soil that cannot be placed.
struct Squeeze {
    State st;
    long left;
};
std::vector<Squeeze> squeeze(const State& st, int n);
bool squeezed(const State& st, int n, long* excess);
// One step of MoveBodySoil from wall (pl, pi, pj) to cell (i, j).
struct Move {
    int l, i, j;
    long h;
    bool wall;
};
Move move_body_soil(State* st, int pl, int pi, int pj, long max_h, int i, int j,
                    long h, bool wall);

extern const int kDir8[8][2];
extern const int kDir4[4][2];

long floor2(long v);   // floor(v / 2)

}  // namespace model
