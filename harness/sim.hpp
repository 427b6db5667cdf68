// Shared generators and observers for the soil simulator.
#pragma once
#include <random>
#include <string>
#include <vector>
#include "pbt.hpp"
#include "soil_simulator/body_pos.hpp"
#include "soil_simulator/body_soil.hpp"
#include "soil_simulator/intersecting_cells.hpp"
#include "soil_simulator/relax.hpp"
#include "soil_simulator/soil_dynamics.hpp"
#include "soil_simulator/types.hpp"
#include "soil_simulator/utils.hpp"

namespace ss = soil_simulator;

namespace sim {

constexpr float kTol = 1e-5f;

// ---------------------------------------------------------------- warnings
// Counters of the warnings logged by the simulator since the last reset.
struct Warn {
    int removed = 0;      // "Not all soil intersecting with a body..."
    int to_terrain = 0;   // "Body soil could not be updated"
    int large_move = 0;   // "larger than two cell size"
    int other = 0;
    std::string last;
};
Warn& warn();
void reset_warn();
void init_log();   // installs the sink; called by every generator

// --------------------------------------------------------------- scenarios
struct Pose {
    std::vector<float> pos;
    std::vector<float> ori;
};

enum class BodyKind { bucket, blade };

struct Scene {
    float cell_xy = 0.1f, cell_z = 0.1f;
    int nx = 0, ny = 0, nz = 0;          // half lengths in cells
    double fx = 0, fy = 0, fz = 0;       // grid size beyond nx, ny, nz [cells]
    BodyKind kind = BodyKind::bucket;
    std::vector<float> o, j, b, t;
    float width = 0;
    double radius = 0;                   // around the origin, blade included
    bool scoop = false;                  // digs along a parabola, see gen_scoop
    bool big = false;                    // body of real size: digs from above, a few cells deep
    int max_it = 3, buffer = 4;
    float repose = 0.85f;
    uint32_t seed = 0;
    int terrain_kind = 0;
    double box_x = 0, box_y = 0, box_z = 0;   // reachable box of the origin
    double terr_top = 0;                 // highest terrain [m]

    ss::Grid grid() const;
    ss::SimParam param() const { return ss::SimParam(repose, max_it, buffer); }
    std::string str() const;
};

struct SceneOpt {
    int max_len = 7;          // body length in cells
    int max_box = 6;          // travel of the origin, in cells, each side
    bool small_margin = false;
    int margin = -1;          // free cells between the reach of the body and the border
    int force_kind = -1;      // 0 bucket, 1 blade
    bool planar_only = false;
    bool ratio_one = false;   // cell_z == cell_xy
    int max_ratio = 5;
    bool allow_zero_it = true;
    bool frac_xy = false, frac_z = false;   // grid sizes off the cell lattice
    int big = 0;              // cases of 64 with a body of real size (8 to 24 cells)
    int huge = 0;             // cases of 640 with a body 30 to 150 cells long, wide or high
    int vast = 0;             // cases of 64 with more than 255 cells along an axis
    int scoop = 0;            // cases of 640 that dig as the example of the repository does
    bool loose = false;       // these with soil that hardly comes to rest
};

Scene gen_scene(pbt::Src& s, const SceneOpt& opt = SceneOpt());

// The body behind a common interface.
struct AnyBody {
    BodyKind kind;
    ss::Bucket bucket;
    ss::Blade blade;
    explicit AnyBody(const Scene& sc);
    ss::Body* get() {
        if (kind == BodyKind::bucket) return &bucket;
        return &blade;
    }
    const ss::Body* get() const {
        if (kind == BodyKind::bucket) return &bucket;
        return &blade;
    }
    bool step(ss::SoilDynamics* sim, ss::SimOut* o, const Pose& p,
              const ss::Grid& g, const ss::SimParam& sp) {
        if (kind == BodyKind::bucket)
            return sim->Step(o, p.pos, p.ori, g, &bucket, sp, kTol);
        return sim->Step(o, p.pos, p.ori, g, &blade, sp, kTol);
    }
    void calc_pos(ss::SimOut* o, const Pose& p, const ss::Grid& g,
                  const ss::SimParam& sp) {
        if (kind == BodyKind::bucket)
            ss::CalcBodyPos(o, p.pos, p.ori, g, &bucket, sp, kTol);
        else
            ss::CalcBodyPos(o, p.pos, p.ori, g, &blade, sp, kTol);
    }
};

// Fills terrain_ (lattice aligned).  Uses simulator Init for one family.
void gen_terrain(pbt::Src& s, const Scene& sc, const ss::Grid& g,
                 ss::SimOut* out, double* top);

// Generates a trajectory: consecutive poses move any corner by at most
// max_cells * min(cell_xy, cell_z).
struct TrajOpt {
    int max_segments = 5;
    int max_steps = 14;
    double max_cells = 1.0;
    bool allow_tiny = true;      // also moves below half a cell
    bool start_inside = true;    // may start below the terrain
    int longer = 0;              // cases of 64 with hundreds of steps
};
std::vector<Pose> gen_traj(pbt::Src& s, const Scene& sc, double terr_top,
                           const TrajOpt& opt = TrajOpt());
Pose gen_pose(pbt::Src& s, const Scene& sc, double zlo, double zhi);

std::vector<float> axis_quat(double ax, double ay, double az, double ang);
std::vector<float> qmul(const std::vector<float>& a, const std::vector<float>& b);
// Rotation used by the simulator: conj(q) v q / |q|^2, in double.
void rotate(const std::vector<float>& q, const double v[3], double out[3]);
// Six exact corners (double): j_r, j_l, b_r, b_l, t_r, t_l
struct Corners { double c[6][3]; };
Corners corners(const ss::Body* body, const Pose& p);

// A body of real size that digs along a parabola (a bucket keeps its teeth along it), perhaps
// dumps its load, and perhaps digs again.
Scene gen_scoop_scene(pbt::Src& s, bool loose);
std::vector<Pose> gen_scoop(pbt::Src& s, const Scene& sc, double top);

// A simulation about to start: scene, terrain and trajectory.
struct World {
    Scene sc;
    ss::Grid g;
    ss::SimParam sp;
    ss::SimOut o;
    AnyBody body;
    ss::SoilDynamics dyn;
    double top = 0;
    std::vector<Pose> traj;
    World(pbt::Src& s, const SceneOpt& so, const TrajOpt& to);
    // Performs step k, warnings are reset before.
    bool step(size_t k) {
        reset_warn();
        return body.step(&dyn, &o, traj[k], g, sp);
    }
    std::string str() const;

 private:
    World(pbt::Src& s, const Scene& scene, const TrajOpt& to);
};

// --------------------------------------------------------------- observers
inline bool body_at(const ss::SimOut& o, int l, int i, int j) {
    return o.body_[l][i][j] != 0.0f || o.body_[l + 1][i][j] != 0.0f;
}
inline bool soil_at(const ss::SimOut& o, int l, int i, int j) {
    return o.body_soil_[l][i][j] != 0.0f || o.body_soil_[l + 1][i][j] != 0.0f;
}
// Total soil in cells (exact integer when on the lattice) over the whole grid.
double total_cells(const ss::SimOut& o, const ss::Grid& g);
double terrain_cells(const ss::SimOut& o, const ss::Grid& g);
double body_soil_cells(const ss::SimOut& o, const ss::Grid& g);
// Largest distance of any height to the lattice, in cells.
double off_lattice(const ss::SimOut& o, const ss::Grid& g);
// Returns an empty string when the physical conventions hold on every cell.
std::string physical(const ss::SimOut& o, const ss::Grid& g);
// Ledger: body_soil_pos_ heights per column equal the columns.
std::string ledger(const ss::SimOut& o, const ss::Grid& g);

// The same with every height rounded to whole cells.
long total_int(const ss::SimOut& o, const ss::Grid& g);

std::string fmt(const std::vector<float>& v);
std::string cell_str(const ss::SimOut& o, int i, int j);

struct Snapshot {
    std::vector<std::vector<float>> terrain;
    std::vector<std::vector<std::vector<float>>> body, body_soil;
    std::vector<ss::body_soil> pos;
    int area[3][2][2];
    bool eq;
    explicit Snapshot(const ss::SimOut& o);
    bool same(const ss::SimOut& o) const;
};

}  // namespace sim
