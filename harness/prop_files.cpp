// C18: the result files.  Everything happens in the scratch folder of the
// worker: the simulator is compiled so that it writes in ./results.
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include "lattice.hpp"

namespace {
namespace fs = std::filesystem;

typedef std::map<std::string, std::string> Files;

std::string slurp(const fs::path& p) {
    std::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}

// Files that are links to the file with the number `same` are not read.
Files listing(ino_t same = 0) {
    Files out;
    for (auto& e : fs::directory_iterator("results")) {
        struct stat st;
        bool known = same != 0 && stat(e.path().c_str(), &st) == 0 && st.st_ino == same;
        out[e.path().filename().string()] = known ? "known" : slurp(e.path());
    }
    return out;
}

void clear() {
    PBT_CHECK(fs::is_directory("results") && fs::is_directory("soil_simulator"),
              "not in a scratch folder");
    for (auto& e : fs::directory_iterator("results"))
        if (e.path().extension() == ".csv") fs::remove(e.path());
}

typedef std::array<double, 3> Row;

std::vector<Row> parse(const std::string& name, const std::string& text) {
    std::istringstream in(text);
    std::string line;
    PBT_CHECK(std::getline(in, line) && line == "x,y,z", name, " starts with '", line, "'");
    PBT_CHECK(text.back() == '\n', name, " is cut");
    std::vector<Row> out;
    while (std::getline(in, line)) {
        Row r;
        int used = 0;
        PBT_CHECK(std::sscanf(line.c_str(), "%lf,%lf,%lf%n", &r[0], &r[1], &r[2], &used) == 3 &&
                      used == static_cast<int>(line.size()), name, " has the line '", line, "'");
        out.push_back(r);
    }
    return out;
}

// Six significant digits are written.
bool near(double a, double b) { return std::fabs(a - b) <= 6e-6 * std::fabs(b) + 1e-12; }

void check_rows(const std::string& name, std::vector<Row> got, std::vector<Row> want) {
    PBT_CHECK(got.size() == want.size(), name, " has ", got.size(), " lines instead of ", want.size());
    // any order
    auto less = [](const Row& a, const Row& b) {
        for (int k = 0; k < 3; k++)
            if (!near(a[k], b[k])) return a[k] < b[k];
        return false;
    };
    std::sort(got.begin(), got.end(), less);
    std::sort(want.begin(), want.end(), less);
    for (size_t k = 0; k < got.size(); k++)
        for (int d = 0; d < 3; d++)
            PBT_CHECK(near(got[k][d], want[k][d]), name, " has (", got[k][0], ",", got[k][1], ",",
                      got[k][2], ") instead of (", want[k][0], ",", want[k][1], ",", want[k][2], ")");
}

bool number(const std::string& name, const std::string& stem, int* n) {
    if (name.size() != stem.size() + 10 || name.compare(0, stem.size() + 1, stem + "_") != 0 ||
        name.substr(name.size() - 4) != ".csv")
        return false;
    std::string d = name.substr(stem.size() + 1, 5);
    if (d.find_first_not_of("0123456789") != std::string::npos) return false;
    *n = std::stoi(d);
    return true;
}

// Checks one set of files written for `o` and returns the number of soil lines.
int check_written(const Files& was, const ss::SimOut& o, const ss::Grid& g, const ss::Body* body,
                  bool blade, pbt::Ctx* ctx, bool soil, bool corners, ino_t same = 0) {
    Files now = listing(same);
    std::map<std::string, std::pair<int, std::string>> fresh;
    for (auto& [name, text] : was)
        PBT_CHECK(now.count(name) && now[name] == text, "the existing file ", name, " was changed");
    for (auto& [name, text] : now) {
        if (was.count(name)) continue;
        int n;
        std::string stem = number(name, "terrain", &n) ? "terrain"
                           : number(name, "body_soil", &n) ? "body_soil"
                           : number(name, "bucket", &n) ? "bucket"
                           : number(name, "blade", &n) ? "blade" : "";
        PBT_CHECK(!stem.empty() && !fresh.count(stem), "unexpected file ", name);
        fresh[stem] = {n, text};
    }
    size_t want = (soil ? 2 : 0) + (corners ? 1 : 0);
    PBT_CHECK(fresh.size() == want, fresh.size(), " new files instead of ", want);
    int lines = 0;
    if (soil) {
        PBT_CHECK(fresh.count("terrain") && fresh.count("body_soil"), "terrain or body soil file missing");
        PBT_CHECK(fresh["terrain"].first == fresh["body_soil"].first, "terrain ", fresh["terrain"].first,
                  " goes with body soil ", fresh["body_soil"].first);
        int X = o.terrain_.size(), Y = o.terrain_[0].size();
        std::vector<Row> T, S, Z;
        for (int i = 0; i < X; i++)
            for (int j = 0; j < Y; j++) {
                // positions from the cell sizes, as far as single precision goes
                T.push_back({g.vect_x_[i], g.vect_y_[j], o.terrain_[i][j]});
                for (int l = 0; l < 2; l++)
                    if (sim::soil_at(o, 2 * l, i, j)) {
                        Row r = {g.vect_x_[i], g.vect_y_[j], o.body_soil_[2 * l + 1][i][j]};
                        (o.body_soil_[2 * l + 1][i][j] - o.body_soil_[2 * l][i][j] >
                         0.01 * g.cell_size_z_ ? S : Z).push_back(r);
                    }
            }
        check_rows("the terrain file", parse("the terrain file", fresh["terrain"].second), T);
        auto rows = parse("the body soil file", fresh["body_soil"].second);
        lines = S.size();
        Row dummy = {g.vect_x_[0], g.vect_y_[0], g.vect_z_[0]};
        if (S.empty() && rows.size() <= 1) {
            // a dummy position when there is no soil: viewers refuse empty tables
            PBT_CHECK(rows.size() == 1 || !o.body_soil_pos_.empty(),
                      "the body soil file has no line at all");
            if (rows.size() == 1 && Z.empty())
                for (int d = 0; d < 3; d++)
                    PBT_CHECK(near(rows[0][d], dummy[d]), "the body soil file has a line without soil");
        } else {
            // columns without height may be there
            if (rows.size() == S.size() + Z.size()) S.insert(S.end(), Z.begin(), Z.end());
            check_rows("the body soil file", rows, S);
        }
    }
    if (corners) {
        const char* stem = blade ? "blade" : "bucket";
        PBT_CHECK(fresh.count(stem), "no ", stem, " file");
        auto rows = parse(stem, fresh[stem].second);
        sim::Pose p{body->pos_, body->ori_};
        sim::Corners c = sim::corners(body, p);
        enum { JR, JL, BR, BL, TR, TL };
        // face by face
        std::vector<std::vector<int>> faces =
            blade ? std::vector<std::vector<int>>{{BR, BL, JL, JR}, {JR, JL, TL, TR}}
                  : std::vector<std::vector<int>>{{BR, TR, JR}, {JR, JL, BL, BR}, {BR, TR, TL, BL}, {BL, TL, JL}};
        size_t n = 0;
        for (auto& f : faces) n += f.size();
        PBT_CHECK(rows.size() == n, "the ", stem, " file has ", rows.size(), " lines instead of ", n);
        size_t at = 0;
        double scale = 0;
        for (auto& q : c.c) for (double v : q) scale = std::max(scale, std::fabs(v));
        for (auto& f : faces)
            for (int k : f) {
                for (int d = 0; d < 3; d++)
                    PBT_CHECK(std::fabs(rows[at][d] - c.c[k][d]) <= 1e-4 * scale, "line ", at + 1, " of the ", stem,
                              " file is (", rows[at][0], ",", rows[at][1], ",", rows[at][2],
                              ") instead of the corner (", c.c[k][0], ",", c.c[k][1], ",", c.c[k][2], ")");
                at++;
            }
    }
    (void)ctx;
    return lines;
}

void leave_files(pbt::Src& s) {
    // left by earlier runs, possibly in part
    for (int n = s.range(0, 5); n > 0; n--) {
        const char* stem = s.pick({"terrain", "body_soil", "bucket", "blade", "other"});
        char name[64];
        std::snprintf(name, sizeof name, "results/%s_%05d.csv", stem, s.range(0, 3));
        std::ofstream f(name);
        if (!s.chance(1, 3)) f << "left " << n << "\n";   // or empty
    }
    if (s.chance(1, 3)) {
        int n = s.pick({1, 2, 10, 11, 1, 2, 3, 4, 5, s.chance(1, 20) ? 100 : 3});
        bool b = s.chance(1, 2), empty = s.chance(1, 4);
        for (int k = 0; k < n; k++)
            for (const char* stem : {"terrain", "body_soil", b ? "bucket" : "blade"}) {
                char name[64];
                std::snprintf(name, sizeof name, "results/%s_%05d.csv", stem, k);
                std::ofstream f(name);
                if (!empty) f << "run " << k << "\n";
            }
    }
}

void any(pbt::Src& s, pbt::Ctx& ctx) {
    clear();
    lat::GenOpt go;
    go.half_min = 1;
    go.half_max = 5;
    go.margin = 0;
    go.penetrate_soil = s.chance(1, 4);
    go.soil = s.chance(4, 5);
    go.narrow = true;
    lat::widen(s, &go);
    lat::Bench b = lat::gen_bench(s, go);
    lat::State st = lat::gen_state(s, b, go);
    lat::lift(s, b, &st);
    lat::Run r(st, b);
    leave_files(s);
    bool blade = s.chance(1, 2);
    std::vector<float> o{0, 0, 0};
    std::vector<float> j(3), bb(3), t(3);
    for (auto* v : {&j, &bb, &t})
        for (float& x : *v) x = static_cast<float>(s.sreal(1, 64));
    sim::Pose p{b.pos, b.ori};
    float width = static_cast<float>(s.real(0.1, 2, 64));
    std::unique_ptr<ss::Bucket> bu;
    std::unique_ptr<ss::Blade> bl;
    {   // a proper triangle
        double a[3], c[3];
        for (int d = 0; d < 3; d++) a[d] = bb[d] - j[d], c[d] = t[d] - j[d];
        double x = a[1] * c[2] - a[2] * c[1], y = a[2] * c[0] - a[0] * c[2], z = a[0] * c[1] - a[1] * c[0];
        if (x * x + y * y + z * z < 0.01) j = {0, 0, 0}, bb = {0, 0, -0.5}, t = {0.7f, 0, -0.5};
    }
    ss::Body* body;
    if (blade) body = (bl = std::make_unique<ss::Blade>(o, j, bb, t, width)).get();
    else body = (bu = std::make_unique<ss::Bucket>(o, j, bb, t, width)).get();
    body->pos_ = p.pos;
    body->ori_ = p.ori;
    ctx.desc << b.str() << " " << st.str() << (blade ? " blade " : " bucket ") << sim::fmt(j)
             << sim::fmt(bb) << sim::fmt(t) << width << " files:";
    Files was = listing();
    size_t files = was.size();
    for (auto& f : was) ctx.desc << " " << f.first;
    lat::State before = lat::from_sim(r.o, r.g);
    int n = s.range(1, 3), lines = 0;
    for (int k = 0; k < n; k++) {
        bool soil = true, corners = true;
        ss::SimOut copy = r.o;
        switch (s.weighted({3, 1, 1})) {
            case 0: {
                ss::SoilDynamics dyn;
                if (blade) dyn.WriteOutputs(&r.o, r.g, bl.get());
                else dyn.WriteOutputs(&r.o, r.g, bu.get());
                break;
            }
            case 1:
                corners = false;
                ss::WriteSoil(&r.o, r.g);
                break;
            default:
                soil = false;
                if (blade) ss::WriteBody(bl.get());
                else ss::WriteBody(bu.get());
        }
        lines += check_written(was, r.o, r.g, body, blade, &ctx, soil, corners);
        PBT_CHECK(sim::Snapshot(copy).same(r.o), "writing changed the state");
        was = listing();
    }
    if (lines) ctx.label("with soil on the body");
    ctx.nontrivial = lines > 0 || files > 0;
    clear();
}
const pbt::Register r1("C18.any", any);

void real(pbt::Src& s, pbt::Ctx& ctx) {
    clear();
    sim::SceneOpt so;
    so.vast = 1;
    so.scoop = 2;
    so.max_len = 5;
    so.max_box = 4;
    sim::TrajOpt to;
    to.max_segments = 3;
    to.max_steps = 6;
    sim::World w(s, so, to);
    ctx.desc << w.str();
    int written = 0, lines = 0;
    Files was = listing();
    for (size_t k = 0; k < w.traj.size(); k++) {
        w.step(k);
        if (!s.chance(1, 4) && k + 1 < w.traj.size()) continue;
        bool blade = w.body.kind == sim::BodyKind::blade;
        if (blade) w.dyn.WriteOutputs(&w.o, w.g, &w.body.blade);
        else w.dyn.WriteOutputs(&w.o, w.g, &w.body.bucket);
        lines += check_written(was, w.o, w.g, w.body.get(), blade, &ctx, true, true);
        was = listing();
        written++;
    }
    ctx.label("sets of files", written);
    if (lines) ctx.label("lines of soil on the body", lines);
    ctx.nontrivial = lines > 0;
    clear();
}
const pbt::Register r2("C18.real", real);

// Many results are there already: up to the last number of five digits but a few.
void full(pbt::Src& s, pbt::Ctx& ctx) {
    clear();
    sim::init_log();
    const std::string text = "result of an earlier run\n";
    const char* base = "results/base.csv";
    std::ofstream(base) << text;
    struct stat st;
    PBT_CHECK(stat(base, &st) == 0, "no scratch folder");
    int big = s.weighted({30, 30, 20, 6, 1, 1});
    int N = std::vector<int>{100, 256, 1000, 10000, 32768, 65536}[big] + s.sint(2);
    if (big > 3 && s.chance(1, 3)) N = 99990;
    bool blade = s.chance(1, 2);
    int none = s.weighted({4, 1, 1, 1});
    long links = 0;
    auto fill = [&](const char* stem, int n) {
        for (int k = 0; k < n; k++) {
            char name[64];
            std::snprintf(name, sizeof name, "results/%s_%05d.csv", stem, k);
            if (link(base, name) == 0) {
                links++;
            } else {
                std::ofstream(name) << text;    // as many links as the system allows
            }
        }
    };
    fill("terrain", none == 1 ? 0 : N);
    fill("body_soil", none == 2 ? s.range(0, 3) : N);
    fill(blade ? "blade" : "bucket", none == 3 ? 0 : N);
    float cell = 0.1f;
    ss::Grid g(0.3f, 0.2f, 0.5f, cell, cell);
    ss::SimOut o(g);
    for (auto& r : o.terrain_)
        for (float& v : r) v = cell * s.sint(4);
    ss::Bucket bu({0, 0, 0}, {0, 0, 0}, {0, 0, -0.2f}, {0.2f, 0, -0.2f}, 0.2f);
    ss::Blade bl({0, 0, 0}, {0, 0, 0}, {0, 0, -0.2f}, {0.2f, 0, -0.2f}, 0.2f);
    ss::Body* body = blade ? static_cast<ss::Body*>(&bl) : &bu;
    body->ori_ = {1, 0, 0, 0};
    ctx.desc << N << " results of each kind" << (blade ? ", blade" : ", bucket") << ", except kind " << none;
    int n = s.range(1, 3);
    Files was = listing(st.st_ino);
    ss::SoilDynamics dyn;
    for (int k = 0; k < n; k++) {
        if (blade) dyn.WriteOutputs(&o, g, &bl);
        else dyn.WriteOutputs(&o, g, &bu);
        check_written(was, o, g, body, blade, &ctx, true, true, st.st_ino);
        struct stat now;
        PBT_CHECK(stat(base, &now) == 0 && static_cast<long>(now.st_nlink) == links + 1 && slurp(base) == text,
                  "one of the existing files was changed");
        if (k + 1 < n) was = listing(st.st_ino);
    }
    if (N > 9000) ctx.label("more than 9000 files of a kind");
    ctx.nontrivial = true;
    clear();
}
const pbt::Register r3("C18.full", full);

}  // namespace
