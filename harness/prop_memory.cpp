// C19: every allocation of a simulation is given back.
#include <cstdlib>
#include <memory>
#include <new>
#include "sim.hpp"

static long g_live = 0;
void* operator new(size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    g_live++;
    return p;
}
void operator delete(void* p) noexcept {
    if (p) g_live--;
    std::free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace {

// A simulation gives back all the memory it used.
void memory(pbt::Src& s, pbt::Ctx& ctx) {
    sim::SceneOpt so;
    so.max_len = 5;
    so.max_box = 3;
    sim::TrajOpt to;
    to.max_segments = 3;
    to.max_steps = 6;
    sim::World w(s, so, to);
    ctx.desc << w.str();
    long used[3];
    int ups = 0;
    bool loaded = false;
    long vol = sim::total_int(w.o, w.g);
    for (long& u : used) {
        ss::rng.seed(w.sc.seed);
        {
            auto o = std::make_unique<ss::SimOut>(w.o);
            sim::AnyBody b = w.body;
            ss::SoilDynamics d;
            ups = 0;
            for (auto& p : w.traj) ups += b.step(&d, o.get(), p, w.g, w.sp);
            d.Check(o.get(), static_cast<int>(vol), w.g, sim::kTol);
            loaded = !o->body_soil_pos_.empty();
        }
        sim::warn().last.clear();
        sim::warn().last.shrink_to_fit();
        u = g_live;
    }
    PBT_CHECK(used[2] <= used[1], "the same simulation run again keeps ", used[2] - used[1],
              " more allocations");
    ctx.label("steps", ups);
    if (loaded) ctx.label("soil on the body");
    ctx.nontrivial = ups >= 2;
}
const pbt::Register r3("C19.memory", memory);

}  // namespace
