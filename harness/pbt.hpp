// Small tape-based property-based-testing engine.
//
// A test case is a tape of bounded integer choices.  Generating draws fresh
// choices from a PRNG seeded by (seed, property, index); replaying reads them
// back from a file; shrinking edits the tape (delete chunks, zero, halve,
// decrement) and re-runs the property in a forked child.  0 is always the
// simplest value of a choice, and reading past the end of a tape yields 0, so
// every edited tape decodes to a valid case.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt {

struct Fail : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Discard {};

struct SharedTape;  // memory shared with the parent, survives a crash

class Src {
 public:
    explicit Src(uint64_t seed);                       // generating
    explicit Src(const std::vector<uint32_t>& tape);   // replaying
    // Uniform in [0, n).
    uint32_t draw(uint32_t n);
    // Uniform in [lo, hi].
    int range(int lo, int hi) {
        return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1)));
    }
    // True with probability num/den; false is the simplest value.
    bool chance(uint32_t num, uint32_t den) {
        return draw(den) >= den - num;
    }
    // Value in [lo, hi] with a resolution of 1/steps; lo is the simplest.
    double real(double lo, double hi, uint32_t steps = 4096) {
        return lo + (hi - lo) * draw(steps + 1) / steps;
    }
    // Symmetric real in [-m, m]; 0 is the simplest.
    double sreal(double m, uint32_t steps = 2048) {
        uint32_t v = draw(2 * steps + 1);
        double mag = m * ((v + 1) / 2) / steps;
        return (v & 1) ? -mag : mag;
    }
    // Symmetric integer in [-m, m]; 0 is the simplest.
    int sint(int m) {
        uint32_t v = draw(static_cast<uint32_t>(2 * m + 1));
        int mag = static_cast<int>((v + 1) / 2);
        return (v & 1) ? -mag : mag;
    }
    // Index drawn with the given weights.
    int weighted(std::initializer_list<int> w);
    template <typename T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + draw(static_cast<uint32_t>(l.size())));
    }
    const std::vector<uint32_t>& tape() const { return tape_; }

 private:
    uint64_t next();
    bool replay_;
    uint64_t s_;
    size_t pos_ = 0;
    std::vector<uint32_t> in_;
    std::vector<uint32_t> tape_;
};

class Ctx {
 public:
    bool nontrivial = false;
    bool verbose = false;               // replay: print as we go
    std::map<std::string, int> labels;
    std::map<std::string, double> maxima;
    std::ostringstream desc;            // human readable description
    std::vector<std::pair<std::string, std::string>> known;
    void label(const std::string& l, int n = 1) { labels[l] += n; }
    void maxi(const std::string& k, double v) {
        auto it = maxima.find(k);
        if (it == maxima.end() || it->second < v) maxima[k] = v;
    }
};

using PropFn = std::function<void(Src&, Ctx&)>;
struct Prop {
    std::string name;
    PropFn fn;
    double cpu_limit;   // seconds of CPU time per case, then it is a hang
};
std::vector<Prop>& registry();
struct Register {
    Register(const std::string& name, PropFn fn, double cpu_limit = 30) {
        registry().push_back({name, fn, cpu_limit});
    }
};

template <typename... A>
[[noreturn]] void fail(A&&... a) {
    std::ostringstream o;
    o.precision(9);
    (o << ... << a);
    throw Fail(o.str());
}
#define PBT_CHECK(cond, ...) \
    do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

int main_impl(int argc, char** argv);

}  // namespace pbt
