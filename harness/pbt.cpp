#include "pbt.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>

namespace pbt {

std::vector<Prop>& registry() {
    static std::vector<Prop> r;
    return r;
}

struct SharedTape {
    int64_t index;
    uint32_t n;
    uint32_t data[1 << 20];
};
static SharedTape* g_shared = nullptr;

static uint64_t splitmix(uint64_t* s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

Src::Src(uint64_t seed) : replay_(false), s_(seed) {}
Src::Src(const std::vector<uint32_t>& tape)
    : replay_(true), s_(0), in_(tape) {}
uint64_t Src::next() { return splitmix(&s_); }

uint32_t Src::draw(uint32_t n) {
    if (n == 0) throw std::logic_error("draw(0)");
    uint32_t v;
    if (replay_) {
        v = pos_ < in_.size() ? in_[pos_] : 0;
        if (v >= n) v = n - 1;
    } else {
        v = static_cast<uint32_t>((next() >> 11) % n);
    }
    pos_++;
    tape_.push_back(v);
    if (g_shared && g_shared->n < (1u << 20))
        g_shared->data[g_shared->n++] = v;
    return v;
}

int Src::weighted(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w) tot += x;
    int v = static_cast<int>(draw(static_cast<uint32_t>(tot)));
    int i = 0;
    for (int x : w) {
        if (v < x) return i;
        v -= x;
        i++;
    }
    return 0;
}

static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}

// C19.X runs the property X and only watches for crashes, hangs, exceptions
// and sanitizer reports: the verdict of X is left to the check of X.
static bool g_safe = false;

static const Prop& find(const std::string& name) {
    for (auto& p : registry())
        if (p.name == name) return p;
    for (auto& p : registry())
        if ("C19." + p.name == name) {
            g_safe = true;
            return p;
        }
    std::cerr << "no such property " << name << "\n";
    _exit(2);
}

static void on_vtalrm(int) {
    static const char m[] = "PBT-HANG: CPU-time limit of the case exceeded\n";
    ssize_t r = write(2, m, sizeof(m) - 1);
    (void)r;
    _exit(77);
}

static void arm(double s) {
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = static_cast<time_t>(s);
    it.it_value.tv_usec = static_cast<suseconds_t>((s - floor(s)) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// 0 pass, 1 fail, 3 discard
static int run_one(const Prop& p, Src& src, Ctx& ctx, std::string* msg) {
    arm(p.cpu_limit);
    int rc = 0;
    try {
        p.fn(src, ctx);
    } catch (const Fail& f) {
        *msg = f.what();
        rc = g_safe ? 0 : 1;
    } catch (const Discard&) {
        rc = 3;
    } catch (const std::exception& e) {
        *msg = std::string("unexpected exception: ") + e.what();
        rc = 1;
    }
    arm(0);
    return rc;
}

static std::string esc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (static_cast<unsigned char>(c) < 32) o += ' ';
        else o += c;
    }
    return o;
}

static std::vector<uint32_t> read_tape(const std::string& f) {
    std::ifstream in(f);
    std::vector<uint32_t> t;
    std::string tok;
    while (in >> tok) {
        if (tok[0] == '#') { std::getline(in, tok); continue; }
        t.push_back(static_cast<uint32_t>(std::stoul(tok)));
    }
    return t;
}
static void write_tape(const std::string& f, const std::vector<uint32_t>& t) {
    std::ofstream o(f);
    for (size_t i = 0; i < t.size(); i++)
        o << t[i] << ((i % 20 == 19) ? "\n" : " ");
    o << "\n";
}

static uint64_t case_seed(uint64_t seed, const std::string& name, uint64_t idx) {
    uint64_t h = fnv(name.data(), name.size());
    uint64_t s = h ^ (seed * 0x9E3779B97F4A7C15ull) ^ (idx * 0xD1B54A32D192ED03ull);
    splitmix(&s);
    return splitmix(&s);
}

static int cmd_run(const std::string& name, uint64_t seed, int64_t start,
                   int64_t end, int64_t stride, const std::string& out) {
    const Prop& p = find(name);
    int fd = open((out + ".shm").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(SharedTape)) != 0) return 2;
    g_shared = static_cast<SharedTape*>(mmap(
        nullptr, sizeof(SharedTape), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (g_shared == MAP_FAILED) return 2;
    int64_t evals = 0, discards = 0, nontriv = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, int64_t> labels, caselabels;
    std::map<std::string, double> maxima;
    std::map<std::string, std::pair<int64_t, std::string>> known;
    std::vector<std::string> samples;
    int rc = 0;
    for (int64_t i = start; i < end; i += stride) {
        g_shared->index = i;
        g_shared->n = 0;
        Src src(case_seed(seed, name, static_cast<uint64_t>(i)));
        Ctx ctx;
        std::string msg;
        int r = run_one(p, src, ctx, &msg);
        if (r == 3) { discards++; continue; }
        evals++;
        if (r == 1) {
            write_tape(out + ".fail", src.tape());
            std::ofstream m(out + ".failmsg");
            m << i << "\n" << msg << "\n";
            rc = 1;
            break;
        }
        for (auto& l : ctx.labels) {
            labels[l.first] += l.second;
            caselabels[l.first] += 1;
        }
        for (auto& l : ctx.maxima) {
            auto it = maxima.find(l.first);
            if (it == maxima.end() || it->second < l.second)
                maxima[l.first] = l.second;
        }
        for (auto& k : ctx.known) {
            auto& e = known[k.first];
            if (e.first++ == 0) e.second = k.second;
        }
        if (ctx.nontrivial) {
            nontriv++;
            auto& t = src.tape();
            hashes.insert(fnv(t.data(), t.size() * sizeof(uint32_t)));
            if (samples.size() < 2 || (samples.size() < 3 && i > end / 2)) {
                std::ostringstream s;
                s << "index " << i << ": " << ctx.desc.str();
                std::string d = s.str();
                if (d.size() > 1500) d = d.substr(0, 1500) + "...";
                samples.push_back(d);
            }
        }
    }
    std::ofstream js(out + ".json");
    js << "{\"evaluations\":" << evals << ",\"discards\":" << discards
       << ",\"nontrivial\":" << nontriv << ",\"labels\":{";
    bool first = true;
    for (auto& l : labels) {
        js << (first ? "" : ",") << "\"" << esc(l.first) << "\":["
           << l.second << "," << caselabels[l.first] << "]";
        first = false;
    }
    js << "},\"maxima\":{";
    first = true;
    for (auto& l : maxima) {
        if (!std::isfinite(l.second)) continue;
        js << (first ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second;
        first = false;
    }
    js << "},\"known\":{";
    first = true;
    for (auto& k : known) {
        js << (first ? "" : ",") << "\"" << esc(k.first) << "\":["
           << k.second.first << ",\"" << esc(k.second.second) << "\"]";
        first = false;
    }
    js << "},\"samples\":[";
    first = true;
    for (auto& s : samples) {
        js << (first ? "" : ",") << "\"" << esc(s) << "\"";
        first = false;
    }
    js << "]}\n";
    js.close();
    std::ofstream hs(out + ".hash", std::ios::binary);
    for (uint64_t h : hashes) hs.write(reinterpret_cast<char*>(&h), 8);
    return rc;
}

static int cmd_replay(const std::string& name, const std::string& tape, bool quiet) {
    const Prop& p = find(name);
    Src src(read_tape(tape));
    Ctx ctx;
    ctx.verbose = !quiet;
    std::string msg;
    int r = run_one(p, src, ctx, &msg);
    if (!quiet) {
        std::cout << "case: " << ctx.desc.str() << "\n";
        for (auto& l : ctx.labels)
            std::cout << "label " << l.first << " = " << l.second << "\n";
        for (auto& k : ctx.known)
            std::cout << "known " << k.first << ": " << k.second << "\n";
        if (r == 1) std::cout << "FAIL: " << msg << "\n";
        else if (r == 3) std::cout << "DISCARD\n";
        else std::cout << "PASS\n";
    }
    std::cout.flush();
    _exit(r);
}

// Runs a candidate in a child: 0 pass/discard, 1 fail (crash and hang count).
static bool fails(const Prop& p, const std::vector<uint32_t>& t,
                  std::vector<uint32_t>* used) {
    static SharedTape* sh = nullptr;
    if (!sh) sh = static_cast<SharedTape*>(mmap(
        nullptr, sizeof(SharedTape), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    sh->n = 0;
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        dup2(dn, 2);
        g_shared = sh;
        Src src(t);
        Ctx ctx;
        std::string msg;
        int r = run_one(p, src, ctx, &msg);
        _exit(r);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    bool bad = !(WIFEXITED(st) &&
                 (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3));
    if (bad) used->assign(sh->data, sh->data + sh->n);
    return bad;
}

static bool less(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static int cmd_shrink(const std::string& name, const std::string& in,
                      const std::string& out, int budget) {
    const Prop& p = find(name);
    std::vector<uint32_t> best = read_tape(in), used;
    if (!fails(p, best, &used)) { write_tape(out, best); return 3; }
    if (!less(best, used)) best = used;
    // the budget is a number of attempts; hangs are expensive, so also bound
    // the total CPU time of the children
    auto cpu = []() {
        struct rusage u;
        getrusage(RUSAGE_CHILDREN, &u);
        return u.ru_utime.tv_sec + u.ru_stime.tv_sec;
    };
    int attempts = 0;
    auto ok = [&]() { return attempts < budget && cpu() < 60; };
    auto attempt = [&](std::vector<uint32_t> c) {
        if (!ok()) return false;
        attempts++;
        std::vector<uint32_t> u;
        if (fails(p, c, &u)) {
            while (!u.empty() && u.back() == 0) u.pop_back();
            if (less(u, best)) { best = u; return true; }
            if (less(c, best)) { best = c; return true; }
        }
        return false;
    };
    bool progress = true;
    while (progress && ok()) {
        progress = false;
        for (size_t len = best.size() / 2; len >= 1 && ok(); len /= 2) {
            for (size_t i = 0; i + len <= best.size() && ok();) {
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else i += len;
            }
        }
        for (size_t len = 16; len >= 1 && ok(); len /= 4) {
            for (size_t i = 0; i < best.size() && ok(); i += len) {
                auto c = best;
                bool any = false;
                for (size_t k = i; k < std::min(i + len, c.size()); k++) {
                    any |= c[k] != 0;
                    c[k] = 0;
                }
                if (any && attempt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < best.size() && ok(); i++) {
            uint32_t lo = 0;
            while (i < best.size() && best[i] > lo && ok()) {
                auto c = best;
                uint32_t mid = lo + (best[i] - lo) / 2;
                c[i] = mid;
                if (attempt(c)) progress = true; else lo = mid + 1;
            }
        }
    }
    write_tape(out, best);
    return 0;
}

int main_impl(int argc, char** argv) {
    signal(SIGVTALRM, on_vtalrm);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") {
        for (auto& p : registry()) std::cout << p.name << "\n";
        return 0;
    }
    if (cmd == "run" && argc == 8)
        return cmd_run(argv[2], std::stoull(argv[3]), std::stoll(argv[4]),
                       std::stoll(argv[5]), std::stoll(argv[6]), argv[7]);
    if (cmd == "replay" && argc >= 4)
        return cmd_replay(argv[2], argv[3], argc > 4);
    if (cmd == "shrink" && argc == 6)
        return cmd_shrink(argv[2], argv[3], argv[4], std::stoi(argv[5]));
    std::cerr << "usage: list | run P SEED START END STRIDE OUT | "
                 "replay P TAPE [quiet] | shrink P IN OUT BUDGET\n";
    return 2;
}

}  // namespace pbt
