// Native runtime of the contract language: replays a verifier counter-example, or runs a contract over a bounded set of
// inputs (enumerated or seeded-random), on the code compiled from /repo.
#include "vp.hpp"

#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
#include <vector>

struct VpSkip
{
};

struct VpFail
{
    std::string label;
};

static std::vector<VpEntry>& entries()
{
    static std::vector<VpEntry> e;
    return e;
}

VpReg::VpReg(const char* name, void (*f)(), int kind)
{
    entries().push_back({name, f, kind});
}

namespace
{
    enum Mode
    {
        Replay,
        Random,
        Exhaust
    };

    Mode mode;
    uint64_t rng;
    std::vector<std::pair<std::string, std::string>> rvals; // replay values
    std::size_t rpos;
    bool throw_ok;
    std::map<std::string, long> covers, shared_covers;
    std::map<std::tuple<int, int64_t, int64_t, int64_t, int64_t>, double*> cells;
    std::map<int, bool> fieldreal;
    int nfields;
    // exhaustive enumeration
    struct Choice
    {
        int64_t lo, hi, v;
    };
    std::vector<Choice> tree;
    std::size_t tpos;

    struct Shared
    {
        char label[256];
        char log[1 << 16];
        std::size_t n;
        long long iter, skipped, asserts;
        int done;
        int exhausted;
        int ncov;
        char cov[64][64];
        long long covn[64];
    };

    Shared* sh;

    uint64_t next()
    {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        return rng * 0x2545F4914F6CDD1DULL;
    }

    // the next recorded value of that name: compilers may evaluate the arguments of a call in any order
    const std::string* take(const char* name)
    {
        static std::vector<bool> used;
        used.resize(rvals.size());
        while (rpos < rvals.size() && used[rpos])
        {
            ++rpos;
        }
        for (std::size_t k = rpos; k < rvals.size(); ++k)
        {
            if (!used[k] && rvals[k].first == name)
            {
                used[k] = true;
                return &rvals[k].second;
            }
        }
        return nullptr;
    }

    void logv(const char* name, const std::string& v)
    {
        if (sh->n + 200 < sizeof(sh->log))
        {
            sh->n += static_cast<std::size_t>(std::snprintf(sh->log + sh->n, 200, "%s %s\n", name, v.c_str()));
        }
    }
}

extern "C"
{
    int64_t vp_any_i64(const char* name, int64_t lo, int64_t hi)
    {
        int64_t v = lo;
        if (mode == Replay)
        {
            if (auto* r = take(name))
            {
                v = std::strtoll(r->c_str(), nullptr, 10);
            }
        }
        else if (mode == Exhaust)
        {
            if (tpos == tree.size())
            {
                tree.push_back({lo, hi, lo});
            }
            v = tree[tpos++].v;
        }
        else
        {
            uint64_t w = static_cast<uint64_t>(hi - lo) + 1;
            uint64_t k = w > 4096 ? next() % 4 : 0;
            if (w == 0)
            {
                v = static_cast<int64_t>(next());
            }
            else if (k == 0)
            {
                v = lo + static_cast<int64_t>(next() % w);
            }
            else
            {
                // small magnitudes, or near the bounds
                int64_t c = k < 3 ? (lo > 0 ? lo : hi < 0 ? hi : 0) : ((next() & 1) ? lo : hi);
                v         = c + static_cast<int64_t>(next() % 41) - 20;
                if (v < lo)
                {
                    v = lo;
                }
                if (v > hi)
                {
                    v = hi;
                }
            }
        }
        logv(name, std::to_string(v));
        return v;
    }

    double vp_any_f64(const char* name)
    {
        double v = 0;
        if (mode == Replay)
        {
            if (auto* r = take(name))
            {
                // rationals "a/b" or decimals
                const std::string& s = *r;
                auto p               = s.find('/');
                v                    = p == std::string::npos ? std::strtod(s.c_str(), nullptr)
                                                              : std::strtod(s.substr(0, p).c_str(), nullptr) / std::strtod(s.substr(p + 1).c_str(), nullptr);
            }
        }
        else
        {
            v = mode == Exhaust ? 1.25 + static_cast<double>(next() % 64) : static_cast<double>(static_cast<int64_t>(next() % 2001) - 1000) / 64.;
        }
        char b[64];
        std::snprintf(b, sizeof b, "%.17g", v);
        logv(name, b);
        return v;
    }

    int64_t vp_concretise(int64_t x)
    {
        return x;
    }

    void vp_assume(bool c)
    {
        if (!c)
        {
            throw VpSkip{};
        }
    }

    void vp_assert(bool c, const char* label)
    {
        ++sh->asserts;
        if (!c)
        {
            throw VpFail{label};
        }
    }

    void vp_cover(const char* label)
    {
        for (int i = 0; i < sh->ncov; ++i)
        {
            if (!std::strncmp(sh->cov[i], label, 63))
            {
                ++sh->covn[i];
                return;
            }
        }
        if (sh->ncov < 64)
        {
            std::strncpy(sh->cov[sh->ncov], label, 63);
            sh->covn[sh->ncov++] = 1;
        }
    }

    void vp_note(const char* label, int64_t v)
    {
        if (mode == Replay)
        {
            std::printf("note %s = %lld\n", label, static_cast<long long>(v));
        }
    }

    int vp_symbolic()
    {
        return 0;
    }

    void vp_throw_ok(bool ok)
    {
        throw_ok = ok;
    }

    int vp_field_new(const char*, bool real)
    {
        fieldreal[nfields] = real;
        return nfields++;
    }

    void* vp_cell(int field, int64_t level, int64_t x, int64_t y, int64_t z)
    {
        auto k  = std::make_tuple(field, level, x, y, z);
        auto it = cells.find(k);
        if (it == cells.end())
        {
            // a deterministic value per cell
            uint64_t h = 1469598103934665603ULL ^ rng;
            for (int64_t t : {static_cast<int64_t>(field), level, x, y, z})
            {
                h = (h ^ static_cast<uint64_t>(t + 77)) * 1099511628211ULL;
                h ^= h >> 29;
            }
            double* p = static_cast<double*>(std::malloc(8));
            if (fieldreal[field])
            {
                *p = static_cast<double>(static_cast<int64_t>(h % 2001) - 1000) / 64.;
            }
            else
            {
                int64_t v = static_cast<int64_t>(h % 16);
                std::memcpy(p, &v, 8);
            }
            it = cells.emplace(k, p).first;
        }
        return it->second;
    }

    void* vp_array_new(const char*, int64_t, int64_t, int64_t, const int64_t*)
    {
        throw VpSkip{};
    }

    void vp_array_setlen(void*, int64_t)
    {
    }

    int64_t vp_array_len(void*)
    {
        return 0;
    }

    void vp_assert_forall(bool (*)(void*, int64_t), void*, const char*)
    {
    }

    void vp_assume_forall(bool (*)(void*, int64_t), void*)
    {
    }

    void vp_inv(const char*, bool)
    {
    }

    void vp_inv_forall(bool (*)(void*, int64_t), void*, const char*)
    {
    }

    void vp_assigns(void*, int64_t)
    {
    }

    void vp_inv_cut(const char*)
    {
    }
}

static bool once(const VpEntry& e, std::string& why)
{
    sh->n        = 0;
    sh->label[0] = 0;
    rpos         = 0;
    tpos         = 0;
    throw_ok     = false;
    nfields      = 0;
    for (auto& c : cells)
    {
        std::free(c.second);
    }
    cells.clear();
    fieldreal.clear();
    try
    {
        e.f();
        ++sh->iter;
    }
    catch (VpSkip&)
    {
        ++sh->skipped;
    }
    catch (VpFail& f)
    {
        why = f.label;
        return false;
    }
    catch (std::exception& ex)
    {
        if (!throw_ok)
        {
            why = std::string("no-exception: ") + ex.what();
            return false;
        }
        ++sh->iter;
    }
    return true;
}

static const VpEntry* find(const std::string& n)
{
    for (auto& e : entries())
    {
        if (n == e.name)
        {
            return &e;
        }
    }
    return nullptr;
}

int main(int argc, char** argv)
{
    std::string cmd = argc > 1 ? argv[1] : "list";
    sh              = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::memset(sh, 0, sizeof(Shared));
    if (cmd == "list")
    {
        for (auto& e : entries())
        {
            std::printf("%s %d\n", e.name, e.kind);
        }
        return 0;
    }
    std::string en, out, file;
    uint64_t seed = 1;
    double tmax   = 10;
    long long nmax = 1000000;
    if (cmd == "replay")
    {
        file = argv[2];
        std::ifstream in(file);
        std::string line;
        while (std::getline(in, line))
        {
            if (line.rfind("entry ", 0) == 0)
            {
                en = line.substr(6);
            }
            else if (line.rfind("val ", 0) == 0)
            {
                auto p = line.find(' ', 4);
                rvals.push_back({line.substr(4, p - 4), line.substr(p + 1)});
            }
            else if (line.rfind("seed ", 0) == 0)
            {
                seed = std::strtoull(line.c_str() + 5, nullptr, 10);
            }
        }
    }
    else
    {
        en = argv[2];
        for (int i = 3; i + 1 < argc; i += 2)
        {
            std::string a = argv[i];
            if (a == "--seed")
            {
                seed = std::strtoull(argv[i + 1], nullptr, 10);
            }
            else if (a == "--time")
            {
                tmax = std::strtod(argv[i + 1], nullptr);
            }
            else if (a == "--max")
            {
                nmax = std::strtoll(argv[i + 1], nullptr, 10);
            }
            else if (a == "--out")
            {
                out = argv[i + 1];
            }
        }
    }
    const VpEntry* e = find(en);
    if (!e)
    {
        std::fprintf(stderr, "no entry %s\n", en.c_str());
        return 3;
    }
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        if (cmd != "replay")
        {
            // keep the output of the code under test out of the report
            if (!std::freopen("/dev/null", "w", stdout))
            {
                _exit(9);
            }
        }
        auto t0  = std::chrono::steady_clock::now();
        auto el  = [&]
        {
            return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        };
        std::string why;
        bool ok = true;
        if (cmd == "replay")
        {
            mode = Replay;
            rng  = seed * 0x9E3779B97F4A7C15ULL + 12345;
            ok   = once(*e, why);
        }
        else if (e->kind == 2)
        {
            mode = Exhaust;
            rng  = seed * 0x9E3779B97F4A7C15ULL + 12345;
            for (;;)
            {
                alarm(120);
                ok = once(*e, why);
                if (!ok)
                {
                    break;
                }
                tree.resize(tpos);
                while (!tree.empty() && tree.back().v == tree.back().hi)
                {
                    tree.pop_back();
                }
                if (tree.empty())
                {
                    sh->exhausted = 1;
                    break;
                }
                ++tree.back().v;
                if (el() > tmax)
                {
                    break;
                }
            }
        }
        else
        {
            mode = Random;
            for (long long k = 0; k < nmax && el() < tmax; ++k)
            {
                alarm(120);
                rng = (seed * 1000003ULL + static_cast<uint64_t>(k) + 1) * 0x9E3779B97F4A7C15ULL + 12345;
                next();
                ok = once(*e, why);
                if (!ok)
                {
                    break;
                }
            }
        }
        if (!ok)
        {
            std::strncpy(sh->label, why.c_str(), sizeof(sh->label) - 1);
            _exit(1);
        }
        sh->done = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    int rc = 0;
    std::string label = sh->label;
    if (WIFSIGNALED(st))
    {
        rc    = 1;
        label = WTERMSIG(st) == SIGALRM ? "terminates (a run took more than 120 s)" : WTERMSIG(st) == SIGKILL ? "killed" : std::string("no-crash: signal ") + std::to_string(WTERMSIG(st));
        if (WTERMSIG(st) == SIGKILL)
        {
            rc = 4;
        }
    }
    else if (WEXITSTATUS(st) != 0)
    {
        rc = 1;
        if (!sh->done && label.empty())
        {
            label = "no-crash: exit " + std::to_string(WEXITSTATUS(st));
        }
    }
    std::printf("{\"entry\":\"%s\",\"iterations\":%lld,\"skipped\":%lld,\"assertions\":%lld,\"exhausted\":%s,\"failed\":%s,\"covers\":{", en.c_str(), sh->iter, sh->skipped,
                sh->asserts, sh->exhausted ? "true" : "false", rc ? "true" : "false");
    for (int i = 0; i < sh->ncov; ++i)
    {
        std::printf("%s\"%s\":%lld", i ? "," : "", sh->cov[i], sh->covn[i]);
    }
    std::string l2;
    for (char c : label)
    {
        l2 += (c == '"' || c == '\\' || c < 32) ? '\'' : c;
    }
    std::printf("},\"label\":\"%s\"}\n", l2.c_str());
    if (rc == 1 && !out.empty())
    {
        std::ofstream o(out);
        o << "entry " << en << "\n";
        o << "label " << l2 << "\n";
        std::istringstream is(std::string(sh->log, sh->n));
        std::string line;
        while (std::getline(is, line))
        {
            o << "val " << line << "\n";
        }
    }
    return rc;
}
