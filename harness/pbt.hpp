// A small property-based-testing engine.
//
// Every generated case is a pure function of a finite sequence of integer *choices*
// (the design of Hypothesis): `Case::draw(max)` returns an integer in [0, max].  The same property
// function can therefore be driven
//   * by a seeded random source           (the `run` command: generated-input search),
//   * by a stored choice sequence         (the `replay` command: replay files, shrinking),
//   * by the bytes of a coverage-guided fuzzer (LLVMFuzzerTestOneInput, with -DPBT_FUZZ).
// A failing choice sequence is shrunk (shortlex: fewer, smaller choices), and written to a replay file.
//
// Every case is executed in a forked worker, that logs the choices in shared memory: crashes (sanitizer
// reports, signals) and hangs (CPU time limit) of the code under test are failures like any other, and they
// are shrunk and replayed in the same way.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*callback)(void)) __attribute__((weak));

namespace pbt {

struct Discard {};

// Not a std::exception: no `catch` of what the code under test throws may swallow it.
class Failure {
public:
    explicit Failure(std::string msg) : m_msg(std::move(msg))
    {
    }

    const char* what() const
    {
        return m_msg.c_str();
    }

private:
    std::string m_msg;
};

inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return h;
}

struct Rng {
    uint64_t s;
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        return mix(s);
    }
};

constexpr size_t MAXCHOICES = 1 << 15;

// Shared with the parent process.
struct Shared {
    volatile uint64_t n; // number of choices of the case that is running
    volatile uint64_t index; // index of the case that is running
    volatile uint64_t done; // number of cases finished
    volatile int state; // 0: running, 1: finished, 2: oracle failure
    char msg[4096];
    char desc[8192];
    char samples[6][1024];
    volatile uint64_t nsamples;
    uint64_t choices[MAXCHOICES];
};

class Case {
public:
    // random
    Case(uint64_t seed, Shared* sh) : m_mode(0), m_rng{seed}, m_sh(sh)
    {
        if (m_sh) {
            m_sh->n = 0;
        }
    }

    // replay
    Case(const std::vector<uint64_t>& choices, Shared* sh) : m_mode(1), m_in(choices), m_sh(sh)
    {
        if (m_sh) {
            m_sh->n = 0;
        }
    }

    // bytes of a fuzzer
    Case(const uint8_t* data, size_t size) : m_mode(2), m_data(data), m_size(size)
    {
    }

    // log the choices in shared memory
    void share(Shared* sh)
    {
        m_sh = sh;
        m_sh->n = 0;
    }

    // ---- basic draw: [0, max]
    uint64_t draw(uint64_t max)
    {
        uint64_t v = 0;
        if (m_mode == 0) {
            if (max == UINT64_MAX) {
                v = m_rng.next();
            }
            else {
                v = m_rng.next() % (max + 1);
            }
        }
        else if (m_mode == 1) {
            v = m_log.size() < m_in.size() ? std::min(m_in[m_log.size()], max) : 0;
        }
        else {
            uint64_t m = max;
            while (m > 0) {
                uint64_t b = m_pos < m_size ? m_data[m_pos++] : 0;
                v = (v << 8) | b;
                m >>= 8;
            }
            if (max != UINT64_MAX) {
                v %= (max + 1);
            }
        }
        if (m_log.size() >= MAXCHOICES) {
            throw Discard();
        }
        if (m_sh) {
            m_sh->choices[m_log.size()] = v;
            m_sh->n = m_log.size() + 1;
        }
        m_log.push_back(v);
        return v;
    }

    // ---- derived generators (0 is the simplest choice)
    size_t in(size_t lo, size_t hi)
    {
        return lo + static_cast<size_t>(draw(hi - lo));
    }

    // small values are more likely
    size_t small(size_t lo, size_t hi)
    {
        size_t k = in(0, 3);
        size_t span = hi - lo;
        if (k < 3) {
            span = std::min(span, size_t(2 + 2 * k));
        }
        return lo + static_cast<size_t>(draw(span));
    }

    // small values are more likely, once every "n" cases there can be many more
    size_t amount(size_t lo, size_t hi, size_t many, size_t n = 40)
    {
        if (rare(n)) {
            label("many");
            return in(lo, many);
        }
        return small(lo, hi);
    }

    bool flip()
    {
        return draw(1) == 1;
    }

    // true once every "n" cases
    bool rare(size_t n)
    {
        return draw(n - 1) == n - 1;
    }

    double real(double lo, double hi)
    {
        return lo + (hi - lo) * static_cast<double>(draw(1 << 20)) / static_cast<double>(1 << 20);
    }

    template <class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[in(0, v.size() - 1)];
    }

    template <class T>
    T pick(std::initializer_list<T> l)
    {
        std::vector<T> v(l);
        return v[in(0, v.size() - 1)];
    }

    // random permutation of 0..n-1 (all choices zero: identity)
    std::vector<size_t> perm(size_t n)
    {
        std::vector<size_t> p(n);
        for (size_t i = 0; i < n; ++i) {
            p[i] = i;
        }
        for (size_t i = 0; i + 1 < n; ++i) {
            std::swap(p[i], p[i + in(0, n - 1 - i)]);
        }
        return p;
    }

    // subset of size k of 0..n-1, in random order
    std::vector<size_t> subset(size_t n, size_t k)
    {
        auto p = perm(n);
        p.resize(k);
        return p;
    }

    // stream of numbers in [-1, 1] (some kinds: [-3, 3]), that is a pure function of one choice
    struct Stream {
        uint64_t kind;
        Rng rng;
        size_t i = 0;
        size_t run = 0; // number of values that is left in this run
        bool zero = false;
        double operator()()
        {
            ++i;
            if (kind == 0) {
                return 1.0 / static_cast<double>(i + 1);
            }
            if (kind == 4) { // constant
                return 0.25 * static_cast<double>(1 + (rng.s >> 8) % 12) * (rng.s & 16 ? 1.0 : -1.0);
            }
            if (kind == 3) { // runs of zeros (of the length of any block, e.g. of a tensor)
                if (run == 0) {
                    run = 1 + rng.next() % (size_t(1) << (rng.next() % 10));
                    zero = !zero;
                }
                --run;
                if (zero) {
                    return 0.0;
                }
            }
            if (kind == 1) {
                return static_cast<double>(static_cast<int64_t>(rng.next() % 7) - 3);
            }
            return 2.0 * static_cast<double>(rng.next() >> 11) / 9007199254740992.0 - 1.0;
        }
    };

    Stream stream()
    {
        uint64_t v = draw(0xFFFF);
        Stream s{v == 0 ? 0ull : (v % 8 == 1 ? 1ull : (v % 8 == 2 ? 3ull : (v % 16 == 3 ? 4ull : 2ull))), Rng{mix(v)}};
        return s;
    }

    // ---- reporting
    std::ostringstream desc;

    void label(const std::string& s)
    {
        m_labels.insert(s);
    }

    void label(bool b, const std::string& s)
    {
        if (b) {
            m_labels.insert(s);
        }
    }

    void nontrivial(bool b = true)
    {
        m_nontrivial = m_nontrivial || b;
    }

    // ---- result
    const std::vector<uint64_t>& log() const
    {
        return m_log;
    }
    const std::set<std::string>& labels() const
    {
        return m_labels;
    }
    bool isNontrivial() const
    {
        return m_nontrivial;
    }
    size_t checks = 0;

private:
    int m_mode;
    Rng m_rng{0};
    std::vector<uint64_t> m_in;
    const uint8_t* m_data = nullptr;
    size_t m_size = 0;
    size_t m_pos = 0;
    std::vector<uint64_t> m_log;
    std::set<std::string> m_labels;
    bool m_nontrivial = false;
    Shared* m_sh = nullptr;
};

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)

// The oracle: on failure the case fails, with a message.
#define REQUIRE(c, cond, ...) \
    do { \
        ++(c).checks; \
        if (!(cond)) { \
            std::ostringstream pbt_os; \
            pbt_os.precision(17); \
            pbt_os << __VA_ARGS__; \
            throw pbt::Failure( \
                std::string(#cond) + " [" + __FILE__ + ":" PBT_STR(__LINE__) "] " + pbt_os.str()); \
        } \
    } while (0)

// The expression must throw an exception derived from "std::exception" of type "E".
#define REQUIRE_THROWS(c, E, expr, ...) \
    do { \
        ++(c).checks; \
        bool pbt_thrown = false; \
        try { \
            expr; \
        } \
        catch (const E&) { \
            pbt_thrown = true; \
        } \
        if (!pbt_thrown) { \
            std::ostringstream pbt_os; \
            pbt_os << __VA_ARGS__; \
            throw pbt::Failure( \
                std::string("no " #E " from: " #expr " [") + __FILE__ + ":" PBT_STR(__LINE__) "] " + \
                pbt_os.str()); \
        } \
    } while (0)

// As REQUIRE_THROWS, for what is only checked if assertions are enabled.
#ifdef GOOSEFEM_ENABLE_ASSERT
#define ASSERT_THROWS REQUIRE_THROWS
#else
#define ASSERT_THROWS(...) \
    do { \
    } while (0)
#endif

struct Sub {
    std::string name;
    std::function<void(Case&)> fn;
    size_t quick; // number of cases in the quick tier
    size_t thorough; // number of cases in the thorough tier
};

inline std::vector<Sub>& registry()
{
    static std::vector<Sub> r;
    return r;
}

struct Register {
    Register(const std::string& name, std::function<void(Case&)> fn, size_t quick, size_t thorough)
    {
        registry().push_back(Sub{name, fn, quick, thorough});
    }
};

// Define a sub-property: name, number of cases (quick tier / thorough tier)
#define PROP(NAME, QUICK, THOROUGH) \
    static void prop_##NAME(pbt::Case& c); \
    static pbt::Register reg_##NAME(#NAME, prop_##NAME, QUICK, THOROUGH); \
    static void prop_##NAME([[maybe_unused]] pbt::Case& c)

enum Status { PASS = 0, DISCARD = 1, FAIL = 2, CRASH = 3, HANG = 4 };

inline void put(char* dst, size_t n, const std::string& s)
{
    size_t m = std::min(n - 1, s.size());
    std::memcpy(dst, s.data(), m);
    dst[m] = 0;
}

// Run in this process.
inline Status execute(const Sub& sub, Case& c, std::string& msg)
{
    try {
        sub.fn(c);
        return PASS;
    }
    catch (const Discard&) {
        return DISCARD;
    }
    catch (const Failure& e) {
        msg = e.what();
        return FAIL;
    }
    catch (const std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
        return FAIL;
    }
    catch (...) {
        msg = "unexpected exception of unknown type";
        return FAIL;
    }
}

constexpr int CPU_LIMIT = 40; // seconds of CPU time: no case comes close to this

inline void arm(int sec)
{
    struct itimerval t;
    std::memset(&t, 0, sizeof(t));
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, nullptr); // SIGPROF: default action is to terminate
}

inline Shared* shared_new()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(2);
    }
    std::memset(p, 0, sizeof(Shared));
    return static_cast<Shared*>(p);
}

inline void quiet_stderr(const std::string& path)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
}

inline Case*& current_case()
{
    static Case* c = nullptr;
    return c;
}

inline Shared*& current_shared()
{
    static Shared* s = nullptr;
    return s;
}

// The process is about to die: keep the description of the case.
inline void on_death()
{
    if (current_case() && current_shared()) {
        put(current_shared()->desc, sizeof(current_shared()->desc), current_case()->desc.str());
    }
}

inline void on_abort(int)
{
    on_death();
    _exit(98);
}

struct Outcome {
    Status status = PASS;
    std::string msg;
    std::string desc;
    std::vector<uint64_t> choices;
};

// Cases that are run before the case, in the same process: for failures that depend on what was evaluated before.
inline std::vector<std::vector<uint64_t>>& prefix()
{
    static std::vector<std::vector<uint64_t>> p;
    return p;
}

// Run one choice sequence, in a forked process.
inline Outcome run_forked(const Sub& sub, const std::vector<uint64_t>& choices, Shared* sh, const std::string& err, int limit = CPU_LIMIT)
{
    sh->n = 0;
    sh->state = 0;
    sh->msg[0] = 0;
    sh->desc[0] = 0;
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        quiet_stderr(err);
        for (auto& v : prefix()) {
            arm(CPU_LIMIT);
            Case c(v, nullptr);
            std::string msg;
            execute(sub, c, msg);
        }
        arm(limit);
        Case c(choices, sh);
        current_case() = &c;
        current_shared() = sh;
        signal(SIGABRT, on_abort);
        if (__sanitizer_set_death_callback) {
            __sanitizer_set_death_callback(on_death);
        }
        std::string msg;
        Status s = execute(sub, c, msg);
        put(sh->msg, sizeof(sh->msg), msg);
        put(sh->desc, sizeof(sh->desc), c.desc.str());
        sh->state = 1;
        _exit(s);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    if (WIFEXITED(st) && sh->state == 1) {
        o.status = static_cast<Status>(WEXITSTATUS(st));
        o.msg = sh->msg;
        o.desc = sh->desc;
    }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
        o.status = HANG;
        o.msg = "no termination within the CPU time limit";
    }
    else {
        o.status = CRASH;
        o.desc = sh->desc;
        std::ostringstream os;
        if (WIFSIGNALED(st)) {
            os << "terminated by signal " << WTERMSIG(st);
        }
        else {
            os << "terminated with status " << WEXITSTATUS(st);
        }
        std::ifstream f(err);
        std::string line;
        size_t k = 0;
        while (std::getline(f, line) && k < 400) {
            if (line.find("ERROR: AddressSanitizer") != std::string::npos ||
                line.find("runtime error:") != std::string::npos ||
                line.find("Assertion") != std::string::npos || line.find("terminate called") != std::string::npos || (line.find("#") != std::string::npos && line.find("GooseFEM") != std::string::npos && ++k < 6)) {
                os << "; " << line;
            }
        }
        o.msg = os.str();
    }
    o.choices.assign(sh->choices, sh->choices + sh->n);
    return o;
}

// A case that only fails after other cases were run in the same process ("seeds", in that order): find those that matter.
// Leaves these cases in "prefix()".
inline Outcome find_prefix(const Sub& sub, const std::vector<uint64_t>& choices, const std::vector<uint64_t>& seeds, Shared* sh, const std::string& err, double seconds)
{
    double t0 = static_cast<double>(std::time(nullptr));
    auto late = [&]() { return static_cast<double>(std::time(nullptr)) - t0 > seconds; };
    std::string path = err + ".cases";
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        quiet_stderr(err);
        std::ofstream f(path);
        for (auto& i : seeds) {
            arm(CPU_LIMIT);
            Case c(i, nullptr);
            std::string msg;
            execute(sub, c, msg);
            for (auto v : c.log()) {
                f << v << " ";
            }
            f << std::endl;
        }
        f.close();
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::vector<std::vector<uint64_t>> all;
    {
        std::ifstream f(path);
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            all.emplace_back();
            uint64_t v;
            while (is >> v) {
                all.back().push_back(v);
            }
        }
    }
    unlink(path.c_str());
    Outcome o;
    // the last k cases
    for (size_t k = 1; !all.empty() && o.status < FAIL && !late(); k *= 2) {
        prefix().assign(all.end() - static_cast<long>(std::min(k, all.size())), all.end());
        o = run_forked(sub, choices, sh, err);
        if (k >= all.size()) {
            break;
        }
    }
    if (o.status < FAIL) {
        prefix().clear();
        return o;
    }
    // remove what does not matter
    for (size_t k = prefix().size() / 2 + 1; k > 0; k /= 2) {
        for (size_t i = prefix().size(); i-- > 0 && !late();) {
            if (i + k > prefix().size()) {
                continue;
            }
            auto keep = prefix();
            prefix().erase(prefix().begin() + static_cast<long>(i), prefix().begin() + static_cast<long>(i + k));
            auto r = run_forked(sub, choices, sh, err);
            if (r.status >= FAIL) {
                o = r;
            }
            else {
                prefix() = keep;
            }
        }
    }
    return o;
}

// Shrink: repeatedly try shorter and smaller choice sequences, as long as the case still fails.
inline Outcome shrink(const Sub& sub, Outcome best, Shared* sh, const std::string& err, double seconds)
{
    double t0 = static_cast<double>(std::time(nullptr));
    size_t budget = 3000;
    if (best.status == HANG) {
        budget = 6;
    }
    auto bad = [&](const std::vector<uint64_t>& v) {
        if (budget == 0 || static_cast<double>(std::time(nullptr)) - t0 > seconds) {
            return false;
        }
        --budget;
        auto o = run_forked(sub, v, sh, err, best.status == HANG ? 10 : CPU_LIMIT);
        if (o.status < FAIL) {
            return false;
        }
        bool smaller = o.choices.size() < best.choices.size() ||
                       (o.choices.size() == best.choices.size() && o.choices < best.choices);
        if (!smaller) {
            return false;
        }
        best = o;
        return true;
    };
    bool progress = true;
    while (progress && budget > 0) {
        progress = false;
        // delete blocks
        for (size_t k : {64, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = best.choices.size(); i-- > 0;) {
                if (i + k > best.choices.size()) {
                    continue;
                }
                auto v = best.choices;
                v.erase(v.begin() + i, v.begin() + i + k);
                progress = bad(v) || progress;
            }
        }
        // zero blocks
        for (size_t k : {16, 4, 1}) {
            for (size_t i = 0; i + k <= best.choices.size(); ++i) {
                auto v = best.choices;
                bool any = false;
                for (size_t j = i; j < i + k; ++j) {
                    any = any || v[j] != 0;
                    v[j] = 0;
                }
                if (any) {
                    progress = bad(v) || progress;
                }
            }
        }
        // reduce one choice (optionally: remove the next)
        for (size_t i = 0; i < best.choices.size(); ++i) {
            uint64_t lo = 0;
            while (i < best.choices.size() && lo < best.choices[i]) {
                auto v = best.choices;
                uint64_t mid = lo + (v[i] - lo) / 2;
                v[i] = mid;
                if (bad(v)) {
                    progress = true;
                }
                else {
                    lo = mid + 1;
                }
            }
            if (i < best.choices.size() && best.choices[i] > 0) {
                auto v = best.choices;
                v[i] -= 1;
                progress = bad(v) || progress;
            }
        }
    }
    return best;
}

inline std::string json_str(const std::string& s)
{
    std::ostringstream os;
    os << '"';
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            os << '\\' << ch;
        }
        else if (ch == '\n') {
            os << "\\n";
        }
        else if (ch < 32 || ch >= 127) {
            os << ' ';
        }
        else {
            os << ch;
        }
    }
    os << '"';
    return os.str();
}

inline const char* status_name(Status s)
{
    const char* n[] = {"pass", "discard", "failure", "crash", "hang"};
    return n[s];
}

inline void write_replay(
    const std::string& path, const std::string& id, const std::string& sub, const Outcome& o)
{
    std::ofstream f(path);
    auto clean = [](std::string s) {
        std::replace(s.begin(), s.end(), '\n', ' ');
        return s;
    };
    f << "property " << id << "\n";
#ifndef GOOSEFEM_ENABLE_ASSERT
    f << "variant release\n";
#endif
    f << "sub " << sub << "\n";
    for (auto& p : prefix()) {
        f << "before";
        for (auto v : p) {
            f << " " << v;
        }
        f << "\n";
    }
    f << "choices";
    for (auto v : o.choices) {
        f << " " << v;
    }
    f << "\n";
    f << "# status: " << status_name(o.status) << "\n";
    f << "# message: " << clean(o.msg) << "\n";
    f << "# case: " << clean(o.desc) << "\n";
}

// The search. Returns 0: no failure, 1: failure.
inline int command_run(const std::string& id, uint64_t seed, bool thorough, size_t workers, const std::string& out, const std::string& only, double scale, double max_seconds)
{
    auto now = []() {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
    };
    double start = now();
    int ret = 0;
    std::ofstream js(out + "/stats.json");
    js << "{\"subs\": [";
    bool first = true;
    for (auto& sub : registry()) {
        if (!only.empty() && sub.name != only) {
            continue;
        }
        double t0 = now();
        if (ret == 1 && t0 - start > 0.6 * max_seconds) {
            continue; // there is a violation to report, keep the time that it takes bounded
        }
        size_t ncase = static_cast<size_t>(static_cast<double>(thorough ? sub.thorough : sub.quick) * scale);
        ncase = std::max<size_t>(ncase, 1);
        std::vector<Shared*> sh(workers);
        std::vector<pid_t> pid(workers, 0);
        std::vector<std::string> file(workers);
        uint64_t base = mix(seed ^ mix(hash_str(id + "/" + sub.name)));
        std::fflush(nullptr);
        for (size_t w = 0; w < workers; ++w) {
            sh[w] = shared_new();
            file[w] = out + "/" + sub.name + "." + std::to_string(w);
            pid[w] = fork();
            if (pid[w] == 0) {
                quiet_stderr(file[w] + ".err");
                std::unordered_set<uint64_t> distinct;
                std::map<std::string, size_t> labels;
                size_t neval = 0, ndiscard = 0, nontriv = 0, nchecks = 0;
                bool failed = false;
                for (size_t i = w; i < ncase; i += workers) {
                    if (now() - start > max_seconds) {
                        labels["(stopped: wall-clock cap of the run)"]++;
                        break;
                    }
                    sh[w]->index = i;
                    arm(CPU_LIMIT);
                    Case c(mix(base + i), sh[w]);
                    std::string msg;
                    Status s = execute(sub, c, msg);
                    if (s == FAIL) {
                        put(sh[w]->msg, sizeof(sh[w]->msg), msg);
                        put(sh[w]->desc, sizeof(sh[w]->desc), c.desc.str());
                        sh[w]->state = 2;
                        failed = true;
                    }
                    else if (s == DISCARD) {
                        ++ndiscard;
                        continue;
                    }
                    ++neval;
                    nchecks += c.checks;
                    for (auto& l : c.labels()) {
                        labels[l]++;
                    }
                    if (c.isNontrivial()) {
                        ++nontriv;
                        uint64_t h = 7;
                        for (auto v : c.log()) {
                            h = mix(h ^ v);
                        }
                        if (distinct.insert(h).second && sh[w]->nsamples < 6 && (distinct.size() % 7) == 1) {
                            put(sh[w]->samples[sh[w]->nsamples], sizeof(sh[w]->samples[0]), c.desc.str());
                            sh[w]->nsamples = sh[w]->nsamples + 1;
                        }
                    }
                    if (failed) {
                        break;
                    }
                }
                arm(0);
                std::ofstream f(file[w]);
                f << neval << " " << ndiscard << " " << nontriv << " " << nchecks << "\n";
                f << distinct.size() << "\n";
                for (auto h : distinct) {
                    f << h << "\n";
                }
                for (auto& l : labels) {
                    f << l.second << " " << l.first << "\n";
                }
                f.close();
                if (!failed) {
                    sh[w]->state = 1;
                }
                _exit(0);
            }
        }
        size_t neval = 0, ndiscard = 0, nontriv = 0, nchecks = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, size_t> labels;
        std::vector<std::string> samples;
        size_t fail_worker = workers;
        uint64_t fail_index = UINT64_MAX;
        bool killed = false;
        for (size_t w = 0; w < workers; ++w) {
            int st = 0;
            waitpid(pid[w], &st, 0);
            if (sh[w]->state != 1 && sh[w]->index < fail_index) {
                fail_index = sh[w]->index;
                fail_worker = w;
                killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
            }
            std::ifstream f(file[w]);
            size_t a, b, d, e, n;
            if (f >> a >> b >> d >> e >> n) {
                neval += a;
                ndiscard += b;
                nontriv += d;
                nchecks += e;
                for (size_t i = 0; i < n; ++i) {
                    uint64_t h;
                    f >> h;
                    distinct.insert(h);
                }
                size_t k;
                while (f >> k) {
                    std::string s;
                    std::getline(f, s);
                    labels[s.substr(1)] += k;
                }
            }
            for (size_t i = 0; i < sh[w]->nsamples; ++i) {
                if (samples.size() < 4 && sh[w]->samples[i][0]) {
                    samples.push_back(sh[w]->samples[i]);
                }
            }
        }
        std::string replay;
        Outcome o;
        if (fail_worker < workers) {
            std::vector<uint64_t> v(sh[fail_worker]->choices, sh[fail_worker]->choices + sh[fail_worker]->n);
            Outcome first_o;
            first_o.choices = v;
            std::string err = out + "/" + sub.name + ".replay.err";
            Shared* s2 = shared_new();
            o = run_forked(sub, v, s2, err);
            if (o.status < FAIL && !killed) {
                std::vector<uint64_t> seeds;
                for (uint64_t i = fail_worker; i < fail_index; i += workers) {
                    seeds.push_back(mix(base + i));
                }
                o = find_prefix(sub, v, seeds, s2, err, 0.2 * max_seconds);
            }
            if (o.status >= FAIL) {
                o = shrink(sub, o, s2, err, 0.2 * max_seconds);
                replay = out + "/" + sub.name + ".replay";
                write_replay(replay, id, sub.name, o);
                if (!prefix().empty()) {
                    o.msg = "after " + std::to_string(prefix().size()) + " other case(s) in the same process: " + o.msg;
                    prefix().clear();
                }
                ret = 1;
            }
            else if (killed) {
                // ended from outside (memory of the machine), and the case passes on its own
                labels["(a worker was killed, its last case passes)"]++;
            }
            else {
                // does not fail when it is run on its own
                o.msg = std::string(sh[fail_worker]->msg);
                o.choices = v;
                o.status = FAIL;
                replay = out + "/" + sub.name + ".unreproducible";
                write_replay(replay, id, sub.name, o);
                ret = std::max(ret, 3);
            }
        }
        js << (first ? "" : ",") << "\n{\"name\": " << json_str(sub.name) << ", \"cases\": " << ncase
           << ", \"evaluations\": " << neval << ", \"discarded\": " << ndiscard
           << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << distinct.size()
           << ", \"oracle_comparisons\": " << nchecks << ", \"wall_s\": " << (now() - t0)
           << ", \"labels\": {";
        bool fl = true;
        for (auto& l : labels) {
            js << (fl ? "" : ", ") << json_str(l.first) << ": " << l.second;
            fl = false;
        }
        js << "}, \"samples\": [";
        fl = true;
        for (auto& s : samples) {
            js << (fl ? "" : ", ") << json_str(s);
            fl = false;
        }
        js << "], \"replay\": " << json_str(replay) << ", \"status\": " << json_str(replay.empty() ? "pass" : status_name(o.status))
           << ", \"message\": " << json_str(o.msg) << ", \"case\": " << json_str(o.desc) << "}";
        first = false;
        for (size_t w = 0; w < workers; ++w) {
            munmap(sh[w], sizeof(Shared));
            unlink(file[w].c_str());
            unlink((file[w] + ".err").c_str());
        }
    }
    js << "\n]}\n";
    return ret;
}

inline bool read_replay(const std::string& path, std::string& sub, std::vector<uint64_t>& choices)
{
    std::ifstream f(path);
    std::string line;
    bool ok = false;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string key;
        is >> key;
        if (key == "sub") {
            is >> sub;
        }
        else if (key == "choices") {
            uint64_t v;
            while (is >> v) {
                choices.push_back(v);
            }
            ok = true;
        }
        else if (key == "before") {
            prefix().emplace_back();
            uint64_t v;
            while (is >> v) {
                prefix().back().push_back(v);
            }
        }
    }
    return ok;
}

// Exit: 0 passes, 1 fails
inline int command_replay(const std::string& path, const std::string& tmp, bool do_shrink, const std::string& id)
{
    std::string name;
    std::vector<uint64_t> choices;
    if (!read_replay(path, name, choices)) {
        std::cerr << "cannot read " << path << "\n";
        return 2;
    }
    for (auto& sub : registry()) {
        if (sub.name == name) {
            Shared* sh = shared_new();
            auto o = run_forked(sub, choices, sh, tmp + "/replay.err");
            if (o.status >= FAIL && do_shrink) {
                o = shrink(sub, o, sh, tmp + "/replay.err", 90);
                write_replay(path, id, name, o);
            }
            std::cout << status_name(o.status) << "\n" << o.msg << "\n" << o.desc << "\n";
            return o.status >= FAIL ? 1 : 0;
        }
    }
    std::cerr << "unknown sub-property " << name << "\n";
    return 2;
}

#ifdef PBT_FUZZ

inline std::string& fuzz_id()
{
    static std::string id;
    return id;
}

// Coverage-guided: the first byte selects the sub-property, the other bytes are the choices.
// On failure: write a replay file (in the directory PBT_FUZZ_OUT) and stop.
inline int fuzz_one(const uint8_t* data, size_t size)
{
    if (size < 1) {
        return 0;
    }
    auto& reg = registry();
    const Sub& sub = reg[data[0] % reg.size()];
    Case c(data + 1, size - 1);
    std::string msg;
    Status s = execute(sub, c, msg);
    if (s == FAIL) {
        Outcome o;
        o.status = FAIL;
        o.msg = msg;
        o.desc = c.desc.str();
        o.choices = c.log();
        const char* dir = std::getenv("PBT_FUZZ_OUT");
        write_replay(std::string(dir ? dir : ".") + "/fuzz." + std::to_string(getpid()) + ".replay", fuzz_id(), sub.name, o);
        std::fprintf(stderr, "PBT-FAILURE %s\n", msg.c_str());
        std::abort();
    }
    return 0;
}

#else

// Convert the bytes of a fuzzer to a replay file (the case is executed in a forked process).
inline int command_convert(const std::string& bytes, const std::string& path, const std::string& id, const std::string& tmp)
{
    std::ifstream f(bytes, std::ios::binary);
    std::vector<char> data((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (data.size() < 1) {
        return 2;
    }
    auto& reg = registry();
    const Sub& sub = reg[static_cast<uint8_t>(data[0]) % reg.size()];
    Shared* sh = shared_new();
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        quiet_stderr(tmp + "/convert.err");
        arm(CPU_LIMIT);
        Case c(reinterpret_cast<const uint8_t*>(data.data()) + 1, data.size() - 1);
        c.share(sh);
        std::string msg;
        execute(sub, c, msg);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.choices.assign(sh->choices, sh->choices + sh->n);
    o.status = CRASH;
    write_replay(path, id, sub.name, o);
    return 0;
}

#endif

inline int main(int argc, char** argv, const std::string& id)
{
    std::map<std::string, std::string> opt;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) {
        opt[argv[i]] = argv[i + 1];
    }
    auto get = [&](const std::string& k, const std::string& d) {
        return opt.count(k) ? opt[k] : d;
    };
    if (cmd == "run") {
        return command_run(
            id,
            std::stoull(get("--seed", "1")),
            get("--tier", "quick") == "thorough",
            std::stoul(get("--workers", "8")),
            get("--out", "."),
            get("--only", ""),
            std::stod(get("--scale", "1")),
            std::stod(get("--max-seconds", "400")));
    }
    if (cmd == "replay") {
        return command_replay(get("--file", ""), get("--out", "."), get("--shrink", "0") == "1", id);
    }
#ifndef PBT_FUZZ
    if (cmd == "convert") {
        return command_convert(get("--bytes", ""), get("--file", ""), id, get("--out", "."));
    }
#endif
    if (cmd == "list") {
        for (auto& s : registry()) {
            std::cout << s.name << " " << s.quick << " " << s.thorough << "\n";
        }
        return 0;
    }
    std::cerr << "usage: run|replay|list\n";
    return 2;
}

} // namespace pbt

#ifdef PBT_FUZZ
#define PBT_MAIN(ID) \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) \
    { \
        pbt::fuzz_id() = ID; \
        return pbt::fuzz_one(data, size); \
    }
#else
#define PBT_MAIN(ID) \
    int main(int argc, char** argv) \
    { \
        return pbt::main(argc, argv, ID); \
    }
#endif
