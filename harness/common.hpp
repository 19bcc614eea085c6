// Harness kernel: deterministic case generation, oracles that record what they
// observed, crash-tolerant progress, isolated (forked) cases, JSON result.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hstr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

struct Rng {
    uint64_t st, fp;
    explicit Rng(uint64_t seed = 1) : st(mix(seed)), fp(7) {}
    uint64_t next() {
        st += 0x9e3779b97f4a7c15ull;
        uint64_t z = mix(st);
        fp = mix(fp ^ z);
        return z;
    }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    // mostly a..b, now and then up to big: what only large sizes show
    int size(int a, int b, int big) { return below(14) ? range(a, b) : range(b, big); }
    bool chance(double p) { return u01() < p; }
    double normal() {
        double u = u01(), v = u01();
        return std::sqrt(-2 * std::log(u + 1e-300)) * std::cos(6.283185307179586 * v);
    }
    double sgn() { return (next() & 1) ? 1.0 : -1.0; }
    // log-uniform magnitude
    double logu(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
    // angle with a bias to the special values where formulas degenerate
    double angle() {
        const double P = 3.14159265358979323846;
        switch (below(8)) {
        case 0: { static const double k[] = {0, 0.5, 1, -0.5, -1, 0.25, -0.25, 1.5, 2}; return k[below(9)] * P; }
        case 1: { static const double k[] = {0, 0.5, 1, -0.5, -1}; return k[below(5)] * P + sgn() * logu(1e-16, 1e-3); }
        case 2: return uni(-4 * P, 4 * P);
        default: return uni(-P, P);
        }
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(int(v.size()))]; }
};

struct Harness;

struct Case {
    Harness& H;
    std::string rule;
    uint64_t idx;
    Rng r;
    bool trivial = false;
    bool abandoned = false;
    uint64_t evals = 0;
    std::string desc;   // human description of the generated case, for samples/violations
    Case(Harness& h, const std::string& ru, uint64_t i, uint64_t seed)
        : H(h), rule(ru), idx(i), r(mix(seed * 0x100000001b3ull ^ hstr(ru) ^ mix(i + 1))) {}
    template <class F> bool okf(bool cond, const std::string& key, F&& msg);
    bool ok(bool cond, const std::string& key, const std::string& msg = "") {
        return okf(cond, key, [&] { return msg; });
    }
    bool near(double a, double b, double tol, const std::string& key, const std::string& msg = "") {
        return okf(std::fabs(a - b) <= tol || a == b, key, [&] {
            char buf[160];
            snprintf(buf, sizeof buf, "got %.17g expected %.17g (tol %.3g) ", a, b, tol);
            return std::string(buf) + msg;
        });
    }
    void cover(const std::string& bucket);
    // run fn in a forked child; a crash, sanitizer report, non-zero exit is a violation `key`
    // returns true if the child finished normally and reported no violation
    bool isolated(const std::string& key, const std::function<void(Case&)>& fn, int secs = 60);
};

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct Violation { std::string key, msg, rule; uint64_t idx; uint64_t count; };

struct Harness {
    std::string id, out, progress;
    uint64_t seed = 1;
    double scale = 1;
    bool thorough = false;
    std::string only_rule;
    long only_case = -1;
    long shard = 0, shards = 1;
    char* prog = nullptr;
    int childfd = -1;  // >=0 in an isolated child: verdicts go up this pipe
    std::map<std::string, uint64_t> obs;       // monitor key -> evaluations
    std::map<std::string, uint64_t> cov;       // coverage bucket -> hits
    std::map<std::string, uint64_t> rules;     // rule -> cases
    std::map<std::string, Violation> viol;
    std::unordered_set<uint64_t> fps;
    std::vector<std::string> samples;
    std::set<std::string> sampled;
    uint64_t cases = 0, abandoned = 0, inconclusive = 0, hangs = 0;

    Harness(const std::string& pid, int argc, char** argv) : id(pid) {
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
            else if (a == "--scale") scale = atof(val().c_str());
            else if (a == "--out") out = val();
            else if (a == "--progress") progress = val();
            else if (a == "--rule") only_rule = val();
            else if (a == "--case") only_case = atol(val().c_str());
            else if (a == "--shard") shard = atol(val().c_str());
            else if (a == "--shards") shards = atol(val().c_str());
            else if (a == "--thorough") thorough = true;
        }
        if (!progress.empty()) {
            int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, 256) == 0)
                prog = (char*)mmap(0, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (prog == MAP_FAILED) prog = nullptr;
            if (fd >= 0) close(fd);
        }
    }
    void violation(const std::string& key, const std::string& msg, const std::string& rule, uint64_t idx) {
        if (childfd >= 0) {
            std::string line = "V\t" + key + "\t" + jesc(msg) + "\n";
            if (write(childfd, line.data(), line.size()) < 0) {}
            return;
        }
        auto it = viol.find(key);
        if (it == viol.end()) {
            viol[key] = Violation{key, msg, rule, idx, 1};
            fprintf(stderr, "[%s] VIOL %s case %llu: %s\n", id.c_str(), key.c_str(), (unsigned long long)idx, msg.c_str());
        } else it->second.count++;
    }
    template <class F> void rule(const std::string& name, long n, F&& body, bool scaled = true) {
        if (!only_rule.empty() && only_rule != name) return;
        long N = scaled ? long(std::ceil(n * scale)) : n;
        if (N < 1) N = 1;
        for (long i = 0; i < N; i++) {
            if (only_case >= 0 ? i != only_case : i % shards != shard) continue;
            if (prog) snprintf(prog, 256, "%s\t%ld", name.c_str(), i);
            Case c(*this, name, uint64_t(i), seed);
            try {
                body(c);
            } catch (const std::exception& e) {
                c.okf(false, "exception", [&] { return std::string("uncaught ") + typeid(e).name() + ": " + e.what(); });
            } catch (...) {
                c.okf(false, "exception", [&] { return std::string("uncaught exception of unknown type"); });
            }
            cases++;
            rules[name]++;
            if (c.abandoned) abandoned++;
            if (c.evals && !c.trivial && !c.abandoned) fps.insert(c.r.fp ^ hstr(name) ^ (c.r.fp == 7 ? mix(i) : 0));
            if (c.evals && !c.desc.empty() && !sampled.count(name) && samples.size() < 60) {
                sampled.insert(name);
                samples.push_back(name + "#" + std::to_string(i) + ": " + c.desc);
            }
        }
        if (prog) snprintf(prog, 256, "between\t0");
    }
    int finish() {
        if (!out.empty()) {
            if (FILE* g = fopen((out + ".fps").c_str(), "wb")) {
                std::vector<uint64_t> v(fps.begin(), fps.end());
                if (!v.empty() && fwrite(v.data(), 8, v.size(), g) != v.size()) fprintf(stderr, "short write\n");
                fclose(g);
            }
            FILE* f = fopen(out.c_str(), "w");
            if (!f) return 3;
            fprintf(f, "{\"id\":\"%s\",\"seed\":%llu,\"cases\":%llu,\"distinct_nontrivial\":%zu,\"abandoned\":%llu,\"inconclusive\":%llu,\n",
                    id.c_str(), (unsigned long long)seed, (unsigned long long)cases, fps.size(),
                    (unsigned long long)abandoned, (unsigned long long)inconclusive);
            auto dump = [&](const char* n, const std::map<std::string, uint64_t>& m) {
                fprintf(f, "\"%s\":{", n);
                bool first = true;
                for (auto& kv : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
                fprintf(f, "},\n");
            };
            dump("rules", rules);
            dump("obs", obs);
            dump("cov", cov);
            fprintf(f, "\"samples\":[");
            for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
            fprintf(f, "],\n\"violations\":[");
            bool first = true;
            for (auto& kv : viol) {
                fprintf(f, "%s\n{\"key\":\"%s\",\"rule\":\"%s\",\"case\":%llu,\"count\":%llu,\"msg\":\"%s\"}", first ? "" : ",",
                        jesc(kv.first).c_str(), jesc(kv.second.rule).c_str(), (unsigned long long)kv.second.idx,
                        (unsigned long long)kv.second.count, jesc(kv.second.msg).c_str());
                first = false;
            }
            fprintf(f, "]}\n");
            fclose(f);
        }
        if (prog) snprintf(prog, 256, "finished\t0");
        return 0;
    }
};

template <class F> bool Case::okf(bool cond, const std::string& key, F&& msg) {
    evals++;
    std::string k = rule + "/" + key;
    H.obs[k]++;
    if (!cond) H.violation(k, msg() + (desc.empty() ? "" : " [" + desc + "]"), rule, idx);
    return cond;
}
inline void Case::cover(const std::string& b) { H.cov[rule + "/" + b]++; }

inline bool Case::isolated(const std::string& key, const std::function<void(Case&)>& fn, int secs) {
    if (H.hangs >= 2) { abandoned = true; return false; }   // already reported; do not wait for every other case
    for (int attempt = 0; attempt < 2; attempt++) {
        int p[2];
        if (pipe(p)) { H.inconclusive++; return false; }
        fflush(0);
        Rng saved = r;
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            H.childfd = p[1];
            int dn = open("/dev/null", O_WRONLY);
            if (dn >= 0 && !getenv("VH_VERBOSE")) { dup2(dn, 1); }
            alarm(secs);
            try { fn(*this); }
            catch (const std::exception& e) { H.violation(rule + "/" + key + ".exception", std::string("uncaught ") + typeid(e).name() + ": " + e.what(), rule, idx); }
            catch (...) { H.violation(rule + "/" + key + ".exception", "uncaught exception", rule, idx); }
            std::string tail = "E\t" + std::to_string(evals) + "\t" + std::to_string(r.st) + "\t" + std::to_string(r.fp) + "\n";
            if (write(p[1], tail.data(), tail.size()) < 0) {}
            for (auto& kv : H.cov) { std::string l = "C\t" + kv.first + "\t" + std::to_string(kv.second) + "\n"; if (write(p[1], l.data(), l.size()) < 0) {} }
            _exit(0);
        }
        close(p[1]);
        std::string buf;
        char tmp[4096];
        ssize_t n;
        while ((n = read(p[0], tmp, sizeof tmp)) > 0) buf.append(tmp, n);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
            if (attempt == 0) { r = saved; continue; }
            H.hangs++;
            okf(false, key + ".hang", [&] { return "did not finish within " + std::to_string(secs) + " s, twice"; });
            return false;
        }
        bool bad = false, ended = false;
        std::istringstream is(buf);
        std::string line;
        while (std::getline(is, line)) {
            std::vector<std::string> t;
            std::istringstream ls(line);
            std::string w;
            while (std::getline(ls, w, '\t')) t.push_back(w);
            if (t.size() >= 3 && t[0] == "V") { bad = true; H.violation(t[1], t[2], rule, idx); }
            if (t.size() >= 4 && t[0] == "E") { ended = true; evals = strtoull(t[1].c_str(), 0, 10); r.st = strtoull(t[2].c_str(), 0, 10); r.fp = strtoull(t[3].c_str(), 0, 10); }
            if (t.size() >= 3 && t[0] == "C") { uint64_t v = strtoull(t[2].c_str(), 0, 10); auto& x = H.cov[t[1]]; if (v > x) x = v; }
        }
        bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0 && ended;
        okf(clean, key + ".crash", [&] {
            std::ostringstream o;
            if (WIFSIGNALED(st)) o << "killed by signal " << WTERMSIG(st);
            else o << "exit status " << WEXITSTATUS(st) << " (sanitizer report on stderr)";
            return o.str();
        });
        return clean && !bad;
    }
    return false;
}

template <class T> inline std::string str(const T& t) { std::ostringstream o; o.precision(12); o << t; return o.str(); }
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

}  // namespace vh
