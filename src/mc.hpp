// Bounded exhaustive explorer used by every check in /verif.
//
// A check is a list of *spaces*. A space is a finite, completely indexed set of executions of the real
// library (an input configuration, or a whole sequence of API calls): index i in [0, n) decodes to
// exactly one execution. The explorer runs every index of every space -- nothing is sampled -- in
// forked child processes (one per chunk of consecutive indices), so that
//   * an execution that crashes, aborts, exits or hangs is itself an observation (a violation),
//   * global state left behind by one chunk cannot reach another chunk (replay is deterministic).
// Each violation is replayed in a fresh process before it is reported.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

struct Fail { std::string clause, detail; };

// What one execution reports.
struct Case {
    uint64_t ops = 0;                 // API calls made on the real code
    bool trivial = false;             // the execution exercised nothing (by the space's own rule)
    std::vector<uint64_t> states;     // canonical observable states reached
    std::vector<Fail> fails;
    void op(uint64_t n = 1) { ops += n; }
    void state(uint64_t h) { states.push_back(h); }
    void fail(const std::string& clause, const std::string& detail) {
        if (fails.size() < 4) fails.push_back({clause, detail});
    }
    bool failed() const { return !fails.empty(); }
};

struct Space {
    std::string name;
    uint64_t n;
    uint64_t chunk;
    std::function<void(uint64_t, Case&)> run;
    std::function<std::string(uint64_t)> describe;
};

struct Violation { std::string space, clause, detail, text; uint64_t idx, from; bool isolated; bool known; };

struct Slot { volatile uint64_t cur; volatile uint64_t beat; };   // shared with the parent

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else if (c >= 127) o += '?';
        else o += c;
    }
    return o + "\"";
}

struct Explorer {
    std::string property, tier = "quick", outFile, scratch;
    std::set<std::string> known;
    std::vector<Space> spaces;
    std::string rule;
    int lanes = 8;
    double caseLimit = 40, budget = 700;
    unsigned stopAfter = 3;
    bool thorough() const { return tier == "thorough"; }

    void add(const std::string& name, uint64_t n, uint64_t chunk, std::function<void(uint64_t, Case&)> run,
             std::function<std::string(uint64_t)> describe) {
        if (n) spaces.push_back({name, n, std::max<uint64_t>(1, chunk), run, describe});
    }

    // results
    uint64_t evals = 0, trans = 0, nontrivial = 0, chunksRun = 0;
    std::vector<uint64_t> allStates;
    std::map<std::string, uint64_t> perSpace;
    std::vector<Violation> violations;
    bool capped = false;
    size_t dedupeAt = 4000000;

    static void w64(FILE* f, uint64_t v) { fwrite(&v, 8, 1, f); }
    static void wstr(FILE* f, const std::string& s) { w64(f, s.size()); fwrite(s.data(), 1, s.size(), f); }
    static bool r64(FILE* f, uint64_t& v) { return fread(&v, 8, 1, f) == 1; }
    static bool rstr(FILE* f, std::string& s) {
        uint64_t n; if (!r64(f, n)) return false; s.resize(n); return n == 0 || fread(&s[0], 1, n, f) == n;
    }

    // Runs one case with the library's exceptions turned into observations.
    static void runCase(Space& s, uint64_t i, Case& c) {
        try { s.run(i, c); }
        catch (std::exception& e) { c.fail("unexpected-exception", e.what()); }
        catch (...) { c.fail("unexpected-exception", "non-std exception"); }
    }

    // Child: run [a,b) of space s, write the results to `file`. Never returns.
    [[noreturn]] void child(int si, uint64_t a, uint64_t b, const std::string& file, Slot* slot, int lane) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1); dup2(dn, 2);
        if (lane == lanes) { int ef = open((scratch + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (ef >= 0) dup2(ef, 2); }
        rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        std::string home = scratch + "/home" + std::to_string(lane);
        mkdir(home.c_str(), 0700);
        setenv("HOME", home.c_str(), 1);
        if (chdir(home.c_str())) _exit(97);
        Space& s = spaces[si];
        uint64_t ev = 0, op = 0, nt = 0;
        std::vector<uint64_t> st;
        std::vector<std::pair<uint64_t, Fail>> fl;
        for (uint64_t i = a; i < b; i++) {
            slot->cur = i; slot->beat++;
            Case c;
            runCase(s, i, c);
            ev++; op += c.ops; if (!c.trivial) nt++;
            st.insert(st.end(), c.states.begin(), c.states.end());
            if (st.size() > 200000) { std::sort(st.begin(), st.end()); st.erase(std::unique(st.begin(), st.end()), st.end()); }
            for (auto& f : c.fails) if (fl.size() < 400) fl.push_back({i, f});
        }
        slot->cur = ~0ull;
        std::sort(st.begin(), st.end()); st.erase(std::unique(st.begin(), st.end()), st.end());
        FILE* f = fopen((file + ".tmp").c_str(), "wb");
        if (!f) _exit(96);
        w64(f, ev); w64(f, op); w64(f, nt); w64(f, st.size());
        if (!st.empty()) fwrite(st.data(), 8, st.size(), f);
        w64(f, fl.size());
        for (auto& p : fl) { w64(f, p.first); wstr(f, p.second.clause); wstr(f, p.second.detail); }
        fclose(f);
        rename((file + ".tmp").c_str(), file.c_str());
        _exit(0);
    }

    struct ChunkResult { bool ok = false; uint64_t ev = 0, op = 0, nt = 0; std::vector<uint64_t> st; std::vector<std::pair<uint64_t, Fail>> fl; };
    static ChunkResult readChunk(const std::string& file) {
        ChunkResult r; FILE* f = fopen(file.c_str(), "rb"); if (!f) return r;
        uint64_t n = 0;
        if (r64(f, r.ev) && r64(f, r.op) && r64(f, r.nt) && r64(f, n)) {
            r.st.resize(n);
            if (n == 0 || fread(r.st.data(), 8, n, f) == n) {
                uint64_t m = 0;
                if (r64(f, m)) {
                    r.ok = true;
                    for (uint64_t k = 0; k < m; k++) {
                        uint64_t i; Fail x;
                        if (!r64(f, i) || !rstr(f, x.clause) || !rstr(f, x.detail)) { r.ok = false; break; }
                        r.fl.push_back({i, x});
                    }
                }
            }
        }
        fclose(f); unlink(file.c_str());
        return r;
    }

    Slot* slots = nullptr;
    static std::string deathClause(int status, bool hung) {
        if (hung) return "hang";
        if (WIFSIGNALED(status)) return "crash-signal-" + std::to_string(WTERMSIG(status));
        return "exit-" + std::to_string(WEXITSTATUS(status));
    }
    // Runs [a,b] alone in a fresh process; returns the failures seen at index b.
    std::vector<Fail> isolated(int si, uint64_t a, uint64_t b, double limit) {
        Slot* sl = &slots[lanes]; sl->cur = a; sl->beat = 0;
        std::string file = scratch + "/replay";
        unlink(file.c_str());
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) child(si, a, b + 1, file, sl, lanes);
        uint64_t beat = sl->beat; double t = now(); bool hung = false; int st = 0;
        while (true) {
            pid_t q = waitpid(p, &st, WNOHANG);
            if (q == p) break;
            if (sl->beat != beat) { beat = sl->beat; t = now(); }
            if (now() - t > limit) { hung = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
            usleep(1000);
        }
        std::vector<Fail> out;
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            ChunkResult r = readChunk(file);
            for (auto& x : r.fl) if (x.first == b) out.push_back(x.second);
        } else if (sl->cur == b) {
            std::string why = "the process running this execution ended abnormally", line; std::ifstream err(scratch + "/stderr");
            while (std::getline(err, line)) if (line.find("runtime error") != std::string::npos || line.find("ERROR: ") != std::string::npos || line.find("Assertion") != std::string::npos || line.find("what():") != std::string::npos) { why += ": " + line.substr(0, 300); break; }
            while (std::getline(err, line)) if (line.find("    #") == 0 && line.find("/delynoi/") != std::string::npos) { why += " at " + line.substr(0, 200); break; }
            out.push_back({deathClause(st, hung), why});
        }
        return out;
    }
    std::string key(const Violation& v) const { return v.space + " | " + v.text + " | " + v.clause; }

    unsigned unlisted = 0;
    std::set<std::string> seenKeys;
    void report(int si, uint64_t i, uint64_t from, const Fail& f) {
        if (unlisted >= stopAfter) return;
        Violation v; v.space = spaces[si].name; v.idx = i; v.from = i; v.clause = f.clause; v.detail = f.detail;
        v.text = spaces[si].describe(i); v.isolated = true;
        v.known = known.count(key(v)) > 0;
        if (seenKeys.count(key(v))) return;
        std::vector<Fail> again = isolated(si, i, i, 3 * caseLimit);
        bool same = false;
        for (auto& g : again) if (g.clause == f.clause) { same = true; v.detail = g.detail; }
        if (!same && !again.empty()) {     // it fails alone too, but in another way
            v.clause = again[0].clause; v.detail = again[0].detail; same = true;
            v.known = known.count(key(v)) > 0;
            if (seenKeys.count(key(v))) return;
        }
        if (!same) {                       // needs the executions before it in the same process
            again = isolated(si, from, i, 3 * caseLimit);
            for (auto& g : again) if (g.clause == f.clause) same = true;
            v.from = from; v.isolated = false;
        }
        if (!same) { v.detail += " [not reproduced on replay]"; flaky++; return; }
        seenKeys.insert(key(v));
        if (!v.known) unlisted++;
        violations.push_back(v);
    }
    unsigned flaky = 0;

    int exploreAll() {
        slots = (Slot*)mmap(nullptr, sizeof(Slot) * (lanes + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        struct Running { pid_t pid = 0; int si; uint64_t a, b; std::string file; uint64_t beat; double t; int retries = 0; bool hung = false; };
        std::vector<Running> run(lanes);
        struct Job { int si; uint64_t a, b; int retries; };
        std::vector<Job> redo;
        int si = 0; uint64_t pos = 0; uint64_t serial = 0;
        double t0 = now();
        auto next = [&](Job& j) -> bool {
            if (unlisted >= stopAfter) return false;
            if (now() - t0 > budget) { capped = capped || !redo.empty() || si < (int)spaces.size(); return false; }
            if (!redo.empty()) { j = redo.back(); redo.pop_back(); return true; }
            while (si < (int)spaces.size() && pos >= spaces[si].n) { si++; pos = 0; }
            if (si >= (int)spaces.size()) return false;
            j = {si, pos, std::min(spaces[si].n, pos + spaces[si].chunk), 0};
            pos = j.b; return true;
        };
        while (true) {
            bool any = false;
            for (int l = 0; l < lanes; l++) {
                Running& r = run[l];
                if (!r.pid) {
                    Job j; if (!next(j)) continue;
                    r.si = j.si; r.a = j.a; r.b = j.b; r.retries = j.retries; r.hung = false;
                    r.file = scratch + "/c" + std::to_string(serial++);
                    slots[l].cur = r.a; slots[l].beat = 0; r.beat = 0; r.t = now();
                    fflush(nullptr);
                    pid_t p = fork();
                    if (p < 0) { perror("fork"); return 3; }
                    if (p == 0) child(r.si, r.a, r.b, r.file, &slots[l], l);
                    r.pid = p; any = true; continue;
                }
                any = true;
                int st; pid_t q = waitpid(r.pid, &st, WNOHANG);
                if (q == 0) {
                    if (slots[l].beat != r.beat) { r.beat = slots[l].beat; r.t = now(); }
                    if (now() - r.t > caseLimit) { r.hung = true; kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0); q = r.pid; }
                    else continue;
                }
                r.pid = 0; chunksRun++;
                if (!r.hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                    ChunkResult c = readChunk(r.file);
                    if (!c.ok) { fprintf(stderr, "lost results of a chunk\n"); return 3; }
                    evals += c.ev; trans += c.op; nontrivial += c.nt;
                    perSpace[spaces[r.si].name] += c.ev;
                    allStates.insert(allStates.end(), c.st.begin(), c.st.end());
                    if (allStates.size() > dedupeAt) { dedupe(); dedupeAt = std::max<size_t>(4000000, 2 * allStates.size()); }
                    for (auto& x : c.fl) report(r.si, x.first, r.a, x.second);
                } else {
                    uint64_t at = slots[l].cur;
                    bool oom = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !r.hung;
                    if (oom || at == ~0ull || (WIFEXITED(st) && (WEXITSTATUS(st) == 96 || WEXITSTATUS(st) == 97))) {
                        if (r.retries >= 2) { fprintf(stderr, "chunk of %s could not be run\n", spaces[r.si].name.c_str()); return 3; }
                        redo.push_back({r.si, r.a, r.b, r.retries + 1});
                        continue;
                    }
                    unsigned before = unlisted + violations.size(), fl0 = flaky;
                    report(r.si, at, r.a, {deathClause(st, r.hung), "the process running this execution ended abnormally"});
                    if (flaky > fl0 && unlisted + violations.size() == before) {   // not reproduced: run the chunk again
                        if (r.retries >= 2) { fprintf(stderr, "irreproducible abnormal end in %s #%llu\n", spaces[r.si].name.c_str(), (unsigned long long)at); return 3; }
                        redo.push_back({r.si, r.a, r.b, r.retries + 1});
                        continue;
                    }
                    // keep the rest of the chunk covered: the part before and the part after the bad index
                    evals++; perSpace[spaces[r.si].name]++; nontrivial++;
                    if (at > r.a) redo.push_back({r.si, r.a, at, 0});
                    if (at + 1 < r.b) redo.push_back({r.si, at + 1, r.b, 0});
                }
            }
            if (!any) break;
            usleep(300);
        }
        dedupe();
        return 0;
    }
    void dedupe() { std::sort(allStates.begin(), allStates.end()); allStates.erase(std::unique(allStates.begin(), allStates.end()), allStates.end()); }

    void writeOut(double wall) {
        std::ofstream o(outFile);
        o << "{\n\"evaluations\": " << evals << ",\n\"distinct_nontrivial\": " << nontrivial << ",\n\"states\": " << allStates.size()
          << ",\n\"transitions\": " << trans << ",\n\"traces_validated_against_impl\": " << evals
          << ",\n\"chunks\": " << chunksRun << ",\n\"exhaustive\": " << ((capped || unlisted) ? "false" : "true") << ",\n\"flaky\": " << flaky
          << ",\n\"rule\": " << jstr(rule) << ",\n\"wall\": " << wall << ",\n\"spaces\": [";
        bool first = true;
        for (auto& s : spaces) {
            o << (first ? "" : ", ") << "{\"name\": " << jstr(s.name) << ", \"size\": " << s.n << ", \"explored\": " << perSpace[s.name] << "}";
            first = false;
        }
        o << "],\n\"samples\": [";
        first = true;
        for (auto& s : spaces) for (uint64_t i : {(uint64_t)0, s.n / 2}) {
            if (i == s.n / 2 && i == 0) continue;
            o << (first ? "" : ", ") << jstr(s.name + " #" + std::to_string(i) + ": " + s.describe(i)); first = false;
        }
        o << "],\n\"violations\": [";
        first = true;
        for (auto& v : violations) {
            o << (first ? "" : ",\n") << "{\"space\": " << jstr(v.space) << ", \"idx\": " << v.idx << ", \"from\": " << v.from << ", \"clause\": " << jstr(v.clause)
              << ", \"detail\": " << jstr(v.detail) << ", \"case\": " << jstr(v.text) << ", \"key\": " << jstr(key(v))
              << ", \"known\": " << (v.known ? "true" : "false") << ", \"isolated\": " << (v.isolated ? "true" : "false") << "}";
            first = false;
        }
        o << "]\n}\n";
    }
};

// usage: harness --property ID --tier T --out FILE --scratch DIR [--known FILE] [--replay SPACE FROM IDX]
inline int main_(int argc, char** argv, const std::function<void(Explorer&)>& setup) {
    Explorer e; std::string rspace; uint64_t rfrom = 0, ridx = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--property") e.property = argv[++i];
        else if (a == "--tier") e.tier = argv[++i];
        else if (a == "--out") e.outFile = argv[++i];
        else if (a == "--scratch") e.scratch = argv[++i];
        else if (a == "--lanes") e.lanes = atoi(argv[++i]);
        else if (a == "--budget") e.budget = atof(argv[++i]);
        else if (a == "--stop-after") e.stopAfter = atoi(argv[++i]);
        else if (a == "--known") { std::ifstream f(argv[++i]); std::string l; while (std::getline(f, l)) if (!l.empty()) e.known.insert(l); }
        else if (a == "--replay") { rspace = argv[++i]; rfrom = strtoull(argv[++i], 0, 10); ridx = strtoull(argv[++i], 0, 10); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    double t0 = now();
    setup(e);
    if (!rspace.empty()) {
        std::string home = e.scratch + "/home"; mkdir(home.c_str(), 0700); setenv("HOME", home.c_str(), 1);
        for (auto& s : e.spaces) if (s.name == rspace) {
            for (uint64_t i = rfrom; i <= ridx; i++) {
                Case c; Explorer::runCase(s, i, c);
                if (i == ridx) {
                    printf("replay %s #%llu: %s\n", s.name.c_str(), (unsigned long long)i, s.describe(i).c_str());
                    for (auto& f : c.fails) printf("  FAILS %s: %s\n", f.clause.c_str(), f.detail.c_str());
                    if (c.fails.empty()) printf("  holds\n");
                    return c.fails.empty() ? 0 : 1;
                }
            }
        }
        fprintf(stderr, "no such space\n"); return 2;
    }
    int rc = e.exploreAll();
    if (rc) return rc;
    e.writeOut(now() - t0);
    return 0;
}

// mixed-radix decoding of an index
struct Dec {
    uint64_t i; explicit Dec(uint64_t i) : i(i) {}
    uint64_t take(uint64_t r) { uint64_t d = i % r; i /= r; return d; }
};

} // namespace mc
