// Small property-based testing engine.
//
// A property is a function of a Src (a sequence of bounded choices) and a Ctx.
// Every random decision is drawn from the Src, so a case is a pure function of its
// choice sequence; shrinking edits that sequence and re-runs the property.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::string Str;
typedef std::vector<uint8_t> Bytes;

Str fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash64(const void* p, size_t n, uint64_t seed = 0);
inline uint64_t hashStr(const Str& s, uint64_t seed = 0) { return hash64(s.data(), s.size(), seed); }

struct Discard { Str why; };
struct Failure { Str msg; };
struct ToolTimeout { };

class Src {
public:
    explicit Src(uint64_t seed) : rng(seed ? seed : 0x9e3779b97f4a7c15ull), replay(nullptr), pos(0) {}
    explicit Src(const std::vector<uint32_t>& r) : rng(1), replay(&r), pos(0) {}
    uint32_t below(uint32_t n);                          // [0,n)
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); } // inclusive
    bool chance(int pct) { return (int)below(100) >= 100 - pct; }  // shrinks to false
    bool coin() { return below(2) == 1; }
    int weighted(const std::vector<int>& w);             // index
    template<class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
    int i16();                                            // interesting 16-bit value, signed
    int u8();
    const std::vector<uint32_t>& recorded() const { return rec; }
    bool exhausted() const { return replay && pos > replay->size(); }
private:
    uint64_t rng;
    const std::vector<uint32_t>* replay;
    size_t pos;
    std::vector<uint32_t> rec;
    uint64_t raw();
};

struct Ctx {
    Str dir;                            // private scratch directory of this worker
    int worker = 0;
    bool thorough = false;
    bool replaying = false;
    uint64_t caseSeed = 0;
    // measured on this run
    std::map<Str, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    uint64_t evaluations = 0, discards = 0, nontrivialCount = 0;
    std::vector<Str> samples;
    // artefacts of the current case (written next to a replay file)
    std::map<Str, Str> notes;
    void label(const Str& l, uint64_t n = 1) { labels[l] += n; }
    void nontrivial(uint64_t h) { ++nontrivialCount; distinct.insert(h); }
    void note(const Str& k, const Str& v) { notes[k] = v; }
    void sample(const Str& s) { if (samples.size() < 3) samples.push_back(s.substr(0, 1500)); }
    [[noreturn]] void fail(const Str& m) { throw Failure{m}; }
};

struct Property {
    Str id;
    Str rule;                           // how cases are made and what is non-trivial
    uint64_t quickCases, thoroughCases;
    std::function<void(Src&, Ctx&)> run;
    std::vector<Str> assumptions;
    std::function<void(Ctx&)> once;     // optional fixed part run once (also decides the property)
};

extern std::vector<Property>& properties();
struct Reg { Reg(Property p) { properties().push_back(std::move(p)); } };

int pbtMain(int argc, char** argv);

// --- processes and files -------------------------------------------------
struct RunResult {
    int exitCode = -1;      // -1 if killed by signal
    int sig = 0;
    bool timeout = false;   // CPU limit reached
    Str out, err;           // err is empty when merged into out
};
struct RunOpts {
    Str cwd;
    Str stdinData;
    int cpuSec = 10;
    bool noAsLimit = false, anyExit = false;   // anyExit: exit codes 126 and 127 are ordinary
    int maxFiles = 0;                              // limit on open files (0: none)
    size_t maxOut = 1 << 22;
};
RunResult runTool(const std::vector<Str>& argv, const RunOpts& o);
Str readFile(const Str& path, bool* ok = nullptr);
void writeFile(const Str& path, const Str& data);
bool fileExists(const Str& path);
void removeFile(const Str& path);
void clearDir(const Str& path);        // removes regular files directly inside a scratch dir

// --- tools under test, built from /repo's working tree ---------------------
extern Str g_repo, g_root, g_scratch;
Str tool(const Str& name);             // path of host-built tool: scc scpp sas sim86
Str toolAsan(const Str& name);         // same, built with -fsanitize=address
Bytes selfHosted(const Str& name);     // .com image built by host tool chain (built once per run)
Str repoFile(const Str& name);
extern std::vector<Str> g_needTools, g_needAsan;   // set by the check binaries before pbtMain
