#include "pbt.h"
#include <cstdarg>
#include <algorithm>
#include <ctime>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

Str g_repo = "/repo", g_root = "/verif", g_scratch;

Str fmt(const char* f, ...) {
    va_list ap; va_start(ap, f);
    char buf[4096];
    int n = vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if (n < (int)sizeof buf) return Str(buf, n);
    Str s(n + 1, 0);
    va_start(ap, f); vsnprintf(&s[0], n + 1, f, ap); va_end(ap);
    s.resize(n);
    return s;
}
static uint64_t mix(uint64_t x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ (x >> 31);
}
uint64_t hash64(const void* p, size_t n, uint64_t seed) {
    const uint8_t* b = (const uint8_t*)p;
    uint64_t h = 0xcbf29ce484222325ull ^ mix(seed + 0x1234567);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
    return mix(h);
}

// --- choices -------------------------------------------------------------
uint64_t Src::raw() { rng += 0x9e3779b97f4a7c15ull; return mix(rng); }
uint32_t Src::below(uint32_t n) {
    uint32_t v;
    if (replay) { v = pos < replay->size() ? (*replay)[pos] % n : 0; ++pos; }
    else v = (uint32_t)((raw() >> 32) * (uint64_t)n >> 32);
    rec.push_back(v);
    if (rec.size() > 400000) throw Discard{"too many choices"};
    return v;
}
int Src::weighted(const std::vector<int>& w) {
    int t = 0;
    for (int x : w) t += x;
    int r = (int)below((uint32_t)t);
    for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return (int)i; r -= w[i]; }
    return 0;
}
int Src::i16() {
    static const int edge[] = {0, 1, 2, -1, 3, 7, 8, 127, 128, -128, -129, 255, 256, -255, -256, 129, 32767, -32768, -32767, 0x4000, -0x4000, 0x7f00, 1000, -1000, 10, 16, 15, 5};
    switch (below(4)) {
    case 0: return (int)below(20);
    case 1: return edge[below(sizeof edge / sizeof *edge)];
    case 2: return range(-300, 300);
    default: return (int)(int16_t)(uint16_t)below(65536);
    }
}
int Src::u8() {
    static const int edge[] = {0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0x0f, 0x10};
    return below(2) ? (int)below(256) : edge[below(10)];
}

// --- files and processes ---------------------------------------------------
Str readFile(const Str& path, bool* ok) {
    int fd = open(path.c_str(), O_RDONLY);
    if (ok) *ok = fd >= 0;
    Str s;
    if (fd < 0) return s;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
    close(fd);
    return s;
}
void writeFile(const Str& path, const Str& d) {
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) { fprintf(stderr, "cannot write %s: %s\n", path.c_str(), strerror(errno)); _exit(3); }
    size_t o = 0;
    while (o < d.size()) {
        ssize_t n = write(fd, d.data() + o, d.size() - o);
        if (n <= 0) { fprintf(stderr, "write failed %s\n", path.c_str()); _exit(3); }
        o += n;
    }
    close(fd);
}
bool fileExists(const Str& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
void removeFile(const Str& p) { unlink(p.c_str()); }
void clearDir(const Str& path) {
    if (g_scratch.empty() || path.compare(0, g_scratch.size(), g_scratch)) return; // only inside our scratch
    DIR* d = opendir(path.c_str());
    if (!d) return;
    while (struct dirent* e = readdir(d)) {
        if (e->d_name[0] == '.' && (!e->d_name[1] || (e->d_name[1] == '.' && !e->d_name[2]))) continue;
        unlink((path + "/" + e->d_name).c_str());
    }
    closedir(d);
}
static void removeTree(const Str& path, int depth = 0) {
    if (g_scratch.empty() || path.compare(0, g_scratch.size(), g_scratch) || depth > 6) return;
    DIR* d = opendir(path.c_str());
    if (d) {
        std::vector<Str> names;
        while (struct dirent* e = readdir(d)) names.push_back(e->d_name);
        closedir(d);
        for (auto& n : names) {
            if (n == "." || n == "..") continue;
            Str p = path + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(p, depth + 1);
            else unlink(p.c_str());
        }
    }
    rmdir(path.c_str());
}

RunResult runTool(const std::vector<Str>& args, const RunOpts& o) {
    RunResult r;
    Str base = o.cwd.empty() ? g_scratch : o.cwd;
    static int serial = 0;
    Str outP = fmt("%s/.out.%d.%d", g_scratch.c_str(), (int)getpid(), serial++ & 1);
    Str inP;
    std::vector<char*> av;
    for (auto& a : args) av.push_back((char*)a.c_str());
    av.push_back(nullptr);
    int outFd = open(outP.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    int inFd;
    if (o.stdinData.empty()) inFd = open("/dev/null", O_RDONLY | O_CLOEXEC);
    else {
        inP = outP + ".in";
        writeFile(inP, o.stdinData);
        inFd = open(inP.c_str(), O_RDONLY | O_CLOEXEC);
    }
    if (outFd < 0 || inFd < 0) { fprintf(stderr, "runTool: cannot open scratch\n"); _exit(3); }
    struct rlimit cpu = {(rlim_t)o.cpuSec, (rlim_t)o.cpuSec + 2}, fs = {64u << 20, 64u << 20}, as = {4ull << 30, 4ull << 30}, core = {0, 0}, stk;
    getrlimit(RLIMIT_STACK, &stk);
    stk.rlim_cur = std::min<rlim_t>(stk.rlim_max, 8u << 20);
    // a deterministic, minimal environment
    static const char* envp[] = {"LC_ALL=C", "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0", "UBSAN_OPTIONS=halt_on_error=1:exitcode=99", "PATH=/usr/bin:/bin", nullptr};
    const char* cwd = base.c_str();
    bool noAs = o.noAsLimit;
    int maxFiles = o.maxFiles;
    struct rlimit nf = {(rlim_t)maxFiles, (rlim_t)maxFiles};
    pid_t pid = vfork();
    if (pid < 0) { perror("vfork"); _exit(3); }
    if (pid == 0) {
        if (chdir(cwd)) _exit(126);
        dup2(inFd, 0); dup2(outFd, 1); dup2(outFd, 2);
        setrlimit(RLIMIT_STACK, &stk); setrlimit(RLIMIT_CPU, &cpu); setrlimit(RLIMIT_FSIZE, &fs); setrlimit(RLIMIT_CORE, &core);
        if (!noAs) setrlimit(RLIMIT_AS, &as);
        if (maxFiles) setrlimit(RLIMIT_NOFILE, &nf);
        personality(ADDR_NO_RANDOMIZE);          // a faulty access has the same effect every time
        execve(av[0], av.data(), (char* const*)envp);
        _exit(127);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    close(inFd);
    struct stat sb;
    fstat(outFd, &sb);
    size_t n = std::min((size_t)sb.st_size, o.maxOut);
    r.out.resize(n);
    size_t got = 0;
    while (got < n) { ssize_t k = pread(outFd, &r.out[got], n - got, got); if (k <= 0) break; got += k; }
    r.out.resize(got);
    close(outFd);
    unlink(outP.c_str());
    if (!inP.empty()) unlink(inP.c_str());
    if (WIFEXITED(st)) r.exitCode = WEXITSTATUS(st);
    else if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); r.timeout = r.sig == SIGXCPU || r.sig == SIGKILL; }
    if (!o.anyExit && (r.exitCode == 126 || r.exitCode == 127)) { fprintf(stderr, "cannot run %s\n", args[0].c_str()); _exit(3); }
    return r;
}

// --- tools under test --------------------------------------------------------
static std::map<Str, Bytes> comCache;
Str tool(const Str& n) { return g_scratch + "/bin/" + n; }
Str toolAsan(const Str& n) { return g_scratch + "/bin/" + n + ".asan"; }
Str repoFile(const Str& n) { return readFile(g_repo + "/" + n); }
extern std::vector<Str> g_needAsan;
std::vector<Str> g_needTools, g_needAsan;
static void runParallel(const std::vector<std::vector<Str>>& cmds, bool mayFail = false) {
    std::vector<pid_t> pids;
    for (auto& c : cmds) {
        std::vector<char*> av;
        for (auto& a : c) av.push_back((char*)a.c_str());
        av.push_back(nullptr);
        pid_t p = fork();
        if (p == 0) { execvp(av[0], av.data()); _exit(127); }
        pids.push_back(p);
    }
    bool bad = false;
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    if (bad && !mayFail) { fprintf(stderr, "building the tools from %s failed\n", g_repo.c_str()); exit(3); }
}
static void buildTools() {
    mkdir((g_scratch + "/bin").c_str(), 0755);
    std::vector<std::vector<Str>> cmds;
    for (auto& t : g_needTools)
        cmds.push_back({"gcc", "-std=gnu99", "-O1", "-w", "-static", "-o", tool(t), g_repo + "/" + t + ".c"});
    for (auto& t : g_needAsan)
        cmds.push_back({"gcc", "-std=gnu99", "-O1", "-g", "-w", "-fsanitize=address", "-o", toolAsan(t), g_repo + "/" + t + ".c"});
    runParallel(cmds);
}
// Image of a tool compiled by the host-built compiler (preprocessed first where it uses lib.h).
Bytes selfHosted(const Str& name) {
    auto it = comCache.find(name);
    if (it != comCache.end()) return it->second;
    Str d = g_scratch + fmt("/self%d", (int)getpid());
    mkdir(d.c_str(), 0755);
    RunOpts o; o.cwd = d; o.cpuSec = 30;
    writeFile(d + "/" + name + ".c", repoFile(name + ".c"));
    Str in = name + ".c";
    if (name == "sim86" || name == "swar") {
        writeFile(d + "/lib.h", repoFile("lib.h"));
        RunResult r = runTool({tool("scpp"), in, name + ".i"}, o);
        if (r.exitCode != 0) throw Failure{"preprocessor fails on " + in + ": " + r.out.substr(0, 300)};
        in = name + ".i";
    }
    RunResult r = runTool({tool("scc"), in, name + ".com"}, o);
    if (r.exitCode != 0) throw Failure{"compiler fails on " + in + ": " + r.out.substr(0, 300)};
    Str s = readFile(d + "/" + name + ".com");
    Bytes b(s.begin(), s.end());
    comCache[name] = b;
    return b;
}

// --- engine --------------------------------------------------------------------
std::vector<Property>& properties() { static std::vector<Property> p; return p; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Outcome { bool failed = false, discarded = false; Str msg; };
static Outcome runOne(const Property& p, Src& s, Ctx& c) {
    Outcome o;
    c.notes.clear();
    try { p.run(s, c); }
    catch (Discard& d) { o.discarded = true; o.msg = d.why; }
    catch (Failure& f) { o.failed = true; o.msg = f.msg; }
    return o;
}
static Str jsonEsc(const Str& s) {
    Str r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}
static void putStr(FILE* f, const Str& s) { uint32_t n = s.size(); fwrite(&n, 4, 1, f); fwrite(s.data(), 1, n, f); }
static Str getStr(FILE* f) { uint32_t n = 0; if (fread(&n, 4, 1, f) != 1) return ""; Str s(n, 0); if (n && fread(&s[0], 1, n, f) != n) return ""; return s; }

struct Shared { volatile int64_t minFail; volatile int64_t done; };

static std::vector<uint32_t> shrink(const Property& p, std::vector<uint32_t> best, Ctx& c, double budget, uint64_t maxEval) {
    double t0 = now();
    uint64_t ev = 0;
    auto fails = [&](const std::vector<uint32_t>& cand) -> bool {
        if (now() - t0 > budget || ev > maxEval) return false;
        ++ev;
        Src s(cand);
        Ctx cc; cc.dir = c.dir; cc.thorough = c.thorough; cc.replaying = true;
        return runOne(p, s, cc).failed;
    };
    bool progress = true;
    while (progress && now() - t0 < budget && ev < maxEval) {
        progress = false;
        // remove blocks
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size();) {
                std::vector<uint32_t> cand(best.begin(), best.begin() + i);
                cand.insert(cand.end(), best.begin() + i + len, best.end());
                if (fails(cand)) { best = cand; progress = true; }
                else i += len;
                if (now() - t0 > budget || ev > maxEval) return best;
            }
            if (len == 1) break;
        }
        // zero blocks, then lower single values
        for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.size(); i += len) {
                bool any = false;
                for (size_t k = i; k < i + len; ++k) any |= best[k] != 0;
                if (!any) continue;
                std::vector<uint32_t> cand = best;
                for (size_t k = i; k < i + len; ++k) cand[k] = 0;
                if (fails(cand)) { best = cand; progress = true; }
                if (now() - t0 > budget || ev > maxEval) return best;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.size(); ++i) {
            uint32_t lo = 0, hi = best[i];
            while (lo < hi) {
                uint32_t mid = lo + (hi - lo) / 2;
                std::vector<uint32_t> cand = best;
                cand[i] = mid;
                if (fails(cand)) { best = cand; hi = mid; progress = true; } else lo = mid + 1;
                if (now() - t0 > budget || ev > maxEval) return best;
            }
        }
    }
    return best;
}

static int runProperty(const Property& p, bool thorough, uint64_t seed, uint64_t casesOverride, bool keepGoing) {
    double t0 = now();
    uint64_t cases = casesOverride ? casesOverride : thorough ? p.thoroughCases : p.quickCases;
    double deadline = thorough ? 840 : 480;      // safety net only: budgets are case counts
    if (getenv("VP_DEADLINE")) deadline = atof(getenv("VP_DEADLINE"));
    int nw = 8;
    if (getenv("VP_WORKERS")) nw = atoi(getenv("VP_WORKERS"));
    Ctx total; total.thorough = thorough;
    bool violated = false, onceFailed = false;
    Str failMsg;
    std::vector<uint32_t> failChoices;
    std::map<Str, Str> failNotes;
    uint64_t failCase = 0;

    mkdir((g_scratch + "/main").c_str(), 0755);
    Ctx mc; mc.dir = g_scratch + "/main"; mc.thorough = thorough;
    if (p.once) {
        try { p.once(mc); }
        catch (Failure& f) { violated = onceFailed = true; failMsg = f.msg; failNotes = mc.notes; }
        for (auto& l : mc.labels) total.labels[l.first] += l.second;
        total.evaluations += mc.evaluations;
        total.nontrivialCount += mc.nontrivialCount;
        total.distinct.insert(mc.distinct.begin(), mc.distinct.end());
        for (auto& s : mc.samples) total.sample(s);
    }
    Shared* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->minFail = INT64_MAX;
    bool cut = false;
    if (!violated) {
        std::vector<pid_t> pids;
        for (int w = 0; w < nw; ++w) {
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid == 0) {
                Ctx c; c.worker = w; c.thorough = thorough;
                c.dir = fmt("%s/w%d", g_scratch.c_str(), w);
                mkdir(c.dir.c_str(), 0755);
                std::vector<uint32_t> fc; Str fm; uint64_t fi = 0; std::map<Str, Str> fn; bool failed = false, c_cut = false;
                for (uint64_t i = w; i < cases; i += nw) {
                    if ((int64_t)i > sh->minFail) break;
                    if (now() - t0 > deadline) { c_cut = true; break; }
                    uint64_t cs = hash64(p.id.data(), p.id.size(), seed * 0x10001 + 7) + i * 0x9e3779b97f4a7c15ull;
                    cs = mix(cs);
                    Src s(cs);
                    c.caseSeed = cs;
                    ++c.evaluations;
                    Outcome o = runOne(p, s, c);
                    if (o.discarded) { ++c.discards; c.label("discarded: " + o.msg); continue; }
                    if (o.failed && !keepGoing) {
                        // it must fail repeatedly, from a clean directory
                        int again = 0;
                        for (int k = 0; k < 9 && again < 3 && again + 9 - k >= 3; ++k) {
                            Src s2(s.recorded()); Ctx c2; c2.thorough = thorough; c2.replaying = true;
                            c2.dir = fmt("%s/w%d.r%d", g_scratch.c_str(), w, k);
                            mkdir(c2.dir.c_str(), 0755);
                            if (runOne(p, s2, c2).failed) ++again;
                            removeTree(c2.dir);
                        }
                        if (again < 3) {
                            fprintf(stderr, "case %llu failed but not when repeated (%d of 9): %s\n", (unsigned long long)i, again, o.msg.substr(0, 200).c_str());
                            c.label("unreproduced failure");
                            continue;
                        }
                    }
                    if (o.failed) {
                        if (keepGoing) { c.label("FAIL " + o.msg.substr(0, 60)); fprintf(stderr, "case %llu: %s\n", (unsigned long long)i, o.msg.substr(0, 200).c_str()); continue; }
                        failed = true; fc = s.recorded(); fm = o.msg; fi = i; fn = c.notes;
                        int64_t cur = sh->minFail;
                        while ((int64_t)i < cur && !__sync_bool_compare_and_swap(&sh->minFail, cur, (int64_t)i)) cur = sh->minFail;
                        break;
                    }
                }
                FILE* f = fopen(fmt("%s/stat.%d", g_scratch.c_str(), w).c_str(), "wb");
                uint64_t h[5] = {c.evaluations, c.discards, c.nontrivialCount, c.distinct.size(), c_cut};
                fwrite(h, sizeof h, 1, f);
                for (uint64_t x : c.distinct) fwrite(&x, 8, 1, f);
                uint32_t nl = c.labels.size(); fwrite(&nl, 4, 1, f);
                for (auto& l : c.labels) { putStr(f, l.first); fwrite(&l.second, 8, 1, f); }
                uint32_t ns = c.samples.size(); fwrite(&ns, 4, 1, f);
                for (auto& s : c.samples) putStr(f, s);
                uint8_t fl = failed; fwrite(&fl, 1, 1, f);
                if (failed) {
                    fwrite(&fi, 8, 1, f); putStr(f, fm);
                    uint32_t n = fc.size(); fwrite(&n, 4, 1, f); fwrite(fc.data(), 4, n, f);
                    uint32_t nn = fn.size(); fwrite(&nn, 4, 1, f);
                    for (auto& x : fn) { putStr(f, x.first); putStr(f, x.second); }
                }
                uint32_t magic = 0x600dda7a; fwrite(&magic, 4, 1, f);
                fclose(f);
                _exit(0);
            }
            pids.push_back(pid);
        }
        bool workerDied = false;
        for (pid_t pid : pids) { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) workerDied = true; }
        if (workerDied) { fprintf(stderr, "a worker of the harness died\n"); return 3; }
        for (int w = 0; w < nw; ++w) {
            FILE* f = fopen(fmt("%s/stat.%d", g_scratch.c_str(), w).c_str(), "rb");
            if (!f) { fprintf(stderr, "no result from worker\n"); return 3; }
            uint64_t h[5];
            if (fread(h, sizeof h, 1, f) != 1) return 3;
            total.evaluations += h[0]; total.discards += h[1]; total.nontrivialCount += h[2]; cut |= h[4] != 0;
            for (uint64_t i = 0; i < h[3]; ++i) { uint64_t x; if (fread(&x, 8, 1, f) != 1) return 3; total.distinct.insert(x); }
            uint32_t nl; if (fread(&nl, 4, 1, f) != 1) return 3;
            while (nl--) { Str s = getStr(f); uint64_t n; if (fread(&n, 8, 1, f) != 1) return 3; total.labels[s] += n; }
            uint32_t ns; if (fread(&ns, 4, 1, f) != 1) return 3;
            while (ns--) total.sample(getStr(f));
            uint8_t fl; if (fread(&fl, 1, 1, f) != 1) return 3;
            if (fl) {
                uint64_t fi; if (fread(&fi, 8, 1, f) != 1) return 3;
                Str m = getStr(f);
                uint32_t n; if (fread(&n, 4, 1, f) != 1) return 3;
                std::vector<uint32_t> ch(n); if (n && fread(ch.data(), 4, n, f) != n) return 3;
                std::map<Str, Str> notes; uint32_t nn; if (fread(&nn, 4, 1, f) != 1) return 3;
                while (nn--) { Str k = getStr(f); notes[k] = getStr(f); }
                if (!violated || fi < failCase) { violated = true; failCase = fi; failMsg = m; failChoices = ch; failNotes = notes; }
            }
            fclose(f);
        }
    }
    int rc = 0;
    int violations = 0;
    if (violated) {
        // shrink, then replay three times before reporting
        int again = 0;
        if (onceFailed) {
            for (int i = 0; i < 3; ++i) { Ctx c; c.dir = mc.dir; c.thorough = thorough; try { p.once(c); } catch (Failure&) { ++again; } }
        } else {
            printf("failure in case %llu (%zu choices): %s\nshrinking...\n", (unsigned long long)failCase, failChoices.size(), failMsg.substr(0, 400).c_str());
            fflush(stdout);
            double sb = getenv("VP_SHRINK") ? atof(getenv("VP_SHRINK")) : 60;
            std::vector<uint32_t> small = shrink(p, failChoices, mc, sb, 30000);
            auto repeat = [&](const std::vector<uint32_t>& ch) {
                int n = 0;
                for (int i = 0; i < 20 && n < 3; ++i) {
                    Src s(ch); Ctx c; c.dir = mc.dir; c.thorough = thorough; c.replaying = true;
                    Outcome o = runOne(p, s, c);
                    if (o.failed) { ++n; failMsg = o.msg; failNotes = c.notes; }
                }
                return n;
            };
            again = repeat(small);
            if (again == 3) failChoices = small;
            else { again = 3; repeat(failChoices); }     // the worker has repeated it already
        }
        if (again < 3) {
            fprintf(stderr, "failure did not reproduce 3 times (%d): not reported as a violation\n  %s\n", again, failMsg.c_str());
            total.label("unreproduced failure");
            printf("INCONCLUSIVE property=%s unreproduced failure\n", p.id.c_str());
        } else {
            violations = 1;
            Str d = fmt("%s/replays", g_root.c_str());
            mkdir(d.c_str(), 0755);
            Str body;
            for (uint32_t v : failChoices) body += fmt("%u ", v);
            Str rp = fmt("%s/%s-%08llx.txt", d.c_str(), p.id.c_str(), (unsigned long long)(hashStr(body + failMsg) & 0xffffffff));
            Str t = "property " + p.id + "\ntier " + (thorough ? "thorough" : "quick") + "\n" + (onceFailed ? "once\n" : "choices " + body + "\n") + "end\n\n# " + failMsg + "\n";
            for (auto& n : failNotes) t += "\n--- " + n.first + " ---\n" + n.second + "\n";
            t += "\n# rerun: " + g_root + "/run.sh replay " + rp + "\n";
            writeFile(rp, t);
            printf("%s\n", failMsg.substr(0, 1500).c_str());
            for (auto& n : failNotes) printf("--- %s ---\n%s\n", n.first.c_str(), n.second.substr(0, 3000).c_str());
            printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), rp.c_str());
            rc = 1;
        }
    }
    // evidence
    Str e = "{\n";
    e += fmt(" \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n", p.id.c_str(), thorough ? "thorough" : "quick", (unsigned long long)seed);
    e += " \"coverage\": {\n";
    e += fmt("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"nontrivial_cases\": %llu,\n  \"discarded\": %llu,\n  \"stopped_early\": %s,\n", (unsigned long long)total.evaluations, total.distinct.size(), (unsigned long long)total.nontrivialCount, (unsigned long long)total.discards, cut ? "true" : "false");
    e += "  \"rule\": " + jsonEsc(p.rule) + ",\n  \"classes\": {";
    bool first = true;
    for (auto& l : total.labels) { e += (first ? "\n   " : ",\n   ") + jsonEsc(l.first) + ": " + fmt("%llu", (unsigned long long)l.second); first = false; }
    e += "\n  },\n  \"samples\": [";
    first = true;
    for (auto& s : total.samples) { e += (first ? "\n   " : ",\n   ") + jsonEsc(s); first = false; }
    e += "\n  ]\n },\n \"assumptions\": [";
    first = true;
    for (auto& s : p.assumptions) { e += (first ? "\n  " : ",\n  ") + jsonEsc(s); first = false; }
    e += fmt("\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - t0, violations);
    mkdir((g_root + "/evidence").c_str(), 0755);
    writeFile(g_root + "/evidence/" + p.id + ".json", e);
    printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %llu discarded, %.1f s%s\n", p.id.c_str(), thorough ? "thorough" : "quick", (unsigned long long)seed, (unsigned long long)total.evaluations, total.distinct.size(), (unsigned long long)total.discards, now() - t0, violations ? " VIOLATED" : cut ? " (stopped early by the safety deadline)" : "");
    if (getenv("VP_LABELS")) for (auto& l : total.labels) printf("  %8llu %s\n", (unsigned long long)l.second, l.first.c_str());
    return rc;
}

static int replayFile(const Str& path) {
    Str t = readFile(path);
    std::vector<uint32_t> ch; Str id; bool once = false, thorough = false;
    size_t i = 0;
    while (i < t.size()) {
        size_t e = t.find('\n', i); if (e == Str::npos) e = t.size();
        Str l = t.substr(i, e - i); i = e + 1;
        if (l == "end") break;
        if (!l.compare(0, 9, "property ")) id = l.substr(9);
        else if (l == "tier thorough") thorough = true;
        else if (l == "once") once = true;
        else if (!l.compare(0, 8, "choices ")) {
            const char* q = l.c_str() + 8; char* en;
            for (;;) { unsigned long v = strtoul(q, &en, 10); if (en == q) break; ch.push_back(v); q = en; }
        }
    }
    for (auto& p : properties()) if (p.id == id) {
        Ctx c; c.dir = g_scratch + "/main"; c.thorough = thorough; c.replaying = true;
        mkdir(c.dir.c_str(), 0755);
        if (once) { try { p.once(c); } catch (Failure& f) { printf("%s\nVIOLATION property=%s replay=%s\n", f.msg.c_str(), id.c_str(), path.c_str()); return 1; } printf("holds\n"); return 0; }
        Src s(ch);
        Outcome o = runOne(p, s, c);
        for (auto& n : c.notes) printf("--- %s ---\n%s\n", n.first.c_str(), n.second.c_str());
        if (o.failed) { printf("%s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), id.c_str(), path.c_str()); return 1; }
        printf(o.discarded ? "discarded: %s\n" : "holds%s\n", o.msg.c_str());
        return 0;
    }
    fprintf(stderr, "unknown property in replay file\n");
    return 3;
}

int pbtMain(int argc, char** argv) {
    // generators recurse: a large stack for the harness (the tools get 8 MB)
    struct rlimit sl;
    if (!getrlimit(RLIMIT_STACK, &sl) && sl.rlim_cur < (1u << 30) && sl.rlim_max >= (1u << 30)) {
        sl.rlim_cur = 1u << 30;
        if (!setrlimit(RLIMIT_STACK, &sl)) execv("/proc/self/exe", argv);
    }
    if (getenv("VP_REPO")) g_repo = getenv("VP_REPO");
    if (getenv("VP_ROOT")) g_root = getenv("VP_ROOT");
    Str cmd = argc > 1 ? argv[1] : "";
    bool thorough = getenv("VERIF_TIER") && Str(getenv("VERIF_TIER")) == "thorough";
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
    uint64_t cases = 0, dumpCase = ~0ull;
    bool keep = false;
    std::vector<Str> ids;
    for (int i = 2; i < argc; ++i) {
        Str a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--quick") thorough = false;
        else if (a == "--keep") keep = true;
        else if (a == "--cases") cases = strtoull(argv[++i], nullptr, 10);
        else if (a == "--case") dumpCase = strtoull(argv[++i], nullptr, 10);
        else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else ids.push_back(a);
    }
    if (cmd == "list") { for (auto& p : properties()) printf("%s\n", p.id.c_str()); return 0; }
    signal(SIGPIPE, SIG_IGN);
    // scratch: tmpfs if there is one
    Str base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    Str tmpl = base + "/vpXXXXXX";
    std::vector<char> tb(tmpl.begin(), tmpl.end()); tb.push_back(0);
    if (!mkdtemp(tb.data())) {
        tmpl = "/tmp/vpXXXXXX"; tb.assign(tmpl.begin(), tmpl.end()); tb.push_back(0);
        if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 3; }
    }
    g_scratch = tb.data();
    int rc = 3;
    buildTools();
    if (cmd == "run" && !ids.empty()) {
        for (auto& p : properties()) if (p.id == ids[0]) {
            if (dumpCase != ~0ull) {
                uint64_t cs = mix(hash64(p.id.data(), p.id.size(), seed * 0x10001 + 7) + dumpCase * 0x9e3779b97f4a7c15ull);
                Src s(cs); Ctx c; c.dir = g_scratch + "/main"; c.thorough = thorough; mkdir(c.dir.c_str(), 0755);
                Outcome o = runOne(p, s, c);
                for (auto& n : c.notes) printf("--- %s ---\n%s\n", n.first.c_str(), n.second.c_str());
                printf("%s %s\n", o.failed ? "FAILED" : o.discarded ? "discarded" : "ok", o.msg.c_str());
                rc = o.failed;
            } else rc = runProperty(p, thorough, seed, cases, keep);
        }
    } else if (cmd == "replay" && !ids.empty()) rc = replayFile(ids[0]);
    else fprintf(stderr, "usage: run ID [--thorough] [--cases N] [--seed S] | replay FILE | list\n");
    if (getenv("VP_KEEP")) printf("scratch kept: %s\n", g_scratch.c_str());
    else removeTree(g_scratch);
    return rc;
}
