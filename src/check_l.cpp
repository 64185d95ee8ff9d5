// Properties L01-L03: the header library, called from compiled programs.
#include "ctools.h"
#include <sys/stat.h>
#include <unistd.h>

// A driver interprets a stream of operations read from IN.BIN; the harness executes the
// same operations on its own model and compares results, memory, console and files.
static const char DRIVER[] = R"C(
#include "lib.h"

enum { ARENA = 3000 };
enum { NARG = 6 };

int fin;
int fout;
int Zeros[40];
char Guard0[16];
char arena[ARENA];
char Guard1[16];
char buf[4];
int Handles[8];
int args[NARG];
char LastZero[20];

int In(void)
{
    if (read(fin, buf, 2) != 2) exit(77);
    return (buf[0] & 0xff) | (buf[1] << 8);
}

void Out(int v)
{
    buf[0] = (char)v;
    buf[1] = (char)(v >> 8);
    if (write(fout, buf, 2) != 2) exit(78);
}

void GetArgs(void)
{
    int i;
    for (i = 0; i < NARG; ++i) {
        const int t = In();
        const int v = In();
        args[i] = t ? (int)(arena + v) : v;
    }
}

int VS(char* dest, const char* format, ...)
{
    va_list vl;
    va_start(vl, format);
    char* e = vsprintf(dest, format, vl);
    va_end(vl);
    return e - arena;
}

int Sign(int v)
{
    if (v < 0) return -1;
    return v > 0;
}

void Finish(void)
{
    int i;
    int bad = 0;
    for (i = 0; i < 16; ++i) {
        if (Guard0[i] != 0x11) bad = 1;
        if (Guard1[i] != 0x22) bad = 1;
    }
    Out(bad);
    write(fout, arena, ARENA);
    close(fout);
    close(fin);
}

int Deep(int v, int n)
{
    char pad[3];
    pad[1] = (char)n;
    if (n & 1) {
        int more = n;
        return Deep(v, n - 1) + more + 1 - pad[1];
    }
    if (n) return Deep(v, n - 1) + 1;
    assert(v);
    return pad[1];
}

int main(int argc, char** argv)
{
    int i;
    int local1 = 0x1234;
    int bss = 0;
    for (i = 0; i < 40; ++i) bss |= Zeros[i];
    for (i = 0; i < ARENA; ++i) bss |= arena[i];
    for (i = 0; i < 20; ++i) bss |= LastZero[i];
    for (i = 0; i < 16; ++i) {
        bss |= Guard0[i] | Guard1[i];
        Guard0[i] = 0x11;
        Guard1[i] = 0x22;
    }
    bss |= fin | fout | buf[0] | Handles[0] | Handles[7] | args[0] | args[5];
    fin = open("IN.BIN", O_RDONLY | O_BINARY);
    fout = open("OUT.BIN", O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, 0600);
    Out(bss);
    const int ds = GetDS();
    for (;;) {
        const int op = In();
        const int a = In();
        const int b = In();
        const int c = In();
        char* pa = arena + a;
        char* pb = arena + b;
        int local2 = 0x5678;
        switch (op) {
        case 0: Finish(); return a;
        case 1: memcpy(pa, pb, c); break;
        case 2: memset(pa, b, c); break;
        case 3: strcpy(pa, pb); break;
        case 4: Out(Sign(strcmp(pa, pb))); break;
        case 5: Out(strlen(pa)); break;
        case 6: Out(FarPeek(ds + c, (int)pa - c*16)); break;
        case 7: FarPoke(ds + c, (int)pa - c*16, b); break;
        case 8: Out(CopyStr(pa, pb) - arena); break;
        case 9: GetArgs(); sprintf(pa, pb, args[0], args[1], args[2], args[3], args[4], args[5]); break;
        case 10: GetArgs(); printf(pb, args[0], args[1], args[2], args[3], args[4], args[5]); break;
        case 11: puts(pa); break;
        case 12: putchar(a); break;
        case 13: PutStr(pa); break;
        case 14: GetArgs(); Out(VS(pa, pb, args[0], args[1], args[2], args[3], args[4], args[5])); break;
        case 15: raw_putchar(a); break;
        case 16:
            if (b) Handles[c] = open(pa, O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, 0600);
            else Handles[c] = open(pa, O_RDONLY | O_BINARY);
            Out(Handles[c] < 0);
            break;
        case 17: Out(read(Handles[a], pb, c)); break;
        case 18: Out(write(Handles[a], pb, c)); break;
        case 19: close(Handles[a]); break;
        case 20: if (Deep(a, b) != b) exit(81); break;
        case 21: Finish(); exit(a); break;
        case 22: FarPoke(0, 0x46C, a); FarPoke(0, 0x46D, b); Out(clock()); break;
        case 23: { int ax = a; int r = DosCall(&ax, b, 0, pa); Out(r); Out(ax); break; }
        case 24: read(fin, pa, b); break;
        case 25:
            Out(argc);
            for (i = 1; i < argc; ++i) {
                Out(strlen(argv[i]));
                write(fout, argv[i], strlen(argv[i]));
            }
            Out(argv[argc] == 0);
            break;
        default: exit(79);
        }
        if (local1 != 0x1234 || local2 != 0x5678 || GetDS() != ds) exit(80);
    }
}
)C";
enum { ARENA = 3000, NARG = 6 };

static Bytes image() {
    static Bytes im; static bool done = false;
    if (done) return im;
    Str d = g_scratch + fmt("/lib%d", (int)getpid()); mkdir(d.c_str(), 0755);
    RunOpts o; o.cwd = d; o.cpuSec = 30;
    writeFile(d + "/lib.h", repoFile("lib.h")); writeFile(d + "/L.C", DRIVER);
    RunResult r = runTool({tool("scpp"), "L.C", "L.I"}, o);
    if (r.exitCode != 0) throw Failure{"a program that includes lib.h is rejected by the preprocessor: " + r.out.substr(0, 500)};
    r = runTool({tool("scc"), "L.I", "L.COM"}, o);
    if (r.exitCode != 0) throw Failure{"a program that includes lib.h is rejected by the compiler: " + r.out.substr(0, 500)};
    im = toBytes(readFile(d + "/L.COM")); done = true;
    return im;
}

// The model of a program run.
struct Model {
    Bytes a = Bytes(ARENA, 0);
    Str in, out = Str(2, 0), console, log;     // the first result: all globals were zero
    int exitCode = 0; bool ended = false, judgeTail = true;
    std::map<Str, Str> files;
    struct H { bool open = false, wr = false; Str name; size_t pos = 0; } h[8];
    static Str w(int v) { return Str(1, (char)v) + Str(1, (char)(v >> 8)); }
    void op(int o, int x, int y, int z) { in += w(o) + w(x) + w(y) + w(z); }
    void res(int v) { out += w(v); }
    void put(int at, const Str& s) { op(24, at, s.size(), 0); in += s; for (size_t i = 0; i < s.size(); ++i) a[at + i] = s[i]; }
    Str str(int at) const { Str r; while (at < ARENA && a[at]) r += (char)a[at++]; return r; }
    void store(int at, const Str& s) { for (size_t i = 0; i < s.size(); ++i) a[at + i] = s[i]; a[at + s.size()] = 0; }
    void echo(const Str& s) { for (char c : s) { if (c == '\n') console += '\r'; console += c; } }
    void finish() { res(0); out += toStr(a); ended = true; }
};
static void runAndCompare(Ctx& c, Model& m, const Str& tail, uint64_t seed) {
    if (!m.ended) { m.op(0, m.exitCode, 0, 0); m.finish(); }
    std::map<Str, Bytes> fs; fs["IN.BIN"] = toBytes(m.in);
    c.note("ops.txt", m.log); c.note("tail.txt", tail);
    static std::map<Str, Str> none;
    std::map<Str, Bytes> before; for (auto& f : m.files) before[f.first] = toBytes(f.second);
    (void)before;
    DosRun d;
    { auto start = fs; for (auto& f : m.files) if (f.first.substr(0, 1) == "!") start[f.first.substr(1)] = toBytes(f.second); d = runDos(image(), start, tail, 30000000, seed, !m.judgeTail); }
    if (d.stop != Ref86::EXITED) c.fail(fmt("the program stops: %s (%s)\n%s\n%s", stopName(d.stop), d.why.c_str(), d.state.c_str(), d.console.substr(0, 400).c_str()));
    if (!m.judgeTail) { Str e = backtraceError(d, 1000); if (!e.empty()) c.fail(e); }
    Str out = toStr(d.files["OUT.BIN"]);
    if (d.exitCode != (m.exitCode & 0xff) || (m.judgeTail && out != m.out)) {
        c.note("console.txt", d.console);
        size_t i = 0; while (i < out.size() && i < m.out.size() && out[i] == m.out[i]) ++i;
        Str where = i + ARENA >= m.out.size() && m.out.size() > ARENA ? fmt("arena offset %d", (int)(i - (m.out.size() - ARENA))) : fmt("offset %zu", i);
        c.fail(fmt("results differ at %s (%zu bytes expected, %zu got); exit code %d, expected %d\nexpected: %s\ngot:      %s", where.c_str(), m.out.size(), out.size(), d.exitCode, m.exitCode & 0xff,
            [&] { Str r; for (size_t k = i > 8 ? i - 8 : 0; k < i + 24 && k < m.out.size(); ++k) r += fmt("%02X ", (uint8_t)m.out[k]); return r; }().c_str(),
            [&] { Str r; for (size_t k = i > 8 ? i - 8 : 0; k < i + 24 && k < out.size(); ++k) r += fmt("%02X ", (uint8_t)out[k]); return r; }().c_str()));
    }
    if (m.judgeTail ? d.console != m.console : d.console.compare(0, m.console.size(), m.console) != 0) {
        size_t i = 0; while (i < d.console.size() && i < m.console.size() && d.console[i] == m.console[i]) ++i;
        c.note("console.txt", d.console); c.note("expected.txt", m.console);
        c.fail(fmt("console output differs at offset %zu: expected \"%s\", got \"%s\"", i, m.console.substr(i > 20 ? i - 20 : 0, 60).c_str(), d.console.substr(i > 20 ? i - 20 : 0, 60).c_str()));
    }
    for (auto& f : m.files) if (f.first[0] != '!') {
        if (!d.files.count(f.first)) c.fail("file " + f.first + " does not exist afterwards");
        if (toStr(d.files[f.first]) != f.second) c.fail(fmt("file %s has the wrong contents (%zu bytes, expected %zu)", f.first.c_str(), d.files[f.first].size(), f.second.size()));
    }
    for (auto& f : d.files) if (f.first != "IN.BIN" && f.first != "OUT.BIN" && !m.files.count(f.first) && !m.files.count("!" + f.first)) c.fail("an unexpected file " + f.first + " is created");
}
static Str randomText(Src& s, int max) {
    int n = s.below(s.chance(20) ? max + 1 : std::min(max, 12) + 1); Str r;
    int mode = s.below(3);
    for (int i = 0; i < n; ++i) r += mode == 0 ? (char)('a' + s.below(3)) : mode == 1 ? (char)(' ' + s.below(95)) : (char)(1 + s.below(255));
    return r;
}

// --- L01 ---------------------------------------------------------------------
static Reg l1({"L01", "Sequences of up to 25 calls of memcpy, memset, strcpy, CopyStr, strcmp, strlen, FarPeek, FarPoke and clock on random, overlapping-free ranges of a 3000-byte array (all byte values, lengths 0 to 1000, odd and even addresses, several segment:offset spellings of one address) by a compiled program; every result, the whole array, guard bytes around it, locals and DS must be as the C definitions say. Non-trivial: at least three calls.",
    60000, 2500000, [](Src& s, Ctx& c) {
        Model m; int n = 1 + s.below(25);
        { Str init; int k = s.below(ARENA); for (int i = 0; i < k; ++i) init += s.chance(20) ? '\0' : (char)s.below(256); m.put(0, init); }
        // a zero byte ends every string
        int calls = 0;
        for (int i = 0; i < n; ++i) {
            int x = s.below(ARENA - 1), y = s.below(ARENA - 1);
            if (s.chance(30)) y = std::min<int>(ARENA - 2, x + s.below(8));
            int len = s.chance(10) ? 0 : s.chance(60) ? s.below(20) : s.below(1000);
            switch (s.below(9)) {
            case 0: {
                len = std::min(len, std::min(ARENA - 1 - x, ARENA - 1 - y));
                if (x < y ? x + len > y : y + len > x) len = std::abs(x - y);
                m.log += fmt("memcpy(%d, %d, %d)\n", x, y, len); m.op(1, x, y, len);
                for (int k = 0; k < len; ++k) m.a[x + k] = m.a[y + k];
                break; }
            case 1: { len = std::min(len, ARENA - 1 - x); int v = s.i16(); m.log += fmt("memset(%d, %d, %d)\n", x, v, len); m.op(2, x, v, len); for (int k = 0; k < len; ++k) m.a[x + k] = (uint8_t)v; break; }
            case 2: case 8: {
                Str t = m.str(y); int l = t.size() + 1; bool copy = s.coin();
                if (x + l > ARENA - 1 || (x < y ? x + l > y : y + l > x)) break;
                m.log += fmt("%s(%d, %d)\n", copy ? "CopyStr" : "strcpy", x, y); m.op(copy ? 8 : 3, x, y, 0); m.store(x, t); if (copy) m.res(x + t.size());
                break; }
            case 3: {
                if (s.chance(60)) { // related strings
                    Str t = randomText(s, 60), u = t;
                    if (s.chance(70) && !u.empty()) u[s.below(u.size())] = (char)(1 + s.below(255));
                    if (s.chance(30)) u.resize(s.below(u.size() + 1));
                    if (s.chance(20)) u += (char)(1 + s.below(255));
                    x = s.below(1000); y = 1500 + s.below(1000);
                    m.put(x, t + Str(1, '\0')); m.put(y, u + Str(1, '\0'));
                }
                Str t = m.str(x), u = m.str(y); int r = t < u ? -1 : t > u ? 1 : 0;
                size_t k = 0; while (k < t.size() && k < u.size() && t[k] == u[k]) ++k;
                unsigned p = k < t.size() ? (unsigned char)t[k] : 0, q = k < u.size() ? (unsigned char)u[k] : 0; r = p < q ? -1 : p > q ? 1 : 0;
                m.log += fmt("strcmp(%d, %d) = %d\n", x, y, r); m.op(4, x, y, 0); m.res(r); c.label(r ? "strcmp differs" : "strcmp equal");
                break; }
            case 4: m.log += fmt("strlen(%d) = %zu\n", x, m.str(x).size()); m.op(5, x, 0, 0); m.res(m.str(x).size()); break;
            case 5: { int k = s.coin() ? 0 : s.range(-0x40, 0x40); m.log += fmt("FarPeek(ds%+d, %d) = %d\n", k, x, m.a[x]); m.op(6, x, 0, k); m.res(m.a[x]); break; }
            case 6: { int k = s.coin() ? 0 : s.range(-0x40, 0x40), v = s.i16(); m.log += fmt("FarPoke(ds%+d, %d, %d)\n", k, x, v); m.op(7, x, v, k); m.a[x] = (uint8_t)v; break; }
            default: { int v = s.i16(); m.log += "clock\n"; m.op(22, v & 0xff, v >> 8 & 0xff, 0); m.res(v); break; }
            }
            ++calls;
        }
        runAndCompare(c, m, "", 1 + s.recorded().size());
        if (calls >= 3) c.nontrivial(hashStr(m.in));
        c.label("calls", calls);
        c.sample(m.log);
    }, {"memcpy and strcpy ranges do not overlap, as C requires"}, nullptr});

// --- L02 ---------------------------------------------------------------------
struct Fmt { Str text, result; std::vector<std::pair<int, int>> args; };
static Str pad(const Str& v, int width, char fill) { Str r = v; while ((int)r.size() < width) r = Str(1, fill) + r; return r; }
// One format string, its arguments and what C says it gives. Strings are placed at strAt.
static Fmt genFormat(Src& s, Model& m, int strAt, int maxLen, Ctx& c) {
    Fmt f; int n = s.below(7);
    for (int i = 0; i <= n; ++i) {
        Str lit = s.chance(30) ? randomText(s, 10) : s.coin() ? " " : s.chance(30) ? "\n" : "";
        for (char ch : lit) if (ch == '%') { f.text += "%%"; f.result += '%'; } else { f.text += ch; f.result += ch; }
        if (i == n || (int)f.args.size() >= NARG) break;
        Str sp = "%", v; int w = s.chance(45) ? 1 + s.below(s.chance(20) ? 25 : 8) : 0;
        switch (s.weighted({40, 20, 10, 10, 5})) {
        case 0: {
            int x = (int16_t)s.i16(); bool plus = s.chance(25), zero = w && s.chance(50);
            if (plus) sp += "+";
            if (zero) sp += "0";
            if (w) sp += fmt("%d", w);
            sp += "d";
            Str dg = fmt("%d", abs(x)), sg = x < 0 ? "-" : plus ? "+" : "";
            v = zero ? sg + pad(dg, w - (int)sg.size(), '0') : pad(sg + dg, w, ' ');
            f.args.push_back({0, x}); c.label(plus ? "%+d" : zero ? "%0Nd" : w ? "%Nd" : "%d");
            break; }
        case 1: {
            int x = (uint16_t)s.i16(); bool zero = w && s.chance(70), up = s.coin();
            if (zero) sp += "0";
            if (w) sp += fmt("%d", w);
            sp += up ? "X" : "x";
            v = pad(fmt(up ? "%X" : "%x", x), w, zero ? '0' : ' ');
            f.args.push_back({0, x}); c.label(zero ? "%0Nx" : w ? "%Nx" : "%x");
            break; }
        case 2: {
            Str t = randomText(s, 30); m.put(strAt, t + Str(1, '\0'));
            if (w) sp += fmt("%d", w);
            sp += "s"; v = pad(t, w, ' ');
            f.args.push_back({1, strAt}); strAt += t.size() + 1; c.label(w ? "%Ns" : "%s");
            break; }
        case 3: { int x = 1 + s.below(255); if (w) sp += fmt("%d", w); sp += "c"; v = pad(Str(1, (char)x), w, ' '); f.args.push_back({0, s.coin() ? x : x | 0x4100}); c.label(w ? "%Nc" : "%c"); break; }
        default: sp += "%"; v = "%"; c.label("%%");
        }
        if ((int)(f.result.size() + v.size()) > maxLen - 12) { if (sp != "%%" ) f.args.pop_back(); break; }
        f.text += sp; f.result += v;
    }
    while ((int)f.args.size() < NARG) f.args.push_back({0, s.i16()});
    return f;
}
static Reg l2({"L02", "Up to 6 calls of sprintf, vsprintf, printf, puts, PutStr, putchar and raw_putchar in a compiled program, with formats of up to 6 conversions (%d with +, 0 and width, %x, %X, %s, %c with width, %%) between random literal text and boundary-weighted argument values; the stored text, the returned end, everything around it and the console bytes must be what C prescribes. Non-trivial: at least one conversion.",
    60000, 2500000, [](Src& s, Ctx& c) {
        Model m; int n = 1 + s.below(6), conv = 0;
        { Str init; for (int i = 0; i < 200; ++i) init += (char)(s.below(255) + 1); m.put(1000, init); }
        for (int i = 0; i < n; ++i) {
            int k = s.weighted({40, 15, 30, 6, 6, 4, 3});
            if (k <= 2) {
                Fmt f = genFormat(s, m, 2000, 250, c);
                int fa = 100 + s.below(50), at = 1000 + s.below(60);
                m.put(fa, f.text + Str(1, '\0'));
                m.op(k == 0 ? 9 : k == 1 ? 14 : 10, at, fa, 0);
                for (auto& a : f.args) { m.in += Model::w(a.first) + Model::w(a.second); if (!a.first) {} }
                m.log += Str(k == 0 ? "sprintf" : k == 1 ? "vsprintf" : "printf") + " \"" + f.text + "\"";
                for (auto& a : f.args) m.log += a.first ? " \"" + m.str(a.second) + "\"" : fmt(" %d", a.second);
                m.log += " -> \"" + f.result + "\"\n";
                for (size_t p = 0; p + 1 < f.text.size(); ++p) if (f.text[p] == '%') { ++conv; ++p; }
                if (k < 2) m.store(at, f.result);
                if (k == 1) m.res(at + f.result.size());
                if (k == 2) m.echo(f.result);
            } else if (k == 3 || k == 4) {
                Str t = randomText(s, 300); m.put(500, t + Str(1, '\0'));
                m.op(k == 3 ? 11 : 13, 500, 0, 0); m.echo(t); if (k == 3) m.echo("\n");
                m.log += "puts/PutStr\n";
            } else { int ch = s.chance(30) ? '\n' : 1 + s.below(255); m.op(k == 5 ? 12 : 15, ch, 0, 0); if (k == 5) m.echo(Str(1, (char)ch)); else m.console += (char)ch; m.log += fmt("putchar %d\n", ch); }
        }
        runAndCompare(c, m, "", 1 + s.recorded().size());
        if (conv) c.nontrivial(hashStr(m.in));
        c.sample(m.log);
    }, {"printf output of one call has at most 250 characters, the size of the library's buffer"}, nullptr});

// --- L03 ---------------------------------------------------------------------
static Str genTail(Src& s, std::vector<Str>& words) {
    Str t; int n = s.weighted({10, 20, 20, 20, 10, 10, 5});
    if (n == 6) n = s.below(64);
    bool lead = s.chance(90);
    for (int i = 0; i < n; ++i) {
        int k = s.weighted({70, 15, 10});
        Str sp = i || lead ? k == 0 ? Str(" ") : k == 1 ? Str(1 + s.below(4), ' ') : Str("\t") : Str();
        Str w; int len = 1 + s.below(s.chance(15) ? 40 : 5); bool wild = s.chance(20);
        for (int j = 0; j < len; ++j) w += wild ? (char)('!' + s.below(223)) : (char)('a' + s.below(26));
        if (t.size() + sp.size() + w.size() > 126) break;
        t += sp + w; words.push_back(w);
    }
    if (s.chance(15)) t += Str(s.below(127 - t.size()), ' ');
    return t;
}
static Reg l3({"L03", "Command tails of 0 to 63 words (any characters above the blank, several blanks and tabs, up to 126 characters), random memory contents at program start, and histories of up to 25 open, create, read, write and close calls on existing, missing and new files with sizes up to 1000 bytes and several handles on one file, raw DOS calls, ended by a return value, an exit call or a failed assertion; argc, argv, zeroed globals, call results, data read, file contents, console and exit code must be those of a model of the services. Non-trivial: at least one file operation or argument.",
    60000, 2500000, [](Src& s, Ctx& c) {
        Model m; std::vector<Str> words; Str tail = genTail(s, words);
        m.op(25, 0, 0, 0); m.res(words.size() + 1);
        for (auto& w : words) { m.res(w.size()); m.out += w; }
        m.res(1);
        static const char* names[] = {"A.TXT", "B", "LONGNAME.DAT", "new.x", "Z9"};
        // initial files
        std::map<Str, Str> fs;
        for (int i = 0; i < 3; ++i) if (s.chance(70)) { Str d; int n = s.chance(20) ? 0 : s.below(s.chance(30) ? 1000 : 40); for (int k = 0; k < n; ++k) d += (char)s.below(256); fs[names[i]] = d; m.files[Str("!") + names[i]] = d; }
        int n = s.below(25), ops = 0; bool isOpen[8] = {};
        for (int i = 0; i < 5; ++i) m.put(10 + i * 20, Str(names[i]) + Str(1, '\0'));
        m.put(200, "DIR/X" + Str(1, '\0'));
        { Str d; for (int i = 0; i < 300; ++i) d += (char)s.below(256); m.put(1000, d); }
        for (int i = 0; i < n; ++i) {
            int k = s.weighted({35, 30, 30, 12, 6}), hd = s.below(4);
            if (k == 0) {
                if (isOpen[hd]) continue;
                int f = s.below(6); bool wr = s.chance(40);
                m.op(16, f == 5 ? 200 : 10 + f * 20, wr, hd);
                bool okay = f < 5 && (wr || fs.count(names[f]));
                m.res(!okay); m.log += fmt("open %s %s slot %d: %s\n", f < 5 ? names[f] : "DIR/X", wr ? "w" : "r", hd, okay ? "ok" : "fails");
                c.label(okay ? wr ? "create" : "open" : "failing open");
                if (okay) { isOpen[hd] = true; m.h[hd] = {true, wr, names[f], 0}; if (wr) fs[names[f]].clear(); }
            } else if (k == 1) {
                int cnt = s.chance(10) ? 0 : s.chance(70) ? s.below(50) : s.below(1500), at = 1000 + s.below(400);
                if (!isOpen[hd] || m.h[hd].wr) continue;
                m.op(17, hd, at, cnt);
                Str& d = fs[m.h[hd].name]; size_t p = m.h[hd].pos, got = p < d.size() ? std::min<size_t>(cnt, d.size() - p) : 0;
                for (size_t q = 0; q < got; ++q) m.a[at + q] = d[p + q];
                m.h[hd].pos += got; m.res(got); m.log += fmt("read slot %d at %d count %d: %zu\n", hd, at, cnt, got);
                c.label(got == (size_t)cnt ? "full read" : got ? "short read" : "read at end");
            } else if (k == 2) {
                int cnt = s.chance(70) ? 1 + s.below(50) : 1 + s.below(1500), at = 1000 + s.below(400);
                if (!isOpen[hd]) continue;
                if (!m.h[hd].wr) continue;
                m.op(18, hd, at, cnt);
                Str& d = fs[m.h[hd].name]; size_t p = m.h[hd].pos; if (d.size() < p + cnt) d.resize(p + cnt);
                for (int q = 0; q < cnt; ++q) d[p + q] = (char)m.a[at + q];
                m.h[hd].pos += cnt; m.res(cnt); m.log += fmt("write slot %d at %d count %d\n", hd, at, cnt); c.label("write");
            } else if (k == 3) {
                if (!isOpen[hd]) continue;
                m.op(19, hd, 0, 0); isOpen[hd] = false; m.log += fmt("close slot %d\n", hd);
            } else {
                // a bad handle and the version call, directly
                if (s.coin()) { m.op(23, 200, 0x77, 0); m.in.replace(m.in.size() - 6, 2, Model::w(0x3e00)); m.res(-1); m.res(6); m.log += "DosCall close 77h\n"; }
                else { m.op(23, 0x3000, 0, 0); m.res(0); m.res(3); m.log += "DosCall version\n"; }
            }
            ++ops;
        }
        int code = s.chance(30) ? s.i16() & 0xffff : s.below(256);
        int end = s.below(3); m.exitCode = code;
        if (end == 0) { m.op(0, code, 0, 0); m.finish(); m.log += fmt("return %d\n", code); }
        else if (end == 1) { m.op(21, code, 0, 0); m.finish(); m.log += fmt("exit(%d)\n", code); }
        else { int v = s.chance(30) ? 0 : s.i16(); int dep = s.below(s.chance(10) ? 60 : 5); m.op(20, v, dep, 0); m.log += fmt("assert(%d) at depth %d\n", v, dep); if (v) { m.op(0, code, 0, 0); m.finish(); } else { m.exitCode = 1; m.ended = true; m.judgeTail = false; m.console = "Assertion failed\r\n"; } }
        c.label(end == 0 ? "return" : end == 1 ? "exit" : m.judgeTail ? "assert holds" : "assert fails");
        for (auto& f : fs) m.files[f.first] = f.second;
        runAndCompare(c, m, tail, 1 + s.recorded().size() * 7 + s.below(1000));
        if (ops || words.size()) c.nontrivial(hashStr(m.in + tail));
        c.label("words", words.size());
        c.sample("tail \"" + tail + "\"\n" + m.log);
    }, {"open is used with the two flag combinations that DOS 2 offers: read an existing file, or create or truncate one for writing", "the program name is not part of the arguments"}, nullptr});

int main(int argc, char** argv) {
    g_needTools = {"scpp", "scc"};
    return pbtMain(argc, argv);
}
