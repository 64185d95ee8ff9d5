// Properties S01-S06: the simulator.
#include "asmtool.h"
#include "simgen.h"
#include "ctools.h"
#include <algorithm>
#include <memory>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
enum { AX, CX, DX, BX, SP, BP, SI, DI };
enum { ES, CS, SS, DS };
typedef Ref86 R;

struct Sim { int exitCode = 0, sig = 0; bool timeout = false; Str out; std::map<Str, Bytes> files; };
static std::set<Str> listDir(const Str& d) {
    std::set<Str> r; DIR* p = opendir(d.c_str());
    if (p) { while (dirent* e = readdir(p)) { Str n = e->d_name; if (n != "." && n != "..") r.insert(n); } closedir(p); }
    return r;
}
// Run the simulator in an otherwise empty directory holding T.COM and the given files.
static Sim simulate(Ctx& c, const std::vector<Str>& opts, const Bytes& image, const std::map<Str, Bytes>& files, const std::vector<Str>& args, bool asan = false, int cpu = 10) {
    Str d = c.dir + "/sim";
    mkdir(d.c_str(), 0755);
    for (auto& n : listDir(d)) unlink((d + "/" + n).c_str());
    writeFile(d + "/T.COM", toStr(image));
    for (auto& f : files) writeFile(d + "/" + f.first, toStr(f.second));
    std::vector<Str> av = {asan ? toolAsan("sim86") : tool("sim86")};
    for (auto& o : opts) av.push_back(o);
    av.push_back("T.COM");
    for (auto& a : args) av.push_back(a);
    RunOpts o; o.cwd = d; o.cpuSec = cpu; o.noAsLimit = asan; o.anyExit = true; o.maxOut = 64u << 20;
    RunResult r = runTool(av, o);
    Sim s; s.exitCode = r.exitCode; s.sig = r.sig; s.timeout = r.timeout; s.out = r.out;
    for (auto& n : listDir(d)) if (n != "T.COM" && n != "T.map") s.files[n] = toBytes(readFile(d + "/" + n));
    for (auto& n : listDir(d)) unlink((d + "/" + n).c_str());
    return s;
}
static Str hexOf(const Bytes& b, size_t max = 4000) { Str h; for (size_t i = 0; i < b.size() && i < max; ++i) h += fmt("%02X%c", b[i], i % 16 == 15 ? '\n' : ' '); return h; }
static void compareFiles(Ctx& c, const std::map<Str, Bytes>& want, const std::map<Str, Bytes>& got, const Str& what) {
    for (auto& f : want) {
        auto it = got.find(f.first);
        if (it == got.end()) c.fail(what + "file " + f.first + " is missing");
        if (it->second == f.second) continue;
        const Bytes &a = f.second, &b = it->second; size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
        c.note("expected " + f.first, hexOf(a)); c.note("got " + f.first, hexOf(b));
        if (i < a.size() && i < b.size()) c.fail(what + fmt("file %s differs at offset %zu: expected %02X, got %02X", f.first.c_str(), i, a[i], b[i]));
        c.fail(what + fmt("file %s has %zu bytes, expected %zu", f.first.c_str(), b.size(), a.size()));
    }
    for (auto& f : got) if (!want.count(f.first)) c.fail(what + "unexpected file " + f.first);
}
static Str tailOf(const std::vector<Str>& args) { Str t; for (auto& a : args) t += " " + a; return t; }
static void compareRun(Ctx& c, const SimExpect& e, const Sim& g, const Str& what = "") {
    if (g.timeout) c.fail(what + "the simulator does not terminate");
    if (g.sig) c.fail(what + fmt("the simulator stops with signal %d: %s", g.sig, g.out.substr(0, 500).c_str()));
    if (g.exitCode != e.exitCode || !g.files.count("OUT.BIN")) {
        c.note("output", g.out.substr(0, 3000));
        if (g.exitCode == 1 && !g.files.count("OUT.BIN")) c.fail(what + "the simulation stops: " + g.out.substr(0, 400));
        if (g.exitCode != e.exitCode) c.fail(what + fmt("exit code %d, expected %d; output: %s", g.exitCode, e.exitCode, g.out.substr(0, 300).c_str()));
    }
    compareFiles(c, e.files, g.files, what);
}
static SimExpect expectation(const Bytes& im, const std::map<Str, Bytes>& files, const Str& tail) {
    SimExpect e = expectRun(im, files, tail);
    if (!e.ok) throw Failure{"generator: reference run fails: " + e.why};
    return e;
}
static void labels(Ctx& c, const SimGen& g) { for (auto& f : g.feat) c.label(f.first, f.second); }

static void arithmetic(Src& s, Ctx& c, const SimOpts& o) {
    SimOpts o2 = o;
    if (s.chance(6)) { o2.pad = 0x7000 + s.below(0x8f00); c.label("large image"); }
    SimGen g(s, o2);
    g.run();
    c.note("T.COM", hexOf(g.im));
    SimExpect e = expectation(g.im, {}, "");
    Sim r = simulate(c, {}, g.im, {}, {});
    compareRun(c, e, r);
    if (r.out != e.console) c.fail("unexpected output: " + r.out.substr(0, 300));
    labels(c, g);
    c.nontrivial(hash64(g.im.data(), g.im.size()));
    if (g.im.size() < 700) c.sample(hexOf(Bytes(g.im.begin() + 0x120, g.im.end())));
}
static const Str REFA = "the reference 8086 model (src/ref86.cpp) is right";
static Reg r1({"S01", "Machine-code programs of up to 40 elements, mostly arithmetic, logic, shifts, multiplication, division, increments, extensions and moves with every operand form, are grown while the reference 8086 executes them; registers, memory operands and the outcome of every conditional jump whose flags are defined are logged to a file, which must equal the one the reference writes. Non-trivial: every program (each logs the registers and flags at least once).",
    25000, 1200000, [](Src& s, Ctx& c) { SimOpts o; o.n = 40; arithmetic(s, c, o); },
    {REFA, "products are compared in the low 16 bits only, flags after multiplication and division are not read, dividends fit 16 bits, OF after multi-bit shifts is not read"}, nullptr});
static Reg r2({"S02", "As S01 with the weight on addressing modes, segment registers and overrides, stack operations, calls, jumps in both directions, loops and (repeated) string instructions, including offsets and stack pointers that wrap at 64 KiB and segments anywhere in the first MiB; the touched locations are read back and compared. Non-trivial: every program.",
    25000, 1200000, [](Src& s, Ctx& c) { SimOpts o; o.n = 30; o.wArith = 12; o.wMove = 30; o.wStack = 14; o.wString = 16; o.wJump = 12; o.wLoop = 4; o.wCall = 6; o.wSeg = 10; o.pLog = 35; arithmetic(s, c, o); },
    {REFA, "PUSH SP is not generated (the pushed value differs between processors)", "the direction flag is always clear: the simulator has no instruction to set it"}, nullptr});

// --- DOS calls -------------------------------------------------------------
struct DosGen {
    SimGen& g; Src& s; Ctx& c;
    bool errors = true;                   // calls that must fail
    bool handle1 = true;
    enum { HND = 0x5F00, BUF = SimGen::STRS, NS = 10 };
    struct Slot { bool open = false, wr = false; int h = 0; Str name; size_t pos = 0; } sl[NS];
    std::map<Str, Bytes> files;           // before the run
    std::vector<Str> names;
    std::map<Str, int> nameAt;
    size_t hostBytes = 0;
    DosGen(SimGen& g_, Src& s_, Ctx& c_) : g(g_), s(s_), c(c_) {}
    void inputs() {
        int n = 1 + s.below(3);
        for (int i = 0; i < n; ++i) {
            size_t len = s.chance(12) ? 0 : s.chance(8) ? 30000 + s.below(40000) : s.below(600);
            Bytes b(len); uint32_t x = s.below(65536) * 2 + 1;
            for (auto& v : b) { x = x * 1103515245u + 12345; v = x >> 16; }
            Str nm = fmt("IN%d.DAT", i);
            files[nm] = b; names.push_back(nm);
        }
        static const char* other[] = {"A", "OUT2", "LOWER.txt", "NOEXT", "a.b.c", "with space", "X1234567890", "%s%d"};
        int k = 1 + s.below(4);
        for (int i = 0; i < k; ++i) names.push_back(other[s.below(8)]);
        if (s.chance(15)) names.push_back(Str(1 + s.below(110), 'n'));
        g.m.files = files;
    }
    int place(const Str& n) {             // address of a name in the program
        auto it = nameAt.find(n);
        if (it != nameAt.end() && s.chance(70)) return it->second;
        g.putb(0xE9); g.putw((int)n.size() + 1); g.go();
        int a = g.here();
        for (char ch : n) g.putb((uint8_t)ch);
        g.putb(0);
        g.m.ip = g.here();
        return nameAt[n] = a;
    }
    // DS:DX = location in the program's segment, possibly through another segment value
    void dsdx(int off) {
        static const int dl[] = {0, 0, 0, 0, 1, 3, 0x10, 0x1F};
        int d = dl[s.below(8)];
        if (d * 16 > off) d = 0;
        if (g.m.s[DS] != (uint16_t)(g.base + d)) g.setSeg(DS, d);
        g.setReg(DX, off - d * 16);
    }
    void call(int ah) {
        if (s.coin()) { g.putb(0xB4); g.putb(ah); g.go(); } else g.movi(AX, ah << 8 | (ah == 0x3D ? 0 : s.below(256)));
        if (ah == 0x3D) { g.putb(0xB0); g.putb(0); g.go(); }
        if (s.chance(30)) { g.def = R::CF | R::ZF | R::SF | R::OF; bool al = ah != 0x3D; g.put({al ? 0x3C : 0x80}); if (!al) g.putb(0xFA); g.putb(s.below(256)); g.go(); }   // some flags: cmp al / cmp dl
        g.put({0xCD, 0x21}); g.go();
        if (ah >= 0x3C) g.def |= R::CF;
    }
    void logAX() { g.putb(0x2E); g.putb(0xA3); g.putw(g.log); g.log += 2; g.go(); }
    void result(bool ax) { if (ax) logAX(); g.logFlags(); }
    int slot(int want) { std::vector<int> v; for (int i = 0; i < NS; ++i) if (want == 0 ? !sl[i].open : sl[i].open && (want == 3 || sl[i].wr == (want == 2))) v.push_back(i); return v.empty() ? -1 : v[s.below(v.size())]; }
    void bxSlot(int i) { g.putb(0x2E); g.put({0x8B, 0x1E}); g.putw(HND + 2 * i); g.go(); }
    void elem() { elem1(); g.movi(BX, g.val(true)); }   // no handle left in BX
    void elem1() {
        std::map<Str, Bytes>& fs = g.m.files;
        switch (s.weighted({16, 16, 22, 22, 12, 14, handle1 ? 10 : 0, errors ? 8 : 0, errors ? 5 : 0, errors ? 5 : 0, 10})) {
        case 0: case 1: {                 // open / create
            bool create = s.coin();
            int i = slot(0); if (i < 0) return;
            Str n = s.chance(10) ? "MISSING" : s.pick(names);
            if (errors && s.chance(8)) n = "NODIR/X";
            if (!create && !fs.count(n) && !errors) return;
            // a file that is open twice, with truncation in between, is unspecified ground
            for (auto& x : sl) if (x.open && x.name == n && (create || x.wr)) return;
            int a = place(n);
            dsdx(a); if (create) g.setReg(CX, 0);
            call(create ? 0x3C : 0x3D);
            bool ok = !(g.m.fl & R::CF);
            if (ok) {
                sl[i].open = true; sl[i].wr = create; sl[i].h = g.m.r[AX]; sl[i].name = n; sl[i].pos = 0;
                g.putb(0x2E); g.putb(0xA3); g.putw(HND + 2 * i); g.go(); g.logFlags();
                g.movi(AX, g.val(true));
                ++g.feat[create ? "create" : "open"];
            } else { result(n.find('/') == Str::npos); ++g.feat["open fails"]; }
            break; }
        case 2: {                         // read
            int i = slot(1); if (i < 0) return;
            bool far = s.chance(25);
            int n = s.chance(12) ? 0 : far ? (s.coin() ? 0xffff : (int)s.below(65536)) : (int)s.below(400), at = 0;
            if (far) { g.setSeg(DS, 0x1000); if (n > 0xff00 || s.coin()) g.setReg(DX, 0); else { at = (int)s.below(65536 - n); g.setReg(DX, at); } }
            else dsdx(BUF + s.below(0x600));
            bxSlot(i); g.setReg(CX, n);
            call(0x3F); result(true);
            ++g.feat["read"]; if (g.m.r[AX] == 0) ++g.feat["read at end of file"]; else if (g.m.r[AX] > 0x7fff) ++g.feat["large read"];
            g.feat["rep movs"];
            break; }
        case 3: {                         // write
            int i = slot(2); if (i < 0) return;
            bool far = s.chance(20);
            int n = s.chance(8) ? 0 : far ? (s.coin() ? 0x8000 + (int)s.below(0x8000) : (int)s.below(3000)) : (int)s.below(500);
            if (hostBytes + n > 400000) n = 1;
            hostBytes += n;
            if (far) { g.setSeg(DS, 0x1000); g.setReg(DX, n > 60000 ? 0 : (int)s.below(65536 - n)); }
            else dsdx(s.coin() ? BUF + s.below(0x600) : SimGen::DATA + s.below(0x100));
            bxSlot(i); g.setReg(CX, n);
            call(0x40); result(true);
            ++g.feat["write"]; if (n > 0x7fff) ++g.feat["large write"];
            break; }
        case 4: {                         // close
            int i = slot(3); if (i < 0) return;
            bxSlot(i); call(0x3E); g.logFlags(); sl[i].open = false; g.movi(AX, g.val(true)); ++g.feat["close"];
            break; }
        case 5: {                         // character output
            int n = 1 + s.below(8);
            for (int i = 0; i < n; ++i) { g.putb(0xB2); g.putb(s.chance(25) ? (int)s.below(256) : 32 + (int)s.below(95)); g.go(); if (s.coin()) { g.putb(0xB4); g.putb(2); g.go(); } else g.movi(AX, 0x0200 | s.below(256)); g.put({0xCD, 0x21}); g.go(); }
            ++g.feat["character output"];
            break; }
        case 6: {                         // write to the console
            int n = s.below(40);
            dsdx(SimGen::DATA + s.below(0xc0)); g.setReg(BX, 1 + s.below(2)); g.setReg(CX, n);
            call(0x40); result(true); ++g.feat["console write"];
            break; }
        case 7: {                         // bad handle
            bool rd = s.coin();
            dsdx(BUF); static const int hs[] = {0x1000, 0xffff, 0x8000, 0x7fff, 900}; g.setReg(BX, hs[s.below(5)]); g.setReg(CX, s.below(50));
            call(rd ? 0x3F : 0x40); result(true); ++g.feat["bad handle"];
            break; }
        case 8: {                         // write to a file opened for reading
            int i = slot(1); if (i < 0) return;
            dsdx(BUF); bxSlot(i); g.setReg(CX, 1 + s.below(50));
            call(0x40); g.logFlags(); g.movi(AX, g.val(true)); ++g.feat["write to a read-only handle"];
            break; }
        case 9: {                         // closed handle
            int i = slot(0); if (i < 0 || !sl[i].h) return;
            for (auto& x : sl) if (x.open && x.h == sl[i].h) return;
            bool rd = s.coin();
            dsdx(BUF); bxSlot(i); g.setReg(CX, 1 + s.below(50));
            call(rd ? 0x3F : 0x40); result(true); ++g.feat["closed handle"];
            break; }
        default: if (g.m.s[DS] != g.base) g.setSeg(DS, 0); g.arith(); if (s.coin()) g.logRegs();
        }
    }
    void run(int n) { for (int i = 0; i < n && g.room(); ++i) elem(); if (g.m.s[DS] != g.base) g.setSeg(DS, 0); g.movi(BX, 0); g.movi(DX, 0); }
};
static std::vector<Str> genArgs(Src& s) {
    std::vector<Str> a; int n = s.below(6);
    for (int i = 0; i < n; ++i) {
        Str t; int len = s.chance(10) ? 0 : s.chance(12) ? s.below(120) : s.below(9);
        for (int k = 0; k < len; ++k) t += s.chance(80) ? (char)('!' + s.below(94)) : s.chance(10) ? (char)(128 + s.below(128)) : ' ';
        a.push_back(t);
    }
    if (s.chance(20)) { Str t = tailOf(a); int want = 120 + s.below(10), have = (int)t.size(); if (want > have + 1) a.push_back(Str(want - have - 1, 'x')); }
    return a;
}
static Reg r3({"S03", "Programs that perform random histories of DOS calls (create, open, read, write, close, character and handle output, with counts from 0 to 65535, end-of-file reads, missing files, bad, closed and read-only handles, buffers in other segments) on random input files, interleaved with arithmetic, and exit by each of the ways DOS has; results, carry flags, the command tail, all files, console output and exit code must equal those of the reference DOS model. Command lines that do not fit must be refused. Non-trivial: every program.",
    25000, 600000, [](Src& s, Ctx& c) {
        SimOpts o;
        if (s.chance(10)) { o.pad = s.chance(60) ? 0x7d00 + s.below(0x500) : 0x7000 + s.below(0x8f00); c.label("large image"); }
        SimGen g(s, o);
        DosGen d(g, s, c); d.inputs();
        g.exitKind = s.below(3); g.copyTail = true;
        std::vector<Str> args = genArgs(s);
        d.run(1 + s.below(30));
        g.finish();
        c.note("T.COM", hexOf(g.im)); { Str t; for (auto& a : args) t += "[" + a + "]\n"; c.note("arguments", t); } for (auto& f : d.files) c.note(f.first, hexOf(f.second));
        Str tail = tailOf(args);
        Sim r = simulate(c, {}, g.im, d.files, args);
        if (tail.size() > 126) {
            if (r.timeout || r.sig || r.exitCode != 1 || r.out.empty()) c.fail(fmt("a command line of %zu characters is not refused", tail.size()));
            c.label("command line too long"); c.nontrivial(hashStr(tail, hash64(g.im.data(), g.im.size())));
            return;
        }
        SimExpect e = expectation(g.im, d.files, tail);
        compareRun(c, e, r);
        if (r.out != e.console) { c.note("expected console", e.console); c.note("got console", r.out); c.fail("console output differs"); }
        labels(c, g); c.label(g.exitKind == 0 ? "exit by function 4C" : g.exitKind == 1 ? "exit by INT 20" : "exit by return");
        c.nontrivial(hashStr(tail, hash64(g.im.data(), g.im.size())));
        if (g.im.size() < 700) c.sample(hexOf(Bytes(g.im.begin() + 0x120, g.im.end())));
    }, {REFA, "handle numbers, the error code of writes to read-only handles and of missing directories, reading from created handles and closing a closed handle are not judged"}, nullptr});

// --- trace and profile -------------------------------------------------------
struct Step { uint16_t r[8], s[4], ip, fl, at; uint64_t n; };
static uint64_t parseHex(const Str& l, const char* key, Ctx& c) {
    size_t p = l.find(Str(key) + "=");
    if (p == Str::npos) c.fail(fmt("trace line without %s: ", key) + l);
    return strtoul(l.c_str() + p + strlen(key) + 1, nullptr, 16);
}
// --- instruction text --------------------------------------------------------
static const char* const TR8[] = {"AL", "CL", "DL", "BL", "AH", "CH", "DH", "BH"};
static const char* const TR16[] = {"AX", "CX", "DX", "BX", "SP", "BP", "SI", "DI"};
static const char* const TSR[] = {"ES", "CS", "SS", "DS"};
static Str upper(Str t) { for (auto& x : t) x = (char)toupper((unsigned char)x); return t; }
// the instruction at the start of b, which lies at address va
static as::Dec disasm(const Bytes& b, int va) {
    size_t k = 0; int rep = 0;
    while (k < b.size() && ((b[k] & 0xE7) == 0x26 || b[k] == 0xF2 || b[k] == 0xF3)) { if (b[k] >= 0xF0) rep = b[k]; ++k; }
    as::Dec d; if (k >= b.size()) return d;
    static const struct { int op; const char* n; } str[] = {{0xA4, "movsb"}, {0xA5, "movsw"}, {0xA6, "cmpsb"}, {0xAA, "stosb"}, {0xAB, "stosw"}, {0xAC, "lodsb"}, {0xAD, "lodsw"}, {0xAE, "scasb"}};
    for (auto& x : str) if (x.op == b[k]) { d.ok = true; d.len = (int)k + 1; d.i.op = x.n; d.i.rep = rep != 0; return d; }
    if (b[k] == 0x82) { Bytes q = b; q[k] = 0x80; return as::decode(q, 0, va); }
    return as::decode(b, 0, va);
}
static bool number(const Str& t, long long& v) {
    if (t.empty()) return false;
    char* e; v = strtoll(t.c_str(), &e, 0);
    return !*e && (isdigit((unsigned char)t[0]) || ((t[0] == '-' || t[0] == '+') && t.size() > 1));
}
// v shows the low bits of x, extended with zeros or the sign to 16 or 32 bits
static bool extends(long long v, long long x, int bits) {
    unsigned long long m = (1ull << bits) - 1, lo = x & m, sx = lo >> (bits - 1) ? lo | ~m : lo;
    unsigned long long u = v;
    return u == lo || u == sx || u == (sx & 0xffffffffu) || u == (sx & 0xffff);
}
// why the text does not describe the instruction, or ""
static Str describes(const Str& text, const as::Ins& e) {
    using as::Op;
    std::vector<Str> w; Str rest;
    { size_t p = 0; Str t = upper(text); while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
      while (p < t.size() && !isspace((unsigned char)t[p])) ++p;
      Str m = t.substr(0, p); while (p < t.size() && isspace((unsigned char)t[p])) ++p;
      bool rep = !m.compare(0, 3, "REP");
      if (rep) { size_t q = p; while (p < t.size() && !isspace((unsigned char)t[p])) ++p; m = t.substr(q, p - q); while (p < t.size() && isspace((unsigned char)t[p])) ++p; }
      if (rep != e.rep) return "repeat prefix";
      w.push_back(m); rest = t.substr(p); }
    Str m = upper(e.op);
    bool strOp = m == "MOVSB" || m == "MOVSW" || m == "CMPSB" || m == "STOSB" || m == "STOSW" || m == "LODSB" || m == "LODSW" || m == "SCASB";
    if (w[0] == "NOP") return e.op == "xchg" && e.a.v == 0 && e.b.v == 0 ? "" : "mnemonic";
    static const char* const same[][2] = {{"JB", "JC"}, {"JNAE", "JC"}, {"JAE", "JNC"}, {"JNB", "JNC"}, {"JE", "JZ"}, {"JNE", "JNZ"}, {"JBE", "JNA"}, {"JNBE", "JA"}, {"JNGE", "JL"}, {"JGE", "JNL"}, {"JLE", "JNG"}, {"JNLE", "JG"}, {"SAL", "SHL"}};
    for (auto& x : same) if (w[0] == x[0]) w[0] = x[1];
    if (w[0] != m) return "mnemonic";
    if (strOp) return "";   // the segment of the source is not judged
    std::vector<Str> ops;
    while (!rest.empty()) { size_t q = rest.find(','); Str o = rest.substr(0, q); rest = q == Str::npos ? "" : rest.substr(q + 1); Str z; for (char x : o) if (!isspace((unsigned char)x)) z += x; ops.push_back(z); }
    const Op* want[2] = {&e.a, &e.b}; size_t n = e.b.k ? 2 : e.a.k ? 1 : 0;
    if (ops.size() != n) return fmt("%zu operands", n);
    for (size_t i = 0; i < n; ++i) {
        const Op& x = *want[i]; Str o = ops[i]; Str who = i ? "second operand" : "first operand"; long long v;
        for (const char* sz : {"BYTE", "WORD", "SHORT"}) if (o.size() > strlen(sz) && !o.compare(0, strlen(sz), sz)) { o = o.substr(strlen(sz)); if ((*sz == 'B' && x.size == 2) || (*sz == 'W' && x.size == 1)) return who + " size"; }
        switch (x.k) {
        case Op::R8: if (o != TR8[x.v & 7]) return who; break;
        case Op::R16: if (o != TR16[x.v & 7]) return who; break;
        case Op::SR: if (o != TSR[x.v & 3]) return who; break;
        case Op::IMM: if (!number(o, v) || !extends(v, x.v, x.size == 1 ? 8 : 16)) return who; break;
        case Op::TGT: if (!number(o, v) || !extends(v, x.v, 16)) return who; break;
        case Op::MEM: {
            int seg = -1; size_t z = o.find(':');
            if (z != Str::npos && z >= 2) { Str sn = o.substr(z - 2, 2); for (int q = 0; q < 4; ++q) if (sn == TSR[q]) seg = q; o.erase(z - 2, 3); }
            if (o.size() < 3 || o[0] != '[' || o.back() != ']') return who;
            o = o.substr(1, o.size() - 2);
            int base = 0; long long disp = 0; size_t p = 0; bool bad = false;
            while (p < o.size()) {
                int sg = 1; if (o[p] == '+' || o[p] == '-') { if (o[p] == '-') sg = -1; ++p; }
                size_t q = p; while (q < o.size() && o[q] != '+' && o[q] != '-') ++q;
                Str t = o.substr(p, q - p); p = q;
                int b = t == "BX" ? 1 : t == "BP" ? 2 : t == "SI" ? 4 : t == "DI" ? 8 : 0;
                if (b) { if (sg < 0 || (base & b)) bad = true; base |= b; } else if (number(t, v)) disp += sg * v; else bad = true;
            }
            if (bad || base != x.base || ((disp ^ x.v) & 0xffff)) return who;
            int def = x.base & 2 ? SS : DS;
            if ((seg < 0 ? def : seg) != (x.seg < 0 ? def : x.seg)) return who + " segment";
            break; }
        default: return who;
        }
    }
    return "";
}
typedef std::function<void(size_t, const Str&)> TextFn;
static void checkTrace(Ctx& c, const Str& out, const std::vector<Step>& ref, const std::vector<uint16_t>& def, size_t limit, TextFn text = nullptr) {
    // records: "XXXX text", registers, segments and flags
    size_t k = 0, pos = 0;
    std::vector<Str> lines;
    while (pos < out.size()) { size_t e = out.find('\n', pos); if (e == Str::npos) e = out.size(); lines.push_back(out.substr(pos, e - pos)); pos = e + 1; }
    for (size_t i = 0; i + 2 < lines.size() && k < limit; ++i) {
        if (lines[i + 1].compare(0, 3, "AX=") || lines[i + 2].compare(0, 3, "DS=")) continue;
        if (k >= ref.size()) c.fail("the trace has more instructions than were executed");
        const Str &a = lines[i], &b = lines[i + 1], &d = lines[i + 2];
        const Step& st = ref[k];
        // an instruction that writes characters may leave them in front on the same line
        char* end; Str tail = a;
        for (size_t z = 0; z + 5 <= a.size(); ++z) if (a[z + 4] == ' ' && (z == 0 || a[z - 1] == ')')) { Str x = a.substr(z, 4); long v = strtol(x.c_str(), &end, 16); if (!*end && v == st.at) { tail = a.substr(z); break; } }
        long at = strtol(tail.substr(0, 4).c_str(), &end, 16);
        if (*end || at != st.at) c.fail(fmt("trace record %zu is for address %s, expected %04X", k, tail.c_str(), st.at));
        static const struct { const char* n; int r; } rn[] = {{"AX", AX}, {"BX", BX}, {"CX", CX}, {"DX", DX}, {"SP", SP}, {"BP", BP}, {"SI", SI}, {"DI", DI}};
        for (auto& q : rn) { if (q.r == DX && def[k] & SimGen::NODX) continue; uint64_t v = parseHex(b, q.n, c); if (v != st.r[q.r]) c.fail(fmt("trace record %zu (%s): %s is %04X, expected %04X", k, tail.c_str(), q.n, (unsigned)v, st.r[q.r])); }
        static const struct { const char* n; int r; } sn[] = {{"DS", DS}, {"ES", ES}, {"SS", SS}, {"CS", CS}};
        for (auto& q : sn) { uint64_t v = parseHex(d, q.n, c); if (v != st.s[q.r]) c.fail(fmt("trace record %zu (%s): %s is %04X, expected %04X", k, tail.c_str(), q.n, (unsigned)v, st.s[q.r])); }
        { uint64_t v = parseHex(d, "IP", c); if (v != st.ip) c.fail(fmt("trace record %zu (%s): IP is %04X, expected %04X", k, tail.c_str(), (unsigned)v, st.ip)); }
        static const struct { int bit; const char *on, *off; } fn[] = {{R::OF, " OV", " NV"}, {R::SF, " NG", " PL"}, {R::ZF, " ZR", " NZ"}, {R::CF, " CY", " NC"}};
        for (auto& q : fn) if (def[k] & q.bit) { bool on = st.fl & q.bit; if (d.find(on ? q.on : q.off) == Str::npos) c.fail(fmt("trace record %zu (%s): flags %s, expected%s", k, tail.c_str(), d.c_str(), on ? q.on : q.off)); }
        if (text) text(k, tail.substr(5));
        ++k; i += 2;
    }
    if (k < limit) c.fail(fmt("the trace has %zu of at least %zu instructions", k, limit));
}
static Str tracedOutput(const Str& out) { // characters reported by the trace
    Str r; size_t p = 0; static const Str key = "\nOutput: 0x";
    while ((p = out.find(key, p)) != Str::npos) { r += (char)strtol(out.substr(p + key.size(), 2).c_str(), nullptr, 16); p += key.size(); }
    return r;
}
struct Prof { long fileSize = -1, stackLow = -1, ebss = -1; unsigned long long total = 0; std::map<int, unsigned long long> count; std::map<int, Str> where, text; std::map<Str, unsigned long long> fn; std::vector<Str> stack; };
static Prof parseProfile(Ctx& c, const Str& t) {
    Prof p; size_t i = 0; int sec = 0;
    while (i < t.size()) {
        size_t e = t.find('\n', i); if (e == Str::npos) e = t.size();
        Str l = t.substr(i, e - i); i = e + 1;
        if (l.empty()) continue;
        if (!l.compare(0, 9, "Filesize;")) { sec = 1; continue; }
        if (!l.compare(0, 14, "Count;Address;")) { sec = 2; continue; }
        if (l == "Count;Function") { sec = 3; continue; }
        if (l == "Max stack") { sec = 4; continue; }
        unsigned long long n; 
        if (sec == 1) { if (sscanf(l.c_str(), "%ld;%llu;%ld;%ld", &p.fileSize, &p.total, &p.stackLow, &p.ebss) < 2) c.fail("profile summary: " + l); }
        else if (sec == 2) { unsigned a; char nm[200]; if (sscanf(l.c_str(), "%llu;0x%x;%199[^;]", &n, &a, nm) != 3) c.fail("profile line: " + l); if (p.count.count(a)) c.fail("profile lists an address twice: " + l); p.count[a] = n; p.where[a] = nm; size_t z = l.rfind(';'); p.text[a] = l.substr(z + 1); }
        else if (sec == 4 && l[0] == '0') { Str t; for (char ch : l) if (ch != ' ') t += (char)toupper((unsigned char)ch); p.stack.push_back(t); }
        else if (sec == 3) { char nm[200]; if (sscanf(l.c_str(), "%llu;%199s", &n, nm) != 2) c.fail("profile line: " + l); p.fn[nm] += n; }
    }
    return p;
}
static Reg r4({"S04", "Random programs (as S01-S03) run without options, with -v, with -p and with both, with and without a map file; files, exit code and the program's own output must be the same in all, every trace record must show the registers, segments, instruction pointer and defined flags the reference has after that instruction, and the profile must account for exactly the executed instruction addresses, attribute each to the enclosing map symbol, and add up. Non-trivial: every program.",
    16000, 500000, [](Src& s, Ctx& c) {
        SimOpts o; o.n = 14; o.wArith = 40; o.wStack = 10; o.wString = 10; o.wCall = 8; o.wJump = 14; o.wLoop = 6;
        o.console = true;
        SimGen g(s, o);
        DosGen d(g, s, c);
        bool dos = s.chance(35);
        if (dos) { d.inputs(); d.handle1 = false; d.run(1 + s.below(12)); } else g.body();
        g.exitKind = s.below(3);
        g.finish();
        c.note("T.COM", hexOf(g.im)); for (auto& f : d.files) c.note(f.first, hexOf(f.second));
        SimExpect e = expectation(g.im, d.files, "");
        // reference trace
        static std::unique_ptr<Ref86> keep(new Ref86());
        Ref86& m = *keep; zeroLoad(m, g.im, "", 0x2000); m.files = d.files; m.budget = 5000000;
        std::vector<Step> tr; std::set<int> addrs; uint16_t low = 0xffff; std::vector<std::pair<int, int>> frames; // frames: BP and return address when SP was lowest
        for (;;) {
            Step st; st.at = m.ip; addrs.insert(m.ip);
            if (m.r[SP] && m.r[SP] < low) {
                low = m.r[SP]; frames.clear(); int ra = m.ip;
                for (int bp = m.r[BP]; bp && frames.size() < 50; ) { frames.push_back({bp, ra}); ra = m.rd8(SS, bp + 2) | m.rd8(SS, bp + 3) << 8; bp = m.rd8(SS, bp) | m.rd8(SS, bp + 1) << 8; }
            }
            bool more = m.step();
            memcpy(st.r, m.r, sizeof st.r); memcpy(st.s, m.s, sizeof st.s); st.ip = m.ip; st.fl = m.fl; st.n = 0;
            if (!more) break;
            tr.push_back(st);
        }
        size_t limit = std::min(g.bodySteps, g.stepDef.size());
        // handles are not compared: stop at the first successful open or create
        if (dos) { Ref86& q = m; zeroLoad(q, g.im, "", 0x2000); q.files = d.files; for (size_t k = 0; k < limit; ++k) { bool op = q.rd8(CS, q.ip) == 0xCD && (q.r[AX] >> 8 == 0x3C || q.r[AX] >> 8 == 0x3D); q.step(); if (op && !(q.fl & R::CF)) { limit = k; break; } } }
        Sim plain = simulate(c, {}, g.im, d.files, {});
        compareRun(c, e, plain, "plain run: ");
        if (plain.out != e.console) c.fail("plain run: console output differs");
        bool map = s.coin(); std::map<Str, Bytes> fl = d.files;
        std::vector<std::pair<int, Str>> syms;
        if (map) { int a = 0x100; Str t; int n = 1 + s.below(30); for (int i = 0; i < n; ++i) { a += s.chance(30) ? s.below(3) : s.below(i ? 60 : 300); syms.push_back({a, fmt("f%d_%s", i, s.coin() ? "x" : "LongerName")}); t += fmt("%04X %s\n", a, syms.back().second.c_str()); } fl["T.map"] = toBytes(t); c.note("T.map", t); }
        for (int mode = 1; mode < 4; ++mode) {
            if (mode != 1 && mode != 2 && s.coin()) continue;
            std::vector<Str> op; if (mode & 1) op.push_back("-v"); if (mode & 2) op.insert(s.coin() ? op.begin() : op.end(), "-p");
            Str what = mode == 1 ? "-v: " : mode == 2 ? "-p: " : "-v -p: ";
            Sim r = simulate(c, op, g.im, fl, {});
            c.note("output" + what, r.out.substr(0, 200000));
            compareRun(c, e, r, what);
            if (mode & 1) {
                if (tracedOutput(r.out) != e.console) c.fail(what + "the trace shows different program output");
                checkTrace(c, r.out, tr, g.stepDef, limit);
            } else if (r.out.compare(0, e.console.size(), e.console)) c.fail(what + "program output differs");
            if (mode & 2) {
                size_t at = r.out.rfind("\nFilesize;");
                if (at == Str::npos) c.fail(what + "no profile");
                if (mode == 2 && at != e.console.size()) c.fail(what + "text between the program's output and the profile");
                Prof p = parseProfile(c, r.out.substr(at));
                if (p.fileSize != (long)g.im.size()) c.fail(what + fmt("file size %ld, expected %zu", p.fileSize, g.im.size()));
                if (p.stackLow != low) c.fail(what + fmt("lowest stack pointer %ld, expected %d", p.stackLow, low));
                unsigned long long sum = 0, fs = 0;
                int last = tr.size() ? -1 : -1; (void)last;
                for (auto& x : p.count) { sum += x.second; if (!addrs.count(x.first)) c.fail(what + fmt("address %04X was never executed", x.first)); }
                // the instruction that ends the program is not counted
                for (auto& st : tr) if (!p.count.count(st.at)) c.fail(what + fmt("address %04X was executed but is not in the profile", st.at));
                for (auto& x : p.fn) fs += x.second;
                if (sum != p.total || fs != p.total) c.fail(what + fmt("counts add up to %llu, functions to %llu, the total is %llu", sum, fs, p.total));
                std::map<int, int> times; for (auto& st : tr) ++times[st.at];
                for (auto& x : times) if (p.count[x.first] < (unsigned long long)x.second) c.fail(what + fmt("address %04X was executed %d times but has %llu cycles", x.first, x.second, p.count[x.first]));
                // the symbols that an address may be attributed to (several can have the same address)
                auto symOf = [&](int a) { std::set<Str> w = {upper(fmt("@@start+0x%X", a))}; int at = -1; if (map) for (auto& y : syms) if (y.first <= a) { if (y.first != at) w.clear(); at = y.first; w.insert(upper(fmt("%s+0x%X", y.second.c_str(), a - y.first))); } return w; };
                auto list = [](const std::set<Str>& v) { Str t; for (auto& x : v) t += (t.empty() ? "" : " or ") + x; return t; };
                if (!dos) {
                    if (p.stack.size() != frames.size()) c.fail(what + fmt("the deepest stack has %zu frames, expected %zu", p.stack.size(), frames.size()));
                    for (size_t i = 0; i < frames.size(); ++i) {
                        int up = i + 1 < frames.size() ? frames[i + 1].first : 65536;
                        Str w = upper(fmt("0x%X;0x%04X;%d;", frames[i].first, frames[i].second, up - frames[i].first));
                        auto sy = symOf(frames[i].second);
                        if (frames[i].first < 0x100) break; // the rest of the chain depends on the program prefix
                        if (p.stack[i].compare(0, w.size(), w) || !sy.count(p.stack[i].substr(w.size()))) c.fail(what + fmt("frame %zu of the deepest stack is %s, expected %s%s", i, p.stack[i].c_str(), w.c_str(), list(sy).c_str()));
                    }
                    if (frames.size() > 1) c.label("stack of several frames");
                }
                for (auto& x : p.where) {
                    auto w = symOf(x.first);
                    if (!w.count(upper(x.second))) c.fail(what + fmt("address %04X is attributed to %s, expected %s", x.first, x.second.c_str(), list(w).c_str()));
                }
                c.label(map ? "profile with map" : "profile");
            }
            c.label("mode " + what);
        }
        c.nontrivial(hash64(g.im.data(), g.im.size()));
        if (g.im.size() < 700) c.sample(hexOf(Bytes(g.im.begin() + 0x120, g.im.end())));
    }, {REFA, "trace records are compared up to the first successful open (handle numbers differ)", "the profile's unit of cost is not specified; only that it is additive and at least one per execution"}, nullptr});

// --- disassembly -----------------------------------------------------------------
static Reg r7({"S07", "Random programs (as S01-S03, weighted evenly over all instructions, operands and prefixes) run with -v, -p or both; the instruction text of every trace record and profile line is parsed and compared with an independent decoding of the bytes executed at that address: mnemonic, repeat prefix, registers, base registers, displacement and segment of memory operands, immediates and jump targets. Non-trivial: every program.",
    30000, 600000, [](Src& s, Ctx& c) {
        SimOpts o; o.n = 30; o.wArith = 40; o.wMove = 30; o.wStack = 15; o.wString = 12; o.wCall = 8; o.wJump = 14; o.wLoop = 6;
        SimGen g(s, o); g.body(); g.exitKind = s.below(3); g.finish();
        c.note("T.COM", hexOf(g.im));
        expectation(g.im, {}, "");
        static std::unique_ptr<Ref86> keep(new Ref86());
        Ref86& m = *keep; zeroLoad(m, g.im, "", 0x2000); m.files.clear(); m.budget = 5000000;
        std::vector<Step> tr; std::vector<as::Dec> de; std::map<int, as::Dec> first; std::set<int> twice;
        for (;;) {
            Step st; st.at = m.ip; Bytes b; for (int i = 0; i < 8; ++i) b.push_back(m.rd8(CS, m.ip + i));
            as::Dec d = disasm(b, m.ip);
            auto f = first.find(st.at); if (f == first.end()) first[st.at] = d; else if (as::show(f->second.i) != as::show(d.i)) twice.insert(st.at);
            bool more = m.step();
            memcpy(st.r, m.r, sizeof st.r); memcpy(st.s, m.s, sizeof st.s); st.ip = m.ip; st.fl = m.fl; st.n = 0;
            if (!more) break;
            if (!d.ok) c.label("not decoded"); else c.label("instruction " + d.i.op);
            tr.push_back(st); de.push_back(d);
        }
        size_t limit = std::min(g.bodySteps, g.stepDef.size());
        int mode = 1 + s.below(3);
        std::vector<Str> op; if (mode & 1) op.push_back("-v"); if (mode & 2) op.push_back("-p");
        Sim r = simulate(c, op, g.im, {}, {});
        c.note("output", r.out.substr(0, 200000));
        if (r.timeout || r.sig) throw Discard{"decided by S04"};
        auto judge = [&](int at, const as::Dec& d, const Str& text, const char* where) {
            if (!d.ok || twice.count(at)) return;
            Str w = describes(text, d.i);
            if (!w.empty()) c.fail(fmt("%s shows '%s' for the instruction at %04X, which is %s (%s)", where, text.c_str(), at, as::show(d.i).c_str(), w.c_str()));
        };
        if (mode & 1) checkTrace(c, r.out, tr, g.stepDef, limit, [&](size_t k, const Str& text) { if (k < limit) judge(tr[k].at, de[k], text, "the trace"); });
        if (mode & 2) { size_t at = r.out.rfind("\nFilesize;"); if (at == Str::npos) c.fail("no profile"); Prof p = parseProfile(c, r.out.substr(at)); for (auto& x : p.text) if (first.count(x.first)) judge(x.first, first[x.first], x.second, "the profile"); }
        c.label(mode == 1 ? "-v" : mode == 2 ? "-p" : "-v -p");
        c.nontrivial(hash64(g.im.data(), g.im.size()));
        if (g.im.size() < 700) c.sample(hexOf(Bytes(g.im.begin() + 0x120, g.im.end())));
    }, {"the oracle is the independent decoder of src/asmtool.cpp", "the size of memory operands without a register, the segment of string operations and the distance of jumps (short or near) are not judged; numbers are compared modulo their size; synonymous mnemonics are allowed"}, nullptr});

// --- DOS build -----------------------------------------------------------------
static Reg r5({"S05", "Random programs (as S01-S03, within the nested simulator's memory) run on the host simulator and on the simulator compiled by the project's compiler, itself executed by the reference 8086 as a DOS program; output, files and exit code must be identical, also with -v (registers and flags in the trace). Non-trivial: every program.",
    12000, 400000, [](Src& s, Ctx& c) {
        SimOpts o; o.n = 20; o.wArith = 40; o.wMove = 16; o.wStack = 8; o.wString = 8; o.wCall = 4; o.wJump = 8; o.farSegs = false; o.console = true;
        if (s.chance(12)) { o.pad = s.coin() ? 0x7d00 + s.below(0x500) : 0x7000 + s.below(0x8f00); c.label("large image"); }
        SimGen g(s, o);
        DosGen d(g, s, c); d.errors = false;
        bool dos = s.chance(40);
        if (dos) { d.inputs(); d.run(1 + s.below(14)); } else g.body();
        g.exitKind = s.below(3); g.copyTail = true;
        g.finish();
        std::vector<Str> args = genArgs(s);
        for (auto& a : args) { if (a.empty()) a = "e"; for (auto& ch : a) if ((unsigned char)ch < '!') ch = '_'; }
        Str tail = tailOf(args);
        if (tail.size() > 110) { args.clear(); tail.clear(); }
        c.note("T.COM", hexOf(g.im)); for (auto& f : d.files) c.note(f.first, hexOf(f.second));
        expectation(g.im, d.files, tail);
        bool verb = s.chance(15);
        std::vector<Str> opt; if (verb) opt.push_back("-v");
        Sim h = simulate(c, opt, g.im, d.files, args);
        if (h.timeout || h.sig) throw Discard{"host simulator fails (decided by S01-S03)"};
        static std::unique_ptr<Ref86> keep(new Ref86());
        Ref86& m = *keep; m.baseSeg = 0x1000;
        m.files = d.files; m.files["T.COM"] = g.im;
        m.load(selfHosted("sim86"), (verb ? " -v T.COM" : " T.COM") + tail, s.recorded().size() + 1);
        std::fill(m.mem.begin() + 0x20000, m.mem.end(), 0);
        m.budget = 400000000;
        m.run();
        if (m.stop == R::BUDGET) throw Discard{"long program"};
        if (m.stop != R::EXITED) c.fail(fmt("the DOS build stops: %s (%s)\n%s", stopName(m.stop), m.why.c_str(), m.stateStr().c_str()));
        if (m.exitCode != h.exitCode) c.fail(fmt("exit code %d, host %d; output: %s", m.exitCode, h.exitCode, m.console.substr(0, 300).c_str()));
        std::map<Str, Bytes> got = m.files; got.erase("T.COM");
        compareFiles(c, h.files, got, "DOS build: ");
        if (!verb) { if (m.console != h.out) { c.note("host", h.out); c.note("dos", m.console); c.fail("console output differs"); } }
        else {
            // compare the register and flag lines; line ends differ between the systems
            auto lines = [](const Str& t) { std::vector<Str> v; Str l; for (char ch : t) { if (ch == '\n') { if (!l.compare(0, 3, "AX=") || !l.compare(0, 3, "DS=")) v.push_back(l); l.clear(); } else if (ch != '\r') l += ch; } return v; };
            std::vector<Str> a = lines(h.out), b = lines(m.console);
            c.note("host", h.out.substr(0, 100000)); c.note("dos", m.console.substr(0, 100000));
            for (size_t i = 0; i < a.size() && i < b.size() && i < 2 * g.bodySteps; ++i) { if (dos && a[i] != b[i]) break; if (a[i] != b[i]) c.fail(fmt("trace line %zu differs\nhost: %s\nDOS:  %s", i, a[i].c_str(), b[i].c_str())); }
            if (a.size() != b.size()) c.fail(fmt("the trace has %zu lines, host %zu", b.size(), a.size()));
            // instruction text, numbers modulo 16 bits (the host prints some sign-extended ones with 32)
            auto texts = [](const Str& t) {
                std::vector<Str> v; Str l;
                for (char ch : t) {
                    if (ch == '\r') continue;
                    if (ch != '\n') { l += ch; continue; }
                    if (l.size() > 5 && l[4] == ' ' && l.find_first_not_of("0123456789ABCDEF") == 4) {
                        Str o;
                        for (size_t i = 5; i < l.size();) {
                            bool sg = (l[i] == '+' || l[i] == '-') && i + 1 < l.size() && isdigit((unsigned char)l[i + 1]);
                            if (!sg && !isdigit((unsigned char)l[i])) { o += l[i++]; continue; }
                            char* e; long n = strtol(l.c_str() + i, &e, 0); i = e - l.c_str(); o += fmt(sg ? "+%lu" : "%lu", (unsigned long)n & 0xffff);
                        }
                        v.push_back(l.substr(0, 5) + o);
                    }
                    l.clear();
                }
                return v; };
            if (!dos) {
                a = texts(h.out); b = texts(m.console);
                for (size_t i = 0; i < a.size() && i < b.size() && i < g.bodySteps; ++i) if (a[i] != b[i]) c.fail(fmt("instruction text %zu differs\nhost: %s\nDOS:  %s", i, a[i].c_str(), b[i].c_str()));
                if (!a.empty() && b.empty()) c.fail("no instruction text in the trace");
            }
            c.label("with -v");
        }
        labels(c, g);
        c.nontrivial(hash64(g.im.data(), g.im.size()));
        if (g.im.size() < 700) c.sample(hexOf(Bytes(g.im.begin() + 0x120, g.im.end())));
    }, {"the DOS build is the image the host preprocessor and compiler produce from sim86.c and lib.h in the working tree", "programs use at most the three segments after their own; calls that fail are decided by S03 for the host build only"}, nullptr});

// --- unsupported -----------------------------------------------------------------
static bool assertAbort(const Sim& a) { return a.sig == 6 && a.out.find("ssert") != Str::npos; }
static void expectStop(Ctx& c, const Sim& r, const Str& what) {
    if (r.timeout) c.fail(what + ": the simulator does not terminate");
    if (r.out.find("AddressSanitizer") != Str::npos) c.fail(what + ": memory error: " + r.out.substr(0, 1500));
    if (r.sig && !assertAbort(r)) c.fail(what + fmt(": the simulator crashes with signal %d", r.sig));
    if (!r.sig && r.exitCode == 0) c.fail(what + ": the simulation continues without an error");
    if (r.out.empty()) c.fail(what + ": stops without a message");
    if (r.files.count("OUT.BIN")) c.fail(what + ": the program continues");
}
static void oneInstruction(Src& s, Ctx& c) {
    SimOpts o; SimGen g(s, o);
    for (int i = 0; i < 8; ++i) if (i != SP && s.chance(60)) g.setReg(i, g.val(true));
    if (s.chance(60)) g.setReg(CX, s.below(20));
    g.setReg(SP, SimGen::STACK + 0x100 + 2 * s.below(100));
    g.setReg(BX, SimGen::DATA + 2 * s.below(100)); if (s.coin()) { g.setReg(SI, s.below(16)); g.setReg(DI, s.below(16)); }
    g.def = R::CF | R::ZF | R::SF | R::OF; g.put({0x3C, (int)s.below(256)}); g.go();
    if (s.chance(25)) { g.setSeg(ES, 0x1000); }
    Bytes b;
    static const int pf[] = {0x26, 0x2E, 0x36, 0x3E, 0xF2, 0xF3, 0xF0};
    for (int i = 0; i < 2; ++i) if (s.chance(20)) b.push_back(pf[s.below(7)]);
    int op = s.below(256);
    if (s.chance(12)) op = 0xCD;
    b.push_back(op);
    if (op == 0xCD) {
        int n = s.coin() ? 0x21 : s.below(256);
        b.push_back(n);
        if (n == 0x21) { int ah; do ah = s.below(256); while (ah == 0x02 || (ah >= 0x3C && ah <= 0x40) || ah == 0x4C); g.movi(AX, ah << 8 | s.below(256)); }
        else if (n == 0x20) throw Discard{"exit"};
    } else { static const int mr[] = {0x06, 0x07, 0xC0, 0xC3, 0x47, 0x87, 0x00}; b.push_back(s.chance(60) ? mr[s.below(7)] | s.below(8) << 3 : s.u8()); for (int i = 0; i < 4; ++i) b.push_back(s.u8()); }
    size_t k = 0; while (k < b.size() && (b[k] == 0xF0 || b[k] == 0xF2 || b[k] == 0xF3 || (b[k] & 0xE7) == 0x26)) ++k;
    if (k >= b.size()) throw Discard{"prefixes only"};
    op = b[k]; int mr = k + 1 < b.size() ? b[k + 1] : 0x90, rf = mr >> 3 & 7;
    if (op == 0x0F || (op == 0x8E && rf == 1) || op == 0x54) throw Discard{"POP CS, MOV CS, PUSH SP"};
    int at = g.here();
    for (int x : b) g.putb(x);
    for (int i = 0; i < 6; ++i) g.putb(0x90);
    Str hex = hexOf(b);
    // reference
    bool lock = std::count(b.begin(), b.begin() + k, 0xF0) > 0;
    g.m.trackWrites = true; g.m.writes.clear();
    g.m.step();
    g.m.trackWrites = false;
    bool refBad = g.m.stop == R::BADOP || g.m.stop == R::BADINT || g.m.stop == R::DIVERR || g.m.stop == R::HALTED;
    c.note("instruction", hex);
    if (refBad) {
        c.note("T.COM", hexOf(g.im));
        Sim r = simulate(c, {}, g.im, {}, {}, s.chance(30));
        expectStop(c, r, "an invalid or unsupported instruction (" + hex + ")");
        c.label(fmt("reference rejects")); c.nontrivial(hash64(g.im.data(), g.im.size()));
        return;
    }
    if (g.m.stop != R::RUNNING) throw Discard{"ends the program"};
    int end = at + (int)b.size();
    if (g.m.ip <= at || g.m.ip > end + 6 || g.m.s[CS] != g.base || g.m.s[SS] != g.base) throw Discard{"control transfer"};
    if (g.m.ip < end && ((op >= 0x70 && op < 0x80) || (op >= 0xE0 && op < 0xEC) || (op >= 0xC2 && op < 0xC4) || (op == 0xFF && rf >= 2 && rf < 6))) throw Discard{"control transfer"};
    if (g.m.r[SP] < SimGen::STACK + 0x20 || g.m.r[SP] > SimGen::STACK + 0x3c0) throw Discard{"stack pointer"};
    for (uint32_t l : g.m.writes) { uint32_t p = (l - g.base * 16u) & 0xfffff; if (p < SimGen::DATA || (p >= SimGen::CODE && p < SimGen::STACK) || (p >= 0x6000 && p < 0x10000)) throw Discard{"writes to the program"}; }
    // the rest of the bytes must be skipped: continue at the reference's position
    g.im.resize(g.m.ip - 0x100);
    for (int i = 0; i < 8; ++i) g.m.mem[g.base * 16 + 0x100 + g.im.size() + i] = 0;
    g.stepDef.push_back(0);
    size_t nw = 0;
    for (uint32_t l : g.m.writes) { if (++nw > 20) break; uint32_t p = (l - g.base * 16u) & 0xfffff; if (p < 0x10000) g.touched.insert({0, (int)p}); else g.touched.insert({(uint16_t)((l >> 4) - g.base), (int)(l & 15)}); }
    g.def = R::CF | R::ZF | R::SF | R::OF;
    if ((op == 0xF6 || op == 0xF7) && rf >= 4) { g.def = 0; if (rf < 6) g.movi(DX, 0); }
    if (op >= 0xD0 && op < 0xD4) g.def &= ~R::OF;
    if (op == 0x27 || op == 0x2F || op == 0x37 || op == 0x3F) g.def = 0;
    g.logFlags();
    g.logRegs();
    g.feat["stack"]; g.feat["rep movs"];
    g.finish();
    c.note("T.COM", hexOf(g.im));
    SimExpect e = expectation(g.im, {}, "");
    Sim r = simulate(c, {}, g.im, {}, {}, s.chance(15));
    bool stopped = assertAbort(r) || (r.exitCode == 1 && !r.files.count("OUT.BIN"));
    if (stopped) { expectStop(c, r, hex); c.label("unsupported, stops"); }
    else { compareRun(c, e, r, hex + ": "); c.label("simulated as on the reference"); }
    if (lock && !stopped) c.fail("LOCK prefix accepted");
    c.nontrivial(hash64(g.im.data(), g.im.size()));
    c.sample(hex);
}
static Reg r6({"S06", "Single arbitrary instruction byte sequences (prefixes, all opcodes, random operands), all interrupts and unimplemented DOS functions, executed in a known state: the simulator must either stop with a message and a failure exit or end in exactly the reference's state; random byte images, random code with DOS calls, missing programs, over-long file names and bad command lines under AddressSanitizer must neither crash nor report success. Non-trivial: every instruction that the reference executes or rejects, every image.",
    16000, 500000, [](Src& s, Ctx& c) {
        switch (s.weighted({80, 13, 4, 3})) {
        case 0: oneInstruction(s, c); return;
        case 1: {                         // random images
            Bytes im; int n = s.chance(3) ? 65000 + s.below(3000) : 1 + s.below(300);
            while ((int)im.size() < n) {
                if (s.chance(15)) { static const int f[] = {2, 0x3C, 0x3D, 0x3E, 0x3F, 0x40, 0x4C}; im.push_back(0xB4); im.push_back(f[s.below(7)]); im.push_back(0xCD); im.push_back(0x21); continue; }
                if (s.chance(40)) { static const int f[] = {0xB8, 0xBB, 0xB9, 0xBA, 0xBE, 0xBF, 0xBC, 0xBD}; im.push_back(f[s.below(8)]); im.push_back(s.u8()); im.push_back(s.u8()); continue; }
                if (s.chance(30)) { static const int f[] = {0x8E, 0xA4, 0xAA, 0xAB, 0xA5, 0xF3, 0xF2, 0xA6, 0xAE, 0xD3, 0xF7, 0xFF, 0x8C, 0x88, 0x8B, 0x50, 0x58, 0x06, 0x07, 0x1F, 0xC3}; im.push_back(f[s.below(21)]); }
                im.push_back(s.u8());
            }
            for (auto& x : im) if (x == 0x2F) x = 0x90;     // no '/' in file names
            c.note("T.COM", hexOf(im));
            { // programs that run for long are skipped
                static std::unique_ptr<Ref86> keep(new Ref86()); Ref86& m = *keep; zeroLoad(m, im, "", 0x2000); m.budget = 20000; m.files.clear();
                { m.run(); if (m.stop == R::BUDGET) throw Discard{"long or endless program"}; if (m.why.find("opcode 0F") != Str::npos || m.why.find("opcode 8E") != Str::npos) throw Discard{"POP CS, MOV CS"}; } }
            Sim r = simulate(c, {}, im, {}, {}, true, 1);
            if (r.timeout) { if (getenv("VP_HANG")) c.fail("hang"); throw Discard{"endless program"}; }
            if (r.out.find("AddressSanitizer") != Str::npos) c.fail("memory error: " + r.out.substr(0, 1500));
            if (r.sig && r.sig != 6) c.fail(fmt("the simulator crashes with signal %d", r.sig));   // the program may have closed the error output
            c.label(r.sig ? "image: assertion" : r.exitCode == 1 ? "image: error" : "image: exits");
            c.nontrivial(hash64(im.data(), im.size()));
            return; }
        case 2: {                         // file names around the limit
            SimOpts o; SimGen g(s, o); DosGen d(g, s, c);
            int n = 100 + s.below(80);
            Str nm(n, 'a'); bool create = s.coin();
            int a = d.place(nm); g.movi(DX, a); g.movi(CX, 0); g.movi(AX, create ? 0x3C00 : 0x3D00); g.put({0xCD, 0x21}); g.go();
            g.logFlags(); if (create) { g.put({0x89, 0xC3}); g.go(); g.movi(AX, 0x3E00); g.put({0xCD, 0x21}); g.go(); g.movi(BX, 0); } g.movi(AX, 0);
            g.finish(); c.note("T.COM", hexOf(g.im));
            SimExpect e = expectation(g.im, {}, "");
            Sim r = simulate(c, {}, g.im, {}, {}, true);
            if (!r.sig && r.exitCode == 1 && !r.files.count("OUT.BIN") && n >= 64) { if (r.out.empty()) c.fail("no message"); c.label("file name refused"); }
            else { compareRun(c, e, r); c.label("file name accepted"); }
            c.nontrivial(hash64(g.im.data(), g.im.size()));
            return; }
        default: {                        // command lines
            Str d = c.dir + "/sim"; mkdir(d.c_str(), 0755); mkdir((d + "/dir").c_str(), 0755);
            std::vector<Str> av = {toolAsan("sim86")};
            int k = s.below(5);
            if (k == 1) av.push_back(Str("MISSING") + Str(s.below(200), 'x') + (s.coin() ? ".COM" : ""));
            else if (k == 2) av.push_back("dir");
            else if (k == 3) { int n = 1 + s.below(3); for (int i = 0; i < n; ++i) av.push_back(s.coin() ? "-v" : "-p"); if (s.coin()) av.push_back("nothing"); }
            else if (k == 4) av.push_back("");
            RunOpts o; o.cwd = d; o.noAsLimit = true;
            RunResult r = runTool(av, o);
            rmdir((d + "/dir").c_str());
            Str t; for (size_t i = 1; i < av.size(); ++i) t += av[i] + "\n"; c.note("arguments", t);
            if (r.out.find("AddressSanitizer") != Str::npos) c.fail("memory error: " + r.out.substr(0, 1500));
            if (r.sig || r.exitCode == 0 || r.timeout) c.fail(fmt("exit code %d, signal %d for a command line without a readable program", r.exitCode, r.sig));
            if (r.out.empty()) c.fail("no message");
            c.label("bad command line"); c.nontrivial(hashStr(t));
            return; }
        }
    }, {REFA, "MOV CS, POP CS and PUSH SP are not judged; an assertion failure counts as stopping with a message", "random images contain no '/' so that any file they create stays in the scratch directory"}, nullptr});

int main(int argc, char** argv) {
    g_needTools = {"sim86"};
    for (int i = 1; i < argc; ++i) {
        Str a = argv[i];
        if (a == "S06" || a.find("S06-") != Str::npos) g_needAsan = {"sim86"};
        if (a == "S05" || a.find("S05-") != Str::npos) g_needTools = {"sim86", "scc", "scpp"};
    }
    return pbtMain(argc, argv);
}
