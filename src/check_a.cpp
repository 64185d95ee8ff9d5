// Properties A01-A05: the assembler.
#include "asmtool.h"
#include "ctools.h"
#include <sys/stat.h>
using namespace as;

struct Asm { bool ok = false, exists = false, timeout = false; int exitCode = 0, sig = 0; Str msg; Bytes out; };
static Asm assemble(Ctx& c, const Str& text, bool asan = false, const Str& in = "T.ASM", const Str& outArg = "", const Str& outName = "T.com") {
    Asm r;
    Str of = c.dir + "/" + outName;
    removeFile(of);
    writeFile(c.dir + "/" + in, text);
    RunOpts o; o.cwd = c.dir; o.cpuSec = 5; o.noAsLimit = asan;
    std::vector<Str> av = {asan ? toolAsan("sas") : tool("sas"), in};
    if (!outArg.empty()) av.push_back(outArg);
    RunResult rr = runTool(av, o);
    r.exitCode = rr.exitCode; r.sig = rr.sig; r.timeout = rr.timeout; r.msg = rr.out;
    r.exists = fileExists(of);
    if (r.exists) r.out = toBytes(readFile(of));
    r.ok = rr.exitCode == 0 && !rr.sig && !rr.timeout;
    return r;
}
static bool assertAbort(const Asm& a) { return a.sig == 6 && a.msg.find("Assertion") != Str::npos; }
static int errLine(const Str& m) { size_t p = m.rfind("Line "); if (p == Str::npos || m.find("Fatal error", p) == Str::npos) return -1; return atoi(m.c_str() + p + 5); }
// termination, no crash, failure reported, no output after failure
static void expectClean(Ctx& c, const Asm& a) {
    if (a.timeout) c.fail("the assembler does not terminate");
    if (a.msg.find("AddressSanitizer") != Str::npos || a.msg.find("runtime error") != Str::npos) c.fail("memory error: " + a.msg.substr(0, 1500));
    if (a.sig && !assertAbort(a)) c.fail(fmt("the assembler crashes with signal %d: %s", a.sig, a.msg.substr(0, 500).c_str()));
    if (a.ok) { if (!a.exists) c.fail("success without an output file"); return; }
    if (a.exists) c.fail("an output file exists although the assembler failed");
    if (a.sig) return;
    if (a.exitCode != 1) c.fail(fmt("unexpected exit code %d: %s", a.exitCode, a.msg.substr(0, 800).c_str()));
    if (errLine(a.msg) < 1) c.fail("failure without a line number: " + a.msg.substr(0, 300));
}
static Str hexOf(const Bytes& b) { Str h; for (size_t i = 0; i < b.size() && i < 400; ++i) h += fmt("%02X%c", b[i], i % 16 == 15 ? '\n' : ' '); return h; }
// size of the address space used
static bool fits(const Prog& p) {
    int va = 0; long total = 0;
    for (auto& t : p.it) {
        if (t.k == Item::ORG) va = t.v; else if (t.k == Item::RES) va += t.unit * t.v; else { va += t.hi; total += t.hi; }
        if (va > 0xfff0) return false;
    }
    return total < 19000;
}
// Backward jumps out of reach are errors; forward ones are only known when the label turns up and
// are at least reported (test/sim86/test.asm relies on the file being written).
static void farWarned(Ctx& c, const Prog& p, const Asm& a) {
    if (!p.farForward) return;
    if (a.msg.find("Line ") == Str::npos) c.fail("a forward short jump out of range is not reported");
    c.label("far forward short jump reported");
}
static void must(Ctx& c, Prog& p, const Asm& a) {
    c.note("output.txt", hexOf(a.out)); c.note("message.txt", a.msg);
    expectClean(c, a);
    if (!a.ok) {
        if (p.shortSure) c.fail("a valid program is rejected: " + a.msg.substr(0, 300));
        c.label(p.shortBad ? "rejected: short jump out of range" : "rejected: near the short jump limit");
        return;
    }
    Str e = walk(p, a.out);
    if (!e.empty()) c.fail(e);
    farWarned(c, p, a);
    if (p.shortBad && !p.farForward) c.fail("a short jump out of range is accepted");
    if (!p.shortSure) c.label("accepted near the short jump limit");
}
static void asmCase(Src& s, Ctx& c, const GenOpts& g, int lead, int minIns, int minLab, int minData) {
    Prog p; generate(s, p, g);
    PrintOpts po; if (s.chance(30)) po.lead = s.below(lead); po.plain = s.chance(10);
    Str text = print(s, p, po);
    c.note("program.asm", text);
    if (!fits(p)) throw Discard{"too large"};
    Asm a = assemble(c, text);
    must(c, p, a);
    int ni = 0, nl = 0, nd = 0;
    for (auto& t : p.it) { ni += t.k == Item::INS; nd += t.k == Item::DB || t.k == Item::DW || t.k == Item::RES || t.k == Item::EQU; nl += t.wantLab != 0; }
    for (auto& f : p.feat) c.label("instruction:" + f.first, f.second);
    c.label("label references", nl); c.label("data items", nd);
    if (a.ok && ni >= minIns && nl >= minLab && nd >= minData) c.nontrivial(hashStr(text));
    c.sample(text);
}
static const char* const ORA = "the oracle is an independent 8086 decoder and program model (src/asmtool.cpp); any valid encoding of the written instruction is accepted";
static Reg r1({"A01", "Random programs over every supported mnemonic and operand combination (registers, sized and unsized memory operands with all addressing modes, segment overrides, displacements and immediates at the 8/16-bit boundaries as literals, character constants, expressions, equates and labels), in random spelling; the output is decoded item by item by an independent 8086 decoder. Non-trivial: at least 3 instructions.",
    90000, 1500000, [](Src& s, Ctx& c) { GenOpts g; g.n = 25; g.wIns = 85; g.wData = 3; g.wLbl = 8; g.wEqu = 4; g.wOrg = 0; asmCase(s, c, g, 1100, 3, 0, 0); }, {ORA}, nullptr});
static Reg r2({"A02", "Random programs dense in labels (global, local with reused names, forward and backward) referenced from short and near jumps, calls, immediates, displacements and data words, with ORG, reserved space and jump distances concentrated around the short-jump limits; every reference is compared with the address the label has in the decoded output, short jumps certainly out of reach must be rejected. Non-trivial: at least 3 label references.",
    90000, 1500000, [](Src& s, Ctx& c) { GenOpts g; g.n = s.chance(10) ? 120 : 40; g.wIns = 45; g.wData = 15; g.wLbl = 28; g.wEqu = 2; g.wOrg = 3; g.pLab = 55; g.boundary = s.chance(60); asmCase(s, c, g, 1100, 0, 3, 0); }, {ORA, "output sizes are derived from the decoded output, not assumed"}, nullptr});
static Reg r3({"A03", "Random programs dense in DB/DW lists (numbers, strings of 0-120 arbitrary bytes), RESB/RESW, EQU and ORG with random constant expressions (+ - << | unary - ~ +, up to 8 terms, equates inside), random case, spacing, comments and a leading comment of 0-1100 bytes that moves tokens across read boundaries. Non-trivial: at least 3 data items or directives.",
    80000, 1500000, [](Src& s, Ctx& c) { GenOpts g; g.n = 30; g.wIns = 25; g.wData = 40; g.wLbl = 12; g.wEqu = 20; g.wOrg = 3; g.pLab = 25; asmCase(s, c, g, 1100, 0, 0, 3); }, {ORA}, nullptr});

// ------------------------------------------------------------ damage
static std::vector<Str> atoks(const Str& t) { // tokens with their white space kept apart
    std::vector<Str> r; size_t i = 0;
    auto id = [](unsigned char c) { return isalnum(c) || c == '_' || c == '.' || c == '$'; };
    while (i < t.size()) {
        size_t b = i;
        if (t[i] == ';') { while (i < t.size() && t[i] != '\n') ++i; continue; }
        if (t[i] == '\n') { ++i; r.push_back("\n"); continue; }
        if ((signed char)t[i] <= ' ') { ++i; continue; }
        if (t[i] == '\'') { size_t e = t.find('\'', i + 1); i = e == Str::npos ? t.size() : e + 1; }
        else if (id(t[i])) while (i < t.size() && id(t[i])) ++i;
        else if (t[i] == '<' && i + 1 < t.size() && t[i + 1] == '<') i += 2;
        else ++i;
        r.push_back(t.substr(b, i - b));
    }
    return r;
}
static const char* EXTRA[] = {"ax", "bl", "es", "cs", "[", "]", ":", ",", "+", "-", "<<", "|", "~", "5", "0xFF80", "300", "'a'", "'abc'", "byte", "word", "short", "mov", "add", "jmp", "jz", "call", "db", "dw", "equ", "org", "resb", "push", "pop", "xchg", "lea", "shl", "test", "inc", "mul", "int", "rep", "nolabel", ".x", "[bx]", "[bp+2]", "[si+bx]", "cl", "1", "cpu", "8086"};
static Str mutate(Src& s, const Str& text, int n) {
    auto t = atoks(text);
    std::vector<size_t> w;
    for (int i = 0; i < n && !t.empty(); ++i) {
        size_t a = s.below(t.size()), b = s.below(t.size());
        switch (s.below(6)) {
        case 0: t.erase(t.begin() + a); break;
        case 1: t.insert(t.begin() + a, t[b]); break;
        case 2: std::swap(t[a], t[b]); break;
        case 3: t[a] = EXTRA[s.below(sizeof EXTRA / sizeof *EXTRA)]; break;
        case 4: t.insert(t.begin() + a, EXTRA[s.below(sizeof EXTRA / sizeof *EXTRA)]); break;
        default: t[a] = t[b];
        }
    }
    Str o;
    for (auto& x : t) { if (x == "\n") o += x; else o += x + " "; }
    return o;
}
static const char* BAD[] = {"foo ax", "movv ax, bx", "mov ax", "mov ax bx", "mov [bx], 5", "mov byte [bx], ax", "mov word [bx], al", "mov ax, bl", "mov al, bx", "add es, 5", "add ax, es", "add bx, cl", "push al", "pop bl", "push byte [bx]",
    "mov ax, [bx", "mov ax, [cx]", "mov ax, [bx+bp]", "mov ax, [bx-si]", "mov ax, [si+di]", "mov 5, ax", "shl ax, 5", "shl ax, bl", "shr bl, 0", "lea al, [bx]", "lea ax, bx", "lea es, [bx]", "mov es, 5", "mov es, al", "mov es, ds", "mov al, ds", "inc [bx]", "mul 5", "not es", "neg 4",
    "inc es", "dec 5", "test es, 5", "test ax, es", "int 256", "int -1", "cpu 386", "db", "db ,", "dw 1,", "equ 5", "x equ", "mov ax,, bx", "mov ax, 5 5", "@", "mov ax, !5", "mov ax, 5)", "mov [5, ax", "jz", "jmp", "call al", "call es", "xchg ax, bl", "xchg es, [bx]", "xchg ax, 5", "mov ax, [5-bx]", "cmp al, es", "mov [bx], [si]", "org", "resb", "mov ax, 'abc'", "mov ax, ''", "mov ax, 1+", "mov ax, ~", "db 5 6", "dw ax", "db [bx]", "ret 5", "ax: ", "mov: ", "5: ", "jz ax", "jmp [bx", "short jmp", "mov byte al, 5", "imul es", "and 5, 5", "mov ax, [bx+si+2+bp]", "mov word [bx], es:5", "mov ds, [cx]", "div word", "sub ax", "movsb ax", "cbw 1"};
// programs scaled through the assembler's tables
struct Scaled { Prog p; Str text, what; int n; bool mustReject = false, mustAccept = false; };
static void scaled(Src& s, Scaled& r) {
    auto near = [&](int lim) { switch (s.below(3)) { case 0: return std::max(1, lim + s.range(-4, 4)); case 1: return 1 + (int)s.below(lim); default: return lim + (int)s.below(lim / 2 + 2); } };
    auto add = [&](Item t) { r.p.it.push_back(t); };
    auto lbl = [&](const Str& n) { Item t; t.k = Item::LBL; t.lab = (int)r.p.lab.size(); Label l; l.name = n; r.p.lab.push_back(l); add(t); return t.lab; };
    Str x;
    switch (s.below(7)) {
    case 0: { r.what = "identifiers"; r.n = near(500); for (int i = 0; i < r.n; ++i) { Str n = fmt("L%d", i); int l = lbl(n); x += n + ":\n"; Item t; t.k = Item::DW; Datum d; d.lab = l; t.data.push_back(d); add(t); x += "dw " + n + "\n"; } r.mustAccept = r.n < 400; break; }
    case 1: { r.what = "equates"; r.n = near(500); for (int i = 0; i < r.n; ++i) { x += fmt("E%d equ %d\n", i, i); } for (int i = 0; i < r.n; i += 7) { x += fmt("dw E%d\n", i); Item t; t.k = Item::DW; Datum d; d.v = i; t.data.push_back(d); add(t); } r.mustAccept = r.n < 400; break; }
    case 2: { r.what = "pending references"; r.n = near(600); for (int i = 0; i < r.n; ++i) { x += "dw Fwd\n"; Item t; t.k = Item::DW; Datum d; d.lab = 0; t.data.push_back(d); add(t); } lbl("Fwd"); x += "Fwd:\n"; r.mustAccept = r.n <= 500; break; }
    case 3: { r.what = "output bytes"; r.n = near(20000); int left = r.n; while (left > 0) { int l = std::min(left, 100); Str d(l, 'a' + left % 26); x += "db '" + d + "'\n"; Item t; t.k = Item::DB; Datum q; q.isStr = true; q.str = d; t.data.push_back(q); add(t); left -= l; } r.mustAccept = r.n < 19000; r.mustReject = r.n > 65000; break; }
    case 4: { r.what = "string length"; r.n = near(128); Str d; for (int i = 0; i < r.n; ++i) d += (char)('a' + i % 26); x += "db '" + d + "'\ndb 7\n"; Item t; t.k = Item::DB; Datum q; q.isStr = true; q.str = d; Datum q2; q2.v = 7; t.data.push_back(q); t.data.push_back(q2); add(t); r.mustAccept = r.n < 120; break; }
    case 5: { r.what = "name text"; r.n = near(330); for (int i = 0; i < r.n; ++i) { Str n = fmt("LongLabel_%06d", i); int l = lbl(n); x += n + ":\n"; Item t; t.k = Item::DW; Datum d; d.lab = l; t.data.push_back(d); add(t); x += "dw " + n + "\n"; } r.mustAccept = r.n < 250; break; }
    default: { // references resolved and reused many times
        r.what = "recycled references"; r.n = 1 + s.below(60); int k = 1 + s.below(40);
        for (int i = 0; i < r.n; ++i) { int l = (int)r.p.lab.size(); Str n = fmt("L%d", i); for (int j = 0; j < k; ++j) { x += "dw " + n + "\n"; Item t; t.k = Item::DW; Datum d; d.lab = l; t.data.push_back(d); add(t); } lbl(n); x += n + ":\n"; }
        r.mustAccept = true; break; }
    }
    r.text = x;
}
static void a05(Src& s, Ctx& c) {
    bool asan = s.chance(35);
    switch (s.weighted({20, 35, 30, 15, 5})) {
    case 4: { // file names
        auto comp = [&](bool dir) { static const char cs[] = "abcXY019_-~"; Str n; int l = s.chance(10) ? 90 + s.below(60) : 1 + s.below(8); for (int i = 0; i < l; ++i) n += s.chance(12) && i ? '.' : cs[s.below(11)]; if (dir) n += s.coin() ? ".d" : "x"; return n; };
        Str in, dirs;
        int nd = s.below(3);
        for (int i = 0; i < nd; ++i) { dirs += comp(true); mkdir((c.dir + "/" + dirs).c_str(), 0700); dirs += "/"; }
        Str base = comp(false);
        bool ext = s.chance(60);
        in = dirs + base + (ext ? (s.coin() ? ".asm" : ".ASM") : "");
        Str outArg = s.chance(40) ? dirs + comp(false) : "", of = outArg;
        Str last = in.substr(dirs.size()); size_t dot = last.rfind('.');
        if (outArg.empty()) of = dirs + (dot == Str::npos ? last : last.substr(0, dot)) + ".com";
        if (of == in) throw Discard{"same file"};
        int mode = s.weighted({70, 15, 15}); // fine, missing input, input is a directory
        if (s.chance(10)) { of = outArg = "no/such/dir/out.com"; if (mode == 0) mode = 3; }
        Str text = "mov ax, 0x1234\nret\n";
        removeFile(c.dir + "/" + of);
        if (mode == 1) removeFile(c.dir + "/" + in); else if (mode == 2) { in = dirs.empty() ? "." : dirs; if (outArg.empty()) of = "none"; } else writeFile(c.dir + "/" + in, text);
        c.note("command.txt", "sas " + in + " " + outArg);
        RunOpts o; o.cwd = c.dir; o.cpuSec = 5; o.noAsLimit = asan;
        std::vector<Str> av = {asan ? toolAsan("sas") : tool("sas"), in};
        if (!outArg.empty()) av.push_back(outArg);
        RunResult rr = runTool(av, o);
        Asm a; a.exitCode = rr.exitCode; a.sig = rr.sig; a.timeout = rr.timeout; a.msg = rr.out; a.ok = rr.exitCode == 0 && !rr.sig && !rr.timeout;
        c.note("message.txt", a.msg);
        a.exists = mode != 2 && fileExists(c.dir + "/" + of);
        expectClean(c, a);
        if (mode && a.ok) c.fail("success although the files cannot be read or written");
        bool longName = in.size() > 100 || of.size() > 100;
        if (!mode && !a.ok && !longName) c.fail("a readable file is rejected: " + a.msg);
        if (a.ok && readFile(c.dir + "/" + of) != "\xB8\x34\x12\xC3") c.fail("wrong output in " + of);
        if (a.ok && readFile(c.dir + "/" + in) != text) c.fail("the input file was changed");
        if (mode != 2 && fileExists(c.dir + "/" + of)) removeFile(c.dir + "/" + of);
        removeFile(c.dir + "/" + in);
        c.label(mode == 0 ? "file names" : "unusable files");
        c.nontrivial(hashStr(in + " " + outArg));
        return; }
    case 0: {
        Str t; int n = s.below(300); bool raw = s.chance(35);
        for (int i = 0; i < n; ++i) if (raw) t += (char)s.below(256); else { t += EXTRA[s.below(sizeof EXTRA / sizeof *EXTRA)]; t += s.chance(20) ? "\n" : " "; }
        if (s.chance(10)) t += "db '" + Str(s.below(400), 'x');
        c.note("program.asm", t);
        Asm a = assemble(c, t, asan); c.note("message.txt", a.msg);
        expectClean(c, a);
        Prog p; bool nj; Str e = parse(t, p, nj);
        if (a.ok && !nj) { if (!e.empty()) c.fail("invalid source is accepted: " + e); Str w = walk(p, a.out); if (!w.empty()) c.fail(w); farWarned(c, p, a); }
        c.label(raw ? "random bytes" : "token soup");
        if (n > 3) c.nontrivial(hashStr(t));
        return; }
    case 1: {
        GenOpts g; g.n = 10; g.pLab = 30; g.wEqu = 8;
        Prog p0; generate(s, p0, g);
        PrintOpts po; po.plain = s.coin();
        Str t = mutate(s, print(s, p0, po), 1 + s.below(3));
        c.note("program.asm", t);
        Prog p; bool nj; Str e = parse(t, p, nj);
        Asm a = assemble(c, t, asan); c.note("message.txt", a.msg); c.note("output.txt", hexOf(a.out));
        expectClean(c, a);
        if (nj) { c.label("mutant not judged"); return; }
        if (a.ok) {
            if (!e.empty()) c.fail("invalid source is accepted: " + e);
            Str w = walk(p, a.out); if (!w.empty()) c.fail(w); farWarned(c, p, a);
            c.label("mutant accepted");
        } else c.label(e.empty() ? "valid mutant rejected" : "invalid mutant rejected");
        c.nontrivial(hashStr(t));
        return; }
    case 2: {
        GenOpts g; g.n = 12; g.wOrg = 0; g.bss = false;
        Prog p; generate(s, p, g);
        PrintOpts po;
        Str t = print(s, p, po);
        if (!fits(p) || !p.shortSure) throw Discard{"not valid"};
        // insert one bad line before an item
        std::vector<Str> lines; { size_t i = 0; while (i <= t.size()) { size_t e = t.find('\n', i); if (e == Str::npos) e = t.size(); lines.push_back(t.substr(i, e - i)); i = e + 1; } }
        size_t k = s.below(p.it.size());
        int at = p.it[k].line0;              // 1-based line number of the item
        if (k && (p.it[k - 1].line0 == at)) throw Discard{"two items on a line"};
        int kind = s.below(11);
        Str bad; bool lineKnown = true;
        if (kind < 8) bad = BAD[s.below(sizeof BAD / sizeof *BAD)];
        else if (kind == 8) { bad = s.coin() ? "jmp no_such_label" : s.coin() ? "mov ax, [no_such_label+2]" : "jz .no_such"; lineKnown = false; }
        else if (kind == 10) { // output after reserved space
            static const char* const after[] = {"cbw", "db 1", "dw 0", "mov [bx], ax", "db 'x'", "jmp 5", "mov ax, [es:bx]"};
            bad = Str(s.coin() ? "resb " : "resw ") + (s.coin() ? "1" : "30") + "\n" + after[s.below(7)]; lineKnown = false; }
        else { if (p.lab.empty()) throw Discard{"no label"}; bad = p.lab[s.below(p.lab.size())].name + ":"; lineKnown = false; }
        // strings may span lines: only judge placement when the line starts an item
        Str all; for (size_t i = 0; i < lines.size(); ++i) { if ((int)i + 1 == at) all += bad + "\n"; all += lines[i]; if (i + 1 < lines.size()) all += "\n"; }
        c.note("program.asm", all); c.note("bad.txt", fmt("line %d: ", at) + bad);
        if (kind == 9) { // the same name in another region is a different local label
            Prog q; bool nj; Str e = parse(all, q, nj); if (nj || e.empty()) throw Discard{"still valid"};
        }
        Asm a = assemble(c, all, asan); c.note("message.txt", a.msg);
        expectClean(c, a);
        if (a.ok) c.fail("an invalid statement is accepted: " + bad);
        int l = errLine(a.msg);
        // the statement after the bad line begins on line at+1; its second token may already have been read
        int next = p.it[k].line1 + 1;
        if (lineKnown && l > 0 && (l < at || l > next)) c.fail(fmt("the error is on line %d but line %d is reported: %s", at, l, a.msg.c_str()));
        c.label(a.sig ? "bad statement rejected by assertion" : "bad statement rejected");
        c.nontrivial(hashStr(all));
        return; }
    case 3: {
        Scaled r; scaled(s, r);
        c.note("program.asm", r.text); c.note("limit.txt", fmt("%s: %d", r.what.c_str(), r.n));
        Asm a = assemble(c, r.text, asan); c.note("message.txt", a.msg);
        expectClean(c, a);
        if (a.ok) { Str w = walk(r.p, a.out); if (!w.empty()) c.fail(r.what + fmt(" = %d: ", r.n) + w); if (r.mustReject) c.fail("a program beyond the limits is accepted"); }
        else if (r.mustAccept) c.fail(fmt("a program with %s = %d is rejected: %s", r.what.c_str(), r.n, a.msg.c_str()));
        c.label((a.ok ? "limit accepted: " : "limit rejected: ") + r.what);
        c.nontrivial(hashStr(r.text));
        return; }
    }
}
static Reg r5({"A05", "Random bytes and token soups, token-level mutants of valid programs judged by an independent parser (an accepted text must be valid and its output must encode it), programs with one invalid statement injected at a known line, undefined and duplicate labels, and programs scaled through the identifier, name, fixup, string and output limits, through the normal and the AddressSanitizer build. Non-trivial: every input longer than 3 tokens.",
    50000, 800000, a05, {ORA, "an assertion failure that aborts the host build counts as a reported rejection", "values that do not fit 16 bits (or 8 bits in byte operands) are not judged", "names are significant to 16 characters; a NUL byte ends the source"}, nullptr});

static Reg r4({"A04", "Random programs, half of them damaged or with injected errors, or scaled through table limits, are given to the host assembler and to the assembler built by the project's compiler running on the reference 8086 model; acceptance and output bytes must be identical. Non-trivial: every compared program.",
    9000, 150000, [](Src& s, Ctx& c) {
        GenOpts g; g.n = 25; g.wData = 15; g.wLbl = 18; g.wEqu = 8; g.pLab = 30; g.boundary = s.chance(30);
        Str t; Str kind;
        switch (s.weighted({45, 35, 8, 12, 8})) {
        case 4: { Prog p; g.n = 6; g.boundary = false; generate(s, p, g); if (!p.shortSure || !fits(p)) throw Discard{"not valid"}; PrintOpts po; compareCommand(s, c, "sas", print(s, p, po), 60000000); return; }
        case 0: { Prog p; generate(s, p, g); PrintOpts po; po.lead = s.below(600); t = print(s, p, po); kind = "program"; break; }
        case 1: { Prog p; generate(s, p, g); PrintOpts po; t = mutate(s, print(s, p, po), 1 + s.below(3)); kind = "mutant"; break; }
        case 2: { Scaled r; scaled(s, r); t = r.text; kind = "limit"; break; }
        default: { Prog p; g.n = 6; generate(s, p, g); PrintOpts po; t = print(s, p, po) + BAD[s.below(sizeof BAD / sizeof *BAD)] + "\n"; kind = "bad statement"; }
        }
        { Prog q; bool nj; parse(t, q, nj); long va = 0; for (auto& i : q.it) { if (i.k == Item::ORG) va = i.v; if (i.k == Item::RES) va += i.v * i.unit; if (va > 0xe000 || va < 0) nj = true; } if (nj) throw Discard{"values beyond 16 bits"}; }
        c.note("program.asm", t);
        Asm a = assemble(c, t);
        if (a.timeout || (a.sig && !assertAbort(a))) throw Discard{"host crash (decided by A05)"};
        std::map<Str, Bytes> fs; fs["T.ASM"] = toBytes(t);
        DosRun d = runDos(selfHosted("sas"), fs, " T.ASM", 60000000, s.recorded().size(), !a.ok);
        if (d.stop == Ref86::BUDGET) c.fail("the DOS build does not terminate");
        if (d.stop != Ref86::EXITED) c.fail(fmt("the DOS build stops: %s (%s)\n%s", stopName(d.stop), d.why.c_str(), d.state.c_str()));
        c.note("host.txt", a.msg); c.note("dos.txt", d.console);
        bool dok = d.exitCode == 0;
        if (dok != a.ok) c.fail(fmt("host build %s, DOS build %s\nhost: %s\nDOS: %s", a.ok ? "accepts" : "rejects", dok ? "accepts" : "rejects", a.msg.c_str(), d.console.c_str()));
        if (!dok && d.console.find("Return address") != Str::npos) { Str e = backtraceError(d, 1000); if (!e.empty()) c.fail(e); c.label("stack trace"); }
        Bytes com; bool has = false; for (auto& f : d.files) if (f.first == "T.com" || f.first == "T.COM") { com = f.second; has = true; }
        if (a.ok && (!has || com != a.out)) { size_t i = 0; while (i < com.size() && i < a.out.size() && com[i] == a.out[i]) ++i; c.fail(fmt("outputs differ at offset %zu (sizes %zu host, %zu DOS)", i, a.out.size(), com.size())); }
        if (!a.ok && has) c.fail("the DOS build leaves an output file after an error");
        if (!a.ok && !a.sig && errLine(a.msg) != errLine(d.console)) c.fail("different error lines\nhost: " + a.msg + "\nDOS: " + d.console);
        c.label(kind + (a.ok ? " accepted" : " rejected"));
        c.nontrivial(hashStr(t));
        c.sample(t.substr(0, 500));
    }, {"the DOS build is the image the host compiler produces from sas.c in the working tree", "values stay within 16 bits"}, nullptr});

int main(int argc, char** argv) {
    g_needTools = {"sas"};
    for (int i = 1; i < argc; ++i) {
        if (Str(argv[i]) == "A05" || Str(argv[i]).find("A05-") != Str::npos) g_needAsan = {"sas"};
        if (Str(argv[i]) == "A04" || Str(argv[i]).find("A04-") != Str::npos) g_needTools = {"sas", "scc"};
    }
    return pbtMain(argc, argv);
}
