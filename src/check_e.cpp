// Property E01: the whole tool chain (scpp, scc, lib.h, sim86) preserves the meaning of a program.
#include "ctools.h"
#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace cg;
typedef std::map<Str, Str> Texts;

// ------------------------------------------------- spreading a program over macros and files
// A unit is a token, or a macro use rendered as one piece of text on one line.
struct Unit { Str t; CTok::K k; bool macro = false; bool nl = false; };
struct Spread {
    Src& s; std::vector<Unit> u; Str defs; int ids = 0; std::set<Str> names; Texts files; std::map<Str, int> used; bool arith = true;
    explicit Spread(Src& s_) : s(s_) {}
    static const int MAXIDS = 11;      // macro and parameter names (the preprocessor's table is small)
    bool room(int n) const { return ids + n <= MAXIDS; }
    Str fresh() {
        static const char* const pre[] = {"M", "MAC_", "x", "Zz", "_m", "q0"};
        for (int i = 0;; ++i) { Str n = Str(pre[s.below(6)]) + fmt("%d", (int)names.size() + i); if (names.insert(n).second) { ++ids; return n; } }
    }
    Str sep() { switch (s.weighted({70, 12, 6, 6, 3})) { case 1: return "  "; case 2: return "\t"; case 3: return " /* c */ "; case 4: return " /**/"; default: return " "; } }
    Str join(size_t a, size_t b) { Str r; for (size_t i = a; i < b; ++i) { if (i > a) r += sep(); r += u[i].t; } return r; }
    static bool same(const Unit& a, const Unit& b) { return a.t == b.t; }
    Str bodyText(const std::vector<Str>& ts) { // a replacement text, possibly over continued lines
        Str r;
        for (size_t i = 0; i < ts.size(); ++i) { if (i) r += s.chance(8) ? (s.coin() ? " \\\n  " : " \\\r\n") : sep(); r += ts[i]; }
        return r;
    }
    void replace(size_t a, size_t b, const Str& text) {
        bool nl = false; for (size_t i = a; i < b; ++i) nl |= u[i].nl;
        u.erase(u.begin() + a + 1, u.begin() + b);
        u[a] = Unit{text, CTok::PUNCT, true, nl};
    }
    void objectMacro() {
        if (!room(1) || u.size() < 20) return;
        size_t n = 1 + s.below(s.chance(20) ? 30 : 6); size_t a = s.below(u.size() - n); // a span of any shape
        size_t len = 0; for (size_t i = a; i < a + n; ++i) len += u[i].t.size();
        if (len > 400) return;
        std::vector<Unit> span(u.begin() + a, u.begin() + a + n);
        Str m = fresh(); std::vector<Str> ts; for (auto& x : span) ts.push_back(x.t);
        defs += "#define " + m + " " + bodyText(ts) + "\n";
        bool all = s.coin(); int hits = 0;
        for (size_t i = 0; i + n <= u.size(); ++i) {
            if (i > a && !all) break;
            if (i < a && !all) continue;
            bool eq = true; for (size_t j = 0; j < n && eq; ++j) eq = same(u[i + j], span[j]);
            if (eq && (i == a || s.chance(70))) { replace(i, i + n, m); ++hits; if (i < a) a -= n - 1; }
        }
        used["object-like macro"] += hits;
    }
    bool argOk(size_t a, size_t b) { // balanced, no top-level comma
        int d = 0;
        for (size_t i = a; i < b; ++i) {
            if (u[i].macro) continue;
            const Str& t = u[i].t;
            if (t == "(" ) ++d; else if (t == ")") { if (--d < 0) return false; } else if (t == "," && !d) return false;
        }
        return d == 0;
    }
    void functionMacro() {
        int np = 1 + s.below(3);
        if (!room(np + 1) || u.size() < 40) return;
        size_t n = 2 + s.below(14); size_t a = s.below(u.size() - n);
        size_t len = 0; for (size_t i = a; i < a + n; ++i) len += u[i].t.size();
        if (len > 300) return;
        // choose disjoint argument spans
        std::vector<std::pair<size_t, size_t>> args;
        for (int k = 0, tries = 0; k < np && tries < 12; ++tries) {
            size_t l = 1 + s.below(3); if (l > n) continue;
            size_t b = a + s.below(n - l + 1); bool ok = argOk(b, b + l);
            for (auto& x : args) if (b < x.second && x.first < b + l) ok = false;
            if (ok) { args.push_back({b, b + l}); ++k; }
        }
        if (args.empty()) return;
        std::sort(args.begin(), args.end());
        Str m = fresh(); std::vector<Str> ps; for (size_t i = 0; i < args.size(); ++i) ps.push_back(fresh());
        // template: parameters where the spans were; equal spans may share a parameter
        std::vector<Str> ts; std::vector<int> par(n, -1);
        std::vector<int> pn; for (size_t i = 0; i < args.size(); ++i) pn.push_back((int)i);
        for (size_t i = 1; i < args.size(); ++i) if (s.coin()) for (size_t j = 0; j < i; ++j) {
            if (pn[j] != (int)j || args[i].second - args[i].first != args[j].second - args[j].first) continue;
            bool eq = true; for (size_t k = 0; args[i].first + k < args[i].second; ++k) eq &= same(u[args[i].first + k], u[args[j].first + k]);
            if (eq) { pn[i] = (int)j; break; }
        }
        for (size_t i = a, k = 0; i < a + n;) {
            if (k < args.size() && args[k].first == i) { ts.push_back(ps[pn[k]]); i = args[k].second; ++k; }
            else ts.push_back(u[i++].t);
        }
        Str plist; for (size_t i = 0; i < ps.size(); ++i) plist += (i ? Str(s.coin() ? ", " : ",") : Str()) + ps[i];
        defs += "#define " + m + "(" + plist + ") " + bodyText(ts) + "\n";
        std::vector<Str> av; for (auto& x : args) av.push_back(join(x.first, x.second));
        bool single = true; for (auto& x : args) single &= x.second == x.first + 1;
        std::vector<Unit> tpl(u.begin() + a, u.begin() + a + n); std::vector<std::pair<size_t, int>> at; for (size_t i = 0; i < args.size(); ++i) at.push_back({args[i].first - a, pn[i]});
        auto call = [&](const std::vector<Str>& v) {
            Str r = m + (s.chance(15) ? " (" : "(");
            for (size_t i = 0; i < v.size(); ++i) r += (i ? (s.coin() ? ", " : ",") : s.coin() ? "" : " ") + v[i];
            return r + (s.chance(20) ? " )" : ")");
        };
        replace(a, a + n, call(av)); used["function-like macro"]++;
        if (!single) return;
        // other places of the same shape with other arguments
        for (size_t i = 0; i + n <= u.size(); ++i) {
            bool ok = true; std::vector<Str> v(ps.size(), "0"); std::vector<bool> set(ps.size(), false);
            for (size_t j = 0; j < n && ok; ++j) {
                int p = -1; for (auto& x : at) if (x.first == j) p = x.second;
                if (p < 0) { ok = same(u[i + j], tpl[j]); continue; }
                if (!u[i + j].macro && (u[i + j].t == "(" || u[i + j].t == ")" || u[i + j].t == ",")) { ok = false; continue; }
                if (set[p] && v[p] != u[i + j].t) { ok = false; continue; }
                v[p] = u[i + j].t; set[p] = true;
            }
            if (ok && s.chance(80)) { replace(i, i + n, call(v)); used["function-like macro"]++; }
        }
    }
    void pasteMacro() {
        if (!room(3)) return;
        Str m = fresh(), a = fresh(), b = fresh();
        defs += "#define " + m + "(" + a + "," + b + ") " + a + (s.coin() ? "##" : " ## ") + b + "\n";
        for (int k = 0; k < 8; ++k) {
            size_t i = s.below(u.size()); Unit& x = u[i];
            if (x.macro || x.k != CTok::ID || x.t.size() < 2) continue;
            size_t c = 1 + s.below(x.t.size() - 1);
                        x.t = m + "(" + x.t.substr(0, c) + (s.coin() ? "," : " , ") + x.t.substr(c) + ")"; x.macro = true; used["token pasting"]++;
        }
    }
    void stringMacro() {
        if (!room(2)) return;
        Str m = fresh(), a = fresh(); defs += "#define " + m + "(" + a + ") #" + a + "\n";
        for (auto& x : u) {
            if (x.macro || x.k != CTok::STR || x.t.size() < 3 || !s.chance(80)) continue;
            bool ok = true; for (size_t i = 1; i + 1 < x.t.size(); ++i) ok &= isalnum((unsigned char)x.t[i]) || x.t[i] == '_';
            if (!ok || isdigit((unsigned char)x.t[1])) continue;
            x.t = m + "(" + x.t.substr(1, x.t.size() - 2) + ")"; x.macro = true; used["stringizing"]++;
        }
    }
    // lines, chunks into headers, conditions
    Str garbage() {
        static const char* const g[] = {"this is not C at all (\n", "#error skipped\n", "int x = ;\n", "#include \"NOFILE.H\"\n", "}}} \"str\" 'c' 0x\n", "#define Q Q Q\n", "#undef __SCC__\n", "/* #else */ ))\n", "#if 1\nmore garbage\n#else\n#endif\n", "// #endif\n"};
        Str r; for (int i = 0, n = s.below(4); i < n; ++i) r += g[s.below(10)];
        return r;
    }
    Str cond(bool v) { // an #if line with the given truth value
        switch (s.below(8)) {
        case 0: return v ? "#ifdef __SCC__\n" : "#ifdef NOT_DEFINED\n";
        case 1: return v ? "#ifndef NOT_DEFINED\n" : "#ifndef __SCC__\n";
        case 2: return v ? "#if 1\n" : "#if 0\n";
        case 3: return v ? "#if defined(__SCC__) && !defined NOT_DEFINED\n" : "#if !defined(__SCC__) || defined NOT_DEFINED\n";
        case 4: return v ? "#if (3+4*5 == 23) ? 1 : 0\n" : "#if -1 > 0\n";
        case 5: return v ? "#if 'a' == 97 && NOT_DEFINED == 0\n" : "# if NOT_DEFINED\n";
        case 6: return v ? "#if __SCC__ - 0 || 1 /* always */\n" : "#if 1 << 3 != 0x8\n";
        default: return v ? "#\tif ~0 & 2\n" : "#if !1 // never\n";
        }
    }
    Str wrap(const Str& body) {
        used["condition"]++;
        switch (s.below(5)) {
        case 0: return cond(true) + body + "#else\n" + garbage() + "#endif\n";
        case 1: return cond(false) + garbage() + "#else\n" + body + "#endif\n";
        case 2: return cond(true) + body + "#elif 1\n" + garbage() + "#else\n" + garbage() + "#endif\n";
        case 3: return cond(false) + garbage() + "#elif defined __SCC__\n" + body + "#elif 1\n" + garbage() + "#endif\n";
        default: return cond(true) + body + "#endif\n";
        }
    }
    Str chunk(const std::vector<Str>& lines, size_t a, size_t b, int level, int nest) {
        Str r; size_t i = a;
        while (i < b) {
            if (b - i >= 2 && nest < 4 && s.chance(6)) { size_t n = 1 + s.below((uint32_t)std::min<size_t>(b - i, 30)); r += wrap(chunk(lines, i, i + n, level, nest + 1)); i += n; continue; }
            if (b - i >= 2 && level < 2 && (int)files.size() < 8 && s.chance(3)) {
                size_t n = 1 + s.below((uint32_t)std::min<size_t>(b - i, 80));
                static const char* const dirs[] = {"H%d.H", "X%d.INC", "part%d.h", "P_%d"};
                Str nm = fmt(dirs[s.below(4)], (int)files.size());
                files[nm] = ""; // reserve
                Str body = chunk(lines, i, i + n, level + 1, nest);
                bool guard = level == 0 && s.chance(40) && room(1);
                if (guard) { Str g = "G_" + fmt("%d", ids); ++ids; body = "#ifndef " + g + "\n#define " + g + "\n" + body + "#endif\n"; }
                files[nm] = (s.chance(20) ? "// header\n" : "") + body;
                if (s.chance(10) && files[nm].size() > 1) files[nm].pop_back();   // no newline at the end of the file
                Str inc = (s.coin() ? "#include \"" : "#\tinclude  \"") + nm + "\"" + (s.chance(10) ? " // part" : "") + "\n";
                r += inc; if (guard && s.coin()) r += inc;
                used["header"]++; i += n; continue;
            }
            r += lines[i++];
        }
        return r;
    }
    Texts run(const Str& program, const Str& head, int intensity) {
        u.clear();
        size_t pos = 0; // remember line ends of the original text
        for (auto& t : ctokens(program)) { u.push_back(Unit{t.t, t.k}); names.insert(t.t); size_t q = program.find(t.t, pos); if (q != Str::npos) { size_t e = q + t.t.size(); if (e < program.size() && program[e] == '\n') u.back().nl = true; pos = e; } }
        for (auto& t : ctokens(head)) names.insert(t.t);
        for (int i = 0; i < intensity; ++i)
            switch (s.weighted({35, 45, 10, 10})) { case 0: objectMacro(); break; case 1: functionMacro(); break; case 2: pasteMacro(); break; default: stringMacro(); break; }
        std::vector<Str> lines; Str cur;
        for (auto& x : u) {
            cur += x.t;
            if (x.nl || s.chance(3)) { cur += s.chance(5) ? " // note\n" : s.chance(3) ? "\r\n" : "\n"; lines.push_back(cur); cur.clear(); }
            else cur += s.chance(2) ? Str(" \\\n") : sep();
        }
        lines.push_back(cur + "\n");
        std::vector<Str> dl; { size_t i = 0; while (i < defs.size()) { size_t e = i; for (;;) { e = defs.find('\n', e); bool cont = e > 0 && (defs[e - 1] == '\\' || (defs[e - 1] == '\r' && defs[e - 2] == '\\')); ++e; if (!cont) break; } dl.push_back(defs.substr(i, e - i)); i = e; } }
        Str d; if (!dl.empty()) d = chunk(dl, 0, dl.size(), 0, 0);
        bool libFirst = s.coin();
        Str text = (libFirst ? head + d : d + head) + chunk(lines, 0, lines.size(), 0, 0);
        files["P.C"] = text;
        return files;
    }
};

// ------------------------------------------------------------------ the check
static Opts eProfile(Src& s) {
    Opts o; o.depth = 3; o.nfuncs = 2 + s.below(3); o.nstmts = 6; o.wOut = 25;
    switch (s.below(6)) {
    case 0: o.depth = 4; o.pChar = 50; o.pUnsigned = 40; break;
    case 1: o.wIf = 22; o.wLoop = 18; o.wJump = 10; o.wGoto = 6; break;
    case 2: o.wSwitch = 30; break;
    case 3: o.structPct = 90; o.wPtr = 10; o.wStruct = 12; break;
    case 4: o.pCall = 40; o.nfuncs = 5; break;
    default: o.pSE = 70; o.wAssign = 35; o.pStr = 12; break;
    }
    return o;
}
struct OutFn { const char* text; std::function<Str(int)> show; };
static const std::vector<OutFn>& outFns() {
    static const std::vector<OutFn> v = {
        {"void Out(int v) { printf(\"%d\\n\", v); }\n", [](int v) { return fmt("%d\r\n", v); }},
        {"void Out(int v) { char b[20]; sprintf(b, \"%04X;\", v); char* p = b; while (*p) putchar(*p++); }\n", [](int v) { return fmt("%04X;", v & 0xffff); }},
        {"void Out(int v) { char t[16]; sprintf(t, \"<%+6d>\", v); puts(t); }\n", [](int v) { return fmt("<%+6d>\r\n", v); }},
        {"int Count;\nvoid Out(int v) { printf(\"%d:%x%c\", ++Count, v, Count % 4 ? ' ' : '\\n'); }\n", nullptr},
        // bytes of all values
        {"void Out(int v) { putchar(v & 255); printf(\"%c;\", v >> 8 | 32); }\n", [](int v) { int b = v & 255; return (b == 10 ? Str("\r\n") : Str(1, (char)b)) + (char)(v >> 8 | 32) + ";"; }},
    };
    return v;
}
static Str expectConsole(int k, const Trace& t) {
    Str r; int n = 0;
    for (auto w : t.out) {
        int v = (int16_t)w; ++n;
        if (k == 3) { r += fmt("%d:%x", n, w); r += n % 4 ? " " : "\r\n"; }
        else r += outFns()[k].show(v);
    }
    return r;
}
static void expectRun(Ctx& c, const Str& who, const Str& want, const Str& got, int wantCode, int gotCode) {
    if (got != want) {
        size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
        c.note("console expected.txt", want); c.note("console got.txt", got);
        c.fail(fmt("%s: console output differs at offset %zu\nexpected: ...%s\nactual:   ...%s", who.c_str(), i, want.substr(i > 30 ? i - 30 : 0, 90).c_str(), got.substr(i > 30 ? i - 30 : 0, 90).c_str()));
    }
    if (wantCode != gotCode) c.fail(fmt("%s: exit code %d, C gives %d", who.c_str(), gotCode, wantCode));
}
static void clean(const Str& d) {
    DIR* p = opendir(d.c_str()); if (!p) return;
    std::vector<Str> n; while (dirent* e = readdir(p)) { Str x = e->d_name; if (x != "." && x != "..") n.push_back(x); }
    closedir(p);
    for (auto& x : n) unlink((d + "/" + x).c_str());
}
static void e01(Src& s, Ctx& c) {
    Opts o = eProfile(s);
    auto p = generate(s, o);
    Trace t = interpret(*p);
    if (t.out.size() > 600) throw Discard{"long output"};
    Str src = print(*p, false);
    size_t q = src.find("int main(void)");
    if (q == Str::npos) throw Discard{"no main"};
    src.replace(q, 14, "int main(int argc_, char** argv_)");
    RespellOpts ro; ro.space = ro.comments = ro.hashLines = ro.idents = false; ro.numbers = ro.strings = true;
    bool re = s.chance(50);
    if (re) { Str x = respell(s, src, ro); // keeps the tokens' order; restore some line structure
        Str y; for (size_t i = 0; i < x.size(); ++i) y += x[i]; src = y; }
    int of = s.below(5);
    Str head = "#include \"lib.h\"\n" + Str(outFns()[of].text);
    Spread sp(s);
    Texts files = sp.run(src, head, s.below(10));
    files["lib.h"] = repoFile("lib.h");
    c.note("program.c", src);
    for (auto& f : files) if (f.first != "lib.h") c.note("file " + f.first, f.second);
    Str want = expectConsole(of, t); int code = t.exitCode & 0xff;
    Str d = c.dir + "/e"; mkdir(d.c_str(), 0755); clean(d);
    for (auto& f : files) writeFile(d + "/" + f.first, f.second);
    RunOpts ro2; ro2.cwd = d; ro2.cpuSec = 5; ro2.anyExit = true; ro2.maxOut = 16u << 20;
    RunResult r = runTool({tool("scpp"), "P.C", "P.I"}, ro2);
    if (r.timeout || r.exitCode != 0 || r.sig) {
        c.note("scpp.txt", r.out);
        if (r.timeout || (r.sig && r.sig != 6)) c.fail(fmt("the preprocessor fails (signal %d)", r.sig));
        static const char* const lim[] = {"Too many", "too long", "Assertion", "nested"};
        bool l = false; for (auto x : lim) l |= r.out.find(x) != Str::npos;
        c.label("scpp: " + r.out.substr(r.out.find(':') == Str::npos ? 0 : r.out.find(':'), 60));
        if (l) throw Discard{"preprocessor table limit"};
        c.fail("the preprocessor rejects a valid program: " + r.out.substr(0, 300));
    }
    r = runTool({tool("scc"), "P.I", "P.COM"}, ro2);
    if (r.timeout || r.sig || r.exitCode != 0) {
        c.note("scc.txt", r.out);
        if (r.timeout || (r.sig && r.sig != 6)) c.fail(fmt("the compiler fails (signal %d)", r.sig));
        Str m = r.out; c.label("scc: " + m.substr(0, 60));
        // The same program without macros and headers must be rejected too.
        writeFile(d + "/Q.C", head + src);
        RunResult r2 = runTool({tool("scpp"), "Q.C", "Q.I"}, ro2), r3 = runTool({tool("scc"), "Q.I", "Q.COM"}, ro2);
        if (r2.exitCode == 0 && r3.exitCode == 0 && m.find("Check failed") == Str::npos && m.find("ssert") == Str::npos) c.fail("the compiler rejects the program only when it is spread over macros and files: " + m.substr(0, 300));
        throw Discard{"rejected by the compiler"};
    }
    Bytes img = toBytes(readFile(d + "/P.COM"));
    DosRun rr = runDos(img, {}, "", t.steps * 400 + t.out.size() * 20000 + 400000, s.recorded().size());
    if (rr.stop != Ref86::EXITED) { c.note("console got.txt", rr.console); c.fail(fmt("reference machine: the program stops: %s (%s)\n%s", stopName(rr.stop), rr.why.c_str(), rr.state.c_str())); }
    expectRun(c, "reference machine", want, rr.console, code, rr.exitCode);
    ro2.cpuSec = 10;
    r = runTool({tool("sim86"), "P.COM"}, ro2);
    if (r.timeout || r.sig) c.fail(fmt("the simulator stops with signal %d: %s", r.sig, r.out.substr(0, 300).c_str()));
    // the host simulator writes the console bytes as the program emits them
    expectRun(c, "sim86", want, r.out, code, r.exitCode);
    if (s.chance(4)) { // the same with the tools running as DOS programs
        std::map<Str, Bytes> fs; for (auto& f : files) fs[f.first] = toBytes(f.second);
        DosRun a = runDos(selfHosted("scpp"), fs, " P.C P.I", 400000000, 1);
        if (a.stop != Ref86::EXITED || a.exitCode) c.fail(fmt("the DOS build of the preprocessor fails (%s, exit code %d): %s", stopName(a.stop), a.exitCode, a.console.c_str()));
        DosRun b = runDos(selfHosted("scc"), a.files, " P.I P.COM", 1000000000, 2);
        if (b.stop != Ref86::EXITED) c.fail(fmt("the DOS build of the compiler fails: %s (%s) %s", stopName(b.stop), b.why.c_str(), b.state.c_str()));
        if (b.exitCode) { c.note("dos scc.txt", b.console); c.label("rejected by the DOS build"); throw Discard{"rejected by the DOS build of the compiler"}; }
        if (!b.files.count("P.COM")) c.fail("the DOS build of the compiler wrote no program");
        DosRun e = runDos(b.files["P.COM"], {}, "", t.steps * 400 + t.out.size() * 20000 + 400000, 3);
        if (e.stop != Ref86::EXITED) c.fail(fmt("self-hosted tools: the program stops: %s (%s)", stopName(e.stop), e.why.c_str()));
        expectRun(c, "self-hosted tools", want, e.console, code, e.exitCode);
        if (s.chance(30)) {
            DosRun f = runDos(selfHosted("sim86"), b.files, " P.COM", 2000000000ull, 4);
            if (f.stop != Ref86::EXITED) c.fail(fmt("the DOS build of the simulator stops: %s (%s) %s", stopName(f.stop), f.why.c_str(), f.console.substr(0, 300).c_str()));
            expectRun(c, "DOS build of sim86", want, f.console, code, f.exitCode);
            c.label("whole chain as DOS programs");
        }
        c.label("tools run as DOS programs");
    }
    int sc = 0; for (auto& x : sp.used) { c.label(x.first, x.second); sc += x.second; }
    c.label("values compared", t.out.size());
    if (sc >= 2 && t.out.size() >= 2) c.nontrivial(hashStr(files["P.C"]));
    c.sample(files["P.C"].substr(0, 1200));
}
static Reg e1({"E01", "Random programs with a known meaning (reference interpreter) print through lib.h; their tokens are spread over object-like, function-like, stringizing and pasting macros, header files with and without guards and true/false conditions, then preprocessed, compiled and run on sim86 and on the reference machine; console bytes and exit code must be those of the source. One case in 25 repeats this with the tools themselves running as DOS programs. Non-trivial: at least 2 macro, header or condition uses and 2 printed values.",
    40000, 900000, e01, {"the expected output is computed by an interpreter of the generated program (src/cgen.cpp)", "macro, header and condition uses are inserted so that the token sequence after preprocessing is the original one", "programs the compiler rejects for a table limit or as unsupported are discarded"}, nullptr});

int main(int argc, char** argv) {
    g_needTools = {"scpp", "scc", "sim86"};
    return pbtMain(argc, argv);
}
