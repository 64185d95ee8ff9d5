// Properties P01-P06: the preprocessor.
#include "ppref.h"
#include "ctools.h"
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>
typedef std::map<Str, Str> Files;

struct PpTool { bool ok = false, timeout = false, hasOut = false; int exitCode = 0, sig = 0; Str msg, out; };
static PpTool runScpp(Ctx& c, const Files& f, const Str& mainName, const Str& outName = "", bool asan = false) {
    Str d = c.dir + "/pp"; mkdir(d.c_str(), 0755); clearDir(d);
    Str on = outName;
    if (on.empty()) { size_t p = mainName.rfind('.'); on = (p == Str::npos ? mainName : mainName.substr(0, p)) + ".i"; }
    for (auto& x : f) writeFile(d + "/" + x.first, x.second);
    std::vector<Str> av = {asan ? toolAsan("scpp") : tool("scpp"), mainName};
    if (!outName.empty()) av.push_back(outName);
    RunOpts o; o.cwd = d; o.cpuSec = 5; o.noAsLimit = asan;
    if (!asan) o.maxFiles = 20;               // as in a DOS process
    RunResult r = runTool(av, o);
    PpTool t; t.timeout = r.timeout; t.exitCode = r.exitCode; t.sig = r.sig; t.msg = r.out;
    t.ok = !r.timeout && !r.sig && r.exitCode == 0;
    t.out = readFile(d + "/" + on, &t.hasOut);
    clearDir(d);
    return t;
}
static bool assertAbort(const PpTool& t) { return t.sig == 6 && t.msg.find("Assertion") != Str::npos; }
static void noteFiles(Ctx& c, const Files& f) { for (auto& x : f) c.note(x.first, x.second); }
static void expectClean(Ctx& c, const PpTool& t) {
    if (t.timeout) c.fail("the preprocessor does not terminate");
    if (t.msg.find("AddressSanitizer") != Str::npos || t.msg.find("runtime error") != Str::npos) c.fail("memory error: " + t.msg.substr(0, 1500));
    if (t.sig && !assertAbort(t)) c.fail(fmt("the preprocessor stops with signal %d: %s", t.sig, t.msg.substr(0, 500).c_str()));
}
// Compare an accepted run with the model. Returns false if the model leaves the case open.
static void compareTokens(Ctx& c, const PpResult& m, const Str& out, const Str& what = "") {
    Str e; auto got = ppLex(out, &e);
    if (!e.empty()) { c.note("output.i", out); c.fail(what + "the output contains an " + e); }
    std::vector<PTok> g; for (auto& t : got) if (t.k != PTok::NL) g.push_back(t);
    size_t i = 0; while (i < g.size() && i < m.out.size() && g[i].t == m.out[i].t) ++i;
    if (i == g.size() && i == m.out.size()) return;
    c.note("output.i", out); c.note("expected.txt", ppShow(m.out, 4000));
    size_t from = i < 6 ? 0 : i - 6;
    c.fail(what + fmt("token %zu differs\nexpected ...: %s\ngot ...:      %s", i, ppShow(m.out, 20, from).c_str(), ppShow(g, 20, from).c_str()));
}
static void judge(Ctx& c, const Files& f, const PpResult& m, const PpTool& t, bool within) {
    expectClean(c, t);
    if (!m.unsure.empty()) return;
    if (!m.error.empty()) { if (t.ok) { c.note("output.i", t.out); c.fail("invalid input is accepted: " + m.error); } return; }
    if (!t.ok) { if (within) c.fail("valid input is rejected: " + t.msg.substr(0, 500)); return; }
    if (!t.hasOut) c.fail("no output file");
    compareTokens(c, m, t.out);
}
static void features(Ctx& c, const PpResult& m) { for (auto& x : m.feat) c.label(x.first, x.second); }

// --- text generation ---------------------------------------------------------
static Str ppUnsplice(const Str& t) {
    Str r;
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '\\' && t[i + 1] == '\n') { ++i; continue; }
        if (t[i] == '\\' && t[i + 1] == '\r' && t[i + 2] == '\n') { i += 2; continue; }
        r += t[i];
    }
    return r;
}
struct Gen {
    Src& s;
    std::vector<Str> pool;                // names that can become macros or parameters
    std::vector<Str> plain = {"p", "q", "var", "_t1", "Z9", "stderr", "if", "return", "x_", "B2"};
    struct Def { int arity; Str text; };  // arity -1: object-like
    std::map<Str, Def> defs;
    bool splices = true, comments = true;
    int nextMark = 1;
    explicit Gen(Src& s_) : s(s_) {}
    void makePool(int n) {
        static const char* all[] = {"A", "B", "C", "D", "F", "G", "H", "x", "y", "z", "foo", "bar", "MAX", "line", "error", "a", "b", "define", "include", "VeryLongMacroName_0123456789", "AA", "BA", "f", "e", "x1"};
        std::vector<Str> v(all, all + sizeof all / sizeof *all);
        bool random = s.chance(50);
        for (int i = 0; i < n && !v.empty(); ++i) {
            size_t k = s.below(v.size()); Str name = v[k]; v.erase(v.begin() + k);
            if (random && s.chance(70)) { name = rname(); if (std::count(pool.begin(), pool.end(), name)) continue; }
            pool.push_back(name);
        }
        if (random) for (int i = 0; i < 12; ++i) { Str p = rname(); if (!std::count(pool.begin(), pool.end(), p) && !std::count(plain.begin(), plain.end(), p)) plain.push_back(p); }
    }
    // a random name that is no directive or predefined name
    Str rname() {
        static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
        for (;;) {
            int n = 1 + s.below(s.chance(70) ? 3 : 12); Str r;
            for (int i = 0; i < n; ++i) r += cs[s.below(i ? 63 : 53)];
            static const std::set<Str> no = {"define", "undef", "if", "ifdef", "ifndef", "elif", "else", "endif", "include", "line", "error", "pragma", "defined", "__FILE__", "__LINE__", "__SCC__"};
            if (!no.count(r)) return r;
        }
    }
    // comments with arbitrary contents
    Str blockComment(int most) {
        static const char* cs[] = {"*", "/", " ", "x", "\"", "'", "#", "\\", "**", "//", "/*", "* ", "\t", "\xe9"};
        int n = s.below(most + 1); Str r = "/*";
        for (int i = 0; i < n; ++i) {
            Str p = s.chance(4) ? "\n" : splices && s.chance(4) ? "\\\n" : cs[s.below(14)];
            Str u = r + p; size_t q = u.size() >= 4 ? 2 : Str::npos;
            if (q != Str::npos && ppUnsplice(u.substr(2)).find("*/") != Str::npos) continue;
            r = u;
        }
        if (!r.empty() && r.back() == '\\') r += ' ';
        return r + "*/";
    }
    Str lineComment(int most) {
        static const char* cs[] = {"*", "/", " ", "x", "\"", "'", "#", "*/", "/*", "word", "\t", "\xe9", "a \\ b", "//"};
        int n = s.below(most + 1); Str r = "//";
        for (int i = 0; i < n; ++i) r += splices && s.chance(6) ? s.coin() ? "\\\n" : "\\\r\n" : cs[s.below(14)];
        return r;
    }
    Str lit() {
        static const char* v[] = {"\"str\"", "\"a,b\"", "\"(\"", "\")\"", "\"\\\"\"", "\"\\\\\"", "\"\"", "\"/* no */\"", "\"// no\"", "'c'", "'\\''", "'\\\\'", "'\"'", "','", "'('", "\"it's\"", "\"A B\"", "\"#\"", "\"tab\\tnl\\n\""};
        if (s.chance(30)) {
            char q = s.chance(70) ? '"' : '\''; Str b; int n = q == '"' ? s.below(9) : 1 + s.below(2);
            static const char* e[] = {"\\n", "\\\\", "\\'", "\\\"", "\\0", "\\x1f", "\\t"};
            for (int i = 0; i < n; ++i) { if (s.chance(35)) { b += e[s.below(7)]; continue; } char ch = 32 + s.below(95); if (ch == '\\' || ch == q) ch = ' '; b += ch; }
            return q + b + q;
        }
        return v[s.below(sizeof v / sizeof *v)];
    }
    // an integer of at most 16 bits in any spelling
    Str integer(int most = 32767) {
        int v = s.weighted({30, 40, 30}), x = v == 0 ? s.below(3) : v == 1 ? s.below(std::min(most, 300) + 1) : s.below(most + 1);
        Str r;
        switch (s.below(3)) {
        case 0: r = fmt("%d", x); break;
        case 1: r = fmt(s.coin() ? "%x" : "%X", x); r = (s.coin() ? "0x" : "0X") + Str(s.below(2) && r.size() < 4 ? 1 : 0, '0') + r; break;
        default: r = "0" + fmt("%o", x);
        }
        static const char* suf[] = {"l", "L", "u", "U", "ul", "LU", "UL", "lu"};
        if (s.chance(12)) r += suf[s.below(8)];
        return r;
    }
    Str num() {
        if (s.chance(25)) return integer();
        static const char* v[] = {"0", "1", "2", "42", "0x1F", "100", "7u", "3L", "0XaB", "12345", "0777", "1e5"};
        return v[s.below(sizeof v / sizeof *v)];
    }
    Str punct() {
        static const char* v[] = {"+", "-", "*", "/ ", "%", "=", "!", "<", ">", "&", "^", "|", "~", "?", ":", ";", "[", "]", "{", "}", ".", "++", "--", "->", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "+=", "-=", "|=", "...", "<<=", ">>="};
        return v[s.below(sizeof v / sizeof *v)];
    }
    Str gap(bool inDirective, bool need = false) {
        switch (s.weighted({need ? 0 : 40, 40, 5, comments ? 6 : 0, splices ? 4 : 0, inDirective ? 0 : 6, inDirective || !comments ? 0 : 3, splices ? 2 : 0})) {
        case 0: return "";
        case 1: return " ";
        case 2: return s.coin() ? "\t" : "   ";
        case 3: return blockComment(s.chance(10) ? 40 : 6);
        case 4: return need ? " \\\n " : "\\\n";
        case 5: return s.coin() ? "\n" : "\r\n";
        case 6: return lineComment(s.chance(10) ? 60 : 6) + (s.coin() ? "\n" : "\r\n");
        default: return " \\\r\n";
        }
    }
    Str id() { return s.chance(60) ? s.pick(plain) : s.pick(pool); }
    Str atom() {
        if (s.chance(4)) { static const char* b[] = {"__LINE__", "__LINE__", "__FILE__", "__SCC__"}; return b[s.below(4)]; }
        switch (s.weighted({35, 25, 8, 25})) { case 0: return id(); case 1: return num(); case 2: return lit(); default: return punct(); }
    }
    std::vector<Str> defined(bool fn) const { std::vector<Str> v; for (auto& d : defs) if ((d.second.arity >= 0) == fn) v.push_back(d.first); return v; }
    // a macro use, possibly wrong in arity if sloppy
    Str use(int depth, bool dir, const std::vector<Str>& params, bool sloppy) {
        auto fns = defined(true), objs = defined(false);
        if (!fns.empty() && (objs.empty() || s.chance(65))) {
            Str n = s.pick(fns); int ar = defs[n].arity;
            if (s.chance(8)) return n + " ";
            if (sloppy && s.chance(10)) ar = s.below(4);
            Str r = n + (s.chance(80) ? "" : gap(dir)) + "(" ;
            for (int i = 0; i < ar; ++i) { if (i) r += gap(dir) + ","; r += gap(dir) + arg(depth - 1, dir, params, sloppy) + gap(dir); }
            if (ar <= 0 && s.chance(20)) r += gap(dir);
            return r + ")";
        }
        if (!objs.empty()) return s.pick(objs);
        return id();
    }
    Str arg(int depth, bool dir, const std::vector<Str>& params, bool sloppy) {
        int n = s.weighted({10, 50, 20, 10, 5});
        Str r;
        for (int i = 0; i < n; ++i) {
            if (i) r += gap(dir);
            int k = s.weighted({30, depth > 0 ? 30 : 0, depth > 0 ? 8 : 0, params.empty() ? 0 : 40, 3});
            if (k == 0) r += atom();
            else if (k == 1) r += use(depth, dir, params, sloppy);
            else if (k == 2) r += "(" + arg(depth - 1, dir, params, sloppy) + (s.coin() ? "," + arg(depth - 1, dir, params, sloppy) : Str("")) + ")";
            else if (k == 3) r += s.pick(params);
            else r += s.coin() ? "#" : "##";
        }
        return r;
    }
    Str body(const std::vector<Str>& params, bool fn) {
        int n = s.weighted({6, 20, 25, 20, 15, 8, 6}); Str r;
        auto operand = [&]() -> Str { if (!params.empty() && s.chance(70)) return s.pick(params); if (s.chance(60)) return id(); return s.coin() ? "1" : "x2"; };
        for (int i = 0; i < n; ++i) {
            if (i) r += gap(true);
            int k = s.weighted({25, params.empty() ? 0 : 35, 20, fn && !params.empty() ? 8 : 0, 10, 6, fn ? 0 : 3});
            if (k == 0) r += atom();
            else if (k == 1) r += s.pick(params);
            else if (k == 2) r += use(1, true, params, false);
            else if (k == 3) r += "#" + gap(true) + s.pick(params);
            else if (k == 4) { int m = s.chance(25) ? 3 : 2; for (int j = 0; j < m; ++j) { if (j) r += gap(true) + "##" + gap(true); r += operand(); } }
            else if (k == 5) r += "(" + (params.empty() ? id() : s.pick(params)) + ")";
            else r += "#";
        }
        return r;
    }
    Str dirStart() { return Str(s.chance(8) ? " " : "") + (s.chance(5) ? blockComment(6) : Str()) + "#" + (s.chance(10) ? gap(true) : ""); }
    Str dirEnd() { return Str(s.chance(8) ? " " : "") + (s.chance(6) ? lineComment(6) : s.chance(5) ? blockComment(6) : Str()) + (s.chance(8) ? "\r\n" : "\n"); }
    Str define() {
        Str n = s.pick(pool);
        auto it = defs.find(n);
        if (it != defs.end()) {
            if (s.chance(25)) return dirStart() + "define " + n + it->second.text + dirEnd();   // identical
            defs.erase(n);
            Str u = dirStart() + "undef" + gap(true, true) + n + dirEnd();
            if (s.chance(40)) return u;
            return u + defineAs(n);
        }
        return defineAs(n);
    }
    Str defineAs(const Str& n) {
        bool fn = s.chance(60); Str t; std::vector<Str> ps; int ar = -1;
        if (fn) {
            ar = s.weighted({10, 45, 30, 10, 5});
            t = "(";
            for (int i = 0; i < ar; ++i) {
                Str p; int tries = 0; do p = s.pick(pool); while (std::count(ps.begin(), ps.end(), p) && ++tries < 30);
                ps.push_back(p);
                if (i) t += gap(true) + ","; t += gap(true) + p + gap(true);
            }
            t += ")";
        }
        Str b = body(ps, fn);
        t += (fn ? gap(true) : gap(true, true)) + b;
        defs[n] = {ar, t};
        return dirStart() + "define" + gap(true, true) + n + t + dirEnd();
    }
    Str textLine(bool sloppy = false) {
        int n = s.weighted({3, 25, 25, 20, 12, 8}); Str r;
        for (int i = 0; i < n; ++i) {
            if (i) r += gap(false);
            if (s.chance(55)) r += use(2 + s.below(2), false, {}, sloppy); else r += atom();
        }
        return r + (s.chance(8) ? "\r\n" : "\n");
    }
    // two tokens that meet without white space and would read as something else if they were joined
    Str meeting() {
        static const char* v[] = {"1", "1e", "0x1F", "2E", "3p", ".", "..", "...", ".5", "x", "E", "P", "L", "+", "-", "++", "--", "<", ">", "<<", ">>", "=", "==", "!", "&", "|", "^", "*", "%", "->", ":", "?", "\"s\"", "'c'", "(", ")", "#", "##", "~", "/ "};
        Str r; int n = 2 + s.below(3);
        for (int i = 0; i < n; ++i) {
            Str t = v[s.below(sizeof v / sizeof *v)];
            if (t == "(" || t == ")" || s.chance(15)) { if (t == "(") t = "()"; if (t == ")") t = "(1)"; }
            r += s.chance(12) ? "JI()" : s.chance(10) ? "JI(JI(" + t + "))" : "JI(" + t + ")";
        }
        return r;
    }
    Str history(int n, bool sloppy = false) {
        Str r; bool meet = s.chance(20);
        if (meet) { r = "#define JI(x) x\n"; int k = 1 + s.below(4); Str t; for (int i = 0; i < k; ++i) t += meeting() + (s.chance(70) ? "\n" : " "); r += t + "\n"; if (s.coin()) { r += "#define JB " + meeting() + "\nJB JI(JB)\n"; } }
        for (int i = 0; i < n; ++i) {
            int k = s.weighted({defs.size() < 2 ? 70 : 35, defs.empty() ? 5 : 55, defs.empty() ? 0 : 5, 3});
            if (k == 0) r += define();
            else if (k == 1) r += textLine(sloppy);
            else if (k == 2) { auto it = defs.begin(); std::advance(it, s.below(defs.size())); r += dirStart() + "undef " + it->first + dirEnd(); defs.erase(it); }
            else r += s.coin() ? "#\n" : dirStart() + "pragma once 'x\n";
        }
        return r + textLine(sloppy);
    }
    // --- conditions
    Str small() { if (s.chance(30)) return integer(s.chance(70) ? 40 : 32767); static const char* v[] = {"0", "1", "2", "3", "5", "7", "10", "0x10", "017", "1L", "2u", "'a'", "'\\n'", "'0'", "100"}; return v[s.below(sizeof v / sizeof *v)]; }
    Str cexpr(int depth) {
        if (depth <= 0 || s.chance(15)) {
            switch (s.weighted({45, 15, 12, 20})) {
            case 0: return small();
            case 1: return s.pick(plain);
            case 2: return Str("defined") + (s.coin() ? " " + s.pick(pool) : gap(true) + "(" + gap(true) + s.pick(pool) + gap(true) + ")");
            default: return condMacro();
            }
        }
        switch (s.weighted({60, 15, 15, 10})) {
        case 0: {
            static const char* ops[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||", "<<", ">>"};
            Str l = cexpr(depth - 1), op = ops[s.below(18)], r = cexpr(depth - 1);
            return l + " " + op + " " + r;
        }
        case 1: { static const char* u[] = {"!", "-", "~", "+"}; Str op = u[s.below(4)]; return op + (s.coin() ? " " : "") + "(" + cexpr(depth - 1) + ")"; }
        case 2: return "(" + gap(true) + cexpr(depth - 1) + gap(true) + ")";
        default: { Str a = cexpr(depth - 1), b = cexpr(depth - 1), d = cexpr(depth - 1); return a + " ? " + b + " : " + d; }
        }
    }
    Str condMacro() {
        if (defs.empty()) return small();
        auto it = defs.begin(); std::advance(it, s.below(defs.size()));
        if (it->second.arity < 0) return it->first;
        Str r = it->first + (s.chance(15) ? " " : "") + "(";
        for (int i = 0; i < it->second.arity; ++i) r += (i ? ", " : "") + small();
        return r + ")";
    }
    Str condDefine() {
        Str n = s.pick(pool); Str r;
        if (defs.count(n)) { r = "#undef " + n + "\n"; defs.erase(n); if (s.chance(30)) return r; }
        if (s.chance(60)) { Str v = s.chance(70) ? small() : "(" + cexpr(1) + ")"; if (s.chance(10)) v = ""; r += "#define " + n + " " + v + "\n"; defs[n] = {-1, ""}; if (v.empty()) { r += "#undef " + n + "\n"; defs.erase(n); } }
        else { Str p = pool[s.below(pool.size())]; Str p2; do p2 = s.pick(plain); while (p2 == p); r += "#define " + n + "(" + p + ", " + p2 + ") " + (s.coin() ? "(" + p + " + " + p2 + ")" : p + s.pick(std::vector<Str>{" < ", " - ", " == ", " && ", " * "}) + p2) + "\n"; defs[n] = {2, ""}; }
        return r;
    }
    Str mark() { return fmt("m%d", nextMark++); }
    Str garbage(bool nested) {
        static const char* v[] = {"#error no\n", "#include <no_such_file>\n", "#include \"no such file\"\n", "#foo bar\n", "# 12 \"x\"\n", "it's a \"test\n", "#define\n", "#define X(\n", "#undef\n", "@ $ ` \\ \xe9\n", "#!\n", "#line\n", "#define p oops\n", "#undef A\n", "#define A 77\n", "A(1,\n", ")))\n", "'\n", "#pragma x\n", "x #else\n", "\"#endif\"\n", "/* \n#endif\n */\n", "# /* x\n */ error\n", "\\\n#error spliced\n"};
        static const char* cnd[] = {"#if\n#endif\n", "#if 1/0\n#endif\n", "#if ) (\n#elif\n#else\n#endif\n", "#ifdef\n#endif\n", "#ifndef 3\n#else junk\n#endif\n", "#if 1\n#else\n#endif\n", "#if 0\n#elif 1\nbad\n#endif\n", "#if F(\n#endif\n", "#if 'abc\n#endif\n"};
        if (nested && s.chance(35)) return cnd[s.below(sizeof cnd / sizeof *cnd)];
        return v[s.below(sizeof v / sizeof *v)];
    }
    // text of a group; may is false when the group is known to be skipped
    Str group(int depth, bool skipped) {
        Str r; int n = 1 + s.below(3);
        for (int i = 0; i < n; ++i) {
            int k = s.weighted({40, depth > 0 ? 30 : 0, skipped ? 0 : 15, skipped ? 35 : 0});
            if (k == 0) r += mark() + (s.chance(20) ? " " + s.pick(pool) : "") + "\n";
            else if (k == 1) r += conditional(depth - 1, skipped);
            else if (k == 2) r += condDefine();
            else r += garbage(true);
        }
        return r;
    }
    Str line(const Str& d, const Str& rest = "") { return dirStart() + d + (rest.empty() ? "" : gap(true, true) + rest) + dirEnd(); }
    Str conditional(int depth, bool skipped) {
        Str r;
        auto snapshot = defs;
        // definitions made in groups of unknown state are only hints for later uses
        int open = s.weighted({60, 20, 20, skipped ? 0 : 15});
        if (open == 3) {          // literally false or true
            bool t = s.coin();
            r += line("if", t ? "1" : "0");
            r += group(depth, !t || skipped);
            if (s.coin()) { r += line("else"); r += group(depth, t || skipped); }
            return r + line("endif");
        }
        if (open == 0) r += line("if", cexpr(s.below(4)));
        else r += line(open == 1 ? "ifdef" : "ifndef", s.chance(10) ? "__SCC__" : s.pick(pool));
        r += group(depth, skipped);
        int ne = s.weighted({60, 25, 10, 5});
        for (int i = 0; i < ne; ++i) { r += line("elif", cexpr(s.below(4))); r += group(depth, skipped); }
        if (s.coin()) { r += line("else"); r += group(depth, skipped); }
        return r + line("endif");
    }
    Str probe() {                 // pin down the value of an expression
        Str e = cexpr(1 + s.below(4)), r;
        static const char* f[] = {" & 1", " & 2", " & 4", " & 0x70", " < 0", " > 3", " == 1", " < 12", " & 0x7f00"};
        for (int i = 0; i < 3; ++i) { r += line("if", "(" + e + ")" + f[s.below(9)]) + mark() + "\n"; if (s.coin()) r += line("else") + mark() + "\n"; r += line("endif"); }
        return r;
    }
    Str conditions() {
        Str r; int n = 2 + s.below(4);
        for (int i = 0; i < n; ++i) {
            int k = s.weighted({25, 50, 35, 10});
            if (k == 0) r += condDefine(); else if (k == 1) r += conditional(1 + s.below(4), false); else if (k == 2) r += probe(); else r += mark() + " " + s.pick(pool) + "\n";
        }
        return r + mark() + (s.coin() ? "\n" : "");
    }
    // --- plain text
    Str plainText(int n, bool wild) {
        Str r;
        for (int i = 0; i < n; ++i) {
            Str t;
            switch (s.weighted({30, 20, 12, 30, wild ? 5 : 0, 2, wild ? 3 : 0})) {
            case 0: t = s.chance(85) ? s.pick(plain) : Str(1 + s.below(60), 'a' + s.below(26)); break;
            case 1: t = s.chance(85) ? num() : s.pick(std::vector<Str>{"1.5", ".5", "2.0f", "1e+5", "0x1.8p-3", "..1"}); break;
            case 2: t = lit(); break;
            case 3: t = punct(); break;
            case 4: { static const char* o[] = {"@", "$", "`", "\\", "\xe9", "\xff", "\x80", "\xc3\xa9"}; t = o[s.below(8)]; break; }
            case 5: { Str b; int k = s.below(s.chance(10) ? 1200 : 90); for (int j = 0; j < k; ++j) { int q = s.below(30); b += q == 0 ? "\\n" : q == 1 ? "\\\"" : q == 2 ? "'" : q == 3 ? " /* " : q == 4 ? "//" : q == 5 && splices ? "\\\n" : q == 6 ? "\xe9" : Str(1, 'a' + q - 4); } t = "\"" + b + "\""; break; }
            default: t = Str("'") + "\xe9" + "'"; break;
            }
            // a splice inside the token
            if (splices && t.size() > 1 && s.chance(3)) { size_t k = 1 + s.below(t.size() - 1); t.insert(k, s.coin() ? "\\\n" : "\\\r\n"); }
            r += t;
            if (s.chance(4)) { Str cm = s.chance(40) ? "/*" + Str(s.below(s.chance(15) ? 700 : 40), s.coin() ? '*' : 'x') + "*/" : blockComment(s.chance(15) ? 500 : 20); r += cm; }
            else if (s.chance(2)) r += lineComment(s.chance(15) ? 300 : 20) + "\n";
            else r += gap(false);
        }
        return r;
    }
};
// Pad so that interesting places meet the read boundary.
static Str padded(Src& s, const Str& t) {
    if (!s.chance(45)) return t;
    int k = s.weighted({40, 20, 20, 20});
    int n = k == 0 ? s.below(530) : 505 - (int)s.below(std::min<size_t>(t.size() + 1, 500));
    if (n < 4) n = 4;
    if (s.chance(20)) n += 511;
    switch (s.below(4)) {
    case 0: return Str(n, ' ') + t;
    case 1: { Str p(n - 4, 'c'); if (s.coin()) for (char& ch : p) { int q = s.below(12); ch = q == 0 ? '*' : q == 1 ? '\n' : q == 2 ? ' ' : q == 3 ? '"' : 'c'; } return "/*" + p + "*/" + t; }
    case 2: { Str p; while ((int)p.size() < n) p += "\n"; return p + t; }
    default: { if (n < 6) return t; Str p(n - 3, 'd'); if (s.coin()) for (size_t i = 0; i + 1 < p.size(); ++i) if (s.chance(3)) { p[i] = '\\'; p[++i] = '\n'; } return "//" + p + "\n" + t; }
    }
}
static const Str ORA = "the reference preprocessor (src/ppref.cpp) is right; inputs it finds left open by C are not judged";

// --- P01 ---------------------------------------------------------------------
static Str macroText(Src& s, bool sloppy = false) { Gen g(s); g.makePool(5 + s.below(8)); return padded(s, g.history(3 + s.below(12), sloppy)); }
static Reg p1({"P01", "Histories of 3 to 15 definitions, undefinitions, identical redefinitions and uses over a pool of 5 to 12 names serving as object-like and function-like macros and as parameters; bodies and uses mix parameters, names, literals, operators, stringizing, pasting and (nested, empty, multi-line) invocations with comments, splices and white space anywhere. The output must be the token sequence of an independent implementation of C's rules. Non-trivial: at least one macro is expanded.",
    60000, 2500000, [](Src& s, Ctx& c) {
        Files f; f["T.C"] = macroText(s); noteFiles(c, f);
        PpResult m = ppModel(f, "T.C");
        if (!m.error.empty()) throw Discard{"invalid: " + m.error};
        if (!m.unsure.empty()) throw Discard{"open: " + m.unsure};
        if (!ppWithinLimits(m)) throw Discard{"limits"};
        PpTool t = runScpp(c, f, "T.C");
        judge(c, f, m, t, true);
        features(c, m);
        if (m.expansions) c.nontrivial(hashStr(f["T.C"]));
        if (m.expansions > 3) c.sample(f["T.C"] + "----\n" + t.out);
    }, {ORA, "#line, variadic macros and operators formed by pasting in #if are outside the supported language"}, nullptr});

// --- P02 ---------------------------------------------------------------------
static Reg p2({"P02", "Nested conditionals up to depth 6 with random integer expressions over all operators, defined, undefined names, character constants and macros; definitions inside groups, probes that pin down the value of an expression, and groups that are skipped filled with malformed directives, unterminated literals and unknown characters; a quarter are damaged (missing or extra #endif, #else, #elif). Output tokens, acceptance and rejection must be those of the reference. Non-trivial: at least two conditional directives are evaluated.",
    60000, 2500000, [](Src& s, Ctx& c) {
        Gen g(s); g.makePool(4 + s.below(6));
        Str t = g.conditions();
        bool damaged = s.chance(25);
        if (damaged) {
            std::vector<size_t> at; for (size_t i = 0; i < t.size(); ++i) if (!i || t[i - 1] == '\n') at.push_back(i);
            size_t a = at[s.below(at.size())];
            switch (s.below(4)) {
            case 0: { size_t e = t.find('\n', a); t.erase(a, e == Str::npos ? Str::npos : e + 1 - a); break; }
            case 1: { static const char* d[] = {"#endif\n", "#else\n", "#elif 1\n", "#if 1\n", "#ifdef A\n", "#if 0\n", "#elif\n"}; t.insert(a, d[s.below(7)]); break; }
            case 2: { static const char* d[] = {"#if\n#endif\n", "#if 1 2\n#endif\n", "#if (1\n#endif\n", "#if 1 +\n#endif\n", "#if 1/0\n#endif\n", "#if 5 % (1-1)\n#endif\n", "#if )\n#endif\n", "#if \"s\"\n#endif\n", "#if defined\n#endif\n", "#if defined(\n#endif\n", "#if defined(A\n#endif\n", "#if 1 ? 2\n#endif\n", "#if * 3\n#endif\n", "#ifdef\n#endif\n", "#ifndef 4\n#endif\n", "#if 1,2\n#endif\n", "#if 1 == \n#endif\n", "#if = 1\n#endif\n"}; t.insert(a, d[s.below(18)]); break; }
            default: t.resize(a);
            }
        }
        Files f; f["T.C"] = padded(s, t); noteFiles(c, f);
        PpResult m = ppModel(f, "T.C");
        if (!m.unsure.empty()) throw Discard{"open: " + m.unsure};
        if (!ppWithinLimits(m)) throw Discard{"limits"};
        if (!m.error.empty() && !damaged && m.error != "division by zero") throw Discard{"invalid: " + m.error};
        PpTool r = runScpp(c, f, "T.C");
        judge(c, f, m, r, true);
        features(c, m);
        if (!m.error.empty()) c.label("rejected: " + m.error);
        uint64_t n = 0; for (auto& x : m.feat) if (x.first[0] == '#') n += x.second;
        if (n > 1) c.nontrivial(hashStr(f["T.C"]));
        c.sample(f["T.C"] + "----\n" + (m.error.empty() ? r.out : "(rejected)"));
    }, {ORA, "values stay within 16 bits; unsigned arithmetic with negative values is not judged"}, nullptr});

// --- P03 ---------------------------------------------------------------------
static Files includeTree(Src& s, Str& kind) {
    Gen g(s); g.makePool(4 + s.below(5)); g.splices = s.chance(30);
    static const char* nm[] = {"a.h", "B.H", "inc_2.h", "noext", "long-name.with.dots.h"};
    int nf = 1 + s.below(3); std::vector<Str> names;
    for (int i = 0; i < nf; ++i) names.push_back(nm[(s.below(5) + i) % 5]);
    std::sort(names.begin(), names.end()); names.erase(std::unique(names.begin(), names.end()), names.end());
    kind = "tree";
    auto inc = [&](const Str& n) -> Str {
        switch (s.weighted({40, 40, 10, 5})) {
        case 0: return g.line("include", "\"" + n + "\"");
        case 1: return g.dirStart() + "include" + (s.coin() ? " " : "") + "<" + n + ">" + g.dirEnd();
        case 2: { Str u = fmt("INC%d", g.nextMark++ % 2); return "#undef " + u + "\n#define " + u + " \"" + n + "\"\n" + g.line("include", u); }
        default: return "#include \"" + n + "\"/* c */ // d\n";
        }
    };
    auto lines = [&](int n, const std::vector<Str>& can) {
        Str r;
        for (int i = 0; i < n; ++i) {
            int k = s.weighted({20, 25, can.empty() ? 0 : 25, 12, 12, 6});
            if (k == 0) r += g.textLine();
            else if (k == 1) { static const char* p[] = {"__LINE__", "__FILE__ __LINE__", "x __LINE__ y", "/* a\n b */ __LINE__", "__LINE__ // c", "( __LINE__\n__LINE__ )", "a\\\nb __LINE__"}; r += Str(p[s.below(7)]) + "\n"; }
            else if (k == 2) { int m = s.chance(4) ? 1 + s.below(30) : 1; Str x = s.pick(can); for (int j = 0; j < m; ++j) r += inc(x); }
            else if (k == 3) r += g.define();
            else if (k == 4) { r += g.line(s.coin() ? "ifdef" : "ifndef", s.pick(g.pool)) + g.mark() + "\n"; if (!can.empty() && s.coin()) r += inc(s.pick(can)); r += g.line("endif"); }
            else r += Str(1 + s.below(4), '\n');
        }
        return r;
    };
    Files f; std::vector<Str> below;
    for (size_t i = 0; i < names.size(); ++i) {
        Str t = lines(s.below(6), below);
        if (s.chance(35)) t = "#ifndef GUARD" + fmt("%zu", i % 2) + "\n#define GUARD" + fmt("%zu", i % 2) + "\n" + t + "#endif\n";
        if (s.chance(25) && !t.empty()) { t.pop_back(); if (!t.empty() && t.back() == '\r') t.pop_back(); }
        if (s.chance(8)) t.clear();
        f[names[i]] = padded(s, t);
        if (below.empty() || s.coin()) below.push_back(names[i]);
    }
    Str t = lines(3 + s.below(8), names);
    if (s.chance(12)) {
        kind = "bad";
        std::vector<size_t> at; for (size_t i = 0; i < t.size(); ++i) if (!i || t[i - 1] == '\n') at.push_back(i);
        static const char* d[] = {"#include \"missing.h\"\n", "#include <missing.h>\n", "#include\n", "#include <a.h\n", "#include \"a.h\" x\n", "#include a.h\n", "#include \"a.h\n", "#include 3\n", "#include \"SELF.C\"\n", "#include <a.h> 1\n"};
        t.insert(at.empty() ? 0 : at[s.below(at.size())], d[s.below(10)]);
        f["SELF.C"] = "s\n#include \"SELF.C\"\n";
    }
    if (s.chance(10) && !t.empty()) t.pop_back();
    f["T.C"] = padded(s, t);
    return f;
}
static Reg p3({"P03", "Trees of up to three header files included to the supported depth by quoted, bracketed and macro-given names, under conditionals and include guards, with definitions and uses crossing files, position macros, files with and without a final newline, empty files, and includes at positions around the read boundary; an eighth contain a malformed, missing or endlessly nested include. Output tokens (including the values of __LINE__ and __FILE__), acceptance and rejection must be those of the reference. Non-trivial: at least one file is included.",
    60000, 2500000, [](Src& s, Ctx& c) {
        Str kind; Files f = includeTree(s, kind); noteFiles(c, f);
        PpResult m = ppModel(f, "T.C");
        if (!m.unsure.empty()) throw Discard{"open: " + m.unsure};
        if (!ppWithinLimits(m)) throw Discard{"limits"};
        if (!m.error.empty() && kind != "bad" && m.error != "includes nested too deeply") throw Discard{"invalid: " + m.error};
        PpTool t = runScpp(c, f, "T.C", s.chance(20) ? "out.txt" : "");
        judge(c, f, m, t, true);
        features(c, m);
        if (!m.error.empty()) c.label("rejected: " + m.error);
        if (m.feat.count("#include")) c.nontrivial(hashStr(f["T.C"]));
        c.sample(f["T.C"]);
    }, {ORA, "two levels of nested includes are supported; an invocation or a conditional spanning files is not judged"}, nullptr});

// --- P04 ---------------------------------------------------------------------
static Reg p4({"P04", "Up to 300 tokens of every kind (identifiers, numbers, literals with escapes and comment-like contents, operators, other characters and bytes above 0x7F) with random white space, comments, line ends and splices between and inside tokens, shifted so that tokens straddle the 511-byte read boundary; the output must be the same tokens in the same order, and preprocessing it again must reproduce it byte for byte. Non-trivial: at least 5 tokens.",
    60000, 2500000, [](Src& s, Ctx& c) {
        Gen g(s);
        Str t = padded(s, g.plainText(s.chance(70) ? s.below(60) : s.below(300), true));
        Files f; f["T.C"] = t; noteFiles(c, f);
        for (size_t i = 0; i < t.size(); ++i) if (t[i] == '#') { for (auto& q : ppLex(t)) if (q.t == "#" || q.t == "##") throw Discard{"directive"}; break; }
        PpResult m = ppModel(f, "T.C");
        if (!m.error.empty()) throw Discard{"invalid: " + m.error};
        if (!m.unsure.empty()) throw Discard{"open: " + m.unsure};
        if (!ppWithinLimits(m)) throw Discard{"limits"};
        PpTool r = runScpp(c, f, "T.C", s.chance(10) ? "o.x" : "");
        judge(c, f, m, r, true);
        Files f2; f2["T.C"] = r.out;
        PpTool r2 = runScpp(c, f2, "T.C");
        expectClean(c, r2);
        if (!r2.ok) c.fail("the output is rejected: " + r2.msg);
        if (r2.out != r.out) { c.note("output.i", r.out); c.note("again.i", r2.out); c.fail("preprocessing the output again changes it"); }
        c.label("tokens", m.out.size()); c.label("read boundaries", t.size() / 511);
        if (m.out.size() >= 5) c.nontrivial(hashStr(t));
        if (t.size() < 400) c.sample(t);
    }, {ORA}, nullptr});

// --- P05, P06 ------------------------------------------------------------------
static Str mutate(Src& s, Str t) {
    int n = 1 + s.below(3);
    for (int i = 0; i < n && !t.empty(); ++i) {
        size_t p = s.below(t.size());
        switch (s.below(7)) {
        case 0: t.erase(p, 1 + s.below(4)); break;
        case 1: { static const char* d[] = {"(", ")", ",", "#", "##", "\"", "'", "/*", "*/", "//", "\n", "\\\n", "\n#", "\n#endif\n", "\n#if 1\n", "\n#define A", "\\", "defined", "\n#else\n", "__LINE__", "\n#undef A\n"}; t.insert(p, d[s.below(21)]); break; }
        case 2: t[p] = "#\"'(),\\/*\n xA1"[s.below(14)]; break;
        case 3: { size_t q = s.below(t.size()); t.insert(p, t.substr(q, s.below(20))); break; }
        case 4: t.resize(p); break;
        case 5: { size_t a = t.rfind('\n', p), e = t.find('\n', p); if (a == Str::npos || e == Str::npos) break; t.erase(a, e - a); break; }
        default: t[p] = (char)s.below(256);
        }
    }
    return t;
}
struct Scaled { Files f; Str what; int n; bool mustAccept = false; };
static Scaled scaled(Src& s) {
    Scaled r; Str t; int kind = s.below(24);
    auto size = [&](int limit) { switch (s.below(4)) { case 0: return (int)s.below(limit / 2 + 1); case 1: return limit - 3 + (int)s.below(7); case 2: return limit + (int)s.below(limit + 1); default: return (int)s.below(limit * 2); } };
    int n = 0;
    switch (kind) {
    case 0: n = size(16); r.what = "macros"; for (int i = 0; i < n; ++i) t += fmt("#define M%d %d\n", i, i); for (int i = 0; i < n; ++i) t += fmt("M%d ", i); r.mustAccept = n <= 14; break;
    case 1: n = size(14); r.what = "parameters"; t = "#define F("; for (int i = 0; i < n; ++i) t += fmt("%sp%d", i ? "," : "", i); t += ") "; for (int i = 0; i < n; ++i) t += fmt("p%d+", i); t += "\nF("; for (int i = 0; i < n; ++i) t += fmt("%s%d", i ? "," : "", i); t += ")\n"; r.mustAccept = n <= 12; break;
    case 2: n = size(380); r.what = "body tokens"; t = "#define A "; for (int i = 0; i < n; ++i) t += fmt("%d+", i % 10); t += "\nA A\n"; r.mustAccept = n <= 60; break;
    case 3: n = size(14); r.what = "object chain"; for (int i = 0; i < n; ++i) t += fmt("#define C%d C%d x\n", i, i + 1); t += "C0\n"; r.mustAccept = n <= 12; break;
    case 4: n = size(20); r.what = "nested invocations"; t = "#define F(x) x+1\n"; for (int i = 0; i < n; ++i) t += "F("; t += "0"; t += Str(n, ')') + "\n"; r.mustAccept = n <= 7; break;
    case 5: n = size(16); r.what = "nested conditionals"; for (int i = 0; i < n; ++i) t += "#if 1\n"; t += "x\n"; for (int i = 0; i < n; ++i) t += "#endif\n"; r.mustAccept = n <= 14; break;
    case 6: n = size(3); r.what = "nested includes"; for (int i = 0; i < n; ++i) r.f[fmt("i%d.h", i)] = fmt("a%d\n", i) + (i + 1 < n ? fmt("#include <i%d.h>\n", i + 1) : Str()) + "b\n"; t = n ? "#include <i0.h>\nz\n" : "z\n"; r.mustAccept = n <= 2; break;
    case 7: n = size(2040); r.what = "identifier length"; t = Str(n, 'k') + " x\n"; r.mustAccept = n <= 1500; break;
    case 8: n = size(2040); r.what = "literal length"; t = "\"" + Str(n, 'k') + "\" 'c'\n"; r.mustAccept = n <= 1500; break;
    case 9: n = size(2040); r.what = "number length"; t = "1" + Str(n, '7') + "\n"; r.mustAccept = n <= 1500; break;
    case 10: n = size(2000); r.what = "argument text"; t = "#define F(x) x #x\nF("; for (int i = 0; i < n / 5; ++i) t += "abcd "; t += ")\n"; r.mustAccept = n <= 250; break;
    case 11: n = size(400); r.what = "argument tokens"; t = "#define F(x) x\nF("; for (int i = 0; i < n; ++i) t += "+"; t += ")\n"; r.mustAccept = n <= 50; break;
    case 12: n = size(12); r.what = "doubling"; for (int i = 0; i < n; ++i) t += fmt("#define D%d D%d D%d\n", i, i + 1, i + 1); t += "D0 end\n"; r.mustAccept = n <= 11; break;
    case 13: n = 1 + s.below(3000); r.what = "invocations"; t = "#define F(x, y) x+y #x __LINE__\n"; for (int i = 0; i < n; ++i) t += fmt("F(%d, a%d)\n", i, i); r.mustAccept = true; break;
    case 14: n = 1 + s.below(300); r.what = "redefinitions"; for (int i = 0; i < n; ++i) t += fmt("#define A %d\nA\n#undef A\n", i); r.mustAccept = n <= 100; break;
    case 15: n = size(128); r.what = "file name length"; { Str nm = Str(n % 240 + 1, 'n') + ".h"; r.f[nm] = "in\n"; t = "#include <" + nm + ">\nx\n"; r.mustAccept = n % 240 < 100; } break;
    case 16: { n = size(12); int k = s.below(10); r.what = "chain in arguments"; t = "#define F(x) x\n"; for (int i = 0; i < n; ++i) t += fmt("#define C%d %sC%d%s\n", i, s.coin() ? "x " : "", i + 1, s.coin() ? " y" : ""); for (int i = 0; i < k; ++i) t += "F("; t += "C0"; t += Str(k, ')') + "\n"; r.mustAccept = n <= 10 && k <= 3; break; }
    case 17: { // text of the tokens of an invocation
        n = size(2040); r.what = "token text"; int w = 1 + s.below(3), m = s.below(8);
        t = "#define F(x, y) x #x x##y #y\n#define G(x) x\n#define H(x) #x #x\n"; t += Str(s.below(9), '\n'); t += w == 1 ? "F(" : w == 2 ? "G(" : "H(";
        int rest = n; while (rest > 0) { int l = s.coin() ? rest : 1 + s.below(rest); t += s.coin() ? Str(l, 'a' + s.below(26)) : "\"" + Str(l, s.coin() ? 'q' : ' ') + "\""; t += " "; rest -= l; }
        for (int i = 0; i < m; ++i) { static const char* e[] = {"__LINE__", "__FILE__", "H(z)", "b", "\"\\\"\"", "F(p,q)"}; t += Str(e[s.below(6)]) + " "; }
        if (w == 1) t += "," + Str(s.coin() ? s.below(2040) : 1, 'y');
        t += ")\nend\n"; r.mustAccept = n <= 150 && t.size() < 400 && t.find("F(p") == Str::npos; break; }
    case 18: { n = 1 + s.below(400); int k = 1 + s.below(4); r.what = "identical redefinitions"; Str d = "#define F("; for (int i = 0; i < k; ++i) d += fmt("%sp%d", i ? "," : "", i); d += ") p0 + 1\n"; for (int i = 0; i < n; ++i) t += d; t += "F(" + Str(k - 1, ',') + ")\n"; r.mustAccept = n <= 100; break; }
    case 19: { n = size(1000); r.what = "file name from a macro"; t = "#define N(x) <x" + Str(n / 8, 'n') + ".h>\n#include N(a)\nend\n"; if (n < 1600) { r.f["a" + Str(n / 8, 'n') + ".h"] = "in\n"; r.f["x" + Str(n / 8, 'n') + ".h"] = "in2\n"; } break; }
    case 20: { // long tokens next to macros and to each other
        n = s.below(4) ? 60 + s.below(400) : size(2000); r.what = "long tokens between macros"; int m = 1 + s.below(8);
        t = "#define M 1\n#define E\n#define F(x) x\n#define S(x) #x\n#define L l\n";
        static const char* nb[] = {"M", "E", "F(2)", "S(q)", "L", "+", "(", "b", "''"};
        for (int i = 0; i < m; ++i) { int l = s.coin() ? n : n - (int)s.below(std::min(n, 4) + 1), w = s.below(3); t += w == 0 ? Str(l, 'k') : w == 1 ? "\"" + Str(l, 'k') + "\"" : "\"" + Str(l, ' ') + "\""; if (w == 0 || s.chance(30)) t += ' '; if (s.chance(80)) { const char* q = nb[s.below(8)]; t += q; if (s.chance(30)) t += ' '; else if (isalnum((unsigned char)q[strlen(q) - 1])) t += s.coin() ? "+" : "\n"; } }
        t += "\n"; r.mustAccept = n <= 1000; break; }
    case 21: case 22: { // two definitions that are the same or differ in one place
        n = 1 + s.below(40); r.what = "similar redefinitions"; bool fn = s.coin(), hi = s.coin(); int shape = s.below(3); Str b;
        for (int i = 0; i < n; ++i) b += hi && s.chance(40) ? (char)(0x80 + s.below(128)) : "abcxyz0189_"[s.below(11)];
        if (shape) b = s.coin() ? "x" : "", b += Str(n, 'a' + s.below(26));
        Str b2 = b; int how = s.below(5); size_t p = s.below(b.size());
        if (how == 1) { char o = b2[p]; do b2[p] = hi ? (char)(0x80 + s.below(128)) : 'a' + s.below(26); while (b2[p] == o); }
        if (how == 2) b2 += s.coin() ? "a" : "aa";
        if (how == 3 && b2.size() > 1) b2.pop_back();
        auto def = [&](const Str& x) { Str q = shape == 2 ? x + " y" : "\"" + x + "\""; return Str("#define A") + (fn ? "(p) p " : " ") + (shape == 2 && (hi || isdigit((unsigned char)x[0])) ? "\"" + x + "\" y" : q) + "\n"; };
        t = def(b) + def(b2) + (fn ? "A(1)\n" : "A\n"); r.mustAccept = false; break; }
    default: n = s.below(3000); r.what = "undefined names"; for (int i = 0; i < n; ++i) t += fmt("#ifdef U%d\n%d\n#endif\n#undef U%d\n", i, i, i); t += "x\n"; r.mustAccept = true; break;
    }
    if (s.chance(25)) t = "/*" + Str(s.below(600), ' ') + "*/" + t;
    r.n = n; r.f["T.C"] = t; return r;
}
static const char* const BAD[] = {"#error stop", "#foo", "#define", "#define 1", "#define (x) y", "#define Q(", "#define Q(a", "#define Q(a,", "#define Q(a,) a", "#define Q(a b) a", "#define Q(a,a) a", "#define Q(1) a", "#define Q ## a", "#define Q a ##", "#define Q(a) #b", "#define Q(a) #", "#define Q(a) a ##", "#define defined 1", "#define __LINE__ 1", "#define __FILE__ 1", "#undef __LINE__", "#undef", "#undef 2", "#undef defined", "#define R 1\n#define R 2", "#define R 1\n#define R() 1", "#define R(a) a\n#define R(b) b", "#define R(a,b) a\n#define R(a) a", "#define R a b\n#define R a", "#define R a\n#define R a b", "#define R(a) a\n#define R(a) #a", "#if", "#if 1\n#if 0\n#endif", "#else", "#endif", "#elif 1", "#if 1\n#else\n#else\n#endif", "#if 0\n#else\n#elif 1\n#endif", "#ifdef", "#ifndef \"x\"", "#if 1 1\n#endif", "#if (\n#endif", "#if 1/0\n#endif", "#include", "#include <x", "#include \"nope\"", "#include nope", "\"open", "'open", "/* open", "#define Q(a) a\nQ(1", "#define Q(a) a\nQ(1,2)", "#define Q(a,b) a\nQ(1)", "#define Q(a,b) a\nQ((1,2)", "#define Q() a\nQ(1)", "#define Q(a) a\n#if Q(1\n)\n#endif", "# 12", "# \"x\"", "#!x", "#define Q \"open", "#if \"x\"\n#endif", "#if 'x\n#endif"};
static bool fragile(const Str& t) { // numbers that may not fit 16 bits in a condition
    for (auto& q : ppLex(t)) if (q.k == PTok::NUM && (q.t.size() > 4 || strpbrk(q.t.c_str(), "uU"))) return true;
    return false;
}
static void p06(Src& s, Ctx& c) {
    bool asan = s.chance(40); Files f; PpResult m; Str kind; bool must = false;
    int which = s.weighted({15, 15, 30, 25, 15, 4});
    if (which == 5) {             // an input or output that cannot be used
        Gen g(s); f["T.C"] = s.coin() ? "x\n" : g.plainText(s.below(400), false) + " end";
        Str main = "T.C", outn; bool bad = true;
        switch (s.below(6)) {
        case 0: outn = "/dev/full"; break;
        case 1: outn = "no_such_dir/out"; break;
        case 2: main = "MISSING.C"; break;
        case 3: outn = "."; break;
        case 4: { main = Str(60 + s.below(180), 'n') + ".C"; f[main] = f["T.C"]; f.erase("T.C"); bad = false; break; }
        default: { outn = Str(1 + s.below(240), 'o'); bad = false; }
        }
        noteFiles(c, f); c.note("names.txt", main + " " + outn);
        PpResult m = ppModel(f, f.count(main) ? main : "T.C");
        if (!m.unsure.empty() || !m.error.empty() || !ppWithinLimits(m)) throw Discard{"open"};
        PpTool t = runScpp(c, f, main, outn, asan);
        expectClean(c, t);
        if (bad && t.ok) c.fail("success is reported although a file cannot be used");
        if (t.ok) { if (!t.hasOut) c.fail("no output file"); compareTokens(c, m, t.out); }
        else if (!bad && main.size() < 100 && outn.size() < 100) c.fail("rejected: " + t.msg);
        c.label(bad ? "unusable file" : t.ok ? "long name accepted" : "long name rejected");
        c.nontrivial(hashStr(main + outn + f.begin()->second));
        return;
    }
    switch (which) {
    case 0: { int n = s.below(s.chance(10) ? 3000 : 200); Str t; for (int i = 0; i < n; ++i) t += (char)s.below(256); f["T.C"] = t; kind = "bytes"; break; }
    case 1: {
        Gen g(s); g.makePool(6); Str t; int n = s.below(60);
        static const char* k[] = {"#", "##", "\n", "\n#define ", "\n#if ", "\n#else\n", "\n#endif\n", "\n#undef ", "\n#include ", "defined", "(", ")", ",", "\\\n", "/*", "*/", "//", "\n#elif ", "\n#ifdef ", "__FILE__", "__LINE__", "\n#ifndef ", "\"", "'", "\\"};
        for (int i = 0; i < n; ++i) { int w = s.weighted({40, 40, 20}); t += w == 0 ? Str(k[s.below(25)]) : w == 1 ? s.pick(g.pool) : g.atom(); t += g.gap(true); }
        f["T.C"] = t; kind = "soup"; break; }
    case 2: {
        if (s.chance(30)) { Str k2; f = includeTree(s, k2); auto it = f.begin(); std::advance(it, s.below(f.size())); it->second = mutate(s, it->second); }
        else if (s.coin()) f["T.C"] = mutate(s, macroText(s, true));
        else { Gen g(s); g.makePool(6); f["T.C"] = mutate(s, padded(s, g.conditions())); }
        kind = "mutant"; break; }
    case 3: {
        Gen g(s); g.makePool(6); Str a = s.coin() ? g.history(s.below(5)) : s.chance(50) ? g.conditions() + "\n" : Str();
        Str b = BAD[s.below(sizeof BAD / sizeof *BAD)];
        Gen h(s); h.makePool(3);
        f["T.C"] = padded(s, a + b + (s.chance(15) ? "" : "\n") + (s.coin() ? "after\n" : "")); kind = "bad"; c.note("bad.txt", b);
        break; }
    default: { Scaled r = scaled(s); f = r.f; kind = "limit: " + r.what; must = r.mustAccept; c.note("limit.txt", fmt("%s: %d", r.what.c_str(), r.n)); break; }
    }
    noteFiles(c, f);
    m = ppModel(f, "T.C");
    if (kind == "limit: nested includes" && m.error == "includes nested too deeply") m.error = "includes nested too deeply";
    PpTool t = runScpp(c, f, "T.C", "", asan);
    judge(c, f, m, t, must || ((kind == "mutant") && ppWithinLimits(m)));
    c.label(kind + (m.unsure.size() ? " open" : m.error.size() ? " invalid" : t.ok ? " accepted" : " valid, rejected"));
    if (f["T.C"].size() > 3) c.nontrivial(hashStr(f["T.C"]));
    c.sample(kind + ":\n" + f["T.C"].substr(0, 400));
}
static Reg p6({"P06", "Random bytes, directive and token soups, byte-level mutants of valid macro, conditional and include inputs, valid inputs followed by one of 60 malformed directives or constructs, inputs scaled across every table limit, and missing inputs, unusable outputs and long file names, through the normal and the AddressSanitizer build. The preprocessor must terminate and accept or reject without any other fault; inputs the reference finds invalid must be rejected, and whatever is accepted must have the reference's tokens. Non-trivial: every input longer than 3 bytes.",
    60000, 1500000, p06, {ORA, "an assertion failure that aborts the host build counts as a reported rejection"}, nullptr});

static Reg p5({"P05", "Macro, conditional, include and plain texts, mutants of them, malformed directives and inputs scaled across the table limits are given to the host preprocessor and to the preprocessor built by the project's compiler running on the reference 8086 model with the same files; acceptance and output bytes must be identical. Non-trivial: every compared input.",
    9000, 200000, [](Src& s, Ctx& c) {
        Files f; Str kind;
        switch (s.weighted({30, 20, 15, 10, 15, 5, 5, 8})) {
        case 7: { Gen g(s); compareCommand(s, c, "scpp", g.plainText(s.below(40), true), 300000000); return; }
        case 0: f["T.C"] = macroText(s, s.chance(20)); kind = "macros"; break;
        case 1: { Gen g(s); g.makePool(6); f["T.C"] = padded(s, g.conditions()); kind = "conditions"; break; }
        case 2: { Str k; f = includeTree(s, k); kind = "includes"; break; }
        case 3: { Gen g(s); f["T.C"] = padded(s, g.plainText(s.below(120), true)); kind = "plain"; break; }
        case 4: f["T.C"] = mutate(s, macroText(s, true)); kind = "mutant"; break;
        case 5: { Gen g(s); g.makePool(6); f["T.C"] = g.history(s.below(5)) + BAD[s.below(sizeof BAD / sizeof *BAD)] + (s.coin() ? "\n" : ""); kind = "bad"; break; }
        default: { Scaled r = scaled(s); f = r.f; kind = "limit"; }
        }
        for (auto& x : f) if (x.second.size() > 20000) throw Discard{"large"};
        noteFiles(c, f);
        for (auto& x : f) if (x.first.size() > 60) throw Discard{"file name too long for DOS"};
        PpResult m = ppModel(f, "T.C");
        bool cond = false; for (auto& x : f) if (x.second.find("if") != Str::npos) cond = cond || fragile(x.second);
        if (m.unsure == "shift" || m.unsure == "unsigned arithmetic" || m.unsure == "value outside 16 bits" || m.unsure == "malformed number") throw Discard{"values beyond 16 bits"};
        if (cond && !m.error.empty()) throw Discard{"values beyond 16 bits"};
        PpTool t = runScpp(c, f, "T.C");
        if (t.timeout || (t.sig && !assertAbort(t))) throw Discard{"host crash (decided by P06)"};
        std::map<Str, Bytes> fs; for (auto& x : f) fs[x.first] = toBytes(x.second);
        DosRun d = runDos(selfHosted("scpp"), fs, " T.C", 300000000, s.recorded().size(), !t.ok);
        if (d.stop == Ref86::BUDGET) c.fail("the DOS build does not terminate");
        if (d.stop != Ref86::EXITED) c.fail(fmt("the DOS build stops: %s (%s)\n%s", stopName(d.stop), d.why.c_str(), d.state.c_str()));
        bool dok = d.exitCode == 0;
        c.note("host.txt", t.msg); c.note("dos.txt", d.console);
        if (dok != t.ok) c.fail(fmt("host build %s, DOS build %s\nhost: %s\nDOS: %s", t.ok ? "accepts" : "rejects", dok ? "accepts" : "rejects", t.msg.c_str(), d.console.c_str()));
        if (!dok && d.console.find("Return address") != Str::npos) { Str e = backtraceError(d, 1000); if (!e.empty()) c.fail(e); c.label("stack trace"); }
        Str out; for (auto& x : d.files) if (x.first == "T.i") out = toStr(x.second);
        if (t.ok && out != t.out) { size_t i = 0; while (i < out.size() && i < t.out.size() && out[i] == t.out[i]) ++i; c.note("host.i", t.out); c.note("dos.i", out); c.fail(fmt("outputs differ at offset %zu (sizes %zu host, %zu DOS)", i, t.out.size(), out.size())); }
        c.label(kind + (t.ok ? " accepted" : " rejected"));
        c.nontrivial(hashStr(f["T.C"]));
        c.sample(f["T.C"].substr(0, 500));
    }, {"the DOS build is the image the host compiler produces from scpp.c in the working tree", "condition values stay within 16 bits"}, nullptr});

int main(int argc, char** argv) {
    g_needTools = {"scpp"};
    for (int i = 1; i < argc; ++i) {
        if (Str(argv[i]) == "P06" || Str(argv[i]).find("P06-") != Str::npos) g_needAsan = {"scpp"};
        if (Str(argv[i]) == "P05" || Str(argv[i]).find("P05-") != Str::npos) g_needTools = {"scpp", "scc"};
    }
    return pbtMain(argc, argv);
}
