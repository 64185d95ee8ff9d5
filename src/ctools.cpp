#include "ctools.h"
#include <algorithm>
#include <array>
#include <filesystem>
Compiled compileC(Ctx& c, const Str& src, const Str& stem) {
    Compiled r;
    Str in = c.dir + "/" + stem + ".C", com = c.dir + "/" + stem + ".com", map = c.dir + "/" + stem + ".map";
    removeFile(com); removeFile(map);
    writeFile(in, src);
    RunOpts o; o.cwd = c.dir; o.cpuSec = 5;
    RunResult rr = runTool({tool("scc"), stem + ".C"}, o);
    r.exitCode = rr.exitCode; r.sig = rr.sig; r.timeout = rr.timeout; r.msg = rr.out;
    r.comExists = fileExists(com);
    if (rr.exitCode == 0 && !rr.sig && r.comExists) {
        Str b = readFile(com); r.image.assign(b.begin(), b.end());
        r.map = readFile(map); r.ok = true;
    }
    return r;
}
Ran runImage(const Bytes& image, uint64_t budget, const Str& tail, uint64_t fill) {
    static Ref86* m = nullptr;
    if (!m) m = new Ref86();
    m->load(image, tail, fill);
    m->budget = budget;
    Ran r; r.stop = m->run(); r.why = m->why; r.exitCode = m->exitCode; r.out = m->trace; r.console = m->console; r.steps = m->steps;
    if (r.stop != Ref86::EXITED) r.state = m->stateStr();
    return r;
}
Str hexWords(const std::vector<uint16_t>& v, size_t max) {
    Str s;
    for (size_t i = 0; i < v.size() && i < max; ++i) s += fmt(i ? " %d" : "%d", (int16_t)v[i]);
    if (v.size() > max) s += fmt(" ... (%zu values)", v.size());
    return s;
}
const char* stopName(Ref86::Stop s) {
    static const char* n[] = {"running", "exited", "instruction budget exhausted", "undefined instruction", "undefined interrupt", "divide error", "halted", "step"};
    return n[s];
}
bool isLimitMsg(const Str& m) {
    // a table limit: reported by an internal check. Rejections of valid programs are
    // permitted by the README (subset compiler); they only reduce coverage.
    return m.find("Check failed") != Str::npos;
}
void expectTrace(Ctx& c, const Ran& r, const cg::Trace& t, const Str& what) {
    Str w = what.empty() ? "" : what + ": ";
    size_t n = std::min(r.out.size(), t.out.size());
    for (size_t i = 0; i < n; ++i)
        if (r.out[i] != t.out[i])
            c.fail(fmt("%soutput %zu is %d, C gives %d\nexpected: %s\nactual:   %s", w.c_str(), i, (int16_t)r.out[i], (int16_t)t.out[i], hexWords(t.out).c_str(), hexWords(r.out).c_str()));
    if (r.stop != Ref86::EXITED)
        c.fail(fmt("%sthe program did not exit normally: %s (%s) after %zu of %zu outputs\n%s", w.c_str(), stopName(r.stop), r.why.c_str(), r.out.size(), t.out.size(), r.state.c_str()));
    if (r.out.size() != t.out.size())
        c.fail(fmt("%sprogram produced %zu values, C gives %zu\nexpected: %s\nactual:   %s", w.c_str(), r.out.size(), t.out.size(), hexWords(t.out).c_str(), hexWords(r.out).c_str()));
    if (r.exitCode != (t.exitCode & 0xff))
        c.fail(fmt("%sexit code %d, C gives %d", w.c_str(), r.exitCode, t.exitCode & 0xff));
}

DosRun runDos(const Bytes& image, const std::map<Str, Bytes>& files, const Str& tail, uint64_t budget, uint64_t fill, bool track) {
    static Ref86* m = nullptr;
    if (!m) m = new Ref86();
    m->files = files;
    m->load(image, tail, fill);
    m->budget = budget;
    DosRun r;
    if (track) {
        std::vector<std::array<int, 3>> st; // SP after the call, BP, return address
        for (bool more = true; more;) {
            uint8_t op = m->rd8(Ref86::CS, m->ip), mr = m->rd8(Ref86::CS, m->ip + 1); int bp = m->r[Ref86::BP];
            more = m->step();
            if (op == 0xE8 || (op == 0xFF && (mr >> 3 & 7) == 2)) st.push_back({m->r[Ref86::SP], bp, m->rd16(Ref86::SS, m->r[Ref86::SP])});
            else if (op == 0xC3) while (!st.empty() && st.back()[0] < m->r[Ref86::SP]) st.pop_back();
        }
        for (auto& x : st) r.calls.push_back({x[1], x[2]});
    }
    r.stop = m->run(); r.why = m->why; r.exitCode = m->exitCode; r.console = m->console; r.steps = m->steps; r.files = m->files;
    if (r.stop != Ref86::EXITED) r.state = m->stateStr();
    return r;
}
Str backtraceError(const DosRun& d, size_t max) {
    static const char* const head = "BP   Return address";
    size_t p = d.console.find(head);
    if (p == Str::npos) return "no stack trace";
    p = d.console.find('\n', p);
    std::vector<std::pair<int, int>> got;
    while (p != Str::npos) { unsigned a, b; int n = 0; if (sscanf(d.console.c_str() + p + 1, "%4x %4x%n", &a, &b, &n) != 2 || n < 3) break; got.push_back({(int)a, (int)b}); p = d.console.find('\n', p + 1); }
    auto want = d.calls; std::reverse(want.begin(), want.end());
    Str lists = "shown:"; for (auto& x : got) lists += fmt(" %04X:%04X", x.first, x.second); lists += "\nactive calls (BP of the caller, return address), innermost first:"; for (auto& x : want) lists += fmt(" %04X:%04X", x.first, x.second);
    if (got.empty()) return "empty stack trace\n" + lists;
    size_t k = 0; while (k < want.size() && want[k] != got[0]) ++k;
    if (k > 4 || k == want.size()) return "the stack trace does not start at the innermost call\n" + lists;
    size_t n = std::min(want.size() - k, max);
    if (got.size() != n || !std::equal(got.begin(), got.end(), want.begin() + k)) return "the stack trace does not show the active calls\n" + lists;
    return "";
}
MapFile parseMap(const Str& t) {
    MapFile m; size_t i = 0;
    while (i < t.size()) {
        size_t e = t.find('\n', i); if (e == Str::npos) e = t.size();
        Str l = t.substr(i, e - i); i = e + 1;
        if (!l.empty() && l.back() == '\r') l.pop_back();
        if (l.empty()) continue;
        char* end; long a = strtol(l.substr(0, 4).c_str(), &end, 16);
        if (l.size() < 6 || *end || l[4] != ' ') { m.ok = false; continue; }
        m.sym.push_back({(int)a, l.substr(5)});
    }
    return m;
}

// ---------------------------------------------------------------- respelling
static const char* const PUNCTS[] = {"...", "<<=", ">>=", "++", "--", "->", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="};
std::vector<CTok> ctokens(const Str& s) {
    std::vector<CTok> r; size_t i = 0, n = s.size();
    auto idc = [](unsigned char c) { return isalnum(c) || c == '_'; };
    while (i < n) {
        unsigned char c = s[i];
        if (c <= ' ') { ++i; continue; }
        if (c == '/' && i + 1 < n && s[i + 1] == '/') { while (i < n && s[i] != '\n') ++i; continue; }
        if (c == '/' && i + 1 < n && s[i + 1] == '*') { size_t e = s.find("*/", i + 2); i = e == Str::npos ? n : e + 2; continue; }
        size_t b = i;
        if (isdigit(c)) { while (i < n && idc(s[i])) ++i; r.push_back({CTok::NUM, s.substr(b, i - b)}); continue; }
        if (isalpha(c) || c == '_') { while (i < n && idc(s[i])) ++i; r.push_back({CTok::ID, s.substr(b, i - b)}); continue; }
        if (c == '"' || c == '\'') {
            ++i;
            while (i < n && s[i] != (char)c) i += s[i] == '\\' ? 2 : 1;
            ++i;
            if (i > n) i = n;
            r.push_back({c == '"' ? CTok::STR : CTok::CHR, s.substr(b, i - b)});
            continue;
        }
        size_t l = 1;
        for (auto p : PUNCTS) if (s.compare(i, strlen(p), p) == 0) { l = strlen(p); break; }
        i += l;
        r.push_back({CTok::PUNCT, s.substr(b, l)});
    }
    return r;
}
static bool joinable(const Str& a, const Str& b) { // no separator needed between a and b
    Str j = a + b;
    if (j.find("//") != Str::npos || j.find("/*") != Str::npos) if (a[0] != '"' && b[0] != '"' && a[0] != '\'' && b[0] != '\'') return false;
    auto t = ctokens(j);
    return t.size() == 2 && t[0].t == a && t[1].t == b;
}
static std::vector<int> decode(const Str& lit) { // contents of a character or string literal (C escapes)
    std::vector<int> v;
    for (size_t i = 1; i + 1 < lit.size();) {
        unsigned char c = lit[i++];
        if (c != '\\') { v.push_back(c); continue; }
        c = lit[i++];
        switch (c) {
        case 'n': v.push_back(10); break; case 'r': v.push_back(13); break; case 't': v.push_back(9); break;
        case 'x': { int x = 0; while (i + 1 < lit.size() && isxdigit((unsigned char)lit[i])) x = x * 16 + (isdigit((unsigned char)lit[i]) ? lit[i] - '0' : (lit[i] & 0xdf) - 'A' + 10), ++i; v.push_back(x & 255); break; }
        default:
            if (c >= '0' && c <= '7') { int x = c - '0', k = 1; while (k < 3 && lit[i] >= '0' && lit[i] <= '7') x = x * 8 + lit[i++] - '0', ++k; v.push_back(x & 255); }
            else v.push_back(c);
        }
    }
    return v;
}
static bool isKeyword(const Str& s) {
    static const std::set<Str> k = {"auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if", "int", "long", "register", "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while", "va_list", "va_start", "va_end", "va_arg", "_emit", "_start", "_SBSS", "_EBSS", "main"};
    return k.count(s) > 0;
}
// one character of a literal; `next` tells whether the following character could extend an escape
static Str spellChar(Src& s, int c, char quote, int next) {
    auto plain = [&]() -> Str {
        if (c == '\n') return "\\n"; if (c == '\r') return "\\r"; if (c == '\t') return "\\t";
        if (c == '\\') return "\\\\"; if (c == quote) return Str("\\") + quote;
        if (c >= 32 && c != 127) return Str(1, (char)c);
        return fmt("\\%03o", c);
    };
    switch (s.below(6)) {
    case 1: if (!(next >= 0 && isxdigit(next))) return fmt(s.coin() ? "\\x%x" : "\\x%02X", c); return plain();
    case 2: if (!(next >= '0' && next <= '7')) return fmt("\\%o", c); return fmt("\\%03o", c);
    case 3: return fmt("\\%03o", c);
    case 4: if (c == '"' || c == '\'') return Str("\\") + (char)c; return plain();
    default: return plain();
    }
}
static Str spellNum(Src& s, long v) {
    switch (s.below(6)) {
    case 1: return fmt("0x%lx", v);
    case 2: return fmt("0X%04lX", v);
    case 3: return fmt("0%lo", v);
    case 4: if (v < 128 || 0) { Str c = spellChar(s, (int)v, '\'', -1); return "'" + c + "'"; } return fmt("0x%06lX", v);
    default: return fmt("%ld", v);
    }
}
static Str spellSep(Src& s, const RespellOpts& o, bool must, bool& bol) {
    Str r;
    int n = s.weighted({must ? 0 : 30, 50, 12, 8});
    for (int i = 0; i < n; ++i) {
        switch (s.weighted({50, 10, 15, 6, 3, o.comments ? 8 : 0, o.comments ? 5 : 0, o.hashLines ? 3 : 0})) {
        case 0: r += ' '; break;
        case 1: r += '\t'; break;
        case 2: r += '\n'; break;
        case 3: r += "\r\n"; break;
        case 4: r += s.coin() ? '\f' : '\v'; break;
        case 5: { static const char* c[] = {"/**/", "/* x */", "/***/", "/*/ */", "/* // */", "/* \" */", "/* '\n * / **/", "/*\r\n#\n*/", "/* /* */", "/*;}*/"}; r += c[s.below(10)]; break; }
        case 6: { static const char* c[] = {"//\n", "// x\n", "//*\n", "// */ \" ' #\r\n", "///\n", "//;\n", "// \t\n"}; r += c[s.below(7)]; break; }
        default: { static const char* c[] = {"\n#\n", "\n# 12 \"X.C\"\n", "\n#pragma x ' \"\n", "\n#line 3\r\n", "\n# /*\n"}; r += c[s.below(5)]; }
        }
    }
    bol = !r.empty() && r.back() == '\n';
    if (must && r.empty()) r = " ";
    return r;
}
Str respell(Src& s, const Str& text, const RespellOpts& o) {
    auto toks = ctokens(text);
    std::map<Str, Str> names; std::set<Str> used;
    for (auto& t : toks) if (t.k == CTok::ID) used.insert(t.t);
    Str out; bool bol = true;
    if (o.comments && s.chance(60)) { // shift everything relative to the input buffer
        out = "/*" + Str(s.below(1100), s.coin() ? '-' : '*') + " */";
        bol = false;
    }
    int budgetLong = 1800;
    auto rename = [&](const Str& id) -> Str {
        auto i = names.find(id);
        if (i != names.end()) return i->second;
        Str n;
        for (int tries = 0; tries < 50; ++tries) {
            static const char* alphaA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
            static const char* alphaB = "ab01_AZz9";
            n.clear();
            int len = 1 + s.below(s.chance(15) ? o.maxIdent : 6);
            if (len > 20) { if (len > budgetLong) len = 5; else budgetLong -= len; }
            bool few = s.coin();
            for (int k = 0; k < len; ++k) n += k == 0 ? (few ? "abAZz_"[s.below(6)] : alphaA[s.below(53)]) : few ? alphaB[s.below(9)] : s.chance(20) ? (char)('0' + s.below(10)) : alphaA[s.below(53)];
            if (s.chance(10)) { static const char* kw[] = {"int", "while", "va_", "sizeof", "_emi", "retur", "els", "d", "_SBS", "unsignedx"}; n = kw[s.below(10)] + n; }
            if (!isKeyword(n) && !used.count(n)) break;
            n.clear();
        }
        if (n.empty()) n = id;
        used.insert(n);
        return names[id] = n;
    };
    Str prev;
    for (size_t i = 0; i < toks.size(); ++i) {
        CTok t = toks[i];
        std::vector<Str> pieces;
        switch (t.k) {
        case CTok::ID: if (o.idents && !isKeyword(t.t)) t.t = rename(t.t); pieces = {t.t}; break;
        case CTok::NUM: if (o.numbers) { long v = strtol(t.t.c_str(), nullptr, 0); if (v >= 0 && v <= 32767) t.t = spellNum(s, v); } pieces = {t.t}; break;
        case CTok::CHR: if (o.numbers) { auto v = decode(t.t); if (v.size() == 1) { if (v[0] < 128) t.t = spellNum(s, v[0]); else t.t = "'" + spellChar(s, v[0], '\'', -1) + "'"; } } pieces = {t.t}; break;
        case CTok::STR: if (o.strings) {
            auto v = decode(t.t);
            Str cur = "\"";
            for (size_t k = 0; k < v.size(); ++k) {
                if (s.chance(8)) { pieces.push_back(cur + "\""); cur = "\""; }
                cur += spellChar(s, v[k], '"', k + 1 < v.size() ? v[k + 1] : -1);
            }
            if (s.chance(10)) { pieces.push_back(cur + "\""); cur = "\""; }
            pieces.push_back(cur + "\"");
        } else pieces = {t.t};
            break;
        default: pieces = {t.t};
        }
        for (auto& p : pieces) {
            bool must = !prev.empty() && !joinable(prev, p);
            if (o.space) {
                Str sep = spellSep(s, o, must, bol);
                if (!prev.empty() && prev.back() == '/' && sep[0] == '/') out += ' ';
                out += sep;
            }
            else if (must) out += ' ';
            out += p;
            prev = p;
        }
    }
    bol = false;
    out += s.coin() ? "\n" : "";
    return out;
}

// ---------------------------------------------------------------- command lines of the DOS builds
void compareCommand(Src& s, Ctx& c, const Str& toolName, const Str& src, uint64_t budget) {
    static const char cs[] = "abcXYZ019_-";
    auto stem = [&]() { Str n; int l = 1 + s.below(s.chance(12) ? 40 : 8); for (int i = 0; i < l; ++i) n += cs[s.below(11)]; if (n[0] == '-') n[0] = 'q'; return n; };
    auto name = [&]() { Str n = stem(); int d = s.weighted({20, 60, 20}); for (int i = 0; i < d; ++i) n += "." + (s.chance(10) ? Str() : stem().substr(0, 3)); return n; };
    Str in = name();
    std::vector<Str> args = {in};
    int mode = s.weighted({60, 12, 6, 10, 6, 6}); // fine, missing input, no arguments, unusable output, unusable input, surplus argument
    if (mode == 2) args.clear();
    else if (mode == 4) args[0] = "no/" + in;
    if (mode != 2 && s.coin()) args.push_back(mode == 3 ? Str() : name());
    if (mode == 3) { if (args.size() < 2) args.push_back(""); args[1] = "no/" + name(); }
    if (mode == 5) { if (args.size() < 2) args.push_back(name()); int k = 1 + s.below(3); for (int i = 0; i < k; ++i) args.push_back(name()); }
    if (args.size() > 1 && args[1] == in) throw Discard{"same file"};
    static const char* const ws[] = {" ", "  ", "\t", " \t "};
    Str tail;
    for (auto& a : args) tail += (s.chance(70) ? Str(" ") : Str(ws[s.below(4)])) + a;
    if (s.chance(20)) tail += ws[s.below(4)];
    if (s.chance(20)) { int most = 121 - (int)tail.size(); if (most > 0) tail.insert(0, Str(s.below(most), ' ')); } // long command lines
    if (tail.size() > 120) throw Discard{"long"};
    Str dir = c.dir + "/CMD";
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
    std::filesystem::create_directory(dir, ec);
    std::map<Str, Bytes> fs;
    if (mode != 1) { fs[in] = toBytes(src); writeFile(dir + "/" + in, src); }
    Str cl; for (char ch : tail) cl += ch == '\t' ? Str("\\t") : Str(1, ch);
    c.note("command.txt", toolName + "|" + cl + "|"); c.note("source.txt", src);
    RunOpts o; o.cwd = dir; o.cpuSec = 5;
    std::vector<Str> av = {tool(toolName)}; for (auto& a : args) av.push_back(a);
    RunResult h = runTool(av, o);
    if (h.timeout || (h.sig && h.sig != 6)) throw Discard{"host crash"};
    std::map<Str, Bytes> hf;
    for (auto& e : std::filesystem::directory_iterator(dir)) hf[e.path().filename().string()] = toBytes(readFile(e.path().string()));
    std::filesystem::remove_all(dir, ec);
    DosRun d = runDos(selfHosted(toolName), fs, tail, budget, s.recorded().size());
    c.note("host.txt", h.out); c.note("dos.txt", d.console);
    if (d.stop == Ref86::BUDGET) c.fail("the DOS build does not terminate");
    if (d.stop != Ref86::EXITED) c.fail(fmt("the DOS build stops: %s (%s)\n%s", stopName(d.stop), d.why.c_str(), d.state.c_str()));
    bool hok = h.exitCode == 0 && !h.sig, dok = d.exitCode == 0;
    if (hok != dok) c.fail(fmt("host build %s, DOS build %s\nhost: %s\nDOS: %s", hok ? "succeeds" : "fails", dok ? "succeeds" : "fails", h.out.c_str(), d.console.c_str()));
    if (!h.sig && h.exitCode != d.exitCode) c.fail(fmt("exit code %d from the host build, %d from the DOS build", h.exitCode, d.exitCode));
    if (!h.sig) {
        Str a, b; for (auto& x : hf) a += x.first + fmt(" (%zu)\n", x.second.size()); for (auto& x : d.files) b += x.first + fmt(" (%zu)\n", x.second.size());
        if (hf != d.files) c.fail("different files\nhost:\n" + a + "DOS:\n" + b);
    }
    if (mode == 0 && !hok) c.fail("a usable command line is rejected: " + h.out);
    if (mode >= 1 && mode <= 4 && hok) c.fail("success without usable arguments");
    static const char* const mn[] = {"usable", "missing input", "no arguments", "unusable output", "unusable input", "surplus arguments"};
    c.label(Str("command line: ") + mn[mode]);
    c.nontrivial(hashStr(tail + "\n" + src));
}
