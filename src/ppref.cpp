#include "ppref.h"
#include <deque>
#include <algorithm>
typedef std::vector<PTok> V;

static bool idc(unsigned char c) { return isalnum(c) || c == '_'; }

std::vector<PTok> ppLex(const Str& text, Str* err) {
    // phase 2: join spliced lines, remembering the line of each character
    Str s; std::vector<int> ln; std::vector<char> sp;      // sp: a splice follows this character
    int line = 1;
    for (size_t i = 0; i < text.size(); ++i) {
        if (text[i] == '\\') {
            size_t j = i + 1;
            if (j < text.size() && text[j] == '\r') ++j;
            if (j < text.size() && text[j] == '\n') { ++line; i = j; if (!sp.empty()) sp.back() = 1; continue; }
        }
        s += text[i]; ln.push_back(line); sp.push_back(0);
        if (text[i] == '\n') ++line;
    }
    V v; size_t i = 0, n = s.size(); bool ws = false;
    auto at = [&](size_t k) { return k < n ? s[k] : '\0'; };
    auto add = [&](PTok::K k, size_t a, size_t b) {
        PTok t; t.k = k; t.t = s.substr(a, b - a); t.ws = ws; t.line = ln[a]; t.mlt = ln[b - 1] != ln[a];
        for (size_t q = a; q < b; ++q) if (sp[q]) t.mlt = true;
        v.push_back(t); ws = false; i = b;
    };
    static const char* punct[] = {"...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##"};
    while (i < n) {
        unsigned char c = s[i];
        if (c == '\n') { PTok t; t.k = PTok::NL; t.line = ln[i]; v.push_back(t); ws = false; ++i; continue; }
        if (c <= ' ') { ws = true; ++i; continue; }
        if (c == '/' && at(i + 1) == '/') { while (i < n && s[i] != '\n') ++i; ws = true; continue; }
        if (c == '/' && at(i + 1) == '*') {
            size_t j = s.find("*/", i + 2);
            if (j == Str::npos) { if (err) *err = "unterminated comment"; i = n; break; }
            i = j + 2; ws = true; continue;
        }
        if (isalpha(c) || c == '_') { size_t j = i; while (j < n && idc(s[j])) ++j; add(PTok::ID, i, j); continue; }
        if (isdigit(c) || (c == '.' && isdigit((unsigned char)at(i + 1)))) {
            size_t j = i + 1;
            while (j < n) {
                if ((s[j] == '+' || s[j] == '-') && strchr("eEpP", s[j - 1])) { ++j; continue; }
                if (!idc(s[j]) && s[j] != '.') break;
                ++j;
            }
            add(PTok::NUM, i, j); continue;
        }
        if (c == '"' || c == '\'') {
            size_t j = i + 1; bool ok = false;
            while (j < n && s[j] != '\n') {
                if (s[j] == '\\' && j + 1 < n && s[j + 1] != '\n') { j += 2; continue; }
                if ((unsigned char)s[j] == c) { ok = true; ++j; break; }
                ++j;
            }
            add(ok ? (c == '"' ? PTok::STR : PTok::CHR) : PTok::BAD, i, j); continue;
        }
        size_t len = 1;
        for (auto p : punct) { size_t l = strlen(p); if (s.compare(i, l, p) == 0) { len = l; break; } }
        add(len > 1 || strchr("+-*/%=!<>&|^~()?:,;{}[].#", c) ? PTok::PUNCT : PTok::OTHER, i, i + len);
    }
    return v;
}
Str ppShow(const V& t, size_t max, size_t from) {
    Str r;
    for (size_t i = from; i < t.size() && i < from + max; ++i) r += (r.empty() ? "" : " ") + (t[i].k == PTok::NL ? Str("\\n") : t[i].t);
    return r;
}

namespace {
struct Err { Str m; };
struct Unsure { Str m; };
struct Mac { bool fn = false; std::vector<Str> params; V body; bool builtin = false; };
bool sameBody(const Mac& a, const Mac& b) {
    if (a.fn != b.fn || a.params != b.params || a.body.size() != b.body.size()) return false;
    for (size_t i = 0; i < a.body.size(); ++i) if (!(a.body[i] == b.body[i]) || (i && a.body[i].ws != b.body[i].ws)) return false;
    return true;
}
struct Pp {
    const std::map<Str, Str>& files; bool alt; PpResult& R;
    std::map<Str, Mac> mac; std::set<Str> names;
    Str file; bool pending = false; int work = 0; int live = 0, text = 0, defText = 0; int nestBase = 0, argBase = 0;
    struct Cond { bool taken, active, parent, sawElse; }; std::vector<Cond> cond;
    Pp(const std::map<Str, Str>& f, bool a, PpResult& r) : files(f), alt(a), R(r) {
        for (auto n : {"__FILE__", "__LINE__", "__SCC__"}) mac[n].builtin = true;
    }
    bool active() const { return cond.empty() || cond.back().active; }
    void feat(const char* f) { ++R.feat[f]; }

    // --- expansion ---------------------------------------------------------
    static V trim(V v) { if (!v.empty()) v[0].ws = false; return v; }
    Str stringize(const V& a) {
        Str r = "\"";
        for (size_t i = 0; i < a.size(); ++i) {
            if (a[i].k == PTok::NL) continue;
            if (i && a[i].amb) throw Unsure{"white space around an empty text that is stringized"};
            if (i && a[i].ws) r += ' ';
            if (a[i].k == PTok::STR || a[i].k == PTok::CHR) { for (char c : a[i].t) { if (c == '"' || c == '\\') r += '\\'; r += c; } }
            else { if (a[i].t.find('\\') != Str::npos || a[i].k == PTok::BAD) throw Unsure{"stringized backslash outside a literal"}; r += a[i].t; }
        }
        return r + "\"";
    }
    PTok paste(const PTok& a, const PTok& b) {
        if (a.k == PTok::PLACE) { PTok r = b; r.ws = a.ws; return r; }
        if (b.k == PTok::PLACE) return a;
        Str t = a.t + b.t; V v = ppLex(t);
        if (v.size() != 1 || v[0].t != t || v[0].k == PTok::BAD) throw Unsure{"pasting does not give a valid token"};
        PTok r = v[0]; r.ws = a.ws; r.line = a.line; r.mlt = a.mlt || b.mlt;
        std::set_intersection(a.hs.begin(), a.hs.end(), b.hs.begin(), b.hs.end(), std::inserter(r.hs, r.hs.begin()));
        if (r.t == "##" || r.t == "//" || r.t == "/*") throw Unsure{"pasting gives ## or a comment"};
        feat("paste");
        return r;
    }
    V substitute(const Mac& m, const std::vector<V>& args, int depth, bool inIf) {
        auto par = [&](const PTok& t) { if (!m.fn || t.k != PTok::ID) return -1; for (size_t i = 0; i < m.params.size(); ++i) if (m.params[i] == t.t) return (int)i; return -1; };
        V out; bool pasteNext = false, nextAmb = false;
        auto append = [&](V v, bool ws) {
            if (v.empty()) { PTok p; p.k = PTok::PLACE; v.push_back(p); }
            v[0].ws = ws;
            if (nextAmb) v[0].amb = true;
            nextAmb = false;
            size_t i = 0;
            if (pasteNext) { PTok l = out.back(); out.pop_back(); out.push_back(paste(l, v[0])); i = 1; pasteNext = false; }
            for (; i < v.size(); ++i) out.push_back(v[i]);
        };
        int nPaste = 0;
        for (size_t i = 0; i < m.body.size(); ++i) {
            const PTok& t = m.body[i];
            if (m.fn && t.k == PTok::PUNCT && t.t == "#" ) {
                int p = i + 1 < m.body.size() ? par(m.body[i + 1]) : -1;
                PTok q; q.k = PTok::STR; q.t = stringize(args[p]); 
                if ((pasteNext || (i + 2 < m.body.size() && m.body[i + 2].t == "##")) && m.body[i+1].k == PTok::ID) throw Unsure{"# and ## together"};
                append({q}, t.ws); ++i; feat("stringize"); continue;
            }
            if (t.k == PTok::PUNCT && t.t == "##") { pasteNext = true; if (++nPaste > 1) feat("paste chain"); continue; }
            bool nextPaste = i + 1 < m.body.size() && m.body[i + 1].k == PTok::PUNCT && m.body[i + 1].t == "##";
            int p = par(t);
            if (p >= 0) {
                V a = args[p];
                bool tail = false;
                if (!pasteNext && !nextPaste) {
                    std::set<Str> before; for (auto& q : a) before.insert(q.hs.begin(), q.hs.end());
                    a = expand(a, depth + 1, inIf, true); live += 2 * a.size() + 2; tail = tailAmb;
                    for (auto& q : a) for (auto& h : q.hs) if (!before.count(h)) q.old.insert(h);
                }
                append(a, t.ws);
                if (tail) nextAmb = true;
            } else append({t}, t.ws);
        }
        V r; bool ws = false, some = false, all = true;
        for (auto& t : out) {
            if (t.k == PTok::PLACE) { ws = ws || t.ws; some = true; if (&t != &out[0]) all = all && t.ws; continue; }
            if (some && ((ws || t.ws) != (all && t.ws) || r.empty())) t.amb = true;
            r.push_back(t); if (ws) r.back().ws = true; ws = false; some = false; all = true;
        }
        trail = some || nextAmb;
        return r;
    }
    bool trail = false, tailAmb = false;   // white space after the last result is not well determined
    V expand(const V& src, int depth, bool inIf, bool isArg = false) {
        bool tail = false;
        std::deque<PTok> in(src.begin(), src.end()); V out;
        while (!in.empty()) {
            PTok t = in.front(); in.pop_front();
            if (++work > 200000) throw Unsure{"too long"};
            if (depth == 1 && t.hs.empty()) live = text = 0;
            if (inIf && t.k == PTok::ID && t.t == "defined") {
                out.push_back(t);
                size_t k = 0;
                if (k < in.size() && in[k].t == "(") ++k;
                ++k;
                if (in.size() < k || in[k - 1].k != PTok::ID) throw Err{"defined without a name"};
                for (size_t i = 0; i < k; ++i) { out.push_back(in.front()); in.pop_front(); }
                continue;
            }
            if (t.k == PTok::ID && t.hs.count(t.t)) {
                if (!t.painted && t.old.count(t.t)) throw Unsure{"nested self-reference left open by C"};
                t.painted = true;
            }
            if (t.k != PTok::ID || t.hs.count(t.t)) { out.push_back(t); continue; }
            auto it = mac.find(t.t);
            if (it == mac.end()) { out.push_back(t); continue; }
            const Mac m = it->second;
            if (m.builtin) {
                PTok r = t; r.hs.clear();
                special = true;
                if (t.t == "__LINE__") { if (t.mlt) throw Unsure{"__LINE__ in a construct that spans lines"}; r.k = PTok::NUM; r.t = fmt("%d", t.line); feat("__LINE__"); }
                else if (t.t == "__FILE__") { r.k = PTok::STR; r.t = "\"" + file + "\""; feat("__FILE__"); }
                else { r.k = PTok::NUM; r.t = "1"; feat("__SCC__"); }
                out.push_back(r); continue;
            }
            std::vector<V> args; std::set<Str> hs = t.hs; int endLine = t.line; bool mlt = t.mlt;
            if (m.fn) {
                size_t k = 0; 
                while (k < in.size() && in[k].k == PTok::NL) ++k;
                if (k == in.size()) { if (!isArg) pending = true; else feat("name at end of argument"); out.push_back(t); feat("function name alone"); continue; }
                if (in[k].t != "(" || in[k].k != PTok::PUNCT) { out.push_back(t); feat("function name alone"); continue; }
                if (k) { feat("newline before ("); }
                int nest = 0; V cur; bool done = false; bool sep = false; size_t j = k + 1;
                size_t text = 0;
                for (; j < in.size(); ++j) {
                    PTok q = in[j];
                    if (q.k == PTok::NL) { sep = true; continue; }
                    text += q.t.size() + 1;
                    if (sep) q.ws = true;
                    sep = false;
                    if (q.k == PTok::PUNCT && q.t == "(") ++nest;
                    if (q.k == PTok::PUNCT && q.t == ")" && nest-- == 0) { done = true; break; }
                    if (q.k == PTok::PUNCT && q.t == "," && nest == 0 && m.params.size()) { args.push_back(trim(cur)); cur.clear(); continue; }
                    if (q.k == PTok::BAD) throw Err{"unterminated literal"};
                    cur.push_back(q);
                }
                if (!done) { if (isArg) throw Err{"unterminated invocation inside an argument"}; throw Err{"unterminated invocation"}; }
                R.maxArgText = std::max(R.maxArgText, (int)text);
                if (m.params.size() || !cur.empty()) args.push_back(trim(cur));
                if (args.size() != m.params.size()) throw Err{"wrong number of arguments"};
                endLine = in[j].line; if (in[j].mlt) mlt = true;
                std::set<Str> h2;
                std::set_intersection(t.hs.begin(), t.hs.end(), in[j].hs.begin(), in[j].hs.end(), std::inserter(h2, h2.begin()));
                if (!alt) hs = h2;
                t.old.insert(in[j].old.begin(), in[j].old.end());
                for (size_t i = 0; i <= j; ++i) in.pop_front();
                feat("function macro"); if (args.size() > 1) feat("several arguments");
                for (auto& a : args) { if (a.empty()) feat("empty argument"); for (auto& q : a) if (q.k == PTok::ID && q.t == t.t) feat("macro in its own argument"); }
            } else feat("object macro");
            ++R.expansions;
            hs.insert(t.t);
            R.maxNest = std::max(R.maxNest, nestBase + (int)hs.size());
            R.maxArgs = std::max(R.maxArgs, argBase + (int)args.size());
            for (auto& a : args) { live += 2 * a.size(); for (auto& q : a) text += q.t.size() + 1; }
            if (endLine != t.line) mlt = true;
            bool body = false; for (auto& q : m.body) body = body || q.ws;
            if (mlt) for (auto& a : args) for (auto& q : a) q.mlt = true;
            int nb = nestBase, ab = argBase; nestBase += hs.size() + 1; argBase += args.size();
            V r = substitute(m, args, depth, inIf);
            bool tr = trail;
            nestBase = nb; argBase = ab; live += 2 * r.size() + 4;
            for (auto& q : r) if (q.k == PTok::STR || q.line >= 0) text += q.t.size() + 1;
            R.maxLive = std::max(R.maxLive, R.defTokens + live); R.maxText = std::max(R.maxText, defText + text);
            if ((int)r.size() > R.maxList) R.maxList = r.size();
            if (r.size() > 3000) throw Unsure{"too long"};
            bool first = true;
            for (auto& q : r) { q.hs.insert(hs.begin(), hs.end()); q.old.insert(t.old.begin(), t.old.end()); if (first) { q.ws = t.ws; q.amb = q.amb || t.amb; } first = false; if (mlt) q.mlt = true; }
            // tokens of the body take the line of the invocation
            for (auto& q : r) if (q.line < 0) q.line = t.line;
            if (r.empty()) tr = true;
            if (tr) { if (in.empty()) tail = true; else if (!r.empty()) in.front().amb = true; }
            if (r.empty() && !in.empty() && (t.ws != in.front().ws || body || t.amb)) in.front().amb = true;
            if (r.empty() && t.ws && !in.empty() && in.front().k != PTok::NL) in.front().ws = true;
            for (size_t i = r.size(); i--;) in.push_front(r[i]);
        }
        tailAmb = tail;
        return out;
    }
    // --- conditions ----------------------------------------------------------
    V ex; size_t ep; bool uns;
    int64_t rng(int64_t v, bool live) { if (live && (v < -32767 || v > 32767)) throw Unsure{"value outside 16 bits"}; if (live && v < 0 && uns) throw Unsure{"unsigned arithmetic"}; return live ? v : 0; }
    const PTok* cur() { return ep < ex.size() ? &ex[ep] : nullptr; }
    bool accept(const char* p) { if (cur() && cur()->k == PTok::PUNCT && cur()->t == p) { ++ep; return true; } return false; }
    int64_t primary(bool live) {
        const PTok* t = cur();
        if (!t) throw Err{"expression ends"};
        if (accept("(")) { int64_t v = ternary(live); if (!accept(")")) throw Err{"missing )"}; return v; }
        if (accept("!")) return !primary(live);
        if (accept("-")) { feat("unary operator"); return rng(-primary(live), live); }
        if (accept("+")) { feat("unary operator"); return primary(live); }
        if (accept("~")) { feat("unary operator"); return rng(~primary(live), live); }
        if (t->k == PTok::ID) {
            ++ep;
            if (t->t == "defined") {
                bool par = accept("("); const PTok* n = cur();
                if (!n || n->k != PTok::ID) throw Err{"defined without a name"};
                ++ep; if (par && !accept(")")) throw Err{"missing )"};
                feat("defined");
                return mac.count(n->t) != 0;
            }
            feat("undefined name");
            return 0;
        }
        if (t->k == PTok::CHR) {
            ++ep; Str b = t->t.substr(1, t->t.size() - 2);
            feat("character constant");
            if (b.size() == 1 && (unsigned char)b[0] < 0x80) return b[0];
            if (b.size() == 2 && b[0] == '\\') { const char* q = strchr("n\nt\tr\r\\\\'\'\"\"0\0", b[1]); static const char f[] = "ntr\\'\"0", g[] = "\n\t\r\\'\"\0"; (void)q; const char* w = strchr(f, b[1]); if (b[1] && w) return g[w - f]; }
            throw Unsure{"character constant"};
        }
        if (t->k == PTok::NUM) {
            ++ep; Str d = t->t; int base = 10; size_t i = 0;
            if (d[0] == '0') { base = 8; if (d.size() > 1 && (d[1] == 'x' || d[1] == 'X')) { base = 16; i = 2; if (d.size() < 3) throw Unsure{"malformed number"}; } }
            int64_t v = 0; bool any = false;
            for (; i < d.size(); ++i) {
                int c = toupper(d[i]); int q = isdigit(c) ? c - '0' : base == 16 && c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
                if (q >= base) break;
                v = v * base + q; any = true; if (v > 1000000) throw Unsure{"large number"};
            }
            Str suf = d.substr(i); for (auto& c : suf) c = toupper(c);
            if (!any || !(suf == "" || suf == "U" || suf == "L" || suf == "UL" || suf == "LU")) throw Unsure{"malformed number"};
            if (suf != "") { feat("suffix"); if (suf.find('U') != Str::npos) uns = true; }
            return rng(v, true);
        }
        if (t->k == PTok::STR || t->k == PTok::BAD) throw Err{"literal in expression"};
        if (t->k == PTok::PUNCT) throw Err{"operator " + t->t + " where a value is expected"};
        throw Unsure{"other character in expression"};
    }
    int64_t binary(int level, bool live) {
        static const std::vector<std::vector<const char*>> ops = {{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}};
        if (level == (int)ops.size()) return primary(live);
        int64_t l = binary(level + 1, live);
        for (;;) {
            const char* o = nullptr;
            for (auto p : ops[level]) if (cur() && cur()->k == PTok::PUNCT && cur()->t == p) o = p;
            if (!o) return l;
            ++ep; ++R.feat[Str("operator ") + o];
            Str op = o;
            if (op == "||") { int64_t r = binary(level + 1, live && !l); l = l || r; continue; }
            if (op == "&&") { int64_t r = binary(level + 1, live && l); l = l && r; continue; }
            int64_t r = binary(level + 1, live);
            if (!live) { l = 0; continue; }
            if ((op == "/" || op == "%") && r == 0) throw Err{"division by zero"};
            if (op == "|") l |= r; else if (op == "^") l ^= r; else if (op == "&") l &= r;
            else if (op == "==") l = l == r; else if (op == "!=") l = l != r;
            else if (op == "<") l = l < r; else if (op == ">") l = l > r; else if (op == "<=") l = l <= r; else if (op == ">=") l = l >= r;
            else if (op == "<<" || op == ">>") { if (r < 0 || r > 14 || l < 0) throw Unsure{"shift"}; l = op == "<<" ? l << r : l >> r; }
            else if (op == "+") l += r; else if (op == "-") l -= r; else if (op == "*") l *= r;
            else if (op == "/") l /= r; else l %= r;
            l = rng(l, true);
        }
    }
    int64_t ternary(bool live) {
        int64_t c = binary(0, live);
        if (!accept("?")) return c;
        feat("operator ?:");
        int64_t a = ternary(live && c);
        if (!accept(":")) throw Err{"missing :"};
        int64_t b = ternary(live && !c);
        return c ? a : b;
    }
    bool evalIf(const V& toks) {
        V e = expand(toks, 1, true); bool p = pending; (void)p; pending = false;
        ex.clear(); for (auto& t : e) if (t.k != PTok::NL) ex.push_back(t);
        ep = 0; uns = false;
        if (ex.empty()) throw Err{"empty expression"};
        for (auto& t : ex) if (t.k == PTok::NUM) { Str u = t.t; for (auto& c : u) c = toupper(c); if (u.size() > 1 && u.substr(0, 2) != "0X" && u.find('U') != Str::npos) uns = true; else if (u.substr(0, 2) == "0X" && u.find('U') != Str::npos) uns = true; }
        int64_t v = ternary(true);
        if (cur()) throw Err{"extra tokens in expression"};
        return v != 0;
    }
    // --- directives ------------------------------------------------------------
    void define(const V& l, size_t i) {
        if (i >= l.size()) throw Err{"no macro name"};
        if (l[i].k != PTok::ID) throw Err{"macro name is no identifier"};
        Str name = l[i].t;
        if (name == "defined" || (mac.count(name) && mac[name].builtin)) throw Err{"reserved macro name"};
        ++i;
        Mac m;
        if (i < l.size() && l[i].k == PTok::PUNCT && l[i].t == "(" && !l[i].ws) {
            m.fn = true; ++i;
            if (i < l.size() && l[i].t == ")") ++i;
            else for (;;) {
                if (i >= l.size() || l[i].k != PTok::ID) throw Err{"bad parameter list"};
                if (l[i].t == "__VA_ARGS__") throw Unsure{"variadic"};
                if (std::count(m.params.begin(), m.params.end(), l[i].t)) throw Err{"repeated parameter"};
                m.params.push_back(l[i].t); names.insert(l[i].t); ++i;
                if (i < l.size() && l[i].t == "," ) { ++i; if (i < l.size() && l[i].t == "...") throw Unsure{"variadic"}; continue; }
                if (i < l.size() && l[i].t == ")") { ++i; break; }
                throw Err{"bad parameter list"};
            }
            R.params += m.params.size();
        } else if (i < l.size() && !l[i].ws) throw Unsure{"no space after macro name"};
        for (size_t j = i; j < l.size(); ++j) {
            PTok t = l[j]; t.line = -1; if (t.k == PTok::BAD) throw Err{"unterminated literal"};
            t.mlt = false;
            if (t.k == PTok::ID && t.t == "__VA_ARGS__") throw Unsure{"variadic"};
            m.body.push_back(t);
        }
        if (!m.body.empty()) m.body[0].ws = false;
        for (size_t j = 0; j < m.body.size(); ++j) {
            const PTok& t = m.body[j];
            if (t.k == PTok::PUNCT && t.t == "##" && (j == 0 || j + 1 == m.body.size())) throw Err{"## at the end of a body"};
            if (m.fn && t.k == PTok::PUNCT && t.t == "#") {
                if (j + 1 >= m.body.size() || m.body[j + 1].k != PTok::ID || !std::count(m.params.begin(), m.params.end(), m.body[j + 1].t)) throw Err{"# without a parameter"};
            }
        }
        for (size_t j = 1; j < m.body.size(); ++j) if (m.body[j].t == "##" && m.body[j - 1].t == "##") throw Unsure{"adjacent ##"};
        names.insert(name); R.names = names.size();
        defText += name.size() + 1; for (auto& t : m.body) defText += t.t.size() + 1; for (auto& t : m.params) defText += 2 * t.size() + 2;
        R.maxText = std::max(R.maxText, defText);
        auto it = mac.find(name);
        if (it != mac.end()) { if (!sameBody(it->second, m)) throw Err{"redefinition differs"}; feat("benign redefinition"); return; }
        R.defTokens += m.body.size() * 2;
        R.maxText = std::max(R.maxText, defText); R.maxLive = std::max(R.maxLive, R.defTokens);
        mac[name] = m;
    }
    void flush(V& text, bool eof) {
        if (text.empty()) return;
        bool any = false;
        for (auto& t : text) if (t.k != PTok::NL) { any = true; if (pending && t.t == "(" ) throw Unsure{"invocation across a directive"}; pending = false; break; }
        if (!any) { text.clear(); return; }
        for (auto& t : text) if (t.k == PTok::BAD) throw Err{"unterminated literal"};
        V o;
        try { o = expand(text, 1, false); }
        catch (Err& e) { if (e.m == "unterminated invocation" && !eof) throw Unsure{"directive inside an invocation"}; throw; }
        for (auto& t : o) if (t.k != PTok::NL) R.out.push_back(t);
        text.clear();
    }
    Str open; bool dotted = false, special = false;
    // 1.A is a single number in C; such names are not judged
    void number(const PTok& q) {
        if (q.k != PTok::NUM) return;
        if (q.t.find_first_of(".+-") != Str::npos) dotted = true;
        for (size_t i = 1; i < q.t.size(); ++i)
            if (strchr(".+-", q.t[i - 1]) && (isalpha((unsigned char)q.t[i]) || q.t[i] == '_') && open.empty()) open = "name inside a number";
    }
    void run(const Str& name, int depth) {
        Str save = file; file = name;
        Str lexErr; Str src = files.at(name);
        for (char& ch : src) if (!ch) ch = ' ';       // white space, as for every control character
        V t = ppLex(src, &lexErr);
        for (auto& q : t) R.maxTok = std::max(R.maxTok, (int)q.t.size());
        size_t condBase = cond.size();
        size_t i = 0; V text;
        while (i < t.size()) {
            size_t e = i; while (e < t.size() && t[e].k != PTok::NL) ++e;
            V l(t.begin() + i, t.begin() + e);
            bool hadNl = e < t.size();
            i = hadNl ? e + 1 : e;
            bool last = !hadNl && lexErr.size();
            if (active()) { for (auto& q : l) number(q); if (!l.empty() && l.back().t == "\\" && open.empty()) open = "backslash at the end of a line"; }
            if (!l.empty() && l[0].k == PTok::PUNCT && l[0].t == "#") {
                // the tokens before the directive
                flush(text, false);
                directive(l, depth, condBase);
            } else if (active()) {
                text.insert(text.end(), l.begin(), l.end()); if (hadNl) { PTok n; n.k = PTok::NL; text.push_back(n); } }
            if (last) break;
        }
        if (lexErr.size()) throw Err{lexErr};
        bool isMain = depth == 0;
        try { flush(text, isMain); }
        catch (Unsure& u) { throw; }
        if (cond.size() != condBase) throw Err{"unterminated conditional"};
        file = save;
    }
    void directive(const V& l, int depth, size_t condBase) {
        size_t i = 1;
        if (l.size() == 1) { feat("null directive"); return; }
        Str d = l[1].k == PTok::ID ? l[1].t : "";
        i = 2;
        V rest(l.begin() + 2, l.end());
        if (d == "if" || d == "ifdef" || d == "ifndef") {
            Cond c; c.parent = active(); c.sawElse = false; c.taken = false; c.active = false;
            if (c.parent) {
                if (d == "if") c.active = evalIf(rest);
                else {
                    if (rest.empty() || rest[0].k != PTok::ID) throw Err{"#" + d + " without a name"};
                    if (rest.size() > 1) throw Unsure{"extra tokens"};
                    c.active = (mac.count(rest[0].t) != 0) == (d == "ifdef");
                }
                c.taken = c.active;
            }
            cond.push_back(c); R.maxCond = std::max(R.maxCond, (int)cond.size());
            ++R.feat["#" + d];
            return;
        }
        if (d == "elif" || d == "else" || d == "endif") {
            if (cond.size() <= condBase) throw Err{"#" + d + " without #if"};
            Cond& c = cond.back();
            ++R.feat["#" + d];
            if (d == "endif") { if (!rest.empty() && (cond.size() < 2 || c.parent)) throw Unsure{"extra tokens"}; cond.pop_back(); return; }
            if (c.sawElse) throw Err{"#" + d + " after #else"};
            if (d == "else") {
                if (!rest.empty() && c.parent) throw Unsure{"extra tokens"};
                c.sawElse = true; c.active = c.parent && !c.taken; c.taken = true; return;
            }
            if (!c.parent || c.taken) { c.active = false; if (c.parent) feat("elif after taken group"); return; }
            c.active = true;           // for the evaluation
            c.active = evalIf(rest);
            c.taken = c.active;
            return;
        }
        if (!active()) { feat("directive in skipped group"); return; }
        if (d == "define") { define(l, i); feat("#define"); return; }
        if (d == "undef") {
            if (rest.empty() || rest[0].k != PTok::ID) throw Err{"#undef without a name"};
            if (rest.size() > 1) throw Unsure{"extra tokens"};
            if (rest[0].t == "defined" || (mac.count(rest[0].t) && mac[rest[0].t].builtin)) throw Err{"#undef of a reserved name"};
            if (mac.erase(rest[0].t)) feat("#undef"); else feat("#undef of undefined name");
            return;
        }
        if (d == "error") throw Err{"#error"};
        if (d == "pragma") { feat("#pragma"); return; }
        if (d == "line") { feat("#line"); throw Unsure{"#line"}; }
        if (d == "include") {
            V r = rest; bool bad = false; Str n;
            if (!r.empty() && r[0].k == PTok::ID) { r = expand(r, 1, false); pending = false; feat("#include of a macro"); if (!r.empty() && r[0].t == "<") throw Unsure{"#include of macro giving <"}; }
            if (r.empty()) throw Err{"#include without a name"};
            for (size_t k = 1; k < r.size(); ++k) if (r[k].k == PTok::ID && mac.count(r[k].t)) throw Unsure{"macro in #include"};
            if (r[0].k == PTok::STR) { n = r[0].t.substr(1, r[0].t.size() - 2); if (r.size() > 1) throw Err{"junk after #include"}; if (n.find('\\') != Str::npos) throw Unsure{"backslash in a file name"}; }
            else if (r[0].t == "<" && r[0].k == PTok::PUNCT) {
                size_t j = 1; for (; j < r.size() && r[j].t != ">"; ++j) { if (j > 1 && r[j].ws) throw Unsure{"space in a header name"}; if (r[j].k == PTok::STR || r[j].k == PTok::CHR || r[j].k == PTok::BAD || r[j].t.find('>') != Str::npos) throw Unsure{"odd header name"}; n += r[j].t; }
                if (r.size() > 1 && r[1].ws) throw Unsure{"space in a header name"};
                if (j < r.size() && r[j].ws) throw Unsure{"space in a header name"};
                if (j >= r.size()) throw Err{"unterminated header name"};
                if (j + 1 < r.size()) throw Err{"junk after #include"};
                feat("#include <>");
            } else bad = true;
            if (bad) { if (r[0].t.find('<') == 0) throw Unsure{"odd header name"}; throw Err{"#include without a name"}; }
            defText += 2 * n.size() + 4; R.maxText = std::max(R.maxText, defText);   // the name is kept
            if (!files.count(n)) throw Err{"missing file"};
            if (depth >= 2) throw Err{"includes nested too deeply"};
            feat("#include"); if (depth) feat("nested #include");
            run(n, depth + 1);
            return;
        }
        throw Err{"unknown directive"};
    }
};
}

PpResult ppRun(const std::map<Str, Str>& files, const Str& mainName, bool alt) {
    PpResult R; Pp p(files, alt, R);
    try { p.run(mainName, 0); }
    catch (Err& e) { R.error = e.m; }
    catch (Unsure& u) { R.unsure = u.m; }
    for (size_t i = 0; i < R.out.size(); ++i) {
        p.number(R.out[i]);
        // values of __LINE__ and pasted numbers are written right next to the token that follows
        if (!R.feat.count("__LINE__") && !R.feat.count("__SCC__") && !R.feat.count("paste")) continue;
        if (R.out[i].k == PTok::NUM && i + 1 < R.out.size() && (R.out[i + 1].t[0] == '.' || (strchr("+-", R.out[i + 1].t[0]) && strchr("eEpP", R.out[i].t.back())))) p.dotted = true;
        if (R.out[i].t.back() == '.' && i + 1 < R.out.size() && R.out[i + 1].k == PTok::NUM) p.dotted = true;
    }
    if (R.unsure.empty()) R.unsure = p.open;
    if (R.unsure.empty() && R.error.empty())
        for (size_t i = 0; i < R.out.size(); ++i)
            if (R.out[i].t == "\\" && (R.expansions || i + 1 == R.out.size() || R.out[i + 1].line != R.out[i].line)) R.unsure = "backslash at the end of a line";
    if (R.unsure.empty() && p.dotted && (R.expansions || p.special)) R.unsure = "floating constant next to a macro";
    return R;
}
PpResult ppModel(const std::map<Str, Str>& files, const Str& mainName) {
    PpResult a = ppRun(files, mainName, false), b = ppRun(files, mainName, true);
    if (a.unsure.empty() && !b.unsure.empty()) a.unsure = b.unsure;
    if (a.unsure.empty() && (a.error != b.error || !(a.out == b.out))) a.unsure = "nested self-reference left open by C";
    return a;
}
bool ppWithinLimits(const PpResult& r) {
    return r.names <= 14 && r.params <= 28 && r.maxNest <= 15 && r.maxArgs <= 26 && r.maxLive <= 330 && r.maxText <= 1500 && r.maxTok <= 1500 && r.maxCond <= 14;
}
