// Properties C01-C14: the compiler.
#include "ctools.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace cg;

// ------------------------------------------------------------ semantic profiles
static void rejectCheck(Ctx& c, const Compiled& k) {
    if (k.timeout) c.fail("the compiler does not terminate");
    if (k.sig) c.fail(fmt("the compiler crashes with signal %d", k.sig));
    if (!k.ok) {
        c.note("compiler.txt", k.msg);
        if (getenv("VP_REJ") && k.msg.find(getenv("VP_REJ")) != Str::npos) c.fail("rejected: " + k.msg);
        Str m = k.msg; size_t q = m.find("In line");
        c.label("rejected: " + m.substr(0, q == 0 ? m.find(':') + 40 : q));
        throw Discard{"rejected by the compiler"};
    }
}
static void score(Ctx& c, const Program& p, const Str& src, const Trace& t, const std::vector<Str>& need, int minNeed) {
    int sc = 0;
    for (auto& f : need) { auto i = p.feat.find(f); if (i != p.feat.end()) { sc += i->second; c.label("feature:" + f, i->second); } }
    c.label("outputs compared", t.out.size());
    if (sc >= minNeed && t.out.size() >= 2) c.nontrivial(featureHash(p) ^ hashStr(src));
}
static void profileCase(Src& s, Ctx& c, const Opts& o, const std::vector<Str>& need, int minNeed) {
    auto p = generate(s, o);
    Str src = print(*p);
    c.note("program.c", src);
    Trace t = interpret(*p);
    c.note("expected.txt", hexWords(t.out, 200));
    Compiled k = compileC(c, src);
    rejectCheck(c, k);
    Ran r = runImage(k.image, t.steps * 200 + 200000, "", s.recorded().size() + 1);
    expectTrace(c, r, t);
    score(c, *p, src, t, need, minNeed);
    c.sample(src.substr(prelude().size()));
}
static Opts exprProfile() {
    Opts o; o.depth = 5; o.nfuncs = 2; o.nstmts = 7; o.sideEffects = false; o.wLoop = 4; o.wOut = 35; o.wIf = 12; o.wJump = 1; o.wGoto = 0; o.wDead = 1; o.pChar = 5; o.pUnsigned = 5; o.pLogic = 16; o.pCond = 12; o.pComma = 5; o.wProbe = 12;
    return o;
}
static Opts convProfile() {
    Opts o; o.depth = 4; o.nfuncs = 2; o.nstmts = 8; o.pChar = 55; o.pUnsigned = 50; o.pCmp = 28; o.pMulDiv = 35; o.pShift = 20; o.wOut = 30; o.wLoop = 4; o.wGoto = 0; o.wDead = 1; o.wPtr = 5; o.pCall = 12; o.wProbe = 10;
    return o;
}
static Opts assignProfile() {
    Opts o; o.depth = 3; o.nfuncs = 2; o.nstmts = 9; o.pSE = 80; o.wAssign = 45; o.wIncDec = 20; o.wStruct = 10; o.wPtr = 8; o.structPct = 80; o.pChar = 30; o.nglobals = 9; o.wLoop = 5; o.wGoto = 1; o.wEffect = 25; o.wCells = 5;
    return o;
}
static Opts flowProfile() {
    Opts o; o.depth = 2; o.nfuncs = 3; o.nstmts = 9; o.wIf = 25; o.wLoop = 22; o.wJump = 14; o.wGoto = 10; o.wBlock = 8; o.wDead = 7; o.wSwitch = 4; o.pLogic = 25; o.pCond = 15; o.pComma = 8; o.wDecl = 14; o.pChar = 10; o.pMulDiv = 10; o.structPct = 15; o.pSE = 50; o.hugeFrame = 15;
    return o;
}
static Opts switchProfile() {
    Opts o; o.depth = 2; o.nfuncs = 2; o.nstmts = 6; o.wSwitch = 45; o.bigSwitch = true; o.wLoop = 12; o.wIf = 10; o.wJump = 8; o.wGoto = 2; o.structPct = 10; o.pMulDiv = 10; o.pChar = 20;
    return o;
}
static Opts callProfile() {
    Opts o; o.depth = 4; o.nfuncs = 6; o.nstmts = 6; o.pCall = 60; o.wCall = 25; o.wLoop = 4; o.structPct = 15; o.wGoto = 1; o.pMulDiv = 15; o.pLogic = 10; o.wFptr = 20;
    return o;
}
static Opts layoutProfile() {
    Opts o; o.depth = 3; o.nfuncs = 3; o.nstmts = 9; o.structPct = 95; o.pChar = 40; o.wPtr = 12; o.wStruct = 12; o.wDecl = 16; o.nglobals = 10; o.pConst = 20; o.wLoop = 10; o.wGoto = 0; o.hugeFrame = 6; o.pList = 35; o.wCells = 6;
    return o;
}
static Opts scopeProfile() {
    Opts o; o.depth = 2; o.nfuncs = 5; o.nstmts = 8; o.wDecl = 30; o.wBlock = 16; o.wLoop = 8; o.pConst = 15; o.nglobals = 10; o.structPct = 60; o.wCall = 15; o.pCall = 20; o.pNoInit = 40; o.wType = 25;
    return o;
}
static Opts distanceProfile() {
    Opts o; o.depth = 2; o.nfuncs = 2; o.nstmts = 7; o.pPad = 22; o.wIf = 22; o.wLoop = 20; o.wJump = 12; o.wSwitch = 8; o.wGoto = 6; o.pLogic = 20; o.pCond = 12; o.hugeFrame = 25; o.structPct = 30; o.wDead = 6;
    return o;
}
static const char* const INTERP = "the expected behaviour is computed by an interpreter of the generated program (src/cgen.cpp) and the compiled program is run on an independent 8086 model (src/ref86.cpp)";
static const char* const SUBSET = "programs are drawn from the C subset the compiler documents; cases with C undefined behaviour (found by the interpreter) are discarded";

static Reg r1({"C01", "Random programs rich in int expressions (all operators, nested to depth 5, over constants, locals, parameters, globals, array elements and calls, as values and conditions) are compiled, run and compared output by output with a C interpreter. Non-trivial: at least 6 binary/unary/logical/conditional operators and 2 compared outputs.",
    62000, 900000, [](Src& s, Ctx& c) { profileCase(s, c, exprProfile(), {"op+", "op-", "op*", "op/", "op%", "op&", "op|", "op^", "op<<", "op>>", "op<", "op<=", "op>", "op>=", "op==", "op!=", "neg", "not", "bnot", "land", "lor", "cond", "comma", "const_fold"}, 6); }, {INTERP, SUBSET}, nullptr});
static Reg r2({"C02", "Random programs with mostly char, unsigned char, unsigned and pointer operands, casts, comparisons, divisions and shifts at boundary values, against a C interpreter. Non-trivial: at least 3 casts, char/unsigned operations, pointer comparisons or differences and 2 outputs.",
    62000, 900000, [](Src& s, Ctx& c) { profileCase(s, c, convProfile(), {"cast", "op/", "op%", "op>>", "op<", "op<=", "op>", "op>=", "ptr_diff", "ptr_cmp", "ptr_cast"}, 3); }, {INTERP, SUBSET}, nullptr});
static Reg r3({"C03", "Random programs dominated by simple, compound, chained, embedded and struct assignments and ++/-- on every kind of lvalue; all visible objects are printed at the end so that a stray store shows. Non-trivial: at least 4 assignments or increments of the listed kinds.",
    62000, 900000, [](Src& s, Ctx& c) { profileCase(s, c, assignProfile(), {"assign=", "assign+=", "assign-=", "assign*=", "assign/=", "assign%=", "assign&=", "assign|=", "assign^=", "assign<<=", "assign>>=", "incdec_stmt", "embedded_assign", "chained_assign", "struct_assign", "ptr_access", "se_global", "se_local", "effect_value", "effect_cond", "effect_arg", "struct_assign_place", "cells"}, 4); }, {INTERP, SUBSET}, nullptr});
static Reg r4({"C04", "Random nestings of if/else, loops, break, continue, goto, return, blocks, short-circuit and conditional operators, including unreachable code after jumps, against a C interpreter; a balanced stack is implied by correct locals and return. Non-trivial: at least 4 control constructs.",
    62000, 900000, [](Src& s, Ctx& c) { profileCase(s, c, flowProfile(), {"if", "else", "for", "while", "do", "for_ever", "while_1", "break", "continue", "goto_forward", "goto_backward", "return", "dead_after_jump", "dead_after_return", "dead_region", "bare_function", "land", "lor", "cond"}, 4); }, {INTERP, SUBSET}, nullptr});
static Reg r5({"C05", "Random switch statements (0-31 labels, stacked labels, default anywhere, fallthrough, nested, inside loops, labels inside blocks and loops, declarations between labels) with controlling values on and off the labels, against a C interpreter. Non-trivial: at least 2 switches.",
    55000, 800000, [](Src& s, Ctx& c) { profileCase(s, c, switchProfile(), {"switch", "decl_in_switch", "case_in_block", "case_in_loop", "late_assign"}, 2); }, {INTERP, SUBSET}, nullptr});
static Reg r6({"C06", "Random call graphs: up to 8 arguments, nested calls in arguments and operands, recursion, mutual recursion, implicit declarations, variadic callees and function pointers, against a C interpreter. Non-trivial: at least 4 calls.",
    60000, 900000, [](Src& s, Ctx& c) { profileCase(s, c, callProfile(), {"call0", "call1", "call2", "call3", "call4", "call5", "call6", "call7", "call8", "variadic_call", "recursion", "fnptr_var", "fptr_call", "fptr_test", "fptr_assign", "fptr_arg", "fptr_cond", "fptr_result", "fptr_null", "fptr_ptr", "fptr_ptr_arg", "impure_call_in_expr"}, 4); }, {INTERP, SUBSET}, nullptr});
static Reg r7({"C07", "Random struct/union/array/pointer types and access paths (indexing, multi-dimensional arrays, pointer arithmetic, members through . and ->, sizeof), all elements printed at the end, against a C interpreter. Non-trivial: at least 5 such accesses.",
    60000, 900000, [](Src& s, Ctx& c) { profileCase(s, c, layoutProfile(), {"array", "struct_member", "union_member", "ptr_access", "ptr_ptr", "multidim", "index_expr", "sizeof", "ptr_step", "struct_assign", "struct_assign_place", "cells", "void_ptr", "void_call", "ptr_cast", "ptr_cast_call", "ln_next", "ln_pp", "ln_call", "ln_field", "ln_expr", "ln_copy", "ln_chain"}, 5); }, {INTERP, SUBSET}, nullptr});
static Reg r8({"C08", "Random nestings of declarations with shadowing, statics, typedefs, enumerators, initialised and zero globals and string literals, called repeatedly and started with arbitrary memory contents, against a C interpreter. Non-trivial: at least 2 of the scope features.",
    60000, 900000, [](Src& s, Ctx& c) { profileCase(s, c, scopeProfile(), {"shadow", "shadow_param", "label_like_var", "static_local", "typedef", "enum", "global_init", "global_string", "string", "shadow_tag", "local_struct_type", "shadow_enum", "dead_name", "local_enum", "shadow_typedef", "local_typedef"}, 2); }, {INTERP, SUBSET}, nullptr});
static Reg r10({"C10", "Random programs in which inert padding (1-300 bytes, concentrated around the short-branch limit) is inserted between statements of nested branches and loops and frames and data are enlarged past the short displacement limits, against a C interpreter (which ignores padding). Non-trivial: padding or huge frame together with at least 2 branching constructs.",
    55000, 800000, [](Src& s, Ctx& c) { profileCase(s, c, distanceProfile(), {"padding", "huge_frame", "edge_frame"}, 1); }, {INTERP, SUBSET}, nullptr});

// ------------------------------------------------------------ C09 spelling
static Str litChar(Src& s, int& v) { // a character literal and its C value
    v = s.below(256);
    Str body;
    switch (s.below(5)) {
    case 0: body = fmt("\\x%x", v); break;
    case 1: body = fmt("\\x%02X", v); break;
    case 2: body = fmt("\\%o", v); break;
    case 3: body = fmt("\\%03o", v); break;
    default:
        if (s.chance(50)) { static const char e[] = "nrt\\'\""; static const int ev[] = {10, 13, 9, '\\', '\'', '"'}; int i = s.below(6); v = ev[i]; body = Str("\\") + e[i]; }
        else { if (v == 0 || v == '\'' || v == '\\' || v == '\n') v = 'a'; body = Str(1, (char)v); }
    }
    v = (uint16_t)(int8_t)v;
    return "'" + body + "'";
}
static Str litNum(Src& s, int& v) {
    v = s.chance(50) ? s.i16() & 0xffff : s.below(65536);
    switch (s.below(5)) {
    case 0: v &= 0x7fff; return fmt("%d", v);
    case 1: return fmt("0x%x", v);
    case 2: return fmt("0X%0*X", 1 + (int)s.below(8), v);
    case 3: return fmt("0%o", v);
    default: v &= 0x7fff; return fmt("%s%d", "", v);
    }
}
static void literalCase(Src& s, Ctx& c) {
    std::vector<uint16_t> want;
    Str globals, body;
    int n = 1 + s.below(12);
    for (int i = 0; i < n; ++i) {
        int v = 0; Str l;
        switch (s.below(4)) {
        case 0: l = litChar(s, v); break;
        case 1: case 2: l = litNum(s, v); break;
        default: {
            // a string literal: contents through an array or directly
            int len = s.below(12);
            Str lit = "\""; std::vector<int> bytes;
            auto pieceBreak = [&]() { lit += "\"" + Str(s.coin() ? " " : s.coin() ? "\n" : "/* \" */") + "\""; };
            bool lastHex = false, lastOct = false;
            for (int k = 0; k < len; ++k) {
                int x; Str ch;
                switch (s.below(5)) {
                case 0: x = s.below(256); ch = fmt("\\x%02x", x); break;
                case 1: x = s.below(256); ch = fmt("\\%03o", x); break;
                case 2: x = s.below(256); ch = fmt("\\%o", x); break;
                case 3: { static const char e[] = "nrt\\'\""; static const int ev[] = {10, 13, 9, '\\', '\'', '"'}; int q = s.below(6); x = ev[q]; ch = Str("\\") + e[q]; break; }
                default: x = 32 + s.below(224); if (x == '"' || x == '\\' || x == 127) x = '.'; ch = Str(1, (char)x);
                }
                if ((lastHex && isxdigit((unsigned char)ch[0])) || (lastOct && ch[0] >= '0' && ch[0] <= '7')) pieceBreak();
                else if (s.chance(12)) pieceBreak();
                lit += ch; bytes.push_back(x);
                lastHex = ch[0] == '\\' && ch.size() > 1 && ch[1] == 'x'; lastOct = ch[0] == '\\' && ch.size() > 1 && isdigit((unsigned char)ch[1]) && ch.size() < 4;
            }
            lit += "\""; bytes.push_back(0);
            bool uns = s.coin();
            if (s.coin()) {
                globals += fmt("%schar s%d[] = %s;\n", uns ? "unsigned " : "", i, lit.c_str());
                body += fmt("    Out(sizeof(s%d));\n", i); want.push_back(bytes.size());
                for (size_t k = 0; k < bytes.size(); ++k) { body += fmt("    Out(s%d[%d]);\n", i, (int)k); want.push_back(uns ? bytes[k] : (uint16_t)(int8_t)bytes[k]); }
            } else {
                body += fmt("    %schar* p%d = %s;\n", uns ? "unsigned " : "", i, lit.c_str());
                for (size_t k = 0; k < bytes.size(); ++k) { body += fmt("    Out(p%d[%d]);\n", i, (int)k); want.push_back(uns ? bytes[k] : (uint16_t)(int8_t)bytes[k]); }
            }
            continue; }
        }
        switch (s.below(4)) {
        case 0: body += "    Out(" + l + ");\n"; break;
        case 1: globals += fmt("int n%d = ", i) + l + ";\n"; body += fmt("    Out(n%d);\n", i); break;
        case 2: body += fmt("    unsigned n%d = ", i) + l + fmt(";\n    Out(n%d);\n", i); break;
        default: body += fmt("    int n%d;\n    n%d = ", i, i) + l + fmt(";\n    Out(n%d);\n", i); break;
        }
        want.push_back((uint16_t)v);
    }
    Str src = prelude() + globals + "int main(void)\n{\n" + body + "    return 0;\n}\n";
    if (s.coin()) { RespellOpts ro; ro.numbers = ro.strings = false; src = respell(s, src, ro); }
    c.note("program.c", src);
    Trace t; t.out = want; t.exitCode = 0;
    Compiled k = compileC(c, src);
    rejectCheck(c, k);
    Ran r = runImage(k.image, 400000);
    expectTrace(c, r, t);
    c.label("literal programs");
    c.nontrivial(hashStr(src));
}
static Reg r9({"C09", "Random programs are rewritten with random white space, comments, '#' lines, CR/LF, literal bases, escapes, split string literals and renamed identifiers (1-250 characters, leading comment of 0-1100 bytes to shift tokens across read boundaries); the rewritten program must behave like the interpreter says. One in three cases instead checks the value of every literal form. Non-trivial: the respelled text differs and at least 2 outputs are compared.",
    45000, 700000, [](Src& s, Ctx& c) {
        if (s.chance(33)) { literalCase(s, c); return; }
        Opts o; o.depth = 3; o.nfuncs = 2; o.nstmts = 6; o.structPct = 30;
        auto p = generate(s, o);
        Str src = print(*p);
        c.note("original.c", src);
        Trace t = interpret(*p);
        RespellOpts ro;
        if (s.chance(15)) ro.maxIdent = 250;
        Str alt = respell(s, src, ro);
        c.note("program.c", alt);
        Compiled k = compileC(c, alt);
        rejectCheck(c, k);
        Ran r = runImage(k.image, t.steps * 200 + 200000);
        expectTrace(c, r, t);
        c.label("outputs compared", t.out.size());
        if (alt != src && t.out.size() >= 2) c.nontrivial(hashStr(alt));
        c.sample(alt.substr(0, 600));
    }, {INTERP, SUBSET, "whitespace characters are space, tab, CR, LF, VT, FF"}, nullptr});

// ------------------------------------------------------------ C11 self-hosting
static Opts mixedProfile(Src& s) {
    switch (s.below(8)) {
    case 0: return exprProfile(); case 1: return convProfile(); case 2: return assignProfile(); case 3: return flowProfile();
    case 4: return switchProfile(); case 5: return callProfile(); case 6: return layoutProfile(); default: return scopeProfile();
    }
}
static Opts wideProfile() { // many small functions and objects
    Opts o; o.depth = 2; o.nfuncs = 45; o.nstmts = 2; o.nglobals = 30; o.pStr = 10; o.wCall = 10; o.pCall = 15;
    return o;
}
// damage a program at token level
static Str mutate(Src& s, const Str& text, int n) {
    auto t = ctokens(text);
    static const char* extra[] = {";", "(", ")", "{", "}", "[", "]", ",", "=", "+", "-", "*", "&", "?", ":", "int", "char", "struct", "if", "else", "while", "for", "return", "break", "continue", "case", "default", "switch", "goto", "sizeof", "static", "typedef", "enum", "union", "unsigned", "void", "...", "->", ".", "++", "<<=", "0", "1", "32767", "'a'", "\"s\"", "x", "main", "const", "extern", "_emit", "va_arg", "va_list", "@", "$", "\\", "`", "'", "\"", "09", "0xg"};
    for (int i = 0; i < n && !t.empty(); ++i) {
        size_t a = s.below(t.size()), b = s.below(t.size());
        switch (s.below(6)) {
        case 0: t.erase(t.begin() + a); break;
        case 1: t.insert(t.begin() + a, t[b]); break;
        case 2: std::swap(t[a], t[b]); break;
        case 3: t[a].t = extra[s.below(sizeof extra / sizeof *extra)]; break;
        case 4: t.insert(t.begin() + a, CTok{CTok::PUNCT, extra[s.below(sizeof extra / sizeof *extra)]}); break;
        default: t[a] = t[b];
        }
    }
    if (s.chance(15)) t.resize(s.below(t.size() + 1));
    Str o;
    for (auto& k : t) { o += k.t; o += s.chance(15) ? '\n' : ' '; }
    return o;
}
static Str lastError(const Str& console) { // the "In line N: message" part
    size_t p = console.rfind("In line ");
    if (p == Str::npos) return "";
    Str r = console.substr(p);
    while (!r.empty() && (r.back() == '\n' || r.back() == '\r')) r.pop_back();
    return r;
}
static void selfCompare(Src& s, Ctx& c, const Str& src, const Str& kind) {
    c.note("program.c", src);
    Compiled h = compileC(c, src);
    if (h.timeout || h.sig) { c.label("host crash (C13)"); throw Discard{"host compiler does not finish (decided by C13)"}; }
    std::map<Str, Bytes> fs; fs["T.C"] = toBytes(src);
    DosRun d = runDos(selfHosted("scc"), fs, " T.C", 400000000, s.recorded().size(), !h.ok);
    if (d.stop == Ref86::BUDGET) c.fail("the self-hosted compiler does not terminate");
    if (d.stop != Ref86::EXITED) c.fail(fmt("the self-hosted compiler stops: %s (%s)\n%s\nhost: %s", stopName(d.stop), d.why.c_str(), d.state.c_str(), h.ok ? "accepted" : h.msg.c_str()));
    bool dok = d.exitCode == 0;
    if (dok != h.ok) c.fail(fmt("host compiler %s, self-hosted compiler %s\nhost: %s\nself-hosted: %s", h.ok ? "accepts" : "rejects", dok ? "accepts" : "rejects", h.msg.c_str(), lastError(d.console).c_str()));
    bool comD = d.files.count("T.COM") > 0 || d.files.count("T.com") > 0;
    if (!h.ok) {
        if (comD) c.fail("the self-hosted compiler leaves an executable for a rejected program");
        Str a = lastError(h.msg), b = lastError(d.console);
        if (a != b) c.fail("different error reports\nhost: " + a + "\nself-hosted: " + b);
        if (d.console.find("Return address") != Str::npos) { Str e = backtraceError(d, 9); if (!e.empty()) c.fail(e); c.label("stack trace"); }
        c.label("rejected by both");
    } else {
        auto get = [&](const char* u, const char* l) { auto i = d.files.find(u); if (i == d.files.end()) i = d.files.find(l); return i == d.files.end() ? Bytes() : i->second; };
        Bytes com = get("T.COM", "T.com"), map = get("T.MAP", "T.map");
        if (com != h.image) {
            size_t i = 0; while (i < com.size() && i < h.image.size() && com[i] == h.image[i]) ++i;
            c.fail(fmt("executables differ at offset %zu (sizes %zu host, %zu self-hosted)", i, h.image.size(), com.size()));
        }
        if (toStr(map) != h.map) c.fail("map files differ\n--host--\n" + h.map + "--self-hosted--\n" + toStr(map));
        c.label("accepted by both");
    }
    c.label(kind);
    c.nontrivial(hashStr(src));
}
static Reg r11({"C11", "Random programs of all profiles, half of them damaged by token-level mutations, some respelled or padded towards larger outputs, are given to the host compiler and to the compiler compiled by itself running on the reference 8086 model; acceptance, error line and text, executable and map must be identical. Non-trivial: every compared program.",
    14000, 200000, [](Src& s, Ctx& c) {
        Opts o = mixedProfile(s);
        if (s.chance(6)) { o.nfuncs = 1; o.nstmts = 3; o.nglobals = 3; auto q = generate(s, o); compareCommand(s, c, "scc", print(*q), 400000000); return; }
        int kind = s.below(5);
        auto p = generate(s, o);
        Str src = print(*p);
        Str name = "valid program";
        if (kind >= 3) { src = mutate(s, src, 1 + s.below(3)); name = "mutated program"; }
        else if (kind == 2) { RespellOpts ro; ro.idents = s.coin(); src = respell(s, src, ro); name = "respelled program"; }
        if (src.size() > 30000) throw Discard{"too large"};
        selfCompare(s, c, src, name);
        c.sample(src.substr(0, 500));
    }, {"the self-hosted compiler is the image the host compiler produces from scc.c in the working tree", "constants stay within 16-bit int range (the host folds constants in 32 bits)"}, nullptr});

// ------------------------------------------------------------ C12 map and layout
static void layoutCase(Src& s, Ctx& c) {
    Opts o; o.depth = 2; o.nfuncs = 4; o.nstmts = 5; o.nglobals = 12; o.structPct = 60; o.wCall = 20; o.pCall = 20; o.dumpGlobals = false; o.pChar = 40; o.wAssign = 40;
    auto p = generate(s, o);
    Str src = print(*p);
    // addresses the program itself uses
    size_t at = src.rfind("\n{", src.find("main(void)\n{") + 12);
    at = src.find("main(void)\n{") + 12;
    Str probe; std::vector<Str> probed;
    for (auto v : p->globals) if (v->t->k != Type::FPTR && s.coin()) { probe += v->t->k == Type::ARR ? "    Out(" + v->name + ");\n" : "    Out(&" + v->name + ");\n"; probed.push_back(v->name); }
    src.insert(at, "\n" + probe);
    c.note("program.c", src);
    Trace t = interpret(*p);
    // file names
    Str in = "T.C", out, com = "T.com", map = "T.map";
    mkdir((c.dir + "/D.X").c_str(), 0755);
    mkdir((c.dir + "/E").c_str(), 0755);
    switch (s.below(9)) {
    case 0: break;
    case 1: in = "NOEXT"; com = "NOEXT.com"; map = "NOEXT.map"; break;
    case 2: in = "A.B.C"; com = "A.B.com"; map = "A.B.map"; break;
    case 3: out = "OUT.EXE"; com = "OUT.EXE"; map = "OUT.map"; break;
    case 4: out = "OUT"; com = "OUT"; map = "OUT.map"; break;
    case 5: out = "O.X.BIN"; com = "O.X.BIN"; map = "O.X.map"; break;
    case 6: in = "E/T.C"; com = "E/T.com"; map = "E/T.map"; break;
    case 7: in = "D.X/T"; com = "D.X/T.com"; map = "D.X/T.map"; break;
    default: in = "./T.C"; out = "./E/R"; com = "./E/R"; map = "./E/R.map"; break;
    }
    for (auto& f : {in, com, map}) removeFile(c.dir + "/" + f);
    for (auto f : {"D.map", "D.com", ".map", ".com", "E/T.com", "T.com", "T.map"}) removeFile(c.dir + "/" + f);
    writeFile(c.dir + "/" + in, src);
    RunOpts ro; ro.cwd = c.dir; ro.cpuSec = 5;
    std::vector<Str> argv = {tool("scc"), in};
    if (!out.empty()) argv.push_back(out);
    RunResult rr = runTool(argv, ro);
    c.note("command.txt", "scc " + in + " " + out + "\n" + rr.out);
    if (rr.sig || rr.timeout) c.fail("the compiler crashes");
    if (rr.exitCode) throw Discard{"rejected by the compiler"};
    if (!fileExists(c.dir + "/" + com)) c.fail("no executable named " + com);
    if (!fileExists(c.dir + "/" + map)) c.fail("no map file named " + map);
    Bytes image = toBytes(readFile(c.dir + "/" + com));
    Str mt = readFile(c.dir + "/" + map);
    c.note("map.txt", mt);
    if (toStr(image).empty()) c.fail("empty executable");
    if (readFile(c.dir + "/" + in) != src) c.fail("the input file was changed");
    MapFile m = parseMap(mt);
    if (!m.ok) c.fail("malformed map line");
    int sb = m.find("_SBSS"), eb = m.find("_EBSS");
    if (sb < 0 || eb < 0) c.fail("map lacks _SBSS or _EBSS");
    if (sb != 0x100 + (int)image.size()) c.fail(fmt("_SBSS is %04X but the file ends at %04X", sb, 0x100 + (int)image.size()));
    if (eb < sb) c.fail("_EBSS below _SBSS");
    struct R { int a, n; Str nm; };
    std::vector<R> rs;
    for (auto v : p->globals) {
        int a = m.find(v->name);
        if (a < 0) c.fail("object " + v->name + " is missing from the map");
        int n = sizeOf(v->t);
        bool ini = v->hasInit || v->strInit;
        if (ini && (a < 0x100 || a + n > sb)) c.fail(fmt("initialised object %s at %04X is outside the file", v->name.c_str(), a));
        if (!ini && (a < sb || a + n > eb)) c.fail(fmt("zero-initialised object %s at %04X (%d bytes) is outside _SBSS-_EBSS", v->name.c_str(), a, n));
        if (ini) {
            Bytes w(n);
            if (v->strInit) memcpy(&w[0], v->str.c_str(), n); else { w[0] = v->init; if (n > 1) w[1] = v->init >> 8; }
            if (memcmp(&w[0], &image[a - 0x100], n)) c.fail("the file does not hold the initial value of " + v->name);
        }
        rs.push_back({a, n, v->name});
    }
    for (auto f : p->fns) { int a = m.find(f->name); if (a < 0x100 || a >= sb) c.fail("function " + f->name + " is not at an address in the code"); rs.push_back({a, 1, f->name}); }
    for (auto f : {"Out", "ClearBss", "Exit", "_start"}) { int a = m.find(f); if (a < 0x100 || a >= sb) c.fail(Str("function ") + f + " is not at an address in the code"); rs.push_back({a, 1, f}); }
    for (size_t i = 0; i < rs.size(); ++i) for (size_t j = 0; j < i; ++j)
        if (rs[i].a < rs[j].a + rs[j].n && rs[j].a < rs[i].a + rs[i].n) c.fail(fmt("%s (%04X, %d bytes) and %s (%04X, %d bytes) overlap", rs[i].nm.c_str(), rs[i].a, rs[i].n, rs[j].nm.c_str(), rs[j].a, rs[j].n));
    for (auto& y : m.sym) for (auto& r : rs) if (y.second != r.nm && y.second != "_EBSS" && r.n > 1 && y.first > r.a && y.first < r.a + r.n) c.fail(y.second + " lies inside " + r.nm);
    // run: functions are entered at their addresses as often as the program calls them
    static Ref86* mc = nullptr;
    if (!mc) mc = new Ref86();
    mc->files.clear();
    mc->load(image, "", 7);
    mc->budget = t.steps * 200 + 200000;
    std::map<int, int> entered; std::map<int, Str> fa;
    for (auto f : p->fns) fa[m.find(f->name)] = f->name;
    bool first = true;
    while (mc->stop == Ref86::RUNNING) {
        if (fa.count(mc->ip)) { auto op = mc->rd8(Ref86::CS, mc->ip); (void)op; ++entered[mc->ip]; }
        mc->step();
        (void)first;
    }
    std::vector<uint16_t> want = t.out; 
    std::vector<uint16_t> addr;
    for (auto& n : probed) addr.push_back(m.find(n));
    want.insert(want.begin(), addr.begin(), addr.end());
    Ran r; r.stop = mc->stop; r.why = mc->why; r.exitCode = mc->exitCode; r.out = mc->trace; r.state = mc->stateStr();
    for (size_t i = 0; i < addr.size(); ++i) if (i >= r.out.size() || r.out[i] != addr[i]) c.fail(fmt("the program uses address %04X for %s, the map says %04X", i < r.out.size() ? r.out[i] : 0, probed[i].c_str(), addr[i]));
    Trace tt = t; tt.out = want;
    expectTrace(c, r, tt);
    for (auto& f : fa) {
        int w = t.calls.count(f.second) ? t.calls[f.second] : 0;
        int g = entered.count(f.first) ? entered[f.first] : 0;
        if (w != g) c.fail(fmt("function %s is called %d times but its listed address %04X is reached %d times", f.second.c_str(), w, f.first, g));
    }
    for (auto& g : t.globals) {
        int a = m.find(g.first);
        for (size_t i = 0; i < g.second.size(); ++i) {
            uint8_t b = mc->rd8(Ref86::DS, a + i);
            if (b != g.second[i]) c.fail(fmt("byte %zu of %s at %04X holds %d at exit, C gives %d", i, g.first.c_str(), a, b, g.second[i]));
        }
    }
    c.label("objects checked", p->globals.size());
    c.label("functions checked", p->fns.size());
    if (p->globals.size() >= 2 && !t.out.empty()) c.nontrivial(hashStr(src));
    c.sample(mt);
}
static Reg r12({"C12", "Random programs with many objects and functions, compiled under varied input/output file names; the map is checked for well-formedness, non-overlap, region limits and initial contents, and the program is run to confirm that listed addresses are the ones used (printed addresses, function entry counts, final memory contents). Non-trivial: at least 2 objects and an output.",
    40000, 600000, layoutCase, {INTERP, SUBSET}, nullptr});

// ------------------------------------------------------------ C13 invalid input and limits
static void expectClean(Ctx& c, const Compiled& k, bool mustReject = false) {
    if (k.timeout) c.fail("the compiler does not terminate");
    if (k.sig) c.fail(fmt("the compiler crashes with signal %d: %s", k.sig, k.msg.substr(0, 600).c_str()));
    if (k.exitCode == 0) {
        if (mustReject) c.fail("an invalid program is accepted");
        if (!k.comExists) c.fail("success without an executable");
        return;
    }
    if (k.exitCode != 1) c.fail(fmt("unexpected exit code %d: %s", k.exitCode, k.msg.substr(0, 1500).c_str()));
    if (k.comExists) c.fail("an executable exists although the compiler failed");
    if (lastError(k.msg).empty()) c.fail("failure without a line number: " + k.msg);
}
static int errLine(const Str& m) { Str e = lastError(m); return e.empty() ? -1 : atoi(e.c_str() + 8); }

static Compiled compileAsan(Ctx& c, const Str& src) {
    Compiled r;
    Str com = c.dir + "/T.com", map = c.dir + "/T.map";
    removeFile(com); removeFile(map);
    writeFile(c.dir + "/T.C", src);
    RunOpts o; o.cwd = c.dir; o.cpuSec = 10; o.noAsLimit = true;
    RunResult rr = runTool({toolAsan("scc"), "T.C"}, o);
    r.exitCode = rr.exitCode; r.sig = rr.sig; r.timeout = rr.timeout; r.msg = rr.out;
    r.comExists = fileExists(com);
    if (rr.exitCode == 0 && !rr.sig && r.comExists) { r.image = toBytes(readFile(com)); r.map = readFile(map); r.ok = true; }
    return r;
}
// programs scaled through the compiler's tables
struct Scaled { Str src; std::vector<uint16_t> want; int n; Str what; bool mustAccept = false, mustReject = false; };
static Scaled scaled(Src& s, bool within = false) { // within: at or below the limit
    Scaled r; Str g, b; // globals, body of main
    int k = within && s.chance(70) ? (const int[]){6, 7, 8, 10, 11, 14}[s.below(6)] : (int)s.below(21); // those six have an exact limit
    auto near = [&](int lim) { // around and away from a limit
        if (within) return s.coin() ? lim : 1 + (int)s.below(lim);
        switch (s.below(4)) { case 0: return std::max(1, lim + s.range(-3, 3)); case 1: return std::max(1, lim + s.range(-20, 40)); case 2: return 1 + (int)s.below(lim); default: return lim + (int)s.below(lim); }
    };
    auto limits = [&](int lo, int hi) { r.mustAccept = r.n <= lo; r.mustReject = r.n > hi; };
    switch (k) {
    case 0: { r.what = "globals"; r.n = near(360); for (int i = 0; i < r.n; ++i) g += fmt("int g%d;\n", i); b += fmt("g0 = 5; g%d += 7; Out(g0); Out(g%d);\n", r.n - 1, r.n - 1); r.want = {uint16_t(r.n == 1 ? 12 : 5), uint16_t(r.n == 1 ? 12 : 7)}; limits(300, 380); break; }
    case 1: { r.what = "locals"; r.n = near(360); for (int i = 0; i < r.n; ++i) b += fmt("int l%d = %d;\n", i, i); b += fmt("Out(l0); Out(l%d); Out(l%d);\n", r.n / 2, r.n - 1); r.want = {0, (uint16_t)(r.n / 2), (uint16_t)(r.n - 1)}; limits(300, 380); break; }
    case 2: { r.what = "functions"; r.n = near(360); for (int i = 0; i < r.n; ++i) g += fmt("int f%d(int x) { return x + %d; }\n", i, i); b += fmt("Out(f0(1)); Out(f%d(1));\n", r.n - 1); r.want = {1, (uint16_t)r.n}; limits(280, 380); break; }
    case 3: { r.what = "identifiers"; r.n = near(520); b += "int x = 1;\n"; g += "struct S { int a; };\nenum {"; for (int i = 0; i < r.n; ++i) g += fmt("%s E%d", i ? "," : "", i % 300 == i ? i : i); g += " };\n"; b += fmt("Out(x + E%d);\n", r.n - 1); r.want = {(uint16_t)r.n}; limits(300, 580); break; }
    case 4: { r.what = "identifier length"; r.n = near(4700); Str id(r.n, 'q'); b += "int " + id + " = 3; Out(" + id + " + 1);\n"; r.want = {4}; limits(2000, 5000); break; }
    case 5: { r.what = "identifier text"; r.n = near(150); for (int i = 0; i < r.n; ++i) g += fmt("int a_rather_long_identifier_%04d;\n", i); b += fmt("a_rather_long_identifier_%04d = 9; Out(a_rather_long_identifier_%04d);\n", r.n - 1, r.n - 1); r.want = {9}; limits(100, 5000 / 30 + 1); break; }
    case 6: { r.what = "structs"; r.n = near(8); for (int i = 0; i < r.n; ++i) g += fmt("struct S%d { int m; };\nstruct S%d v%d;\n", i, i, i); b += fmt("v0.m = 3; v%d.m += 4; Out(v%d.m);\n", r.n - 1, r.n - 1); r.want = {uint16_t(r.n == 1 ? 7 : 4)}; limits(8, 8); break; }
    case 7: { r.what = "struct members"; r.n = near(32); g += "struct S {"; for (int i = 0; i < r.n; ++i) g += fmt(" int m%d;", i); g += " };\nstruct S v;\n"; b += fmt("v.m0 = 1; v.m%d = 5; Out(v.m%d); Out(sizeof(v));\n", r.n - 1, r.n - 1); r.want = {5, (uint16_t)(2 * r.n)}; limits(32, 32); break; }
    case 8: { r.what = "arrays"; r.n = near(32); for (int i = 0; i < r.n; ++i) g += fmt("int a%d[%d];\n", i, i + 1); b += fmt("a%d[%d] = 6; Out(a%d[%d]); Out(sizeof(a%d));\n", r.n - 1, r.n - 1, r.n - 1, r.n - 1, r.n - 1); r.want = {6, (uint16_t)(2 * r.n)}; limits(32, 32); break; }
    case 9: { r.what = "array dimensions"; r.n = near(14); Str d, ix; for (int i = 0; i < r.n; ++i) { d += i % 3 ? "[1]" : "[2]"; ix += i % 3 ? "[0]" : "[1]"; } if (r.n > 20) { d = ix = ""; for (int i = 0; i < r.n; ++i) d += "[1]", ix += "[0]"; } g += "char a" + d + ";\n"; b += "a" + ix + " = 7; Out(a" + ix + ");\n"; r.want = {7}; limits(14, 32); break; }
    case 10: { r.what = "parameters"; r.n = near(8); g += "int f("; Str a, sum = "0"; for (int i = 0; i < r.n; ++i) { g += fmt("%sint p%d", i ? ", " : "", i); a += fmt("%s%d", i ? ", " : "", i + 1); } g += ") { return p0 * 100"; g += fmt(" + p%d; }\n", r.n - 1); b += "Out(f(" + a + "));\n"; r.want = {(uint16_t)(100 + r.n)}; limits(8, 8); break; }
    case 11: { r.what = "nested blocks"; r.n = near(13); b += "int x = 0;\n"; for (int i = 0; i < r.n; ++i) b += fmt("{ int y%d = %d; x += y%d;\n", i, i, i); for (int i = 0; i < r.n; ++i) b += "}"; b += "Out(x);\n"; r.want = {(uint16_t)(r.n * (r.n - 1) / 2)}; limits(13, 16); break; }
    case 12: { r.what = "labels (if)"; r.n = near(150); b += "int x = 0;\n"; for (int i = 0; i < r.n; ++i) b += fmt("if (x == %d) ++x;\n", i); b += "Out(x);\n"; r.want = {(uint16_t)r.n}; limits(100, 700); break; }
    case 13: { r.what = "labels (&&)"; r.n = near(150); b += "int x = 0;\n"; for (int i = 0; i < r.n; ++i) b += "x += x >= 0 && x < 1000;\n"; b += "Out(x);\n"; r.want = {(uint16_t)r.n}; limits(100, 1000); break; }
    case 14: { r.what = "named labels"; r.n = near(8); b += "int x = 0;\n"; for (int i = 0; i < r.n; ++i) b += fmt("goto L%d; x = 100; L%d: x += 1;\n", i, i); b += "Out(x);\n"; r.want = {(uint16_t)r.n}; limits(8, 8); break; }
    case 15: { r.what = "case labels"; r.n = near(150); g += "int sw(int v) { switch (v) {\n"; for (int i = 0; i < r.n; ++i) g += fmt("case %d: return %d;\n", i * 3, i); g += "}\nreturn -1; }\n"; b += fmt("Out(sw(0)); Out(sw(%d)); Out(sw(1)); Out(sw(%d));\n", 3 * (r.n - 1), 3 * r.n); r.want = {0, (uint16_t)(r.n - 1), 0xffff, 0xffff}; limits(100, 1000); break; }
    case 16: { r.what = "expression depth"; r.n = near(40); Str e = "x"; for (int i = 0; i < r.n; ++i) e = "(" + e + " + (x * 2))"; b += "int x = 1;\nOut(" + e + ");\n"; r.want = {(uint16_t)(1 + 2 * r.n)}; limits(10, 100000); break; }
    case 17: { r.what = "code size"; r.n = near(23800); for (int i = 0; i * 200 < r.n; ++i) { g += fmt("void p%d(void) {", i); int left = std::min(200, r.n - i * 200); for (int j = 0; j < left; ++j) g += " _emit 144"; g += " ; }\n"; } b += "Out(77);\n"; r.want = {77}; limits(20000, 24576); break; }
    case 18: { r.what = "string size"; r.n = near(23800); g += "char s[] = \""; for (int i = 0; i < r.n; ++i) g += (char)('a' + i % 26); g += "\";\n"; b += fmt("Out(s[0]); Out(s[%d]); Out(s[%d]);\n", r.n - 1, r.n); r.want = {'a', (uint16_t)('a' + (r.n - 1) % 26), 0}; limits(20000, 24576); break; }
    case 19: { r.what = "statics in a function"; r.n = near(4); g += "int f(void) {\n"; for (int i = 0; i < r.n; ++i) g += fmt("static int s%d; s%d += %d;\n", i, i, i + 1); g += fmt("return s%d; }\n", r.n - 1); b += "Out(f()); Out(f());\n"; r.want = {(uint16_t)r.n, (uint16_t)(2 * r.n)}; limits(3, 380); break; }
    default: { r.what = "data size"; r.n = near(30000); g += fmt("char big[%d];\nint after;\n", r.n); b += fmt("big[%d] = 3; after = 4; Out(big[%d]); Out(after); Out(big[0]);\n", r.n - 1, r.n - 1); r.want = {3, 4, (uint16_t)(r.n == 1 ? 3 : 0)}; limits(30000, 100000); break; }
    }
    r.src = prelude() + g + "int main(void)\n{\n" + b + "return 0;\n}\n";
    return r;
}
static void c13(Src& s, Ctx& c) {
    int kind = s.weighted({20, 25, 30, 25});
    bool asan = s.chance(30);
    auto comp = [&](const Str& t) { c.note("program.c", t); return asan ? compileAsan(c, t) : compileC(c, t); };
    switch (kind) {
    case 0: { // bytes and token soup
        Str t; int n = s.below(400);
        static const char* w[] = {"int ", "char ", "x", "y", "(", ")", "{", "}", "[", "]", ";", ",", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<", ">", "?", ":", "if", "while", "for", "do ", "return ", "switch", "case ", "default", "break;", "struct ", "union ", "enum ", "static ", "sizeof", "typedef ", "0", "1", "65535", "'a'", "\"abc\"", "\n", " ", "->", ".", "...", "++", "--", "<<", ">>=", "&&", "||", "void ", "goto ", "unsigned ", "const ", "extern ", "va_list ", "va_start", "va_arg", "_emit ", "_start", "//", "/*", "*/", "#", "'", "\"", "\\", "main", "f("};
        bool raw = s.chance(30);
        for (int i = 0; i < n; ++i) if (raw) t += (char)s.below(256); else t += w[s.below(sizeof w / sizeof *w)];
        Compiled k = comp(t);
        expectClean(c, k);
        c.label(raw ? "random bytes" : "token soup");
        if (n > 3) c.nontrivial(hashStr(t));
        return; }
    case 1: { // mutated programs
        Opts o = mixedProfile(s); o.nstmts = 5;
        auto p = generate(s, o);
        Str t = mutate(s, print(*p), 1 + s.below(4));
        if (s.chance(20)) { size_t n = 1 + s.below(6); for (size_t i = 0; i < n && !t.empty(); ++i) t[s.below(t.size())] = (char)s.below(256); }
        Compiled k = comp(t);
        expectClean(c, k);
        c.label(k.ok ? "mutant accepted" : "mutant rejected");
        c.nontrivial(hashStr(t));
        return; }
    case 2: { // an error at a known place
        Opts o = mixedProfile(s); o.nstmts = 5;
        auto p = generate(s, o);
        auto toks = ctokens(print(*p));
        // remember where every token goes
        size_t at = s.below(toks.size());
        static const char* bad[] = {"@", "$", "`", "\\", "''", "'ab'", ")", "}", "]", "case", ".."};
        int bi = s.weighted({20, 5, 5, 5, 5, 10, 20, 0, 20, 0, 5});
        Str b = bad[bi];
        auto joinAt = [&](const Str& x) { return x == ")" || x == "]"; };
        if (joinAt(b)) { // certain to be wrong: right after a token that needs an operand
            std::vector<size_t> ok;
            for (size_t i = 1; i < toks.size(); ++i) { const Str& q = toks[i - 1].t; if (toks[i - 1].k == CTok::PUNCT && (q == "+" || q == "*" || q == "-" || q == "=" || q == "&&" || q == "<" || q == "||" || q == "{" || q == ";") && toks[i].t != b && !(q == ";" && b == ")")) ok.push_back(i); }
            if (ok.empty()) throw Discard{"no place"};
            at = ok[s.below(ok.size())];
            // pointers in declarations: "char *)" is also wrong
        }
        toks.insert(toks.begin() + at, CTok{CTok::PUNCT, b});
        Str t; int line = 1, lb = 0, ln = 0;
        for (size_t i = 0; i < toks.size(); ++i) {
            int n = s.weighted({70, 20, 5, 5});
            Str sep = n ? "" : " ";
            for (int q = 0; q < n; ++q) { switch (s.below(5)) { case 0: sep += "\n"; ++line; break; case 1: sep += " \n"; ++line; break; case 2: sep += "\r\n"; ++line; break; case 3: sep += " // c\n"; ++line; break; default: sep += " /* \n */"; ++line; } }
            t += sep + toks[i].t;
            if (i == at) lb = line;
            if (i == at + 1) ln = line;
        }
        if (at + 1 >= toks.size()) ln = line;
        t += "\n";
        Compiled k = comp(t);
        expectClean(c, k, true);
        int l = errLine(k.msg);
        if (l < lb || l > ln) c.fail(fmt("the error is on line %d (next token on line %d) but line %d is reported: %s", lb, ln, l, k.msg.c_str()));
        c.label("error placed: " + b);
        c.nontrivial(hashStr(t));
        return; }
    default: {
        Scaled p = scaled(s);
        c.note("limit.txt", fmt("%s: %d", p.what.c_str(), p.n));
        Compiled k = comp(p.src);
        expectClean(c, k);
        if (!k.ok) {
            if (p.mustAccept) c.fail(fmt("a program with %s = %d, within the limits, is rejected: %s", p.what.c_str(), p.n, k.msg.c_str()));
            c.label("limit rejected: " + p.what);
        } else {
            if (p.mustReject) c.fail(fmt("a program with %s = %d, beyond the limit, is accepted", p.what.c_str(), p.n));
            Trace t; t.out = p.want;
            Ran r = runImage(k.image, 3000000);
            expectTrace(c, r, t, fmt("%s = %d", p.what.c_str(), p.n));
            c.label("limit accepted: " + p.what);
        }
        c.nontrivial(hashStr(p.src));
        return; }
    }
}
static Reg r13({"C13", "Random bytes and token soups, token-level mutants of valid programs, programs with one error injected at a known line, and programs scaled through each table limit (accepted ones are run and their output checked), through the normal and the AddressSanitizer build. Checked: termination, no crash, exit code, no executable after failure, reported line between the offending token and the next. Non-trivial: every input longer than 3 tokens.",
    30000, 500000, c13, {INTERP, "the compiler is a permissive subset compiler: acceptance of an invalid program alone is judged only for injected errors that no C program may contain"}, nullptr});

// ------------------------------------------------------------ C14 acceptance
static Reg r14({"C14", "Random programs of all profiles within the documented subset and table limits must be accepted, as must programs scaled up to a table limit. Non-trivial: every program.",
    60000, 900000, [](Src& s, Ctx& c) {
        if (s.chance(4)) { // programs that fill one of the compiler's tables
            Scaled q = scaled(s, true);
            c.note("program.c", q.src);
            Compiled k = compileC(c, q.src);
            if (!k.ok && q.mustAccept) c.fail(fmt("a program with %s = %d, within the limits, is not accepted (exit %d, signal %d): %s", q.what.c_str(), q.n, k.exitCode, k.sig, k.msg.c_str()));
            if (q.mustAccept) { c.nontrivial(hashStr(q.src)); c.label("fills: " + q.what); }
            return;
        }
        Opts o = s.chance(15) ? wideProfile() : mixedProfile(s);
        if (s.chance(20)) o.pStr = 12;
        auto p = generate(s, o);
        Str src = print(*p);
        c.note("program.c", src);
        Trace t = interpret(*p);
        Compiled k = compileC(c, src);
        if (!k.ok) c.fail(fmt("a valid program within the limits is not accepted (exit %d, signal %d): %s", k.exitCode, k.sig, k.msg.c_str()));
        c.nontrivial(hashStr(src));
        c.label("statements interpreted", t.steps);
        c.sample(src.substr(prelude().size()));
    }, {SUBSET}, nullptr});

int main(int argc, char** argv) {
    g_needTools = {"scc"};
    for (int i = 1; i < argc; ++i) if (Str(argv[i]) == "C13" || Str(argv[i]).find("C13-") != Str::npos) g_needAsan = {"scc"};
    return pbtMain(argc, argv);
}
