#include "asmtool.h"
#include <algorithm>
namespace as {
static const char* R8N[] = {"al", "cl", "dl", "bl", "ah", "ch", "dh", "bh"};
static const char* R16N[] = {"ax", "cx", "dx", "bx", "sp", "bp", "si", "di"};
static const char* SRN[] = {"es", "cs", "ss", "ds"};
static const char* ALU[] = {"add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"};
static const char* CC[] = {"jo", "jno", "jc", "jnc", "jz", "jnz", "jna", "ja", "js", "jns", "jpe", "jpo", "jl", "jnl", "jng", "jg"};
struct Syn { const char* n; int cc; };
static const Syn SYN[] = {{"jb", 2}, {"jnae", 2}, {"jnb", 3}, {"jae", 3}, {"je", 4}, {"jne", 5}, {"jbe", 6}, {"jnbe", 7}, {"jnge", 12}, {"jge", 13}, {"jle", 14}, {"jnle", 15}};
static int ccOf(const Str& n) { for (int i = 0; i < 16; ++i) if (n == CC[i]) return i; for (auto& y : SYN) if (n == y.n) return y.cc; return -1; }
static const char* NOARG[] = {"cbw", "clc", "cli", "cmpsb", "cwd", "lodsb", "movsb", "ret", "stc", "sti", "stosb", "stosw"};
static const char* RESERVED[] = {"al", "cl", "dl", "bl", "ah", "ch", "dh", "bh", "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "es", "cs", "ss", "ds", "byte", "short", "word", "cpu", "db", "dw", "equ", "org", "resb", "resw",
    "adc", "add", "and", "call", "cbw", "clc", "cli", "cmp", "cmpsb", "cwd", "dec", "div", "idiv", "imul", "inc", "int", "jmp", "lea", "lodsb", "mov", "movsb", "mul", "neg", "not", "or", "pop", "push", "rep", "ret", "sar", "sbb", "shl", "shr", "stc", "sti", "stosb", "stosw", "sub", "test", "xchg", "xor",
    "jo", "jno", "jc", "jnc", "jz", "jnz", "jna", "ja", "js", "jns", "jpe", "jpo", "jl", "jnl", "jng", "jg", "jb", "jnae", "jnb", "jae", "je", "jne", "jbe", "jnbe", "jnge", "jge", "jle", "jnle"};
static Str lower(Str s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool reserved(const Str& s) { Str l = lower(s); for (auto r : RESERVED) if (l == r) return true; return false; }

// ------------------------------------------------------------------ decoder
Dec decode(const Bytes& b, size_t pos, int va) {
    Dec d; size_t p = pos; bool eof = false;
    auto f8 = [&]() -> int { if (p >= b.size()) { eof = true; ++p; return 0; } return b[p++]; };
    auto f16 = [&]() -> int { int l = f8(); return l | f8() << 8; };
    int seg = -1; bool rep = false, segUsed = false;
    int op;
    for (;;) {
        op = f8();
        if (eof) return d;
        if ((op & 0xE7) == 0x26) { if (seg >= 0) return d; seg = op >> 3 & 3; continue; }
        if (op == 0xF3) { rep = true; continue; }
        break;
    }
    auto reg = [](int n, bool w) { Op o; o.k = w ? Op::R16 : Op::R8; o.v = n; o.size = w ? 2 : 1; return o; };
    auto sreg = [](int n) { Op o; o.k = Op::SR; o.v = n & 3; o.size = 2; return o; };
    auto imm = [](int v, int size) { Op o; o.k = Op::IMM; o.v = v; o.size = size; return o; };
    int mreg = 0;
    auto rm = [&](int size) {
        int m = f8(); mreg = m >> 3 & 7;
        if (m >> 6 == 3) return reg(m & 7, size == 2);
        static const int bs[] = {1 | 4, 1 | 8, 2 | 4, 2 | 8, 4, 8, 2, 1};
        Op o; o.k = Op::MEM; o.size = size; o.base = bs[m & 7]; o.seg = seg; segUsed = true;
        if (m >> 6 == 0 && (m & 7) == 6) { o.base = 0; o.v = f16(); }
        else if (m >> 6 == 1) o.v = (uint16_t)(int8_t)f8();
        else if (m >> 6 == 2) o.v = f16();
        return o;
    };
    auto done = [&](const Str& n, Op a = Op(), Op c = Op()) {
        if (eof) return;
        if (seg >= 0 && !segUsed) return;
        d.i.op = n; d.i.a = a; d.i.b = c; d.i.rep = rep; d.len = (int)(p - pos); d.ok = true;
    };
    bool w = op & 1;
    auto tgt = [&](int t) { Op o; o.k = Op::TGT; o.v = t & 0xffff; return o; };
    if (op < 0x40 && (op & 7) < 6) {
        Str n = ALU[op >> 3];
        switch (op & 7) {
        case 0: case 1: { Op m = rm(1 + w); done(n, m, reg(mreg, w)); break; }
        case 2: case 3: { Op m = rm(1 + w); done(n, reg(mreg, w), m); break; }
        default: { int v = w ? f16() : f8(); done(n, reg(0, w), imm(v, 1 + w)); }
        }
        return d;
    }
    if (op < 0x20 && (op & 7) >= 6) { done((op & 1) ? "pop" : "push", sreg(op >> 3)); return d; }
    if (op >= 0x40 && op < 0x48) { done("inc", reg(op & 7, true)); return d; }
    if (op >= 0x48 && op < 0x50) { done("dec", reg(op & 7, true)); return d; }
    if (op >= 0x50 && op < 0x58) { done("push", reg(op & 7, true)); return d; }
    if (op >= 0x58 && op < 0x60) { done("pop", reg(op & 7, true)); return d; }
    if (op >= 0x70 && op < 0x80) { int x = (int8_t)f8(); done(CC[op & 15], tgt(va + (int)(p - pos) + x)); return d; }
    if (op >= 0x90 && op < 0x98) { done("xchg", reg(0, true), reg(op & 7, true)); return d; }
    if (op >= 0xB0 && op < 0xC0) { bool ww = op & 8; int v = ww ? f16() : f8(); done("mov", reg(op & 7, ww), imm(v, 1 + ww)); return d; }
    switch (op) {
    case 0x80: case 0x81: case 0x83: { Op m = rm(1 + w); int v = op == 0x81 ? f16() : op == 0x83 ? (uint16_t)(int8_t)f8() : f8(); done(ALU[mreg], m, imm(v, 1 + w)); break; }
    case 0x84: case 0x85: { Op m = rm(1 + w); done("test", m, reg(mreg, w)); break; }
    case 0x86: case 0x87: { Op m = rm(1 + w); done("xchg", reg(mreg, w), m); break; }
    case 0x88: case 0x89: { Op m = rm(1 + w); done("mov", m, reg(mreg, w)); break; }
    case 0x8A: case 0x8B: { Op m = rm(1 + w); done("mov", reg(mreg, w), m); break; }
    case 0x8C: { Op m = rm(2); if (mreg < 4) done("mov", m, sreg(mreg)); break; }
    case 0x8E: { Op m = rm(2); if (mreg < 4) done("mov", sreg(mreg), m); break; }
    case 0x8D: { Op m = rm(2); if (m.k == Op::MEM) done("lea", reg(mreg, true), m); break; }
    case 0x98: done("cbw"); break;
    case 0x99: done("cwd"); break;
    case 0xA0: case 0xA1: case 0xA2: case 0xA3: { Op m; m.k = Op::MEM; m.size = 1 + w; m.v = f16(); m.seg = seg; segUsed = true; if (op < 0xA2) done("mov", reg(0, w), m); else done("mov", m, reg(0, w)); break; }
    case 0xA4: done("movsb"); break;
    case 0xA6: done("cmpsb"); break;
    case 0xAA: done("stosb"); break;
    case 0xAB: done("stosw"); break;
    case 0xAC: done("lodsb"); break;
    case 0xA8: case 0xA9: { int v = w ? f16() : f8(); done("test", reg(0, w), imm(v, 1 + w)); break; }
    case 0xC3: done("ret"); break;
    case 0xC6: case 0xC7: { Op m = rm(1 + w); int v = w ? f16() : f8(); if (mreg == 0) done("mov", m, imm(v, 1 + w)); break; }
    case 0xCD: { int v = f8(); done("int", imm(v, 1)); break; }
    case 0xD0: case 0xD1: case 0xD2: case 0xD3: {
        Op m = rm(1 + w);
        static const char* sh[] = {"rol", "ror", "rcl", "rcr", "shl", "shr", "sal?", "sar"};
        done(sh[mreg], m, op & 2 ? reg(1, false) : imm(1, 1)); break; }
    case 0xE8: { int x = f16(); done("call", tgt(va + (int)(p - pos) + x)); break; }
    case 0xE9: { int x = f16(); done("jmp", tgt(va + (int)(p - pos) + x)); break; }
    case 0xEB: { int x = (int8_t)f8(); done("jmp", tgt(va + (int)(p - pos) + x)); d.i.isShort = true; break; }
    case 0xF6: case 0xF7: {
        Op m = rm(1 + w);
        static const char* g[] = {"test", "?", "not", "neg", "mul", "imul", "div", "idiv"};
        if (mreg == 0) { int v = w ? f16() : f8(); done("test", m, imm(v, 1 + w)); }
        else if (mreg != 1) done(g[mreg], m);
        break; }
    case 0xF8: done("clc"); break;
    case 0xF9: done("stc"); break;
    case 0xFA: done("cli"); break;
    case 0xFB: done("sti"); break;
    case 0xFE: case 0xFF: {
        Op m = rm(1 + w);
        if (mreg < 2) done(mreg ? "dec" : "inc", m);
        else if (w && mreg == 6) done("push", m);
        else if (w && mreg == 2) done("call", m);
        else if (w && mreg == 4) done("jmp", m);
        break; }
    }
    return d;
}
static Str showOp(const Op& o) {
    switch (o.k) {
    case Op::NONE: return "";
    case Op::R8: return R8N[o.v & 7];
    case Op::R16: return R16N[o.v & 7];
    case Op::SR: return SRN[o.v & 3];
    case Op::IMM: return fmt("0x%X%s", o.v & 0xffff, o.lab >= 0 ? "+label" : "");
    case Op::TGT: return fmt("->0x%X%s", o.v & 0xffff, o.lab >= 0 ? "+label" : "");
    case Op::MEM: {
        Str r = o.size == 1 ? "byte [" : o.size == 2 ? "word [" : "[";
        if (o.seg >= 0) r += Str(SRN[o.seg]) + ":";
        static const char* bn[] = {"bx", "bp", "si", "di"};
        bool f = false;
        for (int i = 0; i < 4; ++i) if (o.base >> i & 1) { r += Str(f ? "+" : "") + bn[i]; f = true; }
        r += fmt("%s0x%X%s]", f ? "+" : "", o.v & 0xffff, o.lab >= 0 ? "+label" : "");
        return r; }
    }
    return "?";
}
Str show(const Ins& i) {
    Str r = (i.rep ? "rep " : "") + i.op;
    if (i.a.k) r += " " + showOp(i.a);
    if (i.b.k) r += ", " + showOp(i.b);
    return r;
}

// ------------------------------------------------------------------ verification
Str walk(Prog& p, const Bytes& out) {
    size_t pos = 0; int va = 0; bool bss = false;
    struct Ref { int lab, got, v, mask; int item; int shortAt = -1; };
    std::vector<Ref> refs;
    p.farForward = false;
    for (auto& l : p.lab) l.addr = -1;
    for (size_t n = 0; n < p.it.size(); ++n) {
        Item& t = p.it[n];
        auto at = [&](const Str& m) { return fmt("item %zu (line %d, '%s') at file offset 0x%zX: ", n, t.line0, t.text.c_str(), pos) + m; };
        auto word = [&](int v, int lab) -> Str {
            if (pos + 2 > out.size()) return at("the output ends too early");
            int g = out[pos] | out[pos + 1] << 8;
            if (lab >= 0) refs.push_back({lab, g, v, 0xffff, (int)n});
            else if (g != (v & 0xffff)) return at(fmt("word is 0x%04X, written 0x%04X", g, v & 0xffff));
            pos += 2; va += 2; return "";
        };
        switch (t.k) {
        case Item::LBL: p.lab[t.lab].addr = va & 0xffff; p.lab[t.lab].item = (int)n; break;
        case Item::EQU: case Item::CPU: break;
        case Item::ORG: va = t.v & 0xffff; break;
        case Item::RES: bss = true; va += t.unit * (t.v & 0xffff); break;
        case Item::DB: case Item::DW:
            for (auto& x : t.data) {
                if (x.isStr) {
                    for (unsigned char ch : x.str) {
                        if (pos >= out.size()) return at("the output ends too early");
                        if (out[pos] != ch) return at(fmt("byte is 0x%02X, string has 0x%02X", out[pos], ch));
                        ++pos; ++va;
                    }
                    if (t.k == Item::DW && (x.str.size() & 1)) {
                        if (pos >= out.size() || out[pos]) return at("string is not padded to a word with zero");
                        ++pos; ++va;
                    }
                } else if (t.k == Item::DB) {
                    if (pos >= out.size()) return at("the output ends too early");
                    if (out[pos] != (x.v & 0xff)) return at(fmt("byte is 0x%02X, written 0x%02X", out[pos], x.v & 0xff));
                    ++pos; ++va;
                } else { Str e = word(x.v, x.lab); if (!e.empty()) return e; }
            }
            break;
        case Item::INS: {
            Dec d = decode(out, pos, va);
            if (!d.ok) {
                Str h; for (size_t i = pos; i < pos + 7 && i < out.size(); ++i) h += fmt(" %02X", out[i]);
                return at("no supported instruction is encoded here:" + h);
            }
            Str bytes; for (size_t i = pos; i < pos + (size_t)d.len; ++i) bytes += fmt("%02X ", out[i]);
            auto mism = [&]() { return at("written " + show(t.ins) + ", encoded " + show(d.i) + " (" + bytes + ")"); };
            const Ins& e = t.ins;
            if (d.i.op != e.op || d.i.rep != e.rep) return mism();
            if (e.isShort && !d.i.isShort && e.op == "jmp") return mism();
            const Op* eo[2] = {&e.a, &e.b}; const Op* dd[2] = {&d.i.a, &d.i.b};
            if (e.op == "xchg" && dd[0]->k != eo[0]->k) std::swap(dd[0], dd[1]);
            if (e.op == "xchg" && eo[1]->k == Op::R16 && dd[0]->v != eo[0]->v) std::swap(dd[0], dd[1]);
            if (e.op == "test" && dd[0]->k != eo[0]->k) std::swap(dd[0], dd[1]);
            for (int q = 0; q < 2; ++q) {
                const Op &x = *eo[q], &y = *dd[q];
                if (x.k != y.k) return mism();
                switch (x.k) {
                case Op::R8: case Op::R16: case Op::SR: if (x.v != y.v) return mism(); break;
                case Op::IMM: {
                    int m = y.size == 1 ? 0xff : 0xffff;
                    if (x.lab >= 0) refs.push_back({x.lab, y.v, x.v, m, (int)n});
                    else if ((x.v & m) != (y.v & m)) return mism();
                    break; }
                case Op::TGT:
                    if (x.lab >= 0) refs.push_back({x.lab, y.v, x.v, 0xffff, (int)n, d.len == 2 ? va + 2 : -1});
                    else if ((x.v & 0xffff) != (y.v & 0xffff)) return mism();
                    break;
                case Op::MEM: {
                    int es = x.seg, ds = y.seg;
                    if (x.base != y.base || es != ds) return mism();
                    if (x.size && x.size != y.size && e.op != "lea") return mism();
                    if (x.lab >= 0) refs.push_back({x.lab, y.v, x.v, 0xffff, (int)n});
                    else if ((x.v & 0xffff) != (y.v & 0xffff)) return mism();
                    break; }
                default: break;
                }
            }
            pos += d.len; va += d.len;
            break; }
        }
        if (bss && (t.k == Item::DB || t.k == Item::DW || t.k == Item::INS)) return at("output after reserved space is accepted");
    }
    if (pos != out.size()) return fmt("the output has %zu bytes, the program describes %zu", out.size(), pos);
    for (auto& r : refs) {
        const Item& t = p.it[r.item];
        if (p.lab[r.lab].addr < 0) return fmt("line %d, '%s': label %s is never defined", t.line0, t.text.c_str(), p.lab[r.lab].name.c_str());
        int want = (p.lab[r.lab].addr + r.v) & r.mask;
        if (r.shortAt >= 0 && p.lab[r.lab].item > r.item) { // out of reach forward: the assembler warns
            int d = (int16_t)(p.lab[r.lab].addr - r.shortAt);
            if (d < -128 || d > 127) { p.farForward = true; continue; }
        }
        if ((r.got & r.mask) != want) return fmt("line %d, '%s': reference to %s is 0x%04X, must be 0x%04X (label at 0x%04X)", t.line0, t.text.c_str(), p.lab[r.lab].name.c_str(), r.got & r.mask, want, p.lab[r.lab].addr);
    }
    return "";
}

// ------------------------------------------------------------------ expressions
// The reference evaluation: | lowest, then <<, then + -, unary binds tightest, left associative.
struct ETok { char k; int v; };
static Str lit(Src& s, int v) { // one unsigned literal (v in 0..65535)
    if (v >= 32 && v < 127 && v != '\'' && s.chance(30)) return fmt("'%c'", v);
    if (v >= 128 && v < 256 && s.chance(5)) return fmt("'%c'", v);
    if (v > 0x8080 && (v & 255) > 127 && s.chance(5)) return fmt("'%c%c'", v & 255, v >> 8);
    if (v > 255 && s.chance(15)) { int a = v & 255, b = v >> 8; if (a >= 32 && a < 127 && b >= 32 && b < 127 && a != '\'' && b != '\'') return fmt("'%c%c'", a, b); }
    switch (s.below(4)) {
    case 0: return fmt("0x%x", v);
    case 1: return fmt("0X%0*X", (int)s.below(6), v);
    case 2: if (s.chance(20)) return fmt("0%d", v);
        // fallthrough
    default: return fmt("%d", v);
    }
}
static Str unary(Src& s, int v) { // a unary expression with this 16-bit value
    v &= 0xffff;
    switch (s.weighted({60, 15, 15, 5, 5})) {
    case 0: return lit(s, v);
    case 1: return "-" + Str(s.chance(20) ? " " : "") + lit(s, -v & 0xffff);
    case 2: return "~" + lit(s, ~v & 0xffff);
    case 3: return "+" + lit(s, v);
    default: return s.coin() ? "-~" + lit(s, (v - 1) & 0xffff) : "~-" + lit(s, (v + 1) & 0xffff);
    }
}
static Str sp(Src& s) { return s.chance(30) ? " " : ""; }
static Str sumExpr(Src& s, int v, int n) { // sum of n unary terms
    if (n <= 1) return unary(s, v);
    int t = s.chance(50) ? s.below(300) : s.below(65536);
    if (s.coin()) return sumExpr(s, v - t, n - 1) + sp(s) + "+" + sp(s) + unary(s, t);
    return sumExpr(s, v + t, n - 1) + sp(s) + "-" + sp(s) + unary(s, t);
}
static Str shiftExpr(Src& s, int v) {
    v &= 0xffff;
    int z = 0; while (z < 15 && !(v >> z & 1) && v) ++z;
    if (v == 0) z = s.below(16);
    if (z && s.chance(60)) {
        int k = 1 + s.below(z);
        int base = v >> k;
        if (s.chance(30)) base |= s.below(1 << k) << (16 - k);   // lost bits
        Str l = sumExpr(s, base, 1 + s.below(3));
        if (k > 1 && s.chance(20)) { int k1 = 1 + s.below(k - 1); return l + sp(s) + "<<" + sp(s) + lit(s, k1) + sp(s) + "<<" + sp(s) + lit(s, k - k1); }
        if (s.chance(20)) return l + "<<" + lit(s, k - 1) + sp(s) + "+" + sp(s) + "1";
        return l + sp(s) + "<<" + sp(s) + lit(s, k);
    }
    return sumExpr(s, v, 1 + s.below(4));
}
static Str exprText(Src& s, int v) {
    v &= 0xffff;
    if (s.chance(55)) return unary(s, v);
    int n = s.weighted({60, 25, 15});
    Str r;
    for (int i = 0; i < n; ++i) { int m = s.below(65536); r += shiftExpr(s, v & m) + sp(s) + "|" + sp(s); }
    return r + shiftExpr(s, v);
}

// ------------------------------------------------------------------ generator
static Str freshName(Src& s, bool local, std::set<Str>& used) {
    static const char* stems[] = {"a", "L", "loop", "x", "Start", "data", "buf", "end", "J", "jx", "mov_", "al_", "db1", "rep.", "_", "Msg", "q$", "$x", "A.B"};
    for (;;) {
        Str n = local ? "." : "";
        if (s.chance(8)) { static const char cs[] = "abXY01_.$"; n += local ? "A_longer_label" : "A_longer_label_"; n += cs[s.below(9)]; n.resize(16, 'q'); if (!reserved(n) && !used.count(n)) { used.insert(n); return n; } continue; } // names that differ in the last significant character
        n += stems[s.below(sizeof stems / sizeof *stems)];
        if (s.chance(60)) n += fmt("%d", (int)s.below(40));
        if (s.chance(15)) { static const char cs[] = "abcXYZ019_.$"; while (n.size() < 15 && !s.chance(15)) n += cs[s.below(12)]; }
        if (n.size() > 16) n.resize(16);
        if (!local && n[0] == '.') continue;
        if (reserved(n)) n += "1";
        if (!used.count(n)) { used.insert(n); return n; }
        n += fmt("%d", (int)s.below(1000));
        if (n.size() <= 16 && !used.count(n)) { used.insert(n); return n; }
    }
}
static int anyVal(Src& s) { // 16-bit value
    switch (s.below(5)) { case 0: return s.below(256); case 1: return (uint16_t)-(int)s.below(130); case 2: return s.below(65536); case 3: { static const int e[] = {0, 1, 127, 128, 129, 255, 256, 0x7fff, 0x8000, 0xff7f, 0xff80, 0xffff, 0x8080, 0x00ff, 0xff00}; return e[s.below(15)]; } default: return s.below(16); }
}
static int byteVal(Src& s) { static const int e[] = {0, 1, 127, 128, 255}; return s.chance(30) ? e[s.below(5)] : (int)s.below(256); }
struct G {
    Src& s; Prog& p; const GenOpts& o;
    std::vector<std::pair<Str, int>> equs;
    std::set<Str> used, impure; // impure: an equate whose text exceeds 16 bits on the way
    Str immText(int v, int size, bool exact = false) { // operand text for a value of this size
        for (auto& e : equs) if (e.second == v && !(exact && impure.count(e.first)) && s.chance(50)) return e.first;
        if (!exact && !equs.empty() && s.chance(12)) {
            auto& e = equs[s.below(equs.size())];
            int d = (v - e.second) & 0xffff;
            bool neg = s.coin(); if (neg) d = -d & 0xffff;
            if (size == 2 || (e.second + (neg ? -d : d) == v)) return e.first + sp(s) + (neg ? "-" : "+") + sp(s) + lit(s, d);
        }
        if (size == 1) { // the value itself must be within a byte
            if (v < 0) return s.chance(80) ? fmt("-%d", -v) : "~" + fmt("%d", ~v);
            if (s.chance(70)) return lit(s, v);
            int t = s.below(v + 1);
            switch (s.below(3)) { case 0: return lit(s, v - t) + "+" + lit(s, t); case 1: return lit(s, v + t) + " - " + lit(s, t); default: { int m = s.below(256); return lit(s, v & m) + "|" + lit(s, v & ~m); } }
        }
        return exprText(s, v);
    }
    Op reg8() { Op o; o.k = Op::R8; o.v = s.below(8); o.size = 1; o.text = R8N[o.v]; return o; }
    Op reg16() { Op o; o.k = Op::R16; o.v = s.below(8); o.size = 2; o.text = R16N[o.v]; return o; }
    Op sreg(bool dst) { Op o; o.k = Op::SR; do o.v = s.below(4); while (dst && o.v == 1); o.size = 2; o.text = SRN[o.v]; return o; }
    Op imm(int size, bool allowLab = true) {
        Op o; o.k = Op::IMM; o.size = size;
        if (size == 2 && allowLab && s.chance(this->o.pLab)) { o.lab = -2; return o; }
        o.v = size == 2 ? anyVal(s) : s.chance(25) ? -(int)s.below(129) : byteVal(s);
        if (!equs.empty() && s.chance(20)) { auto& e = equs[s.below(equs.size())]; if (size == 2 || e.second < 256) o.v = e.second; }
        o.text = immText(o.v, size);
        o.v &= 0xffff;
        return o;
    }
    Op mem(int size, bool showSize) {
        Op m; m.k = Op::MEM; m.size = size;
        std::vector<Str> parts;
        switch (s.weighted({20, 14, 14, 14, 14, 12, 12})) {
        case 0: break;
        case 1: m.base = 1; parts = {"bx"}; break;
        case 2: m.base = 2; parts = {"bp"}; break;
        case 3: m.base = 4; parts = {"si"}; break;
        case 4: m.base = 8; parts = {"di"}; break;
        case 5: m.base = 5; parts = {"si", "bx"}; break;
        default: m.base = s.coin() ? 1 : 2; parts = {m.base == 1 ? "bx" : "bp"}; break;
        }
        bool lab = s.chance(this->o.pLab);
        int n = s.weighted({30, 45, 15, 10});
        if (m.base == 0 && !lab && n == 0) n = 1;
        std::vector<Str> nums; // signed terms
        int v = 0; bool firstNeg = false;
        for (int i = 0; i < n; ++i) {
            int x = n == 1 ? anyVal(s) : s.chance(70) ? (int)s.below(200) : anyVal(s);
            bool neg = s.chance(30);
            Str t;
            bool done = false;
            for (auto& e : equs) if (!done && s.chance(25)) { x = e.second; t = e.first; done = true; }
            if (!done) switch (s.below(3)) { case 0: t = fmt("0x%X", x); break; default: t = fmt("%d", x); }
            v += neg ? -x : x;
            nums.push_back((neg ? "-" : "+") + t);
        }
        (void)firstNeg;
        // order: registers keep their order, other parts anywhere (a leading minus is not possible)
        std::vector<Str> terms; for (auto& q : parts) terms.push_back("+" + q);
        if (lab) { terms.insert(terms.begin() + s.below(terms.size() + 1), "+\x01"); m.lab = -2; }
        for (auto& q : nums) { size_t at = s.below(terms.size() + 1); if (at == 0 && q[0] == '-') at = terms.empty() ? 0 : 1; if (at == 0 && q[0] == '-') { q[0] = '+'; v += 2 * strtol(q.c_str() + 1, nullptr, 0); if (!isdigit((unsigned char)q[1])) for (auto& e : equs) if (e.first == q.substr(1)) v += 2 * e.second; } terms.insert(terms.begin() + at, q); }
        m.v = v & 0xffff;
        Str t;
        for (size_t i = 0; i < terms.size(); ++i) {
            if (i == 0) t += terms[i].substr(1);
            else { Str a = sp(s), b = sp(s); t += a + terms[i].substr(0, 1) + b + terms[i].substr(1); }
        }
        if (s.chance(20)) { m.seg = s.below(4); t = Str(SRN[m.seg]) + sp(s) + ":" + sp(s) + t; }
        m.text = "[" + sp(s) + t + sp(s) + "]";
        if (showSize) m.text = Str(size == 1 ? "byte" : "word") + (s.chance(90) ? " " : "") + m.text;
        return m;
    }
    Item ins() {
        Item t; t.k = Item::INS; Ins& i = t.ins;
        t.lo = 1; t.hi = 8;
        int w = s.coin() ? 2 : 1;
        auto reg = [&](int size) { return size == 2 ? reg16() : reg8(); };
        auto rr = [&]() { i.a = reg(w); i.b = reg(w); t.lo = t.hi = 2; };
        switch (s.weighted({22, 30, 8, 5, 10, 8, 8, 4, 4, 6, 6, 6, 4, 5, 3})) {
        case 0: i.op = "mov";
            switch (s.below(8)) {
            case 0: rr(); break;
            case 1: i.a = reg16(); i.b = sreg(false); t.lo = t.hi = 2; break;
            case 2: i.a = sreg(true); i.b = reg16(); t.lo = t.hi = 2; break;
            case 3: i.a = reg(w); i.b = imm(w); t.lo = t.hi = 1 + w; break;
            case 4: i.a = reg(w); if (s.chance(40)) { i.a.v = 0; i.a.text = w == 2 ? "ax" : "al"; } i.b = mem(w, s.chance(20)); break;
            case 5: i.b = reg(w); if (s.chance(40)) { i.b.v = 0; i.b.text = w == 2 ? "ax" : "al"; } i.a = mem(w, s.chance(20)); break;
            case 6: if (s.coin()) { i.a = sreg(true); i.b = mem(2, s.chance(20)); } else { i.b = sreg(false); i.a = mem(2, s.chance(20)); } break;
            default: i.a = mem(w, true); i.b = imm(w);
            }
            break;
        case 1: i.op = ALU[s.below(8)];
            switch (s.below(5)) {
            case 0: rr(); break;
            case 1: i.a = reg(w); i.b = imm(w); break;
            case 2: i.a = reg(w); i.b = mem(w, s.chance(20)); break;
            case 3: i.a = mem(w, s.chance(20)); i.b = reg(w); break;
            default: i.a = mem(w, true); i.b = imm(w);
            }
            break;
        case 2: { static const char* n[] = {"shl", "shr", "sar"}; i.op = n[s.below(3)]; i.a = reg(w); t.lo = t.hi = 2;
            if (s.coin()) { i.b.k = Op::IMM; i.b.v = 1; i.b.size = 1; i.b.text = s.chance(80) ? "1" : "0x1"; } else { i.b.k = Op::R8; i.b.v = 1; i.b.size = 1; i.b.text = "cl"; } break; }
        case 3: i.op = "call";
            if (s.chance(30)) { i.a = reg16(); t.lo = t.hi = 2; } else { i.a.k = Op::TGT; t.lo = t.hi = 3; if (s.chance(75)) { i.a.lab = -2; t.wantLab = 3; } else { i.a.v = anyVal(s); i.a.text = lit(s, i.a.v); } } break;
        case 4: i.op = s.coin() ? "inc" : "dec"; if (s.coin()) { i.a = reg(w); t.lo = t.hi = 3 - w; } else i.a = mem(w, true); break;
        case 5: i.op = "push"; switch (s.below(3)) { case 0: i.a = reg16(); t.lo = t.hi = 1; break; case 1: i.a = sreg(false); t.lo = t.hi = 1; break; default: i.a = mem(2, true); } break;
        case 6: i.op = "pop"; if (s.coin()) i.a = reg16(); else i.a = sreg(true); t.lo = t.hi = 1; break;
        case 7: i.op = "int"; i.a.k = Op::IMM; i.a.v = byteVal(s); i.a.size = 1; i.a.text = immText(i.a.v, 1, true); t.lo = t.hi = 2; break;
        case 8: i.op = "test"; if (s.chance(60)) { i.a = reg(w); if (s.chance(30)) { i.a.v = 0; i.a.text = w == 2 ? "ax" : "al"; } } else i.a = mem(w, true); i.b = imm(w); break;
        case 9: i.op = "xchg"; if (s.coin()) { i.a = reg16(); i.a.v = 0; i.a.text = "ax"; i.b = reg16(); t.lo = t.hi = 1; if (true) t.hi = 2; } else { i.a = reg(w); i.b = mem(w, s.chance(20)); } break;
        case 10: { static const char* n[] = {"mul", "imul", "div", "idiv", "not", "neg"}; i.op = n[s.below(6)]; i.a = reg(w); t.lo = t.hi = 2; break; }
        case 11: { i.op = NOARG[s.below(12)]; t.lo = t.hi = 1; bool str = i.op == "movsb" || i.op == "cmpsb" || i.op == "stosb" || i.op == "stosw" || i.op == "lodsb"; if (str && s.coin()) { i.rep = true; t.lo = t.hi = 2; } break; }
        case 12: i.op = "lea"; i.a = reg16(); i.b = mem(2, false); i.b.size = 0; break;
        case 13: i.op = CC[s.below(16)]; i.a.k = Op::TGT; if (s.chance(15)) { t.wantLab = 4; t.lo = t.hi = 2; i.isShort = s.chance(20); break; } i.a.lab = -2; t.wantLab = 2; t.lo = t.hi = 2; i.isShort = s.chance(20); break;
        default: i.op = "jmp"; i.a.k = Op::TGT;
            if (s.chance(12)) { if (s.chance(40)) { i.isShort = true; t.wantLab = 4; t.lo = t.hi = 2; } else { t.lo = 2; t.hi = 3; t.wantLab = s.coin() ? 5 : 0; i.a.v = anyVal(s); i.a.text = immText(i.a.v, 2); } break; }
            i.a.lab = -2; if (s.chance(40)) { i.isShort = true; t.wantLab = 2; t.lo = t.hi = 2; } else { t.wantLab = 3; t.lo = 2; t.hi = 3; } break;
        }
        if ((i.a.k == Op::IMM || i.a.k == Op::MEM) && i.a.lab == -2) t.wantLab = 1;
        if ((i.b.k == Op::IMM || i.b.k == Op::MEM) && i.b.lab == -2) t.wantLab = 1;
        // an operand that is not a jump target never needs exact sizes
        return t;
    }
    Item data() {
        Item t; t.k = s.coin() ? Item::DB : Item::DW;
        int n = 1 + s.below(s.chance(20) ? 12 : 4); int sz = 0;
        for (int i = 0; i < n; ++i) {
            Datum d;
            if (s.chance(35)) {
                d.isStr = true;
                int l = s.chance(10) ? 60 + s.below(60) : s.below(9);
                for (int k = 0; k < l; ++k) { char ch = s.chance(85) ? (char)(32 + s.below(95)) : (char)(1 + s.below(255)); if (ch == '\'') ch = '"'; d.str += ch; }
                if (d.str.empty() && n == 1) d.str = "x";
                d.text = "'" + d.str + "'";
                sz += d.str.size(); if (t.k == Item::DW) sz += d.str.size() & 1;
            } else if (t.k == Item::DW && s.chance(o.pLab)) { d.lab = -2; sz += 2; t.wantLab = 1; }
            else {
                d.v = t.k == Item::DB ? byteVal(s) : anyVal(s);
                d.text = Str();
                for (auto& e : equs) if ((t.k == Item::DW || e.second < 256) && s.chance(10)) { d.v = e.second; d.text = e.first; }
                if (d.text.empty()) d.text = s.coin() ? fmt("%d", d.v) : fmt("0x%x", d.v);
                sz += t.k == Item::DB ? 1 : 2;
            }
            t.data.push_back(d);
        }
        t.lo = t.hi = sz;
        return t;
    }
    Item filler(int n) {
        Item t; t.k = Item::DB; t.lo = t.hi = n;
        while (n > 0) { Datum d; if (n > 8) { int l = std::min(n, 100); d.isStr = true; d.str = Str(l, 'f'); d.text = "'" + d.str + "'"; n -= l; } else { d.v = n & 255; d.text = fmt("%d", d.v); --n; } t.data.push_back(d); }
        return t;
    }
    void addLabel(bool local) {
        Item t; t.k = Item::LBL; t.lo = t.hi = 0; t.lab = (int)p.lab.size();
        Label l; l.local = local; l.item = (int)p.it.size();
        p.lab.push_back(l);
        p.it.push_back(t);
    }
    void run() {
        if (s.chance(40)) { Item t; t.k = Item::CPU; t.lo = t.hi = 0; p.it.push_back(t); }
        if (s.chance(70)) { Item t; t.k = Item::ORG; t.v = s.chance(70) ? 0x100 : s.below(0x9000); t.lo = t.hi = 0; p.it.push_back(t); }
        int n = 1 + s.below(o.n);
        for (int i = 0; i < n; ++i) {
            switch (s.weighted({o.wIns, o.wData, o.wLbl, o.wEqu, o.wOrg, o.boundary ? 25 : 0})) {
            case 0: p.it.push_back(ins()); break;
            case 1: p.it.push_back(data()); break;
            case 2: addLabel(s.chance(45)); break;
            case 3: {
                Item t; t.k = Item::EQU; t.lo = t.hi = 0; t.v = s.chance(60) ? (int)s.below(300) : anyVal(s);
                t.name = freshName(s, false, used);
                bool pure = s.coin();
                t.text = pure ? lit(s, t.v) : exprText(s, t.v);
                if (!equs.empty() && s.chance(30)) { auto& e = equs[s.below(equs.size())]; int d = s.below(100); t.text = e.first + "+" + fmt("%d", d); t.v = (e.second + d) & 0xffff; pure = false; }
                // 16-bit values: a negative text is the same value
                p.it.push_back(t);
                equs.push_back({t.name, t.v}); if (!pure) impure.insert(t.name);
                break; }
            case 4: { Item t; t.k = Item::ORG; t.v = s.below(0xE000); t.lo = t.hi = 0; p.it.push_back(t); break; }
            default: {
                int d = s.chance(60) ? 117 + s.below(10) : s.chance(20) ? 124 + s.below(10) : 1 + s.below(120);
                auto jump = [&]() { Item t; t.ins.op = s.chance(70) ? CC[s.below(16)] : "jmp"; t.ins.a.k = Op::TGT; t.lo = t.hi = 2; t.wantLab = 2; t.ins.isShort = t.ins.op == "jmp"; return t; };
                if (s.coin()) { addLabel(s.chance(30)); int lb = (int)p.lab.size() - 1; p.it.push_back(filler(d)); Item t = jump(); t.ins.a.lab = lb; p.it.push_back(t); }
                else { Item t = jump(); t.ins.a.lab = (int)p.lab.size(); p.it.push_back(t); p.it.push_back(filler(d)); addLabel(s.chance(30)); }
                break; }
            }
        }
        if (o.bss && s.chance(40)) {
            int m = 1 + s.below(6);
            for (int i = 0; i < m; ++i) {
                addLabel(s.chance(20));
                Item t; t.k = Item::RES; t.lo = t.hi = 0; t.unit = 1 + s.below(2); t.v = s.below(o.resBig && s.chance(10) ? 2000 : 40); t.text = exprText(s, t.v);
                if (s.chance(85)) p.it.push_back(t);
            }
        }
        if (p.lab.empty() || s.chance(30)) addLabel(false);
        // regions and names
        int region = 0;
        std::vector<int> reg(p.it.size());
        for (size_t i = 0; i < p.it.size(); ++i) {
            Item& t = p.it[i];
            if (t.k == Item::LBL && !p.lab[t.lab].local) ++region;
            reg[i] = region;
            if (t.k == Item::LBL) { p.lab[t.lab].region = region; p.lab[t.lab].item = (int)i; }
        }
        std::map<int, std::set<Str>> localUsed;
        for (auto& l : p.lab) l.name = l.local ? freshName(s, true, localUsed[l.region]) : freshName(s, false, used);
        // segments between ORGs, prefix sums
        std::vector<int> segm(p.it.size()), lo(p.it.size() + 1), hi(p.it.size() + 1);
        int sg = 0;
        for (size_t i = 0; i < p.it.size(); ++i) { if (p.it[i].k == Item::ORG || p.it[i].k == Item::RES) ++sg; segm[i] = sg; lo[i + 1] = lo[i] + p.it[i].lo; hi[i + 1] = hi[i] + p.it[i].hi; }
        auto dist = [&](size_t j, size_t t, int& dl, int& dh) { // displacement of a 2-byte jump at item j to label item t
            if (t > j) { dl = lo[t] - lo[j] - 2; dh = hi[t] - hi[j] - 2; int a = lo[t] - lo[j + 1], b = hi[t] - hi[j + 1]; dl = a; dh = b; }
            else { dl = -(hi[j] - hi[t]) - 2; dh = -(lo[j] - lo[t]) - 2; }
        };
        for (size_t i = 0; i < p.it.size(); ++i) {
            Item& t = p.it[i];
            if (!t.wantLab) continue;
            if (t.wantLab >= 4) { // a number as jump target, 4: must be near, 5: should be near
                size_t o = 0; int base = 0; bool known = true;
                for (size_t q = 0; q < i; ++q) { if (p.it[q].k == Item::ORG) { o = q + 1; base = p.it[q].v; known = true; } else if (p.it[q].k == Item::RES) known = false; }
                int a = base + lo[i] - lo[o] + 2, b = base + hi[i] - hi[o] + 2;
                int u = (a + b) / 2 + (s.chance(97) ? s.range(-110, 110) : s.range(-160, 160));
                int tv = u & 0xffff;
                t.ins.a.v = tv; t.ins.a.text = exprText(s, tv);
                if (t.wantLab == 5) continue;
                int dl = u - b, dh = u - a;
                if (!known || dl < -128 || dh > 127) p.shortSure = false;
                if (known && (dh < -128 || dl > 127)) p.shortBad = true;
                continue;
            }
            std::vector<int> all, near;
            for (size_t l = 0; l < p.lab.size(); ++l) {
                if (p.lab[l].local && p.lab[l].region != reg[i]) continue;
                all.push_back((int)l);
                int dl, dh; dist(i, p.lab[l].item, dl, dh);
                if (segm[p.lab[l].item] == segm[i] && dl >= -128 && dh <= 127) near.push_back((int)l);
            }
            auto bind = [&](int& lab, Str& text, bool wantNear) -> bool {
                if (lab >= 0) { // fixed by the boundary construction
                    if (p.lab[lab].local && p.lab[lab].region != reg[i]) lab = -2; else { text = p.lab[lab].name; return true; }
                }
                auto& c = wantNear && !s.chance(2) ? near : all;
                if (c.empty()) return false;
                lab = c[s.below(c.size())]; 
                size_t q = text.find('\x01');
                if (q != Str::npos) text.replace(q, 1, p.lab[lab].name); else text = p.lab[lab].name;
                return true;
            };
            bool ok = true;
            if (t.k == Item::DW) { for (auto& d : t.data) if (d.lab == -2) ok &= bind(d.lab, d.text, false); }
            else {
                bool needA = t.ins.a.lab != -1, needB = t.ins.b.lab != -1;
                if (needA) ok &= bind(t.ins.a.lab, t.ins.a.text, t.wantLab == 2);
                if (needB) ok &= bind(t.ins.b.lab, t.ins.b.text, false);
            }
            if (!ok) { // nothing to refer to
                int l = t.lo; bool exact = t.lo == t.hi; 
                Item r; if (t.k == Item::DW || !exact) { r.ins.op = "cbw"; } else { r = filler(l); }
                if (r.k == Item::INS) { r.lo = 1; r.hi = std::max(1, t.hi); }
                t = r;
                continue;
            }
            if (t.k == Item::INS && t.wantLab == 2) {
                int dl, dh; dist(i, p.lab[t.ins.a.lab].item, dl, dh);
                bool same = segm[p.lab[t.ins.a.lab].item] == segm[i];
                if (!same || dl < -128 || dh > 127) p.shortSure = false;
                if (same && (dh < -128 || dl > 127)) p.shortBad = true;
            }
        }
        for (auto& t : p.it) if (t.k == Item::INS) ++p.feat[t.ins.op];
    }
};
void generate(Src& s, Prog& p, const GenOpts& o) { G g{s, p, o, {}, {}, {}}; g.run(); }

// ------------------------------------------------------------------ printer
static Str wordCase(Src& s, const Str& w) {
    Str r = w;
    switch (s.weighted({60, 25, 15})) { case 1: for (auto& c : r) c = (char)toupper(c); break; case 2: for (auto& c : r) if (s.coin()) c = (char)toupper(c); break; }
    return r;
}
static bool idch(unsigned char c) { return isalnum(c) || c == '_' || c == '.' || c == '$'; }
// random case for reserved words in an operand text
static Str opText(Src& s, const Str& t) {
    Str r; size_t i = 0;
    while (i < t.size()) {
        if (t[i] == '\'') { size_t e = t.find('\'', i + 1); r += t.substr(i, e + 1 - i); i = e + 1; continue; }
        if (isdigit((unsigned char)t[i])) { while (i < t.size() && isalnum((unsigned char)t[i])) r += t[i++]; continue; }
        if (idch(t[i])) { size_t b = i; while (i < t.size() && idch(t[i])) ++i; Str w = t.substr(b, i - b); bool res = false; for (auto q : RESERVED) if (w == q) res = true; r += res ? wordCase(s, w) : w; continue; }
        r += t[i++];
    }
    return r;
}
Str print(Src& s, Prog& p, const PrintOpts& o) {
    Str r; int line = 1;
    auto emit = [&](const Str& t) { r += t; for (char c : t) if (c == '\n') ++line; };
    static const char* cm[] = {"; comment", ";", "; it's 'quoted", ";; mov ax, bx", "; [", "; label:", ";\t\x80\xff"};
    auto gap = [&]() { if (o.plain) return Str(" "); switch (s.weighted({70, 10, 10, 10})) { case 1: return Str("\t"); case 2: return Str("   "); case 3: return Str(" \t "); default: return Str(" "); } };
    auto eol = [&]() {
        Str e;
        if (!o.plain && o.comments && s.chance(12)) e += gap() + cm[s.below(7)];
        e += !o.plain && s.chance(8) ? "\r\n" : "\n";
        if (!o.plain && s.chance(6)) e += "\n";
        if (!o.plain && o.comments && s.chance(5)) e += Str(cm[s.below(7)]) + "\n";
        return e;
    };
    if (o.lead) { Str x(";"); x += Str(o.lead, 'p'); emit(x + "\n"); }
    auto kw = [&](const Str& w) { return o.plain ? w : wordCase(s, w); };
    auto ot = [&](const Str& t) { return o.plain ? t : opText(s, t); };
    for (size_t n = 0; n < p.it.size(); ++n) {
        Item& t = p.it[n];
        Str x;
        if (!o.plain && s.chance(70)) emit(s.coin() ? "\t" : "        ");
        t.line0 = line;
        if (n) p.it[n - 1].line1 = line;
        switch (t.k) {
        case Item::LBL: x = p.lab[t.lab].name + (!o.plain && s.chance(10) ? " :" : ":"); break;
        case Item::EQU: x = t.name + gap() + kw("equ") + gap() + t.text; break;
        case Item::CPU: x = kw("cpu") + gap() + "8086"; break;
        case Item::ORG: x = kw("org") + gap() + (!o.plain && s.chance(30) ? fmt("0x%x + %d<<%d", t.v >> 4, 0, 4) + fmt("|%d", t.v & 15) : s.coin() ? fmt("0x%x", t.v) : fmt("%d", t.v)); break;
        case Item::RES: x = kw(t.unit == 1 ? "resb" : "resw") + gap() + t.text; break;
        case Item::DB: case Item::DW:
            x = kw(t.k == Item::DB ? "db" : "dw") + gap();
            for (size_t i = 0; i < t.data.size(); ++i) x += Str(i ? "," : "") + (i && s.coin() ? " " : "") + t.data[i].text;
            break;
        case Item::INS: {
            const Ins& i = t.ins;
            if (i.rep) x += kw("rep") + gap();
            Str m = i.op;
            int cc = ccOf(m);
            if (cc >= 0 && !o.plain && s.coin()) for (auto& y : SYN) if (y.cc == cc && s.coin()) m = y.n;
            x += kw(m);
            if (i.a.k) x += gap() + (i.isShort ? kw("short") + gap() : Str()) + ot(i.a.text);
            if (i.b.k) x += Str(!o.plain && s.chance(15) ? " ," : ",") + (o.plain || s.chance(80) ? " " : "") + ot(i.b.text);
            break; }
        }
        t.text = t.k == Item::EQU || t.k == Item::RES ? t.text : x.substr(0, 120);
        emit(x);
        emit(t.k == Item::LBL && !o.plain && s.chance(30) ? gap() : eol());
    }
    if (!p.it.empty()) p.it.back().line1 = line;
    return r;
}

// ------------------------------------------------------------------ reference parser
struct PTok { char k; Str t; int v = 0; };   // i id, n number, s string, p punctuation, e end
struct Bad { Str m; };
Str parse(const Str& text, Prog& p, bool& nojudge) {
    nojudge = false;
    std::vector<PTok> tk;
    try {
        size_t i = 0, n = text.size();
        size_t z = text.find('\0'); if (z != Str::npos) n = z;
        while (i < n) {
            signed char c = text[i];
            if (c <= ' ') { ++i; continue; }
            if (c == ';') { while (i < n && text[i] != '\n') ++i; continue; }
            if (isdigit(c)) {
                size_t b = i; long long v = 0;
                if (c == '0' && i + 1 < n && (text[i + 1] == 'x' || text[i + 1] == 'X')) {
                    i += 2; while (i < n && isxdigit((unsigned char)text[i])) { v = v * 16 + (isdigit((unsigned char)text[i]) ? text[i] - '0' : (text[i] | 32) - 'a' + 10); if (v > 0xffff) nojudge = true; v &= 0xfffffff; ++i; }
                } else while (i < n && isdigit((unsigned char)text[i])) { v = v * 10 + text[i] - '0'; if (v > 0xffff) nojudge = true; v &= 0xfffffff; ++i; }
                tk.push_back({'n', text.substr(b, i - b), (int)v});
                continue;
            }
            if (idch(c)) { size_t b = i; while (i < n && (signed char)text[i] > 0 && idch(text[i])) ++i; Str w = text.substr(b, i - b); if (w.size() > 16) w.resize(16); tk.push_back({'i', w}); continue; }
            if (c == '\'') { size_t e = text.find('\'', i + 1); if (e == Str::npos || e >= n) throw Bad{"unterminated string"}; Str w = text.substr(i + 1, e - i - 1); if (w.size() > 126) nojudge = true; tk.push_back({'s', w}); i = e + 1; continue; }
            if (c == '<' && i + 1 < n && text[i + 1] == '<') { tk.push_back({'p', "<<"}); i += 2; continue; }
            if (strchr("+-:,[]|~", c)) { tk.push_back({'p', Str(1, (char)c)}); ++i; continue; }
            throw Bad{"invalid character"};
        }
    } catch (Bad& b) { return b.m; }
    tk.push_back({'e', ""});
    size_t q = 0;
    std::map<Str, int> equ; std::map<Str, int> labs; // current meaning
    std::vector<bool> defined;
    bool bss = false;
    auto is = [&](const Str& x) { return tk[q].k == 'p' && tk[q].t == x; };
    auto kw = [&]() { return tk[q].k == 'i' && reserved(tk[q].t) ? lower(tk[q].t) : Str(); };
    auto isNum = [&]() { return tk[q].k == 'n' || (tk[q].k == 'i' && equ.count(tk[q].t)); };
    auto num = [&]() { int v = tk[q].k == 'n' ? tk[q].v : equ[tk[q].t]; ++q; return v; };
    std::function<int()> un = [&]() -> int {
        if (is("+")) { ++q; return un(); }
        if (is("-")) { ++q; return -un(); }
        if (is("~")) { ++q; return ~un(); }
        if (isNum()) return num();
        if (tk[q].k == 's') { const Str& t = tk[q].t; if (t.empty() || t.size() > 2) throw Bad{"bad character constant"}; int v = (uint8_t)t[0] | (t.size() > 1 ? (uint8_t)t[1] << 8 : 0); ++q; return v; }
        throw Bad{"number expected"};
    };
    auto sum = [&]() { int v = un(); while (is("+") || is("-")) { bool m = is("-"); ++q; int x = un(); v = (int)((unsigned)v + (unsigned)(m ? -x : x)); } return v; };
    auto shf = [&]() { int v = sum(); while (is("<<")) { ++q; int x = sum(); if (x < 0 || x > 15) { nojudge = true; x &= 15; } v = (int)((unsigned)v << x); } return v; };
    auto expr = [&]() { int v = shf(); while (is("|")) { ++q; v |= shf(); } if (v > 65535 || v < -65536) nojudge = true; return v; };
    auto label = [&]() { // reference to the label named by the current token
        Str n = tk[q].t; ++q;
        auto it = labs.find(n);
        if (it == labs.end()) { Label l; l.name = n; l.local = n[0] == '.'; p.lab.push_back(l); defined.push_back(false); labs[n] = (int)p.lab.size() - 1; return (int)p.lab.size() - 1; }
        return it->second;
    };
    auto userId = [&]() { return tk[q].k == 'i' && !reserved(tk[q].t) && !equ.count(tk[q].t); };
    auto operand = [&](bool target) -> Op {
        Op o;
        Str k = kw();
        if (isNum() || tk[q].k == 's' || is("+") || is("-") || is("~")) { o.k = target ? Op::TGT : Op::IMM; o.v = expr(); return o; }
        if (k == "byte" || k == "word") { o.size = k == "byte" ? 1 : 2; ++q; if (!is("[")) throw Bad{"memory operand expected"}; }
        if (is("[")) {
            ++q; o.k = Op::MEM;
            int regs = 0; bool neg = false;
            for (;;) {
                Str r = kw(); int si = -1;
                for (int i = 0; i < 4; ++i) if (r == SRN[i]) si = i;
                if (si >= 0) { if (o.seg >= 0 || regs || neg) nojudge = true; o.seg = si; ++q; if (!is(":")) throw Bad{"':' expected"}; ++q; continue; }
                int b = r == "bx" ? 1 : r == "bp" ? 2 : r == "si" ? 4 : r == "di" ? 8 : 0;
                if (b) { if (neg) throw Bad{"register subtracted"}; if (o.base & b) throw Bad{"register twice"}; o.base |= b; ++regs; ++q; }
                else if (isNum()) { int v = num(); o.v += neg ? -v : v; }
                else if (userId()) { if (neg) throw Bad{"label subtracted"}; if (o.lab >= 0) nojudge = true; o.lab = label(); }
                else throw Bad{"bad memory operand"};
                if (is("-")) { neg = true; ++q; continue; }
                neg = false;
                if (!is("+")) break;
                ++q;
            }
            if (!is("]")) throw Bad{"']' expected"};
            ++q;
            if ((o.base & 3) == 3 || (o.base & 12) == 12) throw Bad{"no such addressing mode"};
            o.v &= 0xffff;
            return o;
        }
        for (int i = 0; i < 8; ++i) { if (k == R8N[i]) { o.k = Op::R8; o.v = i; o.size = 1; ++q; return o; } if (k == R16N[i]) { o.k = Op::R16; o.v = i; o.size = 2; ++q; return o; } }
        for (int i = 0; i < 4; ++i) if (k == SRN[i]) { o.k = Op::SR; o.v = i; o.size = 2; ++q; return o; }
        if (userId()) { o.k = target ? Op::TGT : Op::IMM; o.lab = label(); o.size = 2; return o; }
        throw Bad{"operand expected"};
    };
    auto imm8ok = [&](int v) { if (v < -128 || v > 255) nojudge = true; };
    bool repPending = false;
    try {
        while (tk[q].k != 'e') {
            Item t; t.text = tk[q].t;
            if (tk[q].k != 'i') throw Bad{"statement expected"};
            Str w = kw();
            auto need = [&](bool c, const char* m) { if (!c) throw Bad{m}; };
            if (w.empty()) {
                if (equ.count(tk[q].t)) throw Bad{"redefined"};
                Str n = tk[q].t;
                ++q;
                if (is(":")) {
                    ++q;
                    if (repPending) nojudge = true;
                    --q; // reuse label()
                    q -= 1; int l = label(); ++q;
                    if (defined[l]) throw Bad{"label defined twice"};
                    defined[l] = true;
                    t.k = Item::LBL; t.lab = l; p.it.push_back(t);
                    if (n[0] != '.') for (auto it = labs.begin(); it != labs.end();) { if (it->first[0] == '.') { if (!defined[it->second]) throw Bad{"undefined local label"}; it = labs.erase(it); } else ++it; }
                    if (n[0] != '.') for (auto it = equ.begin(); it != equ.end();) { if (it->first[0] == '.') { nojudge = true; it = equ.erase(it); } else ++it; }
                    continue;
                }
                if (kw() == "equ") {
                    if (labs.count(n)) throw Bad{"label used as constant"};
                    ++q; 
                    if (tk[q].k == 'i' && tk[q].t == n) nojudge = true;
                    int v = expr();
                    if (tk[q].k == 'i' && tk[q].t == n) nojudge = true;
                    equ[n] = v; t.k = Item::EQU; p.it.push_back(t); continue;
                }
                throw Bad{"':' or equ expected"};
            }
            ++q;
            if (repPending && !(w == "movsb" || w == "cmpsb" || w == "stosb" || w == "stosw" || w == "lodsb")) nojudge = true;
            if (w == "cpu") { need(expr() == 8086, "cpu"); t.k = Item::CPU; }
            else if (w == "org") { t.k = Item::ORG; t.v = expr(); if (t.v < 0 || t.v > 0xf000) nojudge = true; }
            else if (w == "resb" || w == "resw") { t.k = Item::RES; t.unit = w == "resb" ? 1 : 2; t.v = expr(); bss = true; if (t.v < 0 || t.v > 20000) nojudge = true; }
            else if (w == "db" || w == "dw") {
                t.k = w == "db" ? Item::DB : Item::DW;
                need(!bss, "data after reserved space");
                for (;;) {
                    Datum d;
                    if (isNum()) { d.v = num(); if (w == "db") imm8ok(d.v); }
                    else if (tk[q].k == 's') { d.isStr = true; d.str = tk[q].t; ++q; }
                    else if (userId()) { need(w == "dw", "label in db"); d.lab = label(); }
                    else throw Bad{"bad data item"};
                    t.data.push_back(d);
                    if (!is(",")) break;
                    ++q;
                }
            } else {
                need(!bss, "code after reserved space");
                Ins& i = t.ins; i.op = w; t.k = Item::INS;
                bool noarg = false; for (auto x : NOARG) if (w == x) noarg = true;
                int cc = ccOf(w);
                bool alu = false; for (auto x : ALU) if (w == x) alu = true;
                if (w == "rep") { if (repPending) nojudge = true; repPending = true; continue; }
                i.rep = repPending; repPending = false;
                auto two = [&]() { i.a = operand(false); need(is(","), "',' expected"); ++q; i.b = operand(false); };
                auto gp = [](const Op& o) { return o.k == Op::R8 || o.k == Op::R16; };
                auto sized = [&]() { // sizes must agree
                    int sz = gp(i.a) || i.a.k == Op::SR ? i.a.size : gp(i.b) || i.b.k == Op::SR ? i.b.size : i.a.size;
                    need(sz != 0, "operand size not specified");
                    for (Op* o : {&i.a, &i.b}) { if (o->k == Op::MEM) { if (o->size && o->size != sz) throw Bad{"size mismatch"}; o->size = sz; } else if (o->k == Op::IMM) { if (sz == 1) { need(o->lab < 0, "label as byte"); imm8ok(o->v); } } else if (o->k) need(o->size == sz, "size mismatch"); }
                };
                auto oneRM = [&](bool memOk) { i.a = operand(false); need(gp(i.a) || (memOk && i.a.k == Op::MEM && i.a.size), "bad operand"); };
                if (noarg) {}
                else if (cc >= 0) { i.op = CC[cc]; if (kw() == "short") { ++q; i.isShort = true; } i.a = operand(true); need(i.a.k == Op::TGT, "bad jump"); }
                else if (w == "jmp") { if (kw() == "short") { ++q; i.isShort = true; } i.a = operand(true); need(i.a.k == Op::TGT, "bad jump"); }
                else if (w == "call") { i.a = operand(true); need(i.a.k == Op::TGT || i.a.k == Op::R16, "bad call"); }
                else if (w == "mov") {
                    two();
                    need(i.a.k == Op::MEM || gp(i.a) || i.a.k == Op::SR, "bad destination");
                    if (i.a.k == Op::SR) { need(i.b.k == Op::R16 || i.b.k == Op::MEM, "bad segment move"); if (i.a.v == 1) nojudge = true; }
                    if (i.b.k == Op::SR) need(i.a.k == Op::R16 || i.a.k == Op::MEM, "bad segment move");
                    need(!(i.a.k == Op::MEM && i.b.k == Op::MEM), "two memory operands");
                    sized();
                } else if (alu) { two(); need(i.a.k == Op::MEM || gp(i.a), "bad destination"); need(i.b.k != Op::SR, "segment register"); need(!(i.a.k == Op::MEM && i.b.k == Op::MEM), "two memory operands"); sized(); }
                else if (w == "test") { two(); need(i.a.k == Op::MEM || gp(i.a), "bad destination"); need(i.b.k != Op::SR, "segment register"); need(!(i.a.k == Op::MEM && i.b.k == Op::MEM), "two memory operands"); sized(); }
                else if (w == "xchg") { two(); need(gp(i.a) || gp(i.b), "bad xchg"); need((gp(i.a) || i.a.k == Op::MEM) && (gp(i.b) || i.b.k == Op::MEM), "bad xchg"); sized(); }
                else if (w == "lea") { two(); need(i.a.k == Op::R16 && i.b.k == Op::MEM, "bad lea"); i.b.size = 0; }
                else if (w == "shl" || w == "shr" || w == "sar") { two(); need(gp(i.a) || (i.a.k == Op::MEM && i.a.size), "bad operand"); need((i.b.k == Op::R8 && i.b.v == 1) || (i.b.k == Op::IMM && i.b.lab < 0 && i.b.v == 1), "bad shift count"); }
                else if (w == "inc" || w == "dec" || w == "mul" || w == "imul" || w == "div" || w == "idiv" || w == "not" || w == "neg") oneRM(true);
                else if (w == "push") { i.a = operand(false); need(i.a.k == Op::R16 || i.a.k == Op::SR || (i.a.k == Op::MEM && i.a.size == 2), "bad push"); }
                else if (w == "pop") { i.a = operand(false); need(i.a.k == Op::R16 || i.a.k == Op::SR || (i.a.k == Op::MEM && i.a.size == 2), "bad pop"); if (i.a.k == Op::SR && i.a.v == 1) nojudge = true; }
                else if (w == "int") { i.a.k = Op::IMM; i.a.size = 1; i.a.v = expr(); need(i.a.v >= 0 && i.a.v < 256, "bad interrupt"); }
                else throw Bad{"unknown statement"};
            }
            p.it.push_back(t);
        }
        if (repPending) nojudge = true;
        for (size_t i = 0; i < p.lab.size(); ++i) if (!defined[i]) throw Bad{"label " + p.lab[i].name + " is never defined"};
    } catch (Bad& b) { return b.m; }
    return "";
}
} // namespace as
