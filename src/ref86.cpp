#include "ref86.h"

Ref86::Ref86() : mem(1 << 20) { memset(r, 0, sizeof r); memset(s, 0, sizeof s); ip = 0; fl = 2; baseSeg = 0x1000; }

void Ref86::load(const Bytes& im, const Str& tail, uint64_t seed) {
    // memory a program does not initialise itself has arbitrary contents
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + 1;
    for (size_t i = 0; i < mem.size(); i += 8) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        memcpy(&mem[i], &x, 8);
    }
    uint32_t b = (uint32_t)baseSeg * 16;
    memset(&mem[b], 0, 256);
    mem[b] = 0xCD; mem[b + 1] = 0x20;
    mem[b + 2] = 0; mem[b + 3] = 0xa0;
    size_t n = std::min<size_t>(tail.size(), 126);
    mem[b + 0x80] = (uint8_t)n;
    memcpy(&mem[b + 0x81], tail.data(), n);
    mem[b + 0x81 + n] = 13;
    for (size_t i = 0; i < im.size() && i < 0xff00; ++i) mem[b + 0x100 + i] = im[i];
    for (int i = 0; i < 8; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; r[i] = (uint16_t)x; }
    r[AX] = 0;
    for (int i = 0; i < 4; ++i) s[i] = baseSeg;
    r[SP] = 0xfffe; mem[b + 0xfffe] = mem[b + 0xffff] = 0;
    ip = 0x100; fl = 0x202;
    h.assign(5, Handle());
    for (auto& e : h) e.used = true;
    console.clear(); trace.clear(); steps = 0; stop = RUNNING; exitCode = -1; why.clear(); minSP = 0xffff; writes.clear(); createCount.clear();
}
Str Ref86::stateStr() const {
    return fmt("AX=%04X CX=%04X DX=%04X BX=%04X SP=%04X BP=%04X SI=%04X DI=%04X ES=%04X CS=%04X SS=%04X DS=%04X IP=%04X FL=%04X", r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], s[0], s[1], s[2], s[3], ip, fl);
}
Ref86::Stop Ref86::run() { while (stop == RUNNING) step(); return stop; }

uint16_t Ref86::getReg(int n, bool w) const { return w ? r[n] : n < 4 ? r[n] & 0xff : r[n - 4] >> 8; }
void Ref86::setReg(int n, bool w, uint16_t v) {
    if (w) r[n] = v;
    else if (n < 4) r[n] = (r[n] & 0xff00) | (v & 0xff);
    else r[n - 4] = (r[n - 4] & 0xff) | (v & 0xff) << 8;
}
void Ref86::modrm() {
    uint8_t m = f8();
    mod = m >> 6; reg = m >> 3 & 7; rm = m & 7;
    if (mod == 3) return;
    uint16_t base = 0; int sg = DS;
    switch (rm) {
    case 0: base = r[BX] + r[SI]; break;
    case 1: base = r[BX] + r[DI]; break;
    case 2: base = r[BP] + r[SI]; sg = SS; break;
    case 3: base = r[BP] + r[DI]; sg = SS; break;
    case 4: base = r[SI]; break;
    case 5: base = r[DI]; break;
    case 6: if (mod == 0) base = f16(); else { base = r[BP]; sg = SS; } break;
    case 7: base = r[BX]; break;
    }
    if (mod == 1) base += (int8_t)f8();
    else if (mod == 2) base += f16();
    ea = base;
    eseg = segOv >= 0 ? segOv : sg;
}
uint16_t Ref86::getRM(bool w) { return mod == 3 ? getReg(rm, w) : w ? rd16(eseg, ea) : rd8(eseg, ea); }
void Ref86::setRM(bool w, uint16_t v) { if (mod == 3) setReg(rm, w, v); else if (w) wr16(eseg, ea, v); else wr8(eseg, ea, (uint8_t)v); }
void Ref86::push(uint16_t v) { r[SP] -= 2; wr16(SS, r[SP], v); if (r[SP] < minSP) minSP = r[SP]; }
uint16_t Ref86::pop() { uint16_t v = rd16(SS, r[SP]); r[SP] += 2; return v; }
void Ref86::szp(uint16_t v, bool w) {
    if (!w) v &= 0xff;
    setF(ZF, v == 0); setF(SF, v & (w ? 0x8000 : 0x80)); setF(PF, !(__builtin_popcount(v & 0xff) & 1));
}
uint16_t Ref86::alu(int op, uint16_t a, uint16_t b, bool w) {
    uint32_t m = w ? 0xffff : 0xff, sb = w ? 0x8000 : 0x80, res;
    a &= m; b &= m;
    uint32_t c = fl & CF ? 1 : 0;
    switch (op) {
    case 0: case 2: {
        if (op == 0) c = 0;
        res = a + b + c;
        setF(CF, res > m); setF(OF, ~(a ^ b) & (a ^ res) & sb); setF(AF, (a ^ b ^ res) & 16);
        break; }
    case 3: case 5: case 7: {
        if (op != 3) c = 0;
        res = (uint32_t)a - b - c;
        setF(CF, (uint32_t)a < (uint32_t)b + c); setF(OF, (a ^ b) & (a ^ res) & sb); setF(AF, (a ^ b ^ res) & 16);
        break; }
    case 1: res = a | b; setF(CF | OF | AF, false); break;
    case 4: res = a & b; setF(CF | OF | AF, false); break;
    default: res = a ^ b; setF(CF | OF | AF, false); break;
    }
    szp((uint16_t)res, w);
    return res & m;
}
uint16_t Ref86::incdec(uint16_t a, bool dec, bool w) {
    uint16_t c = fl & CF;
    uint16_t v = alu(dec ? 5 : 0, a, 1, w);
    fl = (fl & ~CF) | c;
    return v;
}
uint16_t Ref86::shift(int op, uint16_t a, int n, bool w) {
    int bits = w ? 16 : 8;
    uint32_t m = w ? 0xffff : 0xff, sb = w ? 0x8000 : 0x80;
    a &= m;
    if (!n) return a;
    for (int i = 0; i < n; ++i) {
        bool c = fl & CF, o;
        switch (op) {
        case 0: c = a & sb; a = (a << 1 | c) & m; o = !!(a & sb) ^ c; break;
        case 1: c = a & 1; a = a >> 1 | (c ? sb : 0); o = !!(a & sb) ^ !!(a & sb >> 1); break;
        case 2: { bool nc = a & sb; a = (a << 1 | c) & m; c = nc; o = !!(a & sb) ^ c; break; }
        case 3: { bool nc = a & 1; a = a >> 1 | (c ? sb : 0); c = nc; o = !!(a & sb) ^ !!(a & sb >> 1); break; }
        case 4: case 6: c = a & sb; a = a << 1 & m; o = !!(a & sb) ^ c; break;
        case 5: c = a & 1; o = a & sb; a = a >> 1; break;
        default: c = a & 1; o = false; a = a >> 1 | (a & sb); break;
        }
        setF(CF, c); setF(OF, o);
    }
    (void)bits;
    if (op >= 4) { szp(a, w); }
    return a;
}
bool Ref86::cond(int c) const {
    bool v;
    switch (c >> 1) {
    case 0: v = fl & OF; break;
    case 1: v = fl & CF; break;
    case 2: v = fl & ZF; break;
    case 3: v = fl & (CF | ZF); break;
    case 4: v = fl & SF; break;
    case 5: v = fl & PF; break;
    case 6: v = !(fl & SF) != !(fl & OF); break;
    default: v = (fl & ZF) || (!(fl & SF) != !(fl & OF)); break;
    }
    return v ^ (c & 1);
}
void Ref86::strOp(uint8_t op) {
    bool w = op & 1;
    int d = (fl & DF) ? -(w + 1) : w + 1;
    int sg = segOv >= 0 ? segOv : DS;
    bool cmp = (op & ~1) == 0xA6 || (op & ~1) == 0xAE;
    uint64_t n = 0;
    for (;;) {
        if (rep) { if (!r[CX]) break; --r[CX]; }
        switch (op & ~1) {
        case 0xA4: if (w) wr16(ES, r[DI], rd16(sg, r[SI])); else wr8(ES, r[DI], rd8(sg, r[SI])); r[SI] += d; r[DI] += d; break;
        case 0xA6: alu(7, w ? rd16(sg, r[SI]) : rd8(sg, r[SI]), w ? rd16(ES, r[DI]) : rd8(ES, r[DI]), w); r[SI] += d; r[DI] += d; break;
        case 0xAA: if (w) wr16(ES, r[DI], r[AX]); else wr8(ES, r[DI], (uint8_t)r[AX]); r[DI] += d; break;
        case 0xAC: setReg(AX, w, w ? rd16(sg, r[SI]) : rd8(sg, r[SI])); r[SI] += d; break;
        case 0xAE: alu(7, w ? r[AX] : r[AX] & 0xff, w ? rd16(ES, r[DI]) : rd8(ES, r[DI]), w); r[DI] += d; break;
        }
        ++n;
        if (!rep) break;
        if (cmp && (!(fl & ZF)) == (rep == 0xF3)) break;
    }
    steps += n / 4;
}
bool Ref86::step() {
    if (stop != RUNNING) return false;
    if (++steps > budget) { stop = BUDGET; why = "instruction budget exhausted"; return false; }
    uint16_t ip0 = ip;
    segOv = -1; rep = 0;
    uint8_t op;
    for (;;) {
        op = f8();
        if (op == 0x26 || op == 0x2E || op == 0x36 || op == 0x3E) { segOv = op >> 3 & 3; continue; }
        if (op == 0xF2 || op == 0xF3) { rep = op; continue; }
        if (op == 0xF0) continue;
        break;
    }
    bool w = op & 1;
    auto bad = [&]() { stop = BADOP; why = fmt("invalid opcode %02X at %04X", op, ip0); };
    if (op < 0x40 && (op & 7) < 6) {
        int k = op >> 3;
        switch (op & 7) {
        case 0: case 1: { modrm(); uint16_t v = alu(k, getRM(w), getReg(reg, w), w); if (k != 7) setRM(w, v); break; }
        case 2: case 3: { modrm(); uint16_t v = alu(k, getReg(reg, w), getRM(w), w); if (k != 7) setReg(reg, w, v); break; }
        default: { uint16_t i = w ? f16() : f8(); uint16_t v = alu(k, getReg(AX, w), i, w); if (k != 7) setReg(AX, w, v); }
        }
        return true;
    }
    switch (op) {
    case 0x06: case 0x0E: case 0x16: case 0x1E: push(s[op >> 3]); break;
    case 0x07: case 0x17: case 0x1F: s[op >> 3] = pop(); break;
    case 0x27: { uint8_t al = r[AX]; bool oc = fl & CF; uint8_t o = al; if ((al & 15) > 9 || fl & AF) { al += 6; setF(AF, true); } else setF(AF, false); if (o > 0x99 || oc) { al += 0x60; setF(CF, true); } else setF(CF, false); setReg(0, false, al); szp(al, false); break; }
    case 0x40: case 0x41: case 0x42: case 0x43: case 0x44: case 0x45: case 0x46: case 0x47:
        r[op & 7] = incdec(r[op & 7], false, true); break;
    case 0x48: case 0x49: case 0x4A: case 0x4B: case 0x4C: case 0x4D: case 0x4E: case 0x4F:
        r[op & 7] = incdec(r[op & 7], true, true); break;
    case 0x50: case 0x51: case 0x52: case 0x53: case 0x55: case 0x56: case 0x57: push(r[op & 7]); break;
    case 0x54: { uint16_t v = r[SP] - 2; push(v); break; }   // 8086 pushes the new value
    case 0x58: case 0x59: case 0x5A: case 0x5B: case 0x5D: case 0x5E: case 0x5F: r[op & 7] = pop(); break;
    case 0x5C: { uint16_t v = pop(); r[SP] = v; break; }
    case 0x80: case 0x81: case 0x82: case 0x83: {
        modrm(); uint16_t a = getRM(w), i = op == 0x81 ? f16() : op == 0x83 ? (uint16_t)(int8_t)f8() : f8();
        uint16_t v = alu(reg, a, i, w); if (reg != 7) setRM(w, v); break; }
    case 0x84: case 0x85: modrm(); alu(4, getRM(w), getReg(reg, w), w); break;
    case 0x86: case 0x87: { modrm(); uint16_t a = getRM(w), b = getReg(reg, w); setRM(w, b); setReg(reg, w, a); break; }
    case 0x88: case 0x89: modrm(); setRM(w, getReg(reg, w)); break;
    case 0x8A: case 0x8B: modrm(); setReg(reg, w, getRM(w)); break;
    case 0x8C: modrm(); setRM(true, s[reg & 3]); break;
    case 0x8D: modrm(); if (mod == 3) { bad(); break; } r[reg] = ea; break;
    case 0x8E: modrm(); if ((reg & 3) == CS) { bad(); break; } s[reg & 3] = getRM(true); break;
    case 0x8F: { modrm(); uint16_t v = pop(); setRM(true, v); break; }
    case 0x90: case 0x91: case 0x92: case 0x93: case 0x94: case 0x95: case 0x96: case 0x97: std::swap(r[AX], r[op & 7]); break;
    case 0x98: r[AX] = (uint16_t)(int8_t)r[AX]; break;
    case 0x99: r[DX] = r[AX] & 0x8000 ? 0xffff : 0; break;
    case 0x9A: { uint16_t o = f16(), sg = f16(); push(s[CS]); push(ip); ip = o; s[CS] = sg; break; }
    case 0x9B: break;
    case 0x9C: push((fl & 0xfd5) | 0xf002); break;
    case 0x9D: fl = (pop() & 0xfd5) | 2; break;
    case 0x9E: fl = (fl & 0xff00) | (r[AX] >> 8 & 0xd5) | 2; break;
    case 0x9F: r[AX] = (r[AX] & 0xff) | (fl & 0xff) << 8; break;
    case 0xA0: case 0xA1: { uint16_t o = f16(); int sg = segOv >= 0 ? segOv : DS; setReg(AX, w, w ? rd16(sg, o) : rd8(sg, o)); break; }
    case 0xA2: case 0xA3: { uint16_t o = f16(); int sg = segOv >= 0 ? segOv : DS; if (w) wr16(sg, o, r[AX]); else wr8(sg, o, (uint8_t)r[AX]); break; }
    case 0xA4: case 0xA5: case 0xA6: case 0xA7: case 0xAA: case 0xAB: case 0xAC: case 0xAD: case 0xAE: case 0xAF: strOp(op); break;
    case 0xA8: alu(4, r[AX], f8(), false); break;
    case 0xA9: alu(4, r[AX], f16(), true); break;
    case 0xC2: { uint16_t n = f16(); ip = pop(); r[SP] += n; break; }
    case 0xC3: ip = pop(); break;
    case 0xC4: case 0xC5: modrm(); if (mod == 3) { bad(); break; } { uint16_t o = rd16(eseg, ea), sg = rd16(eseg, ea + 2); r[reg] = o; s[op == 0xC4 ? ES : DS] = sg; } break;
    case 0xC6: { modrm(); uint8_t i = f8(); setRM(false, i); break; }
    case 0xC7: { modrm(); uint16_t i = f16(); setRM(true, i); break; }
    case 0xCA: { uint16_t n = f16(); ip = pop(); s[CS] = pop(); r[SP] += n; break; }
    case 0xCB: ip = pop(); s[CS] = pop(); break;
    case 0xCC: case 0xCD: {
        int n = op == 0xCC ? 3 : f8();
        if (n == 0x21) dos();
        else if (n == 0x20) { stop = EXITED; exitCode = 0; }
        else if (n == 0xF1) trace.push_back(r[AX]);
        else if (intHook && intHook(*this, n)) {}
        else { stop = BADINT; why = fmt("unhandled INT %02X at %04X", n, ip0); }
        break; }
    case 0xCF: ip = pop(); s[CS] = pop(); fl = (pop() & 0xfd5) | 2; break;
    case 0xD0: case 0xD1: case 0xD2: case 0xD3: { modrm(); int n = op & 2 ? r[CX] & 0xff : 1; uint16_t a = getRM(w); setRM(w, shift(reg, a, n, w)); break; }
    case 0xD7: setReg(0, false, rd8(segOv >= 0 ? segOv : DS, r[BX] + (r[AX] & 0xff))); break;
    case 0xE0: { int8_t d = f8(); if (--r[CX] && !(fl & ZF)) ip += d; break; }
    case 0xE1: { int8_t d = f8(); if (--r[CX] && (fl & ZF)) ip += d; break; }
    case 0xE2: { int8_t d = f8(); if (--r[CX]) ip += d; break; }
    case 0xE3: { int8_t d = f8(); if (!r[CX]) ip += d; break; }
    case 0xE4: case 0xE5: case 0xEC: case 0xED: { uint16_t p = op & 8 ? r[DX] : f8(); uint16_t v = 0xffff; if (!portHook || !portHook(*this, p, false, v)) { bad(); break; } setReg(AX, w, v); break; }
    case 0xE6: case 0xE7: case 0xEE: case 0xEF: { uint16_t p = op & 8 ? r[DX] : f8(); uint16_t v = r[AX]; if (!portHook || !portHook(*this, p, true, v)) bad(); break; }
    case 0xE8: { uint16_t d = f16(); push(ip); ip += d; break; }
    case 0xE9: { uint16_t d = f16(); ip += d; break; }
    case 0xEA: { uint16_t o = f16(), sg = f16(); ip = o; s[CS] = sg; break; }
    case 0xEB: { int8_t d = f8(); ip += d; break; }
    case 0xF4: stop = HALTED; why = "HLT"; break;
    case 0xF5: fl ^= CF; break;
    case 0xF6: case 0xF7: {
        modrm();
        uint16_t a = getRM(w);
        switch (reg) {
        case 0: case 1: alu(4, a, w ? f16() : f8(), w); break;
        case 2: setRM(w, ~a); break;
        case 3: { uint16_t v = alu(5, 0, a, w); setRM(w, v); break; }
        case 4: if (w) { uint32_t v = (uint32_t)r[AX] * a; r[AX] = v; r[DX] = v >> 16; setF(CF | OF, v >> 16); } else { r[AX] = (r[AX] & 0xff) * (a & 0xff); setF(CF | OF, r[AX] >> 8); } break;
        case 5: if (w) { int32_t v = (int32_t)(int16_t)r[AX] * (int16_t)a; r[AX] = v; r[DX] = (uint32_t)v >> 16; setF(CF | OF, v != (int16_t)v); } else { int v = (int8_t)r[AX] * (int8_t)a; r[AX] = v; setF(CF | OF, v != (int8_t)v); } break;
        case 6: if (w) { uint32_t n = (uint32_t)r[DX] << 16 | r[AX]; if (!a || n / a > 0xffff) { stop = DIVERR; why = fmt("divide error at %04X", ip0); break; } r[AX] = n / a; r[DX] = n % a; } else { a &= 0xff; uint16_t n = r[AX]; if (!a || n / a > 0xff) { stop = DIVERR; why = fmt("divide error at %04X", ip0); break; } r[AX] = (n / a & 0xff) | (n % a) << 8; } break;
        default:
            if (w) { int32_t n = (int32_t)((uint32_t)r[DX] << 16 | r[AX]); int32_t d = (int16_t)a; if (!d || (int64_t)n / d > 32767 || (int64_t)n / d < -32768) { stop = DIVERR; why = fmt("divide error at %04X", ip0); break; } r[AX] = n / d; r[DX] = n % d; }
            else { int n = (int16_t)r[AX], d = (int8_t)a; if (!d || n / d > 127 || n / d < -128) { stop = DIVERR; why = fmt("divide error at %04X", ip0); break; } r[AX] = ((n / d) & 0xff) | (uint16_t)((n % d) << 8); }
        }
        break; }
    case 0xF8: fl &= ~CF; break;
    case 0xF9: fl |= CF; break;
    case 0xFA: fl &= ~IF; break;
    case 0xFB: fl |= IF; break;
    case 0xFC: fl &= ~DF; break;
    case 0xFD: fl |= DF; break;
    case 0xFE: modrm(); if (reg > 1) { bad(); break; } setRM(false, incdec(getRM(false), reg, false)); break;
    case 0xFF:
        modrm();
        switch (reg) {
        case 0: case 1: setRM(true, incdec(getRM(true), reg, true)); break;
        case 2: { uint16_t t = getRM(true); push(ip); ip = t; break; }
        case 3: if (mod == 3) { bad(); break; } { uint16_t o = rd16(eseg, ea), sg = rd16(eseg, ea + 2); push(s[CS]); push(ip); ip = o; s[CS] = sg; } break;
        case 4: ip = getRM(true); break;
        case 5: if (mod == 3) { bad(); break; } { uint16_t o = rd16(eseg, ea), sg = rd16(eseg, ea + 2); ip = o; s[CS] = sg; } break;
        case 6: { if (mod == 3 && rm == SP) push(r[SP] - 2); else { uint16_t v = getRM(true); push(v); } break; }
        default: bad();
        }
        break;
    default:
        if (op >= 0x70 && op < 0x80) { int8_t d = f8(); if (cond(op & 15)) ip += d; }
        else if (op >= 0xB0 && op < 0xB8) setReg(op & 7, false, f8());
        else if (op >= 0xB8 && op < 0xC0) r[op & 7] = f16();
        else bad();
    }
    if (r[SP] < minSP) minSP = r[SP];
    return stop == RUNNING;
}
Str Ref86::dosName(uint16_t seg, uint16_t off) {
    Str n;
    for (int i = 0; i < 200; ++i) { uint8_t c = mem[((uint32_t)seg * 16 + (uint16_t)(off + i)) & 0xfffff]; if (!c) break; n += (char)c; }
    if (!n.compare(0, 2, "./")) n = n.substr(2);
    return n;
}
void Ref86::dos() {
    int ah = r[AX] >> 8;
    switch (ah) {
    case 0x02: console += (char)r[DX]; break;
    case 0x09: for (int i = 0; i < 65536; ++i) { uint8_t c = rd8(DS, r[DX] + i); if (c == '$') break; console += (char)c; } break;
    case 0x30: r[AX] = 0x0003; break;
    case 0x3C: case 0x3D: {
        Str n = dosName(s[DS], r[DX]);
        bool create = ah == 0x3C;
        if (n.empty() || n.find('/') != Str::npos || (!create && !files.count(n)) || (create && failCreate)) { setCarry(true); r[AX] = 2; break; }
        size_t i = 0;
        while (i < h.size() && h[i].used) ++i;
        if (i >= 20) { setCarry(true); r[AX] = 4; break; }
        if (i == h.size()) h.push_back(Handle());
        h[i].used = true; h[i].name = n; h[i].pos = 0; h[i].writable = create || (r[AX] & 3);
        if (create) { files[n].clear(); ++createCount[n]; }
        setCarry(false); r[AX] = i;
        break; }
    case 0x3E: if (r[BX] < h.size() && h[r[BX]].used) { h[r[BX]].used = false; setCarry(false); } else { setCarry(true); r[AX] = 6; } break;
    case 0x3F: case 0x40: {
        size_t i = r[BX];
        if (i >= h.size() || !h[i].used) { setCarry(true); r[AX] = 6; break; }
        if (i < 5) {
            if (ah == 0x40) { for (int k = 0; k < r[CX]; ++k) console += (char)rd8(DS, r[DX] + k); r[AX] = r[CX]; } else r[AX] = 0;
            setCarry(false); break;
        }
        Handle& H = h[i]; Bytes& f = files[H.name];
        if (ah == 0x3F) {
            size_t n = H.pos < f.size() ? std::min<size_t>(r[CX], f.size() - H.pos) : 0;
            for (size_t k = 0; k < n; ++k) wr8(DS, r[DX] + k, f[H.pos + k]);
            H.pos += n; r[AX] = n; setCarry(false);
        } else {
            if (!H.writable) { setCarry(true); r[AX] = 5; break; }
            if (!r[CX]) f.resize(H.pos);
            else { if (f.size() < H.pos + r[CX]) f.resize(H.pos + r[CX]); for (int k = 0; k < r[CX]; ++k) f[H.pos + k] = rd8(DS, r[DX] + k); }
            H.pos += r[CX]; r[AX] = r[CX]; setCarry(false);
        }
        break; }
    case 0x4C: stop = EXITED; exitCode = r[AX] & 0xff; break;
    default: stop = BADINT; why = fmt("unhandled DOS function %02X", ah);
    }
}
