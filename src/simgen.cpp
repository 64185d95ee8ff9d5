#include "simgen.h"
#include <algorithm>
#include <memory>
enum { AX, CX, DX, BX, SP, BP, SI, DI };
enum { ES, CS, SS, DS };
typedef Ref86 R;
static const uint16_t ALLF = R::CF | R::ZF | R::SF | R::OF;

void zeroLoad(Ref86& m, const Bytes& image, const Str& tail, uint16_t base) {
    m.baseSeg = base;
    m.load(image, tail, 1);
    Bytes psp(m.mem.begin() + base * 16, m.mem.begin() + base * 16 + 256);
    psp[2] = (uint8_t)(base + 0x1000); psp[3] = (uint8_t)((base + 0x1000) >> 8);    // the simulator gives a program 64 KiB
    std::fill(m.mem.begin(), m.mem.end(), 0);
    std::copy(psp.begin(), psp.end(), m.mem.begin() + base * 16);
    for (size_t i = 0; i < image.size() && i < 0xff00; ++i) m.mem[base * 16 + 0x100 + i] = image[i];
    for (auto& x : m.r) x = 0;
    m.r[SP] = 0xfffe; m.fl = 2;
}
SimExpect expectRun(const Bytes& image, const std::map<Str, Bytes>& files, const Str& tail, uint16_t base, uint64_t budget) {
    static thread_local std::unique_ptr<Ref86> keep;
    keep.reset(new Ref86());
    Ref86& m = *keep;
    zeroLoad(m, image, tail, base);
    m.files = files; m.budget = budget;
    m.run();
    SimExpect e; e.ok = m.stop == R::EXITED; e.files = m.files; e.console = m.console; e.exitCode = m.exitCode; e.why = m.why; e.steps = m.steps;
    return e;
}

SimGen::SimGen(Src& s_, const SimOpts& o_, uint16_t b) : s(s_), o(o_), base(b) {
    zeroLoad(m, Bytes(), "", base);
    m.budget = 3000000;
    put({0xE9, (CODE - 0x103) & 255, (CODE - 0x103) >> 8});
    for (char c : Str("OUT.BIN")) putb(c);
    putb(0);
    while (here() < DATA) putb(0);
    for (int i = 0; i < 256; ++i) putb(s.chance(50) ? 0 : s.u8());
    while (here() < CODE) putb(0x90);
    if (o.pad) {
        padding.resize(o.pad + 0x100 - STACK);
        uint32_t x = s.below(65536) * 2 + 1;
        for (size_t i = 0; i < padding.size(); ++i) { x = x * 1103515245u + 12345; m.mem[base * 16 + STACK + i] = padding[i] = x >> 20; }
    }
    go();
    for (int i : {AX, CX, DX, BX, BP, SI, DI}) if (s.chance(70)) movi(i, val(true));
}
void SimGen::go() {
    m.step();
    if (m.stop != R::RUNNING && m.stop != R::EXITED) throw Failure{"generator: reference stops: " + m.why};
    stepDef.push_back(def);
}
int SimGen::val(bool w) {
    static const int e16[] = {0, 1, 0xffff, 0x7fff, 0x8000, 0x80, 0x7f, 0xff, 0x100, 0xff00, 0xff80, 0xff7f, 2, 0xfffe, 0x8001};
    static const int e8[] = {0, 1, 0xff, 0x7f, 0x80, 2, 0xfe, 0x81, 0x10};
    if (w) return s.chance(50) ? e16[s.below(15)] : s.chance(30) ? (int)s.below(256) : (int)s.below(65536);
    return s.chance(50) ? e8[s.below(9)] : (int)s.below(256);
}
void SimGen::setReg(int r, int v) {
    v &= 0xffff;
    switch (s.below(r == SP ? 2 : 7)) {
    case 0: movi(r, v); break;
    case 1: { int a = s.below(65536); movi(r, a); def = ALLF; put({0x81, 0xC0 | r}); putw(v - a); go(); break; }
    case 2: { int a = s.below(65536); movi(r, a); def = ALLF; put({0x81, 0xE8 | r}); putw(a - v); go(); break; }
    case 3: movi(r, -v); def = ALLF; put({0xF7, 0xD8 | r}); go(); break;
    case 4: movi(r, ~v); put({0xF7, 0xD0 | r}); go(); break;
    case 5: if (r < 4) { putb(0xB0 + r); putb(v); go(); putb(0xB4 + r); putb(v >> 8); go(); } else { movi(r, v); } break;
    default: { movi(r, v + 1); def = (def & R::CF) | (ALLF & ~R::CF); putb(0x48 + r); go(); break; }
    }
}
void SimGen::setSeg(int sr, int delta) {
    delta &= 0xffff;
    put({0x8C, 0xC8}); go();            // mov ax, cs
    if (delta) { def = ALLF; putb(0x05); putw(delta); go(); }
    if (s.coin() || sr == SS) { put({0x8E, 0xC0 | sr << 3}); go(); }
    else { putb(0x50); go(); putb(0x07 | sr << 3); go(); }
}
void SimGen::logRegs() {
    if (log > LOGEND - 64) return;
    for (int r = 0; r < 8; ++r) {
        if (s.chance(15)) continue;
        if (m.s[DS] != base || s.chance(20)) putb(s.coin() ? 0x2E : 0x36);
        if (m.s[SS] != base && im.back() == 0x36) { patch(here() - 1, 0x2E); }
        if (r == AX && s.coin()) putb(0xA3); else put({0x89, 0x06 | r << 3});
        putw(log); log += 2; go();
    }
}
bool SimGen::condTrue(int c) const {
    bool v; uint16_t f = m.fl;
    switch (c >> 1) { case 0: v = f & R::OF; break; case 1: v = f & R::CF; break; case 2: v = f & R::ZF; break; case 3: v = f & (R::CF | R::ZF); break; case 4: v = f & R::SF; break; case 6: v = !(f & R::SF) != !(f & R::OF); break; default: v = (f & R::ZF) || (!(f & R::SF) != !(f & R::OF)); }
    return v != (c & 1);
}
static const int NEED[8] = {R::OF, R::CF, R::ZF, R::CF | R::ZF, R::SF, 0xffff, R::SF | R::OF, R::ZF | R::SF | R::OF};
int SimGen::cc() {
    std::vector<int> c;
    for (int i = 0; i < 16; ++i) if ((def & NEED[i >> 1]) == NEED[i >> 1]) c.push_back(i);
    return c.empty() ? -1 : c[s.below(c.size())];
}
void SimGen::logFlags() {
    if (log > LOGEND - 64) return;
    for (int i = 0; i < 8; ++i) {
        if ((def & NEED[i]) != NEED[i] || s.chance(25)) continue;
        int c = i * 2 + s.below(2);
        auto st = [&](int v) { putb(0x2E); put({0xC6, 0x06}); putw(log); putb(v); };
        st(1); go();
        bool t = condTrue(c);
        putb(0x70 | c); putb(6); go();
        int skip = here();
        st(0);
        if (!t) { if (m.ip != skip) throw Failure{"generator: branch"}; go(); }
        ++log;
    }
}
SimGen::Rm SimGen::rm(int reg, bool w, int pReg, int avoid) {
    Rm r; (void)avoid;
    if (s.chance(pReg)) { int n; do n = s.below(8); while (w && n == SP); r.post.push_back(0xC0 | reg << 3 | n); return r; }
    r.mem = true;
    int mode = s.below(3), k = s.below(8); // mode 0: no displacement, 1: 8 bits, 2: 16 bits
    bool direct = mode == 0 && k == 6;
    int dseg = !direct && (k == 2 || k == 3 || k == 6) ? SS : DS;
    int ov = s.chance(30) ? (int)s.below(4) : -1;
    int sg = ov >= 0 ? ov : dseg;
    int delta = (uint16_t)(m.s[sg] - base);
    int target;
    if (delta == 0) target = DATA + s.below(255);
    else { static const int e[] = {0, 0xffff, 0xfffe, 1, 0x7fff, 0x8000, 15, 16}; target = s.chance(40) ? e[s.below(8)] : (int)s.below(65536);
        for (int i = 0; i <= w; ++i) { int off = (target + i) & 0xffff; uint32_t lin = (m.s[sg] * 16u + off) & 0xfffff, b = base * 16u; if (lin >= b && lin < b + 0x10000) { // keep inside the data window
            sg = -1; } }
        if (sg < 0) { if (m.s[CS] == base) ov = CS; sg = CS; delta = 0; target = DATA + s.below(255); } }
    if (delta) { touched.insert({delta, target & 0xffff}); if (w) touched.insert({delta, (target + 1) & 0xffff}); }
    if (ov >= 0) r.pre.push_back(0x26 | ov << 3);
    r.seg = sg; r.off = target;
    r.post.push_back((direct ? 0 : mode) << 6 | reg << 3 | k);
    if (direct) { r.post.push_back(target); r.post.push_back(target >> 8); return r; }
    static const int b1[] = {BX, BX, BP, BP, SI, DI, BP, BX}, b2[] = {SI, DI, SI, DI, -1, -1, -1, -1};
    int d = mode == 0 ? 0 : mode == 1 ? (int8_t)val(false) : 0;
    if (mode == 2) {
        d = (uint16_t)(target - m.r[b1[k]] - (b2[k] >= 0 ? m.r[b2[k]] : 0));
    } else {
        int other = b2[k] >= 0 ? m.r[b2[k]] : 0, set = b1[k];
        if (b2[k] >= 0 && s.coin()) { other = m.r[b1[k]]; set = b2[k]; }
        setReg(set, target - d - other);
    }
    if (mode == 1) r.post.push_back(d & 0xff); else if (mode == 2) { r.post.push_back(d); r.post.push_back(d >> 8); }
    return r;
}
void SimGen::putRm(const Rm& r, std::initializer_list<int> op, const Bytes& imm) {
    for (int x : r.pre) putb(x);
    for (int x : op) putb(x);
    for (int x : r.post) putb(x);
    for (int x : imm) putb(x);
}
static Bytes immB(int v, bool w) { Bytes b; b.push_back(v); if (w) b.push_back(v >> 8); return b; }

void SimGen::arith() {
    bool w = s.coin();
    static const char* AN[] = {"add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"};
    switch (s.weighted({30, 14, 20, 6, 8, 16, 6, 5, 5, 4, 4, 4})) {
    case 0: { // alu rm, r / r, rm
        int op = s.below(8), reg = s.below(8); bool dir = s.coin(); if (w && reg == SP) reg = AX;
        if ((op == 2 || op == 3) && !(def & R::CF)) op = 0;
        if (s.chance(40) && reg < 4) setReg(reg, val(true));
        Rm r = rm(reg, w, 45);
        if ((op == 2 || op == 3) && !(def & R::CF)) op = 5;
        def = ALLF; putRm(r, {op << 3 | dir << 1 | w}); ++feat[AN[op]]; go(); break; }
    case 1: { int op = s.below(8); if ((op == 2 || op == 3) && !(def & R::CF)) op = 7;
        def = ALLF; putb(op << 3 | 4 | w); putb(val(false)); if (w) putb(val(false)); ++feat[AN[op]]; go(); break; }
    case 2: { // alu rm, imm
        int op = s.below(8); Rm r = rm(op, w, 50);
        if ((op == 2 || op == 3) && !(def & R::CF)) { op = 0; r.post[0] &= ~0x38; }
        def = ALLF;
        switch (w ? 1 + s.below(2) : s.below(2)) {
        case 0: putRm(r, {0x80}, immB(val(false), false)); break;
        case 1: if (w) putRm(r, {0x81}, immB(val(true), true)); else putRm(r, {0x82}, immB(val(false), false)); break;
        default: putRm(r, {0x83}, immB(val(false), false));
        }
        ++feat[AN[op]]; go(); break; }
    case 3: { int r = s.below(8); if (r == SP) r = CX; def = (def & R::CF) | (ALLF & ~R::CF); putb((s.coin() ? 0x40 : 0x48) + r); ++feat["inc/dec r16"]; go(); break; }
    case 4: { int k = s.below(2); Rm r = rm(k, w, 40); def = (def & R::CF) | (ALLF & ~R::CF); putRm(r, {0xFE | w}); ++feat["inc/dec rm"]; go(); break; }
    case 5: { // shifts
        static const int k3[] = {4, 5, 7}; int k = k3[s.below(3)];
        bool cl = s.coin();
        if (cl) { int n = s.chance(70) ? s.below(17) : s.below(256); int hi = s.below(2) ? 0 : val(false); if (s.coin()) setReg(CX, n | hi << 8); else { put({0xB1, n}); go(); } }
        Rm r = rm(k, true, 55);
        if (!r.mem && !cl && s.coin()) setReg(r.post[0] & 7, val(true));
        int n = cl ? m.r[CX] & 255 : 1;
        if (n) def = ALLF & ~(n > 1 ? (int)R::OF : 0);
        putRm(r, {cl ? 0xD3 : 0xD1}); ++feat[k == 4 ? "shl" : k == 5 ? "shr" : "sar"]; go(); break; }
    case 6: { int k = s.coin() ? 3 : 2; Rm r = rm(k, true, 60); if (k == 3) def = ALLF; putRm(r, {0xF7}); ++feat[k == 3 ? "neg" : "not"]; go(); break; }
    case 7: { // mul/imul: the high word is not simulated
        int k = 4 + s.below(2);
        if (s.chance(60)) setReg(AX, s.coin() ? val(true) : (int)s.below(300));
        Rm r = rm(k, true, 50);
        if (!r.mem && (r.post[0] & 7) == DX) r.post[0] ^= 1;
        def = 0; putRm(r, {0xF7}); ++feat[k == 4 ? "mul" : "imul"]; go();
        if (m.r[DX]) stepDef.back() |= NODX;
        bool keep = m.r[DX] == 0 && s.coin();
        if (!keep) movi(DX, val(true));
        break; }
    case 8: case 9: { // div/idiv of 16-bit values
        bool sg = s.coin();
        setReg(AX, val(true));
        Rm r = rm(sg ? 7 : 6, true, 50);
        int d;
        if (r.mem) d = m.rd16(r.seg, r.off);
        else { int q = r.post[0] & 7; if (q == DX) { q = BX; r.post[0] = (r.post[0] & 0xF8) | BX; } if (q != AX && s.chance(50)) setReg(q, val(true)); if (q != AX && m.r[q] == 0) setReg(q, 1 + s.below(65535)); d = m.r[q]; }
        int n = m.r[AX];
        if (d == 0 || (sg && n == 0x8000 && (d == 0xffff || d == 1))) return;
        if (sg) { putb(0x99); go(); } else setReg(DX, 0);
        if (!r.mem && (r.post[0] & 7) == AX) d = m.r[AX];
        def = 0; putRm(r, {0xF7}); ++feat[sg ? "idiv" : "div"]; go(); break; }
    case 10: putb(0x98); ++feat["cbw"]; go(); break;
    default: putb(0x99); ++feat["cwd"]; go(); break;
    }
}
void SimGen::move() {
    bool w = s.coin();
    switch (s.below(9)) {
    case 0: { int reg = s.below(8); if (w && reg == SP) reg = DI; bool dir = s.coin(); Rm r = rm(reg, w, 25); putRm(r, {0x88 | dir << 1 | w}); ++feat["mov rm"]; go(); break; }
    case 1: { Rm r = rm(0, w, 25); putRm(r, {0xC6 | w}, immB(val(w), w)); ++feat["mov rm,imm"]; go(); break; }
    case 2: { int r = s.below(8); if (w && r == SP) r = SI; if (w) movi(r, val(true)); else { put({0xB0 + r, val(false)}); go(); } ++feat["mov r,imm"]; break; }
    case 3: { int reg; do reg = s.below(8); while (reg == SP); Rm r = rm(reg, true, 0); putRm(r, {0x8D}); ++feat["lea"]; go(); break; }
    case 4: { int r = s.below(8); if (r == SP) r = BP; putb(0x90 + r); ++feat["xchg"]; go(); break; }
    case 5: { // accumulator, direct
        int ov = s.chance(35) ? (int)s.below(4) : -1, sg = ov < 0 ? DS : ov;
        int off = DATA + s.below(255);
        if (m.s[sg] != base) { int delta = (uint16_t)(m.s[sg] - base); off = s.coin() ? 0xffff : (int)s.below(65536); uint32_t lin = m.s[sg] * 16u + off, b = base * 16u; if (((lin & 0xfffff) >= b && (lin & 0xfffff) < b + 0x10000) || (((lin + 1) & 0xfffff) >= b && ((lin + 1) & 0xfffff) < b + 0x10000) || (lin & 0xffff) > 0xfff0) return; touched.insert({delta, off}); touched.insert({delta, (off + 1) & 0xffff}); }
        if (ov >= 0) putb(0x26 | ov << 3);
        putb(0xA0 | s.below(4)); putw(off); ++feat["mov moffs"]; go(); break; }
    case 6: { int sr = s.below(4); if (m.s[sr] != base) return; Rm r = rm(sr, true, 40); if (!o.farSegs) return; putRm(r, {0x8C}); ++feat["mov rm,sr"]; go(); break; }
    case 7: { int r; do r = s.below(8); while (r == SP); setReg(r, val(true)); break; }
    default: { // sreg from memory
        if (!o.farSegs) return;
        int d = DATA + 2 * s.below(100); int sr = s.coin() ? ES : DS; int delta = s.coin() ? 0 : 0x1000 + s.below(64);
        putb(0x2E); put({0xC7, 0x06}); putw(d); putw(base + delta); go();
        putb(0x2E); put({0x8E, 0x06 | sr << 3}); putw(d); ++feat["mov sr,rm"]; go(); break; }
    }
}
void SimGen::segs() {
    static const int dl[] = {0, 0x1000, 0x1001, 0x1FFF, 0x2000};
    int delta = dl[s.below(5)];
    if (o.farSegs && s.chance(35)) { static const int ab[] = {0xFFFF, 0xF001, 0x0000, 0x0800, 0xF000, 0xE123}; delta = (uint16_t)(ab[s.below(6)] - base); }
    setSeg(s.chance(70) ? ES : DS, delta);
    ++feat["segment registers"];
}
void SimGen::stack() {
    if (s.chance(20) || m.r[SP] < STACK + 0x40 || (m.r[SP] > STACK + 0x3c0 && m.r[SP] < 0xff80)) { static const int e[] = {0, 1, 0xfffe, 0xffff}; setReg(SP, s.chance(25) ? e[s.below(4)] : STACK + 0x100 + (int)s.below(0x200)); }
    ++feat["stack"];
    int n = 1 + s.below(6), lvl = 0;
    for (int i = 0; i < n; ++i) {
        if (lvl && s.coin()) { if (s.chance(15)) { int sr = s.coin() ? ES : DS; /* only known values */ uint16_t v = m.rd16(SS, m.r[SP]); if (v == base) { putb(0x07 | sr << 3); go(); --lvl; continue; } } int r; do r = s.below(8); while (r == SP); putb(0x58 + r); go(); --lvl; }
        else { if (s.chance(20)) { int sr = s.below(4); if (m.s[sr] == base && o.farSegs) { putb(0x06 | sr << 3); go(); ++lvl; continue; } } int r; do r = s.below(8); while (r == SP); putb(0x50 + r); go(); ++lvl; }
    }
    while (lvl-- > 0) { int r; do r = s.below(8); while (r == SP); putb(0x58 + r); go(); }
    if (s.chance(20)) { def = ALLF; int k = s.below(20) * 2; put({0x83, 0xEC, k}); go(); put({0x89, 0xE5}); go(); def = ALLF; put({0x83, 0xC4, k}); go(); }
}
void SimGen::strings() {
    int kind = s.below(7);
    if (kind == 0 || kind == 1 || kind == 2 || kind == 4 || kind == 5) {
        uint32_t b = base * 16u;
        auto okSeg = [&](int sr) { return m.s[sr] == base || (m.s[sr] >= base + 0x1000 && m.s[sr] <= base + 0x2000); };
        (void)b;
        if (!okSeg(ES)) setSeg(ES, s.coin() ? 0 : 0x1000);
        if (!okSeg(DS)) setSeg(DS, 0);
    } else if (m.s[DS] != base && m.s[DS] < base + 0x1000) setSeg(DS, 0);
    else if (!(m.s[ES] == base || (m.s[ES] >= base + 0x1000 && m.s[ES] <= base + 0x2000))) setSeg(ES, 0);
    int cnt = s.chance(20) ? 0 : s.chance(80) ? (int)s.below(40) : (int)s.below(300);
    auto off = [&](int sr) { if (m.s[sr] == base) return (int)(STRS + s.below(0x180)); int x = s.chance(30) ? 0xffff - (int)s.below(30) : (int)s.below(0xf000); return x; };
    int ov = s.chance(20) ? (int)s.below(4) : -1;
    if (ov >= 0 && m.s[ov] != base && (m.s[ov] < base + 0x1000 || m.s[ov] > base + 0x2000)) ov = -1;
    int src = ov < 0 ? DS : ov;
    if (src == ES && m.s[ES] != base && !(m.s[ES] >= base + 0x1000 && m.s[ES] <= base + 0x2000)) { ov = -1; src = DS; }
    bool w = s.coin(), big = kind != 3 && s.chance(6);
    if (big) { // counts up to 65535, away from the program's own segment
        if (m.s[ES] == base) setSeg(ES, s.coin() ? 0x1000 : 0x2000);
        if (kind != 2 && kind < 6) { ov = -1; src = DS; if (m.s[DS] == base) setSeg(DS, s.coin() ? 0x1000 : 0x2000); }
        static const int e[] = {0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff}; cnt = s.coin() ? e[s.below(5)] : 0x100 + (int)s.below(0xff00);
        ++feat["count above 255"];
    }
    int so = off(src), d = off(ES);
    int words = w && (!big || s.coin()) ? cnt / 2 : cnt;
    auto touch = [&](int sr, int o2, int n) { if (m.s[sr] != base) for (int i = 0; i < n; i += 1 + n / 6) touched.insert({(uint16_t)(m.s[sr] - base), (o2 + i) & 0xffff}); };
    auto pre = [&](int rep) { Bytes p; if (rep) p.push_back(rep); if (ov >= 0) p.insert(s.coin() ? p.begin() : p.end(), 0x26 | ov << 3); for (int x : p) putb(x); };
    switch (kind) {
    case 0: case 1: // rep movs
        setReg(SI, so); setReg(DI, d); setReg(CX, words); touch(ES, d, cnt);
        pre(0xF3); putb(0xA4 | w); ++feat["rep movs"]; go(); break;
    case 2: // stos
        setReg(DI, d); if (s.coin()) setReg(AX, val(true)); touch(ES, d, cnt + 2);
        if (s.chance(75)) { setReg(CX, words); putb(0xF3); ++feat["rep stos"]; } else ++feat["stos"];
        putb(0xAA | w); go(); break;
    case 3: setReg(SI, so); pre(0); putb(0xAC | w); ++feat["lods"]; go(); break;
    case 4: case 5: { // repe cmpsb, often on equal data
        if (s.chance(70)) { setReg(SI, so); setReg(DI, d); setReg(CX, cnt); touch(ES, d, cnt); int o2 = ov; ov = -1; if (src != DS) {} pre(0xF3); putb(0xA4); go(); ov = o2; }
        if (cnt && s.chance(50)) { int at = (d + s.below(cnt)) & 0xffff; if (m.s[ES] != base) touched.insert({(uint16_t)(m.s[ES] - base), at}); putb(0x26); put({0xC6, 0x06}); putw(at); putb(val(false)); go(); }
        setReg(SI, so); setReg(DI, d); setReg(CX, s.chance(80) ? cnt : (int)s.below(60));
        if (m.r[CX]) def = ALLF;
        pre(0xF3); putb(0xA6); ++feat["repe cmpsb"]; go(); break; }
    default: { // repne scasb
        setReg(DI, d); setReg(CX, cnt);
        int pos = cnt ? (d + s.below(cnt)) & 0xffff : d;
        if (s.chance(70)) setReg(AX, (val(false) << 8) | m.rd8(ES, pos)); else setReg(AX, val(true));
        setReg(CX, cnt);
        if (m.r[CX]) def = ALLF;
        putb(0xF2); putb(0xAE); ++feat["repne scasb"]; go(); break; }
    }
}
static void junk(SimGen& g, int n) { for (int i = 0; i < n; ++i) g.putb(0x40 + g.s.below(4)); }
void SimGen::jump(int depth) {
    int c = s.chance(75) ? cc() : -1;
    if (c >= 0) {
        ++feat["jcc"];
        int n = s.chance(10) ? 100 + s.below(28) : s.below(12);
        bool t = condTrue(c);
        if (s.chance(25)) { // backward: jmp A; B: jmp C; A: jcc B; C:
            put({0xEB, 2}); go(); int b = here(); putb(0xEB); int q = here(); putb(0);
            int a = here(); (void)a; putb(0x70 | c); putb(b - (here() + 1)); patch(q, here() - (q + 1)); go(); if (t) go(); return;
        }
        putb(0x70 | c); putb(n); go();
        if (t) junk(*this, n);
        else { for (int i = 0; i < n; ++i) { if (depth < 2 && false) elem(depth + 1); putb(0x90); go(); } }
    } else {
        ++feat["jmp"];
        int n = s.below(30);
        switch (s.below(3)) {
        case 0: putb(0xEB); putb(n); go(); junk(*this, n); break;
        case 1: n = s.chance(20) ? s.below(600) : n; putb(0xE9); putw(n); go(); junk(*this, n); break;
        default: { // forward, back, forward
            putb(0xE9); int p1 = here(); putw(0); int b = here(); putb(0xE9); int p2 = here(); putw(0); junk(*this, n); int a = here();
            patchw(p1, a - (p1 + 2)); bool sh = s.coin() && b - (a + 2) >= -128; int e;
            if (sh) { putb(0xEB); putb(b - (a + 2)); } else { putb(0xE9); putw(b - (a + 3)); }
            e = here(); patchw(p2, e - (p2 + 2)); go(); go(); go(); }
        }
    }
}
void SimGen::loop(int depth) {
    ++feat["loop"];
    int r = s.coin() ? CX : DI, n = 1 + s.below(6);
    setReg(r, n);
    int top = here();
    // body is emitted on the first pass and only uses registers other than the counter
    int k = 1 + s.below(4); std::vector<Bytes> unused;
    int b0 = here();
    for (int i = 0; i < k; ++i) {
        int q[] = {AX, DX, BX, SI}; int a = q[s.below(4)], b = q[s.below(4)];
        def = ALLF;
        switch (s.below(4)) { case 0: put({0x01, 0xC0 | b << 3 | a}); break; case 1: put({0x31, 0xC0 | b << 3 | a}); break; case 2: put({0x83, 0xC0 | a, s.u8()}); break; default: put({0x29, 0xC0 | b << 3 | a}); }
        go();
    }
    (void)depth; (void)b0;
    bool useSub = s.chance(30);
    if (useSub) put({0x83, 0xE8 | r, 1}); else putb(0x48 + r);
    go();
    int c = s.coin() ? 5 : 15; // jnz / jg
    putb(0x70 | c); putb(top - (here() + 1)); go();
    int guard = 0;
    while (m.ip != here()) { go(); if (++guard > 500) throw Failure{"generator: loop"}; }
}
void SimGen::call(int depth) {
    ++feat["call"];
    if (m.r[SP] < STACK + 0x40 || (m.r[SP] > STACK + 0x3f0 && m.r[SP] < 0xff00)) setReg(SP, STACK + 0x200);
    bool ind = s.chance(35);
    if (ind) {
        int r; do r = s.below(8); while (r == SP);
        if (s.coin()) { int p = here() + 1; putb(0xB8 + r); putw(0); int q = here(); put({0xFF, 0xD0 | r}); putb(0xE9); putw(0); patchw(p, here()); m.ip = p - 1; (void)q; go(); go(); }
        else { int d = DATA + 2 * s.below(120); putb(0x2E); put({0xC7, 0x06}); putw(d); int p = here(); putw(0); putb(0x2E); put({0xFF, 0x16}); putw(d); putb(0xE9); putw(0); patchw(p, here()); go(); go(); }
    } else { putb(0xE8); putw(3); putb(0xE9); putw(0); go(); }
    int body = here();
    if (m.ip != body) throw Failure{"generator: call"};
    bool frame = s.coin();
    if (frame) { putb(0x55); go(); put({0x89, 0xE5}); go(); }
    int sp = m.r[SP];
    int n = s.below(3);
    for (int i = 0; i < n; ++i) if (depth < 1) { if (s.chance(80)) arith(); else move(); }
    if (m.r[SP] != sp) setReg(SP, sp);
    if (frame) { putb(0x5D); go(); }
    putb(0xC3); go();
    patchw(body - 2, here() - body);
    if (m.ip != body - 3) throw Failure{"generator: return"};
    go();
}
void SimGen::elem(int depth) {
    switch (s.weighted({o.wArith, o.wMove, o.wStack, o.wString, o.wJump, o.wLoop, o.wCall, o.wSeg, o.console ? 10 : 0})) {
    case 0: arith(); break;
    case 1: move(); break;
    case 2: stack(); break;
    case 3: strings(); break;
    case 4: jump(depth); break;
    case 5: loop(depth); break;
    case 6: call(depth); break;
    case 7: segs(); break;
    default: { put({0xB4, 2}); go(); put({0xB2, s.chance(20) ? (int)s.below(256) : 32 + (int)s.below(95)}); go(); put({0xCD, 0x21}); go(); ++feat["console"]; }
    }
}
void SimGen::body() {
    int n = 1 + s.below(o.n);
    for (int i = 0; i < n && room(); ++i) {
        elem(0);
        if (s.chance(o.pLog)) { if (s.coin()) logFlags(); if (s.coin()) logRegs(); else if (s.coin()) logFlags(); }
    }
}
void SimGen::finish() {
    logFlags(); logRegs();
    bodySteps = stepDef.size();
    int left = 24;
    for (auto& t : touched) {
        if (!left-- || log > LOGEND - 8) break;
        setSeg(ES, t.first);
        putb(0x26); put({0x8A, 0x06}); putw(t.second); go();
        putb(0x2E); putb(0xA2); putw(log++); go();
    }
    put({0x8C, 0xC8}); go(); put({0x8E, 0xD8}); go();
    if (copyTail) { put({0x8C, 0xC8}); go(); put({0x8E, 0xC0}); go(); movi(SI, 0x80); movi(DI, log); movi(CX, 128); put({0xF3, 0xA4}); go(); log += 128; }
    put({0xB4, 0x3C}); go(); movi(CX, 0); movi(DX, NAME); put({0xCD, 0x21}); go();
    put({0x89, 0xC3}); go();
    auto dump = [&](int a, int l) { put({0xB4, 0x40}); go(); movi(CX, l); movi(DX, a); put({0xCD, 0x21}); go(); };
    dump(DATA, 256);
    if (feat.count("stack") || feat.count("call")) dump(STACK, 0x400);
    if (feat.count("rep movs") || feat.count("rep stos") || feat.count("stos") || feat.count("repe cmpsb")) dump(STRS, 0x800);
    if (log > LOG) dump(LOG, log - LOG);
    if (o.pad) { int end = std::min(STACK + (int)padding.size(), 0xfc00 /* the stack */); int from = log + 0x200; if (end > from + 80) { dump(end - 8, 8); dump(from + s.below(end - from - 64), 64); } }
    put({0xB4, 0x3E}); go(); put({0xCD, 0x21}); go();
    if (exitKind == 2 && (m.r[SP] != 0xfffe || m.s[SS] != base || m.rd16(SS, 0xfffe) || m.rb(base * 16) != 0xCD)) exitKind = 1;
    movi(AX, 0x4C00 | s.below(256));
    if (exitKind == 0) { put({0xCD, 0x21}); m.step(); }
    else if (exitKind == 1) { put({0xCD, 0x20}); m.step(); }
    else { putb(0xC3); m.step(); m.step(); }
    if (o.pad) { im.resize(STACK - 0x100); im.insert(im.end(), padding.begin(), padding.end()); }
}
void SimGen::run() { body(); finish(); }
