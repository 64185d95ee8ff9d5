// Generator of machine-code programs for the simulator checks. Programs are grown while the
// reference 8086 executes them, so every operand value and branch direction is known.
#pragma once
#include "pbt.h"
#include "ref86.h"

struct SimOpts {
    int n = 25;                       // program elements
    int wArith = 60, wMove = 10, wStack = 5, wString = 5, wJump = 5, wLoop = 2, wCall = 2, wSeg = 3;
    int pLog = 60;                    // log registers and flags after an element
    bool farSegs = true;              // absolute segments (not for the nested simulator)
    int pad = 0;                      // size of the image (0: as small as possible)
    bool console = false;             // character output
};
struct SimGen {
    enum { NAME = 0x103, DATA = 0x110, CODE = 0x220, STACK = 0x5000, STRS = 0x5400, LOG = 0x6000, LOGEND = 0xE000 };
    Src& s; const SimOpts& o;
    Ref86 m; Bytes im;                // im: bytes from 0x100
    uint16_t def = 0;                 // flags with a defined value
    int log = LOG;
    std::vector<uint16_t> stepDef;    // defined flags after each executed instruction
    std::set<std::pair<int, int>> touched;   // (segment delta, offset) outside the base segment
    std::map<Str, int> feat;
    std::vector<uint16_t> deltas;     // segment deltas in use
    uint16_t base;
    enum { NODX = 0x8000 };           // in stepDef: DX is not compared
    int exitKind = 0;                 // 0: INT 21/4C, 1: INT 20, 2: return to the PSP
    Bytes padding;                    // image from STACK on, with pad
    bool copyTail = false;            // append the command tail to the log
    size_t bodySteps = 0;             // executed instructions before the final dump

    SimGen(Src& s, const SimOpts& o, uint16_t base = 0x2000);
    void run();                       // body, dump, exit
    void body();
    void finish();
    // building blocks
    int here() const { return 0x100 + (int)im.size(); }
    void put(std::initializer_list<int> b) { for (int x : b) putb(x); }
    void putb(int x) { m.mem[((uint32_t)base * 16 + here()) & 0xfffff] = (uint8_t)x; im.push_back((uint8_t)x); }
    void putw(int x) { putb(x); putb(x >> 8); }
    void patch(int addr, int v) { im[addr - 0x100] = (uint8_t)v; m.mem[(uint32_t)base * 16 + addr] = (uint8_t)v; }
    void patchw(int addr, int v) { patch(addr, v); patch(addr + 1, v >> 8); }
    void go();                        // execute the instruction just emitted
    void setReg(int r, int v);        // load a register in one of many ways
    void movi(int r, int v) { putb(0xB8 + r); putw(v); go(); }
    void setSeg(int sr, int delta);   // segment register = base + delta; clobbers AX
    void logRegs(); void logFlags();
    bool room() const { return here() < 0x4800 && log < LOGEND - 0x400; }
    struct Rm { Bytes pre, post; int seg = 0, off = 0; bool mem = false; };
    // a register or memory operand; reg is the reg field; for memory operands base registers may be set up
    Rm rm(int reg, bool w, int pReg, int avoid = 0);
    void putRm(const Rm& r, std::initializer_list<int> op, const Bytes& imm = Bytes());
    void arith(); void move(); void stack(); void strings(); void jump(int depth); void loop(int depth); void call(int depth); void segs(); void elem(int depth);
    int val(bool w);
    int cc();                         // a condition with defined flags, -1 if none
    bool condTrue(int c) const;
    Bytes image() const { return im; }
};
// Expected result of the finished program on the reference machine.
struct SimExpect { bool ok = false; std::map<Str, Bytes> files; Str console; int exitCode = 0; Str why; uint64_t steps = 0; };
SimExpect expectRun(const Bytes& image, const std::map<Str, Bytes>& files, const Str& tail, uint16_t base = 0x2000, uint64_t budget = 5000000);
void zeroLoad(Ref86& m, const Bytes& image, const Str& tail, uint16_t base);
