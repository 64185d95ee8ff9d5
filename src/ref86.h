// Independent reference model of an 8086 running a DOS .COM program.
// Strict 16-bit semantics; DOS INT 21h subset over an in-memory file system.
#pragma once
#include "pbt.h"

struct Ref86 {
    enum { AX, CX, DX, BX, SP, BP, SI, DI };
    enum { ES, CS, SS, DS };
    enum { CF = 1, PF = 4, AF = 16, ZF = 64, SF = 128, TF = 256, IF = 512, DF = 1024, OF = 2048 };
    enum Stop { RUNNING, EXITED, BUDGET, BADOP, BADINT, DIVERR, HALTED, STEP };

    std::vector<uint8_t> mem;
    uint16_t r[8], s[4], ip, fl;
    uint16_t baseSeg;
    uint64_t steps = 0, budget = 50000000;
    Stop stop = RUNNING;
    int exitCode = -1;
    Str why;

    // DOS
    std::map<Str, Bytes> files;
    struct Handle { bool used = false, writable = false; Str name; size_t pos = 0; };
    std::vector<Handle> h;
    Str console;
    std::vector<uint16_t> trace;       // values passed to INT F1h in AX
    bool failCreate = false;
    std::map<Str, int> createCount;
    std::function<bool(Ref86&, int)> intHook;   // extra interrupts; return true if handled
    std::function<bool(Ref86&, uint16_t, bool, uint16_t&)> portHook;
    uint16_t minSP = 0xffff;
    bool trackWrites = false;
    std::vector<uint32_t> writes;      // linear addresses written (when trackWrites)

    Ref86();
    // Load a COM image; args is the raw command tail (without length byte).
    void load(const Bytes& image, const Str& tail, uint64_t fillSeed = 1);
    Stop run();
    bool step();                       // one instruction (a repeated string op counts as one)

    uint8_t rb(uint32_t lin) const { return mem[lin & 0xfffff]; }
    uint8_t rd8(int seg, uint16_t o) const { return mem[((uint32_t)s[seg] * 16 + o) & 0xfffff]; }
    uint16_t rd16(int seg, uint16_t o) const { return rd8(seg, o) | rd8(seg, (uint16_t)(o + 1)) << 8; }
    void wr8(int seg, uint16_t o, uint8_t v) {
        uint32_t l = ((uint32_t)s[seg] * 16 + o) & 0xfffff;
        if (trackWrites) writes.push_back(l);
        mem[l] = v;
    }
    void wr16(int seg, uint16_t o, uint16_t v) { wr8(seg, o, (uint8_t)v); wr8(seg, (uint16_t)(o + 1), v >> 8); }
    Str stateStr() const;
private:
    int segOv, rep;
    uint8_t f8() { return rd8(CS, ip++); }
    uint16_t f16() { uint16_t a = f8(); return a | f8() << 8; }
    int mod, reg, rm; uint16_t ea; int eseg;
    void modrm();
    uint16_t getRM(bool w), getReg(int n, bool w) const;
    void setRM(bool w, uint16_t v), setReg(int n, bool w, uint16_t v);
    void push(uint16_t v), setF(uint16_t m, bool on) { if (on) fl |= m; else fl &= ~m; }
    uint16_t pop();
    void szp(uint16_t v, bool w);
    uint16_t alu(int op, uint16_t a, uint16_t b, bool w);
    uint16_t shift(int op, uint16_t a, int n, bool w);
    uint16_t incdec(uint16_t a, bool dec, bool w);
    bool cond(int c) const;
    void dos();
    void strOp(uint8_t op);
    Str dosName(uint16_t seg, uint16_t off);
    void setCarry(bool c) { setF(CF, c); }
};
