// Model of assembler programs: generator, printer, reference parser, 8086 decoder and
// the check that an output file is an encoding of a program.
#pragma once
#include "pbt.h"

namespace as {
struct Op {
    enum K { NONE, R8, R16, SR, IMM, MEM, TGT } k = NONE;
    int v = 0;             // register number, immediate, displacement, target
    int base = 0;          // MEM: bit set BX 1, BP 2, SI 4, DI 8
    int seg = -1;          // MEM: override ES CS SS DS
    int size = 0;          // 0 unknown, 1, 2
    int lab = -1;          // value is v + address of this label
    Str text;              // how the operand is written
};
struct Ins { Str op; Op a, b; bool rep = false; bool isShort = false; };
struct Datum { bool isStr = false; Str str; int v = 0, lab = -1; Str text; };
struct Item {
    enum K { LBL, EQU, DB, DW, ORG, RES, INS, CPU } k = INS;
    int lab = -1; Str name; int v = 0; std::vector<Datum> data; Ins ins; Str text;
    int unit = 1;                  // RES: 1 or 2
    int lo = 1, hi = 8;            // possible sizes
    int line0 = 0, line1 = 0;      // first line of the item, line of the token after it (set by print)
    int wantLab = 0;               // generator: 1 word reference, 2 short reference, 3 near target
};
struct Label { Str name; bool local = false; int region = 0; int item = -1; int addr = -1; };
struct Prog { std::vector<Item> it; std::vector<Label> lab; bool shortSure = true, shortBad = false; /* set by walk: a forward short jump is out of reach */ bool farForward = false; std::map<Str, int> feat; };

struct Dec { Ins i; int len = 0; bool ok = false; };
Dec decode(const Bytes& b, size_t pos, int va);
Str show(const Ins& i);

struct GenOpts { int n = 20; int wIns = 70, wData = 10, wLbl = 12, wEqu = 5, wOrg = 1; int pLab = 15; bool bss = true, boundary = false; bool resBig = true; };
void generate(Src& s, Prog& p, const GenOpts& o);
struct PrintOpts { bool comments = true; int lead = 0; bool plain = false; };
Str print(Src& s, Prog& p, const PrintOpts& o);
// Check that out is an encoding of p; returns "" or what is wrong. Fills label addresses.
Str walk(Prog& p, const Bytes& out);
// Reference parser: "" and a program, or why the text is not valid. limits = true when no judgement is possible.
Str parse(const Str& text, Prog& p, bool& nojudge);
}
