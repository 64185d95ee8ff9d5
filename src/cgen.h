// Generator of programs in the C subset supported by the compiler under test,
// with a reference interpreter (16-bit wrap-around C semantics).
//
// The generator only produces programs whose behaviour C defines (apart from signed
// wrap-around): every index is in range, every object is initialised before use, no
// expression has unsequenced conflicting side effects, every loop is bounded.
// The interpreter re-checks this (bounds, initialisation, division, shifts) and
// discards a program that violates it.
#pragma once
#include "pbt.h"
#include <deque>
#include <memory>

namespace cg {

struct Type; typedef const Type* TP;
struct SDef;
struct Func;
struct Type {
    enum K { VOID, CHAR, UCHAR, INT, UINT, PTR, ARR, STRUCT, FPTR } k;
    TP el; int n; SDef* sd;
    std::vector<TP> args;     // FPTR: parameter types, el = return type
    Str name;                 // FPTR: a typedef for it
};
struct Member { Str name; TP t; int off; };
struct SDef { Str tag; bool isUnion = false; std::vector<Member> m; int size = 0; };
int sizeOf(TP);
bool hasFptr(TP);
bool isChar(TP), isInt(TP), isScalar(TP);
inline bool isPtr(TP t) { return t->k == Type::PTR; }

struct Var {
    Str name; TP t;
    enum Stor { LOCAL, PARAM, GLOBAL, STATIC } stor = LOCAL;
    int idx = 0;              // frame slot (LOCAL/PARAM) or address (GLOBAL/STATIC)
    bool counter = false;     // loop counter: never assigned by generated statements
    int cmax = 0;             // counter: values are within 0..cmax while in its loop body
    bool inLoop = false;      // counter currently in use
    bool noalias = false;     // address never taken
    int reserved = 0;
    bool hasInit = false; int init = 0;   // initialised global
    bool strInit = false; Str str;        // initialised char array
    Var* target = nullptr;    // pointer: the object it always points into
    int slack = 0;            // pointer into array: index distance from the start is <= slack
    Func* ftarget = nullptr;  // unused
    Str alias;                // printed type name (typedef)
};

enum Op { NUM, STR, VAR, FNAME, NEG, PLUS, NOT, BNOT, BIN, LAND, LOR, COND, COMMA, ASSIGN, INCDEC, INDEX, DEREF, ADDR, MEMBER, ARROW, CALL, CALLPTR, CAST, SIZEOFT, SIZEOFE, VAARG };
struct Expr {
    Op op; TP t = nullptr; int v = 0;      // NUM value / INCDEC: 0 ++x 1 --x 2 x++ 3 x--
    Str o;                                  // operator text, NUM spelling, member name
    std::vector<Expr*> k;
    Var* var = nullptr; Func* fn = nullptr; TP ty = nullptr; const Member* mem = nullptr;
    bool paren = false;
    int strAddr = -1;
};
enum SK { S_EXPR, S_OUT, S_BLOCK, S_IF, S_WHILE, S_DO, S_FOR, S_SWITCH, S_CASE, S_DEFAULT, S_BREAK, S_CONTINUE, S_RETURN, S_GOTO, S_LABEL, S_DECL, S_EMPTY, S_RAW, S_VASTART, S_VAEND, S_TYPEDECL };
struct Stmt {
    SK k; Expr *e = nullptr, *e2 = nullptr, *e3 = nullptr;
    std::vector<Stmt*> body, body2;
    bool hasElse = false;
    bool hasCase = false;      // of a block or a loop: it holds labels of the switch around it
    Str label; Var* var = nullptr; std::vector<Var*> vars; std::vector<Expr*> inits;
    int val = 0; Str text;
};
enum Cls { PURE, READER, IMPURE };
struct Func {
    Str name; TP ret; std::vector<Var*> params; std::vector<Stmt*> body;
    Cls cls = PURE; bool variadic = false; bool recursive = false; bool proto = false; bool defined = true;
    int nslots = 0;
    std::vector<Var*> statics;
    int lateGlobals = 0;
    int special = 0;          // template id
    bool protoLess = false;   // called before its definition without prototype
};
struct Enumerator { Str name; int v; };
struct TypedefDecl { Str name; TP t; };

struct Opts {
    // weights and switches, set per property
    int depth = 3;            // expression depth
    int nfuncs = 3, nstmts = 8, nglobals = 6;
    int wOut = 20, wAssign = 20, wIncDec = 6, wIf = 10, wLoop = 8, wSwitch = 5, wJump = 4, wGoto = 3, wBlock = 4, wCall = 6, wDecl = 8, wPtr = 3, wStruct = 5, wEmpty = 1, wDead = 2;
    int pChar = 25, pUnsigned = 20;   // percentages for types
    bool pointers = true, structs = true, arrays = true, strings = true, funptrs = true, varargs = true, recursion = true;
    bool shadow = true, statics = true, typedefs = true, enums = true, castsOn = true, sideEffects = true, sizeofs = true;
    int pCall = 10, pSE = 40, pCmp = 20, pLogic = 12, pCond = 8, pComma = 3, pConst = 30, pMulDiv = 25, pShift = 10;
    bool bigSwitch = false, implicitFns = true, multiDim = true;
    int maxLoop = 5;
    int pNoInit = 30;
    int hugeFrame = 0;        // percent chance of padding arrays making frame offsets exceed 127
    int pPad = 0;             // percent chance of inert padding statements
    bool dumpGlobals = true;
    bool deep = false;
    int structPct = 50;
    int wType = 6;            // block-scope types
    int pStr = 2;
    int wFptr = 6, wEffect = 5, wCells = 2, wVoid = 2, wProbe = 2, pList = 18;
};

struct Program {
    std::deque<Type> types; std::deque<SDef> sdefs; std::deque<Var> vars; std::deque<Expr> exprs; std::deque<Stmt> stmts; std::deque<Func> funcs;
    std::vector<SDef*> structs, late; std::vector<Var*> globals; std::vector<Func*> fns; std::vector<Enumerator> enums; std::vector<TypedefDecl> typedefs;
    std::vector<std::pair<int, Str>> order;
    Func* mainFn = nullptr;
    std::map<Str, int> feat;  // feature counts
    std::vector<Str> globalOrder;
    uint64_t style = 0;       // selects equivalent spellings of declarations
    Str tail;                 // extra source text placed after main
};

struct Trace { std::vector<uint16_t> out; int exitCode = 0; uint64_t steps = 0; std::map<Str, Bytes> globals; std::map<Str, int> calls; };

std::unique_ptr<Program> generate(Src& s, const Opts& o);
Trace interpret(Program& p);                 // throws Discard on undefined behaviour / budget
// the program text; the prelude (Out, start-up) comes first
Str print(const Program& p, bool withPrelude = true);
Str prelude();
Str typeName(TP t, const Str& decl);
uint64_t featureHash(const Program& p);

} // namespace cg
