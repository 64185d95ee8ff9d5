// Compile a program with the compiler under test and run it on the reference machine.
#pragma once
#include "pbt.h"
#include "ref86.h"
#include "cgen.h"

struct Compiled { bool ok = false; Str msg; Bytes image; Str map; int exitCode = 0, sig = 0; bool timeout = false; bool comExists = false; };
// Compile src (written as <dir>/<stem>.C); outputs are removed before and after.
Compiled compileC(Ctx& c, const Str& src, const Str& stem = "T");
struct Ran { Ref86::Stop stop; Str why; int exitCode = 0; std::vector<uint16_t> out; Str console; uint64_t steps = 0; Str state; };
Ran runImage(const Bytes& image, uint64_t budget, const Str& tail = "", uint64_t fill = 1);
Str hexWords(const std::vector<uint16_t>& v, size_t max = 24);
const char* stopName(Ref86::Stop s);
bool isLimitMsg(const Str& m);
// Compare a run with the expected trace; fails the case with a description.
void expectTrace(Ctx& c, const Ran& r, const cg::Trace& t, const Str& what = "");

// Run a DOS program over a set of files; files holds the files afterwards.
struct DosRun { Ref86::Stop stop = Ref86::RUNNING; Str why, console, state; int exitCode = 0; uint64_t steps = 0; std::map<Str, Bytes> files; std::vector<std::pair<int, int>> calls; /* active calls at the end, outermost first: caller's BP, return address */ };
DosRun runDos(const Bytes& image, const std::map<Str, Bytes>& files, const Str& tail, uint64_t budget, uint64_t fill = 1, bool track = false);
// What is wrong with the stack trace the program printed (at most max lines; run with track), or "".
Str backtraceError(const DosRun& d, size_t max);
inline Bytes toBytes(const Str& s) { return Bytes(s.begin(), s.end()); }
inline Str toStr(const Bytes& b) { return Str(b.begin(), b.end()); }
struct MapFile { std::vector<std::pair<int, Str>> sym; bool ok = true; int find(const Str& n) const { for (auto& s : sym) if (s.second == n) return s.first; return -1; } };
MapFile parseMap(const Str& text);
// Rewrite C source into an equivalent spelling.
struct RespellOpts { bool space = true, comments = true, hashLines = true, numbers = true, strings = true, idents = true; int maxIdent = 40; };
Str respell(Src& s, const Str& text, const RespellOpts& o);
struct CTok { enum K { ID, NUM, STR, CHR, PUNCT } k; Str t; };
std::vector<CTok> ctokens(const Str& text);
// One command line of a tool, valid or not, given to the host build and to the DOS build with the
// same files: same success, exit code and files afterwards. src is a source the tool accepts.
void compareCommand(Src& s, Ctx& c, const Str& toolName, const Str& src, uint64_t budget);
