#!/usr/bin/env python3
# Single source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
           why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    P.append(d)

p("C01","Compiled integer expressions have their C value",
  "For every well-defined expression over 16-bit int variables and constants built from the supported unary, binary, comparison, logical, conditional and comma operators, the program produced by the compiler computes the value C gives it with 16-bit wrap-around arithmetic. This holds whether operands are constants, locals, parameters, globals or intermediate results, for any nesting the compiler accepts, and equally when the expression is used as a value or as a condition.",
  ["programs","inputs"],"all well-typed int expressions (any operator nesting, operand placement and operand values, excluding C undefined behaviour) compiled and run",
  "the test suite compiles about twenty fixed files; the number of operator/operand-placement/register-state combinations is unbounded and only a few are sampled with fixed values",
  ["scc.c"],[("expression parsing, operand placement and code selection","scc.c: ParseExpr1, ParseCastExpression, ParseUnaryExpression, DoBinOp, DoRhsConstBinOp, DoRhsLvalBinOp"),("constant folding","scc.c: DoConstBinOp"),("flag reuse and boolean materialisation","scc.c: ToBool, GetVal, LastZFInst")])
p("C02","char, unsigned and pointer operands convert and compare as in C",
  "In compiled programs, reads of char and unsigned char objects are promoted with the right sign, stores to them keep the low byte, casts convert as C prescribes, and operations involving an unsigned int (division, remainder, right shift, ordering) use unsigned semantics exactly when C's usual arithmetic conversions say so. Pointer ordering, pointer addition and pointer difference behave as C prescribes for the pointee size.",
  ["programs","inputs"],"all mixes of char/unsigned char/int/unsigned/pointer operands and casts, over all operand values including both sides of each sign boundary",
  "tests use a handful of fixed values; signedness errors show only for specific operand values and type mixes",
  ["scc.c"],[("promotion and extension","scc.c: LvalToRval, EmitExtend, ParseCastExpression"),("signedness selection","scc.c: IsUnsignedOp, GetSimpleALU, EmitDivCX, EmitDivAxConst")])
p("C03","Assignments and ++/-- change exactly their target object",
  "Every simple, compound, struct or chained assignment and every prefix or postfix increment or decrement in a compiled program stores the C-specified value to exactly the bytes of its target object (local, parameter, global, static, array element, struct member or pointer target), changes no other object, and yields the C-specified value to the surrounding expression.",
  ["programs","inputs"],"all lvalue forms x assignment operators x right-hand-side forms x uses of the result, with all neighbouring objects observed",
  "tests check the assigned variable for a few combinations and never that neighbouring objects are untouched",
  ["scc.c"],[("assignment code generation","scc.c: ParseExpr1, HandleLhsLvalLoc, EmitStoreAx, EmitStoreConst"),("increment/decrement","scc.c: DoIncDecOp")])
p("C04","if, loops, break, continue, goto, return and && || ?: follow C control flow",
  "A compiled program executes the statements and operand evaluations that C prescribes, in the prescribed order and number, for every nesting of if/else, while, do, for, break, continue, goto, labels, return, blocks with declarations, short-circuit operators, conditional operators and comma, and the stack stays balanced on every path. Statements that follow a jump or return and are unreachable have no effect on the rest of the program.",
  ["programs","inputs"],"all nestings of the supported control statements with bounded loops, over all condition outcomes",
  "tests exercise a few fixed nestings; dead-code, stack-adjust and label interactions depend on the combination of surrounding constructs",
  ["scc.c"],[("statement parsing and labels","scc.c: ParseStatement, DoLoopStatements, EmitLocalLabel, GetNamedLabel"),("deferred stack adjustment and dead code","scc.c: Pending, IsDeadCode, FlushSpAdj")])
p("C05","switch selects the C-specified case, with fallthrough, default and break",
  "For every switch statement in a compiled program and every value of its controlling expression, execution starts at the matching case label, or at default wherever it is placed if none matches, or after the switch, then falls through until a break, return, goto or continue leaves it. This holds for any number and order of case labels, nested switches, switches inside loops, blocks or loops inside cases, labels inside such blocks and loops, and variables declared between the labels.",
  ["programs","inputs"],"all switch shapes (label counts, stacked labels, default position, nesting) and all 16-bit controlling values near and away from the labels",
  "tests use small fixed switches; case-chain lengths, default positions and nestings interact",
  ["scc.c"],[("case chains","scc.c: ParseStatement (TOK_CASE, TOK_DEFAULT, TOK_SWITCH), EnsureSwitchStmt")])
p("C06","Calls pass arguments, preserve the caller's state and return results",
  "A call in a compiled program, direct, through a function pointer, recursive, implicit or nested inside other calls' arguments or inside partially evaluated expressions, evaluates each argument once, delivers all arguments (including variadic ones) to the callee in order, leaves the caller's locals and pending intermediate values intact, and yields the returned value.",
  ["programs","inputs"],"all call graphs and argument lists up to the compiler's limits, calls in any operand position, and variadic callees consuming any prefix",
  "tests cover few argument counts and positions; spill and argument-chunk handling depends on how many intermediates are live at the call",
  ["scc.c"],[("call sequence, argument chunks, spills","scc.c: ParsePostfixExpression"),("variadic access","scc.c: HandleVarArg")])
p("C07","Arrays, pointers, structs, unions and sizeof follow their declared layout",
  "In compiled programs every access through array indexing, multi-dimensional arrays, pointers (including pointers to pointers, to structs and to arrays of structs), struct and union members reaches exactly the designated element, distinct objects and members never overlap, union members share storage, and sizeof equals the size actually occupied and used for pointer arithmetic.",
  ["programs","inputs"],"all declared types built from char/int/pointer/array/struct/union within compiler limits and all in-bounds access paths",
  "tests check a few fixed layouts",
  ["scc.c"],[("type sizes and element scaling","scc.c: SizeofType, EmitScaleAx, EmitAddRegConst"),("member lookup","scc.c: ParsePostfixExpression (DoStructMem)"),("array declarators","scc.c: ParseDeclarator")])
p("C08","Names resolve to the innermost declaration and objects have C lifetime",
  "In compiled programs each identifier denotes its innermost visible declaration (parameters, locals, block locals, statics, globals, enumerators, typedefs, struct tags), uninitialised globals and statics start as zero, initialised globals and string literals have their given contents, statics and globals keep their values across calls, and locals of enclosing scopes survive inner scopes.",
  ["programs","histories"],"all nestings of declarations and shadowings, sequences of calls touching statics and globals, and any prior memory contents when the program starts",
  "tests run with zeroed memory and few scopes",
  ["scc.c"],[("scopes","scc.c: PushScope, PopScope, AddVarDecl, AddLateGlobalVar"),("declarations","scc.c: ParseDeclSpecs, ParseExternalDefition"),("zero-initialised data","scc.c: main, EmitGlobalLabel")])
p("C09","Compiled behaviour does not depend on source spelling or layout",
  "Replacing whitespace, comments, line breaks, preprocessor-style lines, integer literal base, character and string escapes, adjacent string pieces or identifier spelling by equivalent ones, and moving any token across an internal read boundary, never changes what the compiled program does; every literal denotes the value C gives it.",
  ["inputs","programs"],"all equivalent respellings of a program, all token alignments relative to input buffer boundaries, all literal forms",
  "the tests have fixed spellings and alignments",
  ["scc.c"],[("tokenizer and buffered input","scc.c: NextChar, SkipWhitespace, GetToken, GetNum, Unescape, GetStringLiteral"),("identifier table","scc.c: GetToken, IdHashTab")])
p("C10","Compiled behaviour does not depend on code distance, frame size or program size",
  "Making branch targets nearer or farther, adding code to any branch or between a use and its definition, enlarging stack frames or data, or adding unrelated functions never changes what the rest of a compiled program does, as long as the program stays within the compiler's limits.",
  ["programs","configurations"],"all paddings of programs around the short/long branch and displacement encodings, in any combination of nested forward and backward branches",
  "encodings switch at exact distances that fixed tests do not straddle",
  ["scc.c"],[("branch fixups and shortening","scc.c: DoFixups, EmitJcc, EmitLocalJump"),("displacement selection","scc.c: EmitModrm, EmitAddRegConst")])
p("C11","The self-hosted compiler produces the same output as the host compiler",
  "For every program within its limits, the compiler compiled by itself and run under DOS with the same command line writes the same executable and map file, under the same names, as the compiler built for the host, and rejects the programs and command lines the host compiler rejects; the stack trace it prints then lists its innermost active calls (caller's BP and return address, at most nine).",
  ["programs"],"all programs in the supported subset, accepted or rejected, within the limits of a 64K DOS program",
  "tests compare the two only on the compiler's own source",
  ["scc.c"],[("the compiler as a program in its own language","scc.c"),("runtime used when self-compiling","scc.c: DosCall, memset, memcmp, open, read, write, ParseArgs, _start")])
p("C12","Map file and executable describe the same, non-overlapping layout",
  "For every accepted program the executable holds exactly the code and initialised data, and the map lists the start, functions and objects with the addresses the running program really uses: functions are entered at their listed address, each object occupies its own bytes from its listed address, and zero-initialised objects lie between the listed start and end of that region, which begins where the file ends. Outputs are named after the input, or after the given output name with only its extension replaced for the map.",
  ["programs","configurations"],"all accepted programs and output file names",
  "no test reads a map file",
  ["scc.c"],[("map output","scc.c: EmitGlobalLabel, main"),("file naming","scc.c: MakeOutputFilename")])
p("C13","Invalid or over-limit input is rejected with its line, never miscompiled",
  "When the compiler reports an error it exits with failure, names a line no earlier than the offending token and no later than the next token, and leaves no executable for that input; a program beyond one of its table or output limits is rejected, and every program it accepts near such a limit still behaves correctly. No input makes it crash or hang.",
  ["inputs","programs","configurations"],"all byte strings and token-level mutations as input, and programs scaled through every table limit",
  "the tests contain only valid programs far from the limits",
  ["scc.c"],[("errors","scc.c: Fatal, Fail, Unexpected, Expect"),("limits","scc.c: SCOPE_MAX, VARDECL_MAX, ID_MAX, IDBUFFER_MAX, LABEL_MAX, OUTPUT_MAX, STRUCT_MAX, ARRAY_MAX, ARGS_MAX checks")])

p("C14","Valid programs in the supported subset are accepted",
  "Every valid program that stays within the C subset the compiler supports (int, char, unsigned, pointers, arrays, structs, unions, enums, typedefs, the control statements, calls with up to eight arguments, statics and initialised scalar and string globals) and within its table limits is accepted: the compiler exits with success and writes an executable. Which constructs are combined, and in which order, must not make a program be rejected.",
  ["programs"],"all valid programs of the subset within the table limits",
  "tests compile a fixed set of programs; rejections of valid programs come from internal consistency checks that depend on the combination of constructs",
  ["scc.c"],[("internal consistency checks","scc.c: Fail"),("declaration and statement parsing","scc.c: ParseExternalDefition, ParseStatement, ParseDeclSpecs, ParseDeclarator")])
p("P01","Macro expansion yields the token sequence C prescribes",
  "For every history of object-like and function-like macro definitions, undefinitions, identical redefinitions and uses within the preprocessor's limits, its output is the token sequence that C's macro rules give: arguments are completely expanded before they are substituted except next to # and ##, the result is rescanned with the rest of the file, self-references are not re-expanded, stringizing escapes literals and pasting forms new tokens (empty arguments included), nested and multi-line invocations are handled, names of function-like macros without arguments are left alone, and tokens that were separate stay separate in the output text. Where C leaves the result open, any of its readings is allowed; floating constants are outside the language.",
  ["inputs","histories"],"all macro definition/undefinition/use histories within limits",
  "the golden tests are 64 fixed inputs",
  ["scpp.c"],[("macro definition","scpp.c: HandleDefine, SameMacro"),("macro expansion","scpp.c: ReplaceId/GetToken, NextIsLParen, CollectArgs, ExpandMacro, Stringify, PasteTokens, AddExpanded"),("keeping tokens apart","scpp.c: CharsJoin and the output loop in main")])
p("P02","Conditional directives keep exactly the C-selected groups",
  "For every nesting of #if, #ifdef, #ifndef, #elif, #else and #endif up to the limit, exactly the groups C selects are processed; conditions evaluate as C integer constant expressions (all operators, precedence, associativity, unevaluated operands, defined, undefined names as 0, macros, character constants) for values that fit 16 bits; nothing in a skipped group has any effect; and unbalanced directives, malformed conditions and divisions by zero are rejected.",
  ["inputs"],"all nestings up to the limit, all condition expressions over the supported operators, all contents of skipped groups",
  "golden tests cover few nestings and expressions",
  ["scpp.c"],[("conditionals","scpp.c: HandleDirective, NewCond, CondActive"),("condition expressions","scpp.c: EvalCond, EvalExpr and EvalExpr1")])
p("P03","#include inserts the named file and line/file macros track positions",
  "An include directive (quoted, bracketed, or given by a macro) behaves as if the included file's lines stood in its place, for any nesting up to two levels and any mixture of macros and conditionals across files; a file without a final newline does not run into the next one; __LINE__ and __FILE__ give the position of their use, also after the include; a missing file, a malformed directive or deeper nesting is rejected.",
  ["inputs","configurations"],"all include trees within the limit, file sizes and positions relative to buffers",
  "only one small include test exists",
  ["scpp.c"],[("include stack","scpp.c: HandleInclude, OpenFile, CloseFile, end of file handling in main"),("positions","scpp.c: ReadChar, FillBuf, __LINE__/__FILE__ in GetToken")])
p("P04","Preprocessing preserves every token that is not a directive or macro",
  "Text that contains no directives and no macro names comes out as the same token sequence in the same order, with comments acting as white space, spliced lines joined, and string and character literals and all other characters unchanged, whatever its layout and however tokens fall relative to internal read boundaries; preprocessing the output again reproduces it byte for byte.",
  ["inputs"],"all token sequences, layouts, comments, continuations and alignments",
  "fixed small inputs never straddle buffers",
  ["scpp.c"],[("character input, splices","scpp.c: FillBuf, ReadChar, ReadToTokenData"),("tokenizer","scpp.c: RawGetToken"),("output","scpp.c: OutputStr, WriteOutput, the output loop in main")])
p("P05","The DOS build of the preprocessor matches the host build",
  "For every input within its limits, the preprocessor compiled by the project's own compiler and run under DOS writes byte for byte the output of the host build, and accepts and rejects the same inputs and command lines; a stack trace it prints lists its active calls.",
  ["inputs"],"all inputs, valid and invalid, whose condition values fit 16 bits",
  "tests compare on a few golden files only",
  ["scpp.c","scc.c"],[("preprocessor as a self-hosted program","scpp.c")])
p("P06","Malformed preprocessor input is rejected cleanly, never a crash or hang",
  "For any input bytes the preprocessor terminates without a memory error, and it either completes or reports an error and exits with failure; directives the language does not allow, unterminated constructs, wrong argument counts, differing redefinitions and #error are rejected; an input that exceeds a table limit is rejected or still handled correctly, never silently corrupted; and a file name that is too long or an output that cannot be written is an error.",
  ["inputs","configurations"],"all byte strings, near-valid mutations and inputs scaled across the table limits",
  "tests contain valid input only",
  ["scpp.c"],[("errors and limits","scpp.c: the assertions in HandleDirective, HandleDefine, CollectArgs, AddToken, AddTokenData, AddId, OpenFile")])

p("A01","Each assembled instruction decodes back to the instruction written",
  "For every supported mnemonic and operand combination, the bytes the assembler emits are an 8086 encoding of exactly the instruction written: same operation, operands, size, segment override, immediate and displacement.",
  ["inputs"],"all mnemonics x operand forms x register, immediate and displacement values",
  "tests assemble two fixed programs",
  ["sas.c"],[("instruction encoders","sas.c: instruction handlers registered in AddBuiltins, OutputModRM, operand parsing")])
p("A02","Labels, jumps and fixups resolve to the labelled address",
  "In every assembled program each reference to a label, forward or backward, global or local, in a jump, call, immediate, displacement or data word, resolves to the address the label has in the output, with ORG and any instruction sizes in between; a target a chosen short encoding cannot reach is never silently misencoded.",
  ["programs","inputs"],"all arrangements of labels, references and distances",
  "fixed programs exercise few distances and reference kinds",
  ["sas.c"],[("labels and fixups","sas.c: AddFixup, DoFixups, label definition, local label retirement"),("jump selection","sas.c: Jcc/JMP/CALL handlers")])
p("A03","Data directives and assembler expressions produce the written bytes",
  "DB, DW, RESB, RESW, EQU and ORG place exactly the specified values and sizes, and constant expressions in any position evaluate as ordinary 16-bit arithmetic; comments, case of mnemonics and registers, and spacing do not matter.",
  ["inputs"],"all directive sequences and expressions",
  "only fixed programs are assembled",
  ["sas.c"],[("directives","sas.c: InstDB, InstDW, InstResb, InstResw, EQU, ORG"),("expressions","sas.c: ParseExpr")])
p("A04","The DOS build of the assembler matches the host build",
  "For every input within its limits, the assembler compiled by the project's own compiler and run under DOS writes the same output bytes as the host build and accepts and rejects the same inputs and command lines.",
  ["inputs"],"all assembler sources within limits",
  "tests compare on two files",
  ["sas.c","scc.c"],[("assembler as a self-hosted program","sas.c")])
p("A05","Invalid assembly is rejected, never a crash, hang or silent wrong output",
  "For any input bytes the assembler terminates; unknown mnemonics, malformed operands and references to labels never defined are reported with failure, and it never reports success for output that differs from the source.",
  ["inputs"],"all byte strings and near-valid mutations of programs",
  "tests contain valid input only",
  ["sas.c"],[("errors","sas.c: Fatal, Fail, operand checks, end-of-input fixup handling")])

p("S01","Simulated arithmetic and logic give 8086 results and flags",
  "For every supported arithmetic, logical, shift, multiply, divide, compare, increment/decrement, negate, extend, exchange and move instruction with any operands and prefixes, the simulator leaves registers, memory and every flag that a later supported instruction can observe as an 8086 would. (Multiplication and division are 16-bit operations in the simulator: the high word of products, dividends wider than 16 bits and the flags after them are documented limits.)",
  ["inputs","histories"],"all supported ALU instruction forms, operand sizes, addressing modes and values, in any sequence",
  "one small program is simulated by tests; flag and boundary errors show only for particular operand values",
  ["sim86.c"],[("ALU and flags","sim86.c: DoOp, DoIncDec, Shift, instruction dispatch in main"),("conditions","sim86.c: JCC")])
p("S02","Simulated addressing, stack, jumps and string operations follow the 8086",
  "For every supported addressing mode, segment register and override, push/pop, call/return, jump and string instruction (with and without repeat prefixes), the simulator accesses the same memory locations and continues at the same instruction as an 8086, including wrap-around of offsets at 64 KiB and of addresses at 1 MiB.",
  ["inputs","histories"],"all supported instruction forms with all register, segment and memory states",
  "one small program is simulated by tests; wrap-around and segment errors need unusual register contents",
  ["sim86.c"],[("effective addresses and memory","sim86.c: ModRM, Read8, Write8, DataSeg"),("control transfer, stack and strings","sim86.c: DoPush, DoPop, JMP, JCC, instruction dispatch in main")])
p("S03","Simulated DOS services match DOS file and console semantics",
  "A simulated program sees the command tail it was started with, and its console output, file create/open/read/write/close calls, their carry flags and result codes, and its exit code behave as DOS defines, for any sequence of calls; files contain exactly the bytes written. Command lines that do not fit the DOS command tail are refused. (Files are opened for reading or created for writing; other access modes are not implemented.)",
  ["histories","inputs"],"all sequences of supported DOS calls with counts from 0 to 65535, argument lists, file contents and sizes",
  "tests run fixed tools with fixed files and successful calls only",
  ["sim86.c"],[("DOS services","sim86.c: INT, HandleOpen, ReadToMem, WriteFromMem, DoExit"),("program start","sim86.c: main, ReadFile")])
p("S04","Verbose and profiling modes do not change what a program does",
  "Running a program with the simulator's trace (-v) or profile (-p) option, or both, gives the same files, program output and exit code as running it without; the trace shows the true register and flag values after each instruction, and the profile lists exactly the executed addresses, attributes each to the enclosing symbol of the map file, and its counts add up to its totals; its stack section lists the frames (BP chain, return addresses, sizes, symbols) that were active when the stack pointer first reached its lowest value.",
  ["programs","configurations"],"all programs and all option combinations, with and without a map file",
  "tests do not use the options",
  ["sim86.c"],[("options","sim86.c: main, PrintState, DoExit, trace and profile code in the instruction loop")])
p("S05","The DOS build of the simulator behaves as the host build",
  "For every program that fits, the simulator compiled by the project's own compiler and itself run under DOS produces the same program output, files and exit code, and the same register trace and instruction text (numbers taken modulo 16 bits), as the host build.",
  ["programs"],"all programs within the nested simulator's memory, image sizes up to 64 KiB",
  "tests run the nested simulator on a single program",
  ["sim86.c","lib.h","scc.c","scpp.c"],[("simulator as a self-hosted program","sim86.c (__SCC__ parts), lib.h")])
p("S06","Unsupported instructions and DOS calls stop the simulation with an error",
  "When a simulated program reaches an instruction, prefix, interrupt or DOS function the simulator does not implement, the simulator stops with a message and an error exit and never continues with a wrong state; an arbitrary image, a missing or unreadable program, or over-long names and command lines never make it crash or report success.",
  ["inputs"],"all instruction byte sequences, interrupts and DOS functions in a known state; all byte sequences as program images",
  "no test runs an unsupported instruction or a corrupt image",
  ["sim86.c"],[("error paths","sim86.c: Fatal, asserts in the instruction dispatch, INT, ReadFile, ReadAsciiz")])

p("S07","The instruction text of traces and profiles describes the instruction executed",
  "In the simulator's trace (-v) and profile (-p), the text shown for an executed address names the instruction encoded there: its mnemonic (or a synonym), repeat prefix, registers, base and index registers, displacement and segment override of memory operands, immediate values (modulo the operand size) and the absolute target of jumps and calls, in operand order, for every encoding the simulator executes.",
  ["programs","configurations"],"all encodings of supported instructions with all operands and prefixes, first and repeated execution, with -v, -p or both",
  "no test looks at traces or profiles",
  ["sim86.c"],[("instruction text","sim86.c: ModRM, SegText, insttext and addrtext in the instruction loop and its helpers")])

p("L01","Library string and memory routines match their C counterparts",
  "In programs built against the bundled header library, memcpy, memset, strcpy, CopyStr, strcmp (by sign, characters compared as unsigned), strlen, FarPeek, FarPoke and clock give the C results for all arguments and lengths including zero, change nothing outside the destination range, and preserve what the caller needs (its locals and segment registers).",
  ["inputs","histories"],"all buffer contents, lengths and alignments, all segment:offset spellings",
  "no test calls them with varied arguments",
  ["lib.h"],[("routines","lib.h: memcpy, memset, strcpy, CopyStr, strcmp, strlen, FarPeek, FarPoke, clock")])
p("L02","Library formatted output produces the text C prescribes",
  "sprintf, vsprintf, printf, puts, PutStr and putchar of the bundled library produce, for every supported conversion (%d with +, 0 and width; %x, %X, %s, %c with width; %%) and every argument value, the text that C prescribes for 16-bit int, consuming one argument per conversion in order, writing nothing beyond the terminator, returning the end where documented, with newline written as carriage return plus line feed on the console.",
  ["inputs"],"all format strings over supported conversions and all argument values",
  "tests use the library incidentally with fixed formats",
  ["lib.h"],[("formatting","lib.h: vsprintf, sprintf, printf, PutStr, putchar, raw_putchar")])
p("L03","Library start-up, arguments, file calls and exit behave as documented",
  "A program built against the bundled library receives in argc/argv exactly the blank-separated words of its command tail, starts with zeroed globals whatever memory held, its open/read/write/close calls have the effect and results of the underlying DOS services on the named files, its return value or exit argument becomes the process exit code, and a failed assertion says so, prints a stack trace of the active calls (caller's BP and return address, innermost first) and exits with failure while one that holds does nothing.",
  ["inputs","histories","configurations"],"all command tails, file call histories, memory contents and exit values",
  "tests use one or two fixed arguments",
  ["lib.h"],[("start-up and system calls","lib.h: _start, ParseArgs, DosCall, open, read, write, close, exit, assert")])
p("E01","The tool chain preserves program meaning end to end",
  "A program in the supported C subset that includes lib.h, prints through printf/sprintf/puts/putchar and is run through the project's preprocessor, compiler and simulator prints exactly the bytes and exits with exactly the code that C (with 16-bit int) gives its source text. This holds however the program's tokens are spread over object-like and function-like macros, # and ##, header files and conditional sections, and also when the preprocessor, the compiler and the simulator themselves run as DOS programs.",
  ["programs"],"all programs the tools accept and all ways of writing them with macros, headers and conditions",
  "every test drives a single tool with one fixed input, so disagreements between tools (what scpp emits, what scc expects, what lib.h assumes about calls, what sim86 implements) show only on programs nobody wrote down",
  ["scpp.c","scc.c","sim86.c","lib.h"],[("the whole pipeline","README: scpp, scc, sim86 usage; lib.h _start, printf")])
p("G01","The game draws its scene and plays shots by its rules",
  "For every clock value at start and every key history, the DOS build of the game reaches the point where it takes keys, with video mode 4 and palette 0 set and this picture: a terrain of colour 1 whose surface stays within rows 20 to 180 and differs by at most 3 rows between neighbouring columns, tank 1 (colour 2, left edge at column 20, angle 32 of 128) and tank 2 (colour 3, column 300, angle 96) standing on it, and the status line of tank 1 (angle in whole degrees, power 100). Left/right (4B00h/4D00h) turn the barrel of the tank whose turn it is by one step within 0..128, wrapping around; up/down (4800h/5000h) change its power by one within 0..100; page up/down (4900h/5100h) set it to 100/0; the status line follows; other keys change nothing. Space or enter fires: the shot, shown step by step at each vertical retrace, leaves the barrel along its direction with a speed proportional to the power, falls with increasing speed, is removed where it was, and ends where it meets a drawn pixel below the status line (which it erases) or leaves the screen at a side or the bottom; the other tank is next. A hit on a tank announces the other player as winner and the next key ends the game, as Esc does at any time, with the old video mode restored. Nothing but the video page and the program's own segment is written.",
  ["inputs","histories"],"all clock values, initial video modes, fonts, retrace timings and key histories",
  "the tests only compile the game, they never run it",
  ["swar.c","lib.h","scc.c","scpp.c"],[("the game","swar.c: main, Fire, DrawTurret, DrawBody, UpdateTurrent, DrawStr, ShowTankInfo, PutPixel, ICos, Rand")])
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
    print(json.dumps(d))
