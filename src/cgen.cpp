#include "cgen.h"
#include <algorithm>

namespace cg {

static const Type T_VOID{Type::VOID, nullptr, 0, nullptr, {}}, T_CHAR{Type::CHAR, nullptr, 0, nullptr, {}}, T_UCHAR{Type::UCHAR, nullptr, 0, nullptr, {}}, T_INT{Type::INT, nullptr, 0, nullptr, {}}, T_UINT{Type::UINT, nullptr, 0, nullptr, {}};

bool isChar(TP t) { return t->k == Type::CHAR || t->k == Type::UCHAR; }
bool isInt(TP t) { return t->k == Type::INT || t->k == Type::UINT; }
static bool isArith(TP t) { return isChar(t) || isInt(t); }
bool isScalar(TP t) { return isArith(t) || isPtr(t); }
int sizeOf(TP t) {
    switch (t->k) {
    case Type::CHAR: case Type::UCHAR: return 1;
    case Type::ARR: return t->n * sizeOf(t->el);
    case Type::STRUCT: return t->sd->size;
    default: return 2;
    }
}
bool hasFptr(TP t) {
    if (t->k == Type::FPTR) return true;
    if (t->k == Type::ARR) return hasFptr(t->el);
    if (t->k == Type::STRUCT) for (auto& m : t->sd->m) if (hasFptr(m.t)) return true;
    return false;
}
static bool hasAddr(TP t) { // its bytes depend on the placement of objects
    if (t->k == Type::FPTR || t->k == Type::PTR) return true;
    if (t->k == Type::ARR) return hasAddr(t->el);
    if (t->k == Type::STRUCT) for (auto& m : t->sd->m) if (hasAddr(m.t)) return true;
    return false;
}
static TP promote(TP t) { return isChar(t) ? &T_INT : t; }
static TP arithType(TP a, TP b) { return promote(a)->k == Type::UINT || promote(b)->k == Type::UINT ? &T_UINT : &T_INT; }

// ---------------------------------------------------------------- printing
// Equivalent spellings of declarations, chosen while printing (none when there is no style)
namespace {
struct Style {
    uint64_t x;
    explicit Style(uint64_t seed) : x(seed * 0x9E3779B97F4A7C15ull + 1) {}
    unsigned next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned)(x >> 24); }
};
Style* style = nullptr;
std::map<TP, Str> styDefs;  // typedef names in scope everywhere
bool styFptr = false;  // function pointer types must be named
bool styQual = false;  // qualifiers make no difference to the type of what is declared
bool sty(int pct) { return style && (int)(style->next() % 100) < pct; }
template <size_t N> Str one(const char* const (&a)[N]) { return a[sty(40) ? style->next() % N : 0]; }
}
// a constant expression of value v
static Str constText(int v, int d = 2) {
    Str lit = fmt("%d", v);
    if (v < 0 && v != -32768 && sty(50)) lit = fmt("-%d", -v);
    if (!d || !sty(d == 2 ? 25 : 50)) return v == -32768 ? "(-32767 - 1)" : lit;
    auto in = [](int x) { return x >= -32767 && x <= 32767; };
    int k = (int)(style->next() % 97) - 48;
    auto P = [&](int x) { Str t = constText(x, d - 1); return t.find_first_not_of("0123456789") == Str::npos ? t : "(" + t + ")"; };
    switch (style->next() % 10) {
    case 0: if (in(v - k)) return P(v - k) + " + " + P(k); break;
    case 1: if (in(v + k)) return P(v + k) + " - " + P(k); break;
    case 2: for (int m : {7, 5, 3, 2}) if (v % m == 0) return P(v / m) + " * " + P(m); break;
    case 3: if (v >= 0 && v < 5000) return P(v * 6 + (k & 3)) + " / 6"; break;
    case 4: if (v >= 0 && v < 90) return P(v + 100 * ((k & 63) + 1)) + " % 100"; break;
    case 5: if (v > 0 && !(v & 3)) return P(v >> 2) + " << 2"; break;
    case 6: if (v >= 0 && v < 8000) return P(v << 2 | (k & 3)) + " >> 2"; break;
    case 7: if (v >= 0) return P(v & 0x5555) + " | " + P(v & 0x2aaa); break;
    case 8: return "~" + P(~v);
    case 9: if (v >= 0) return P(v ^ (k & 63)) + " ^ " + P(k & 63); break;
    }
    return v == -32768 ? "(-32767 - 1)" : lit;
}
static Str baseText(TP t) {
    static const char* const C[] = {"char", "signed char", "char signed"};
    static const char* const UC[] = {"unsigned char", "char unsigned"};
    static const char* const I[] = {"int", "signed", "signed int", "int signed", "short", "short int", "int short", "signed short", "short signed int"};
    static const char* const U[] = {"unsigned", "unsigned int", "int unsigned", "unsigned short", "short unsigned int", "unsigned short int"};
    Str r;
    switch (t->k) {
    case Type::VOID: return "void";
    case Type::CHAR: r = one(C); break;
    case Type::UCHAR: r = one(UC); break;
    case Type::INT: r = one(I); break;
    case Type::UINT: r = one(U); break;
    case Type::STRUCT: return Str(t->sd->isUnion ? "union " : "struct ") + t->sd->tag;
    default: return "?";
    }
    if (styQual && sty(20)) r = sty(50) ? r + " volatile" : "volatile " + r;
    return r;
}
// the declarator of a name of type t; base receives the type the specifiers must name
struct Base { TP t; Str alias; Str key() const { return alias.empty() ? fmt("%d ", t->k) + (t->k == Type::STRUCT ? t->sd->tag : "") : alias; } };
static Str baseText(const Base& b) { return b.alias.empty() ? baseText(b.t) : b.alias; }
static Str declarator(TP t, Str d, Base& base) {
    if (auto i = styDefs.find(t); i != styDefs.end() && sty(40)) { base = {t, i->second}; return d; }
    switch (t->k) {
    case Type::PTR: return declarator(t->el, (styQual && sty(15) ? "*volatile " : sty(5) ? "* " : "*") + d, base);
    case Type::ARR: return declarator(t->el, d + "[" + constText(t->n) + "]", base);
    case Type::FPTR: {
        // (functions returning them cannot be spelled without the typedef)
        if (!t->name.empty() && d != t->name && (styFptr || sty(50))) { base = {t, t->name}; return d; }
        Str a;
        for (auto x : t->args) a += (a.empty() ? "" : ", ") + typeName(x, sty(20) ? "p" : "");
        return declarator(t->el, "(*" + d + ")(" + (a.empty() ? sty(30) ? "" : "void" : a) + ")", base);
    }
    default: base = {t, ""}; return d;
    }
}
Str typeName(TP t, const Str& d) {
    Base base;
    Str x = declarator(t, d, base);
    return baseText(base) + (x.empty() ? "" : (d.empty() && x[0] == '*' && x.find('(') == Str::npos && !sty(20) ? "" : " ") + x);
}
static int prec(const Expr* e) {
    switch (e->op) {
    case NUM: return e->o[0] == '-' ? 2 : 0;
    case STR: case VAR: case FNAME: case VAARG: return 0;
    case INDEX: case MEMBER: case ARROW: case CALL: case CALLPTR: return 1;
    case INCDEC: return e->v >= 2 ? 1 : 2;
    case NEG: case PLUS: case NOT: case BNOT: case DEREF: case ADDR: case CAST: case SIZEOFT: case SIZEOFE: return 2;
    case BIN:
        if (e->o == "*" || e->o == "/" || e->o == "%") return 3;
        if (e->o == "+" || e->o == "-") return 4;
        if (e->o == "<<" || e->o == ">>") return 5;
        if (e->o == "<" || e->o == "<=" || e->o == ">" || e->o == ">=") return 6;
        if (e->o == "==" || e->o == "!=") return 7;
        if (e->o == "&") return 8;
        if (e->o == "^") return 9;
        return 10;
    case LAND: return 11;
    case LOR: return 12;
    case COND: return 13;
    case ASSIGN: return 14;
    case COMMA: return 15;
    }
    return 16;
}
static Str esc(const Str& s) {
    Str r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) r += fmt("\\%03o", c);
        else r += c;
    }
    return r;
}
static Str pe(const Expr* e, int maxPrec);
static Str pargs(const Expr* e, size_t from) {
    Str a;
    for (size_t i = from; i < e->k.size(); ++i) a += (i > from ? ", " : "") + pe(e->k[i], 14);
    return a;
}
static Str peRaw(const Expr* e) {
    auto un = [&](const char* o) { Str x = pe(e->k[0], 2); return (x[0] == o[0] ? Str(o) + " " : Str(o)) + x; };
    int p = prec(e);
    switch (e->op) {
    case NUM: return e->o;
    case STR: return "\"" + esc(e->o) + "\"";
    case VAR: return e->var->name;
    case FNAME: return e->fn->name;
    case NEG: return un("-");
    case PLUS: return un("+");
    case NOT: return un("!");
    case BNOT: return un("~");
    case DEREF: return un("*");
    case ADDR: return un("&");
    case BIN: return pe(e->k[0], p) + " " + e->o + " " + pe(e->k[1], p - 1);
    case LAND: return pe(e->k[0], p) + " && " + pe(e->k[1], p - 1);
    case LOR: return pe(e->k[0], p) + " || " + pe(e->k[1], p - 1);
    case COND: return pe(e->k[0], 12) + " ? " + pe(e->k[1], 14) + " : " + pe(e->k[2], 12);
    case COMMA: return pe(e->k[0], 15) + ", " + pe(e->k[1], 14);
    case ASSIGN: return pe(e->k[0], 2) + " " + e->o + " " + pe(e->k[1], 14);
    case INCDEC: {
        const char* o = e->v & 1 ? "--" : "++";
        return e->v >= 2 ? pe(e->k[0], 1) + o : o + pe(e->k[0], 2);
    }
    case INDEX: return pe(e->k[0], 1) + "[" + pe(e->k[1], 15) + "]";
    case MEMBER: return pe(e->k[0], 1) + "." + e->o;
    case ARROW: return pe(e->k[0], 1) + "->" + e->o;
    case CALL: return e->fn->name + "(" + pargs(e, 0) + ")";
    case CALLPTR: return (e->v ? "(*" + pe(e->k[0], 2) + ")" : pe(e->k[0], 1)) + "(" + pargs(e, 1) + ")";
    case CAST: {
        styQual = isArith(e->ty);
        Str x = "(" + typeName(e->ty, "") + ")";
        styQual = false;
        return x + pe(e->k[0], 2);
    }
    case SIZEOFT: return "sizeof(" + typeName(e->ty, "") + ")";
    case SIZEOFE: {
        Str x = pe(e->k[0], 2);
        return x[0] != '(' && sty(30) ? "sizeof " + x : "sizeof(" + x + ")";
    }
    case VAARG: return "va_arg(" + e->var->name + ", " + typeName(e->ty, "") + ")";
    }
    return "?";
}
static Str pe(const Expr* e, int maxPrec) {
    Str s = peRaw(e);
    return e->paren || prec(e) > maxPrec ? "(" + s + ")" : s;
}
static Str declName(const Var* v) {
    if (!v->alias.empty()) return v->alias + " " + v->name;
    if (v->strInit) return typeName(v->t->el, v->name + "[]");
    styQual = v->noalias && (isArith(v->t) || (isPtr(v->t) && !isPtr(v->t->el) && v->t->el->k == Type::VOID));
    Str x = typeName(v->t, v->name);
    styQual = false;
    return x;
}
// the part of a variable's declaration after the specifiers; key says which specifiers it needs
static Str declTail(const Var* v, Str& key) {
    if (!v->alias.empty()) { key = v->alias; return v->name; }
    Base b;
    Str x = v->strInit ? declarator(v->t->el, v->name + "[]", b) : declarator(v->t, v->name, b);
    key = b.key();
    return x;
}
static void ps(Str& o, const Stmt* s, int ind);
static void pbody(Str& o, const std::vector<Stmt*>& b, int ind) { for (auto x : b) ps(o, x, ind); }
static bool simpleBody(const std::vector<Stmt*>& b) {
    if (b.size() != 1) return false;
    SK k = b[0]->k;
    return k == S_EXPR || k == S_OUT || k == S_BREAK || k == S_CONTINUE || k == S_RETURN || k == S_GOTO || k == S_EMPTY;
}
static void pblock(Str& o, const std::vector<Stmt*>& b, int ind, bool brace, const char* after = "\n") {
    // one compound statement needs no braces either (keep them where an else could bind wrongly)
    if (b.size() == 1 && (b[0]->k == S_WHILE || b[0]->k == S_FOR || b[0]->k == S_DO || b[0]->k == S_SWITCH || b[0]->k == S_IF) && sty(50) && (*after == '\n' || b[0]->k == S_DO || b[0]->k == S_SWITCH)) {
        o += "\n"; pbody(o, b, ind + 1);
        if (*after != '\n') o += Str(ind * 4, ' ');
        return;
    }
    if (!brace && simpleBody(b)) { o += "\n"; pbody(o, b, ind + 1); if (*after != '\n') o += Str(ind * 4, ' '); return; }
    o += " {\n"; pbody(o, b, ind + 1); o += Str(ind * 4, ' ') + "}"; o += after;
}
static void ps(Str& o, const Stmt* s, int ind) {
    Str in(ind * 4, ' ');
    auto E = [&](const Expr* e) { return pe(e, 15); };
    switch (s->k) {
    case S_EXPR: { Str x = E(s->e); o += in + x + ";\n"; break; }
    case S_OUT: o += in + "Out(" + pe(s->e, 14) + ");\n"; break;
    case S_BLOCK: o += in + "{\n"; pbody(o, s->body, ind + 1); o += in + "}\n"; break;
    case S_IF:
        o += in + "if (" + E(s->e) + ")";
        pblock(o, s->body, ind, s->val & 1, s->hasElse ? " " : "\n");
        if (s->hasElse) { o += simpleBody(s->body) && !(s->val & 1) ? "else" : "else"; 
            if (s->body2.size() == 1 && s->body2[0]->k == S_IF && sty(70)) { Str x; ps(x, s->body2[0], ind); o += " " + x.substr(x.find_first_not_of(' ')); }
            else pblock(o, s->body2, ind, s->val & 2); }
        break;
    case S_WHILE: o += in + "while (" + E(s->e) + ")"; pblock(o, s->body, ind, s->val & 1); break;
    case S_DO: o += in + "do"; pblock(o, s->body, ind, s->val & 1, " "); o += "while (" + E(s->e) + ");\n"; break;
    case S_FOR:
        o += in + "for (" + (s->e ? E(s->e) : "") + ";" + (s->e2 ? " " + E(s->e2) : "") + ";" + (s->e3 ? " " + E(s->e3) : "") + ")";
        pblock(o, s->body, ind, s->val & 1);
        break;
    case S_SWITCH: o += in + "switch (" + E(s->e) + ") {\n"; pbody(o, s->body, ind); o += in + "}\n"; break;
    case S_CASE: o += in + "case " + (s->e->op == NUM && sty(30) ? constText(s->e->v) : pe(s->e, 13)) + ":\n"; break;
    case S_DEFAULT: o += in + "default:\n"; break;
    case S_BREAK: o += in + "break;\n"; break;
    case S_CONTINUE: o += in + "continue;\n"; break;
    case S_RETURN: o += in + (s->e ? "return " + E(s->e) + ";\n" : "return;\n"); break;
    case S_GOTO: o += in + "goto " + s->label + ";\n"; break;
    case S_LABEL: o += s->label + ":\n"; break;
    case S_DECL: {
        Str d;
        for (size_t i = 0; i < s->vars.size(); ++i) {
            Var* v = s->vars[i];
            Str x;
            if (!i) {
                // what follows must be declarable with the same specifiers
                if (s->vars.size() > 1) { Base b; auto keep = styDefs; styDefs.clear(); Str y = v->alias.empty() ? declarator(v->t, v->name, b) : v->name; x = (v->alias.empty() ? baseText(b) : v->alias) + " " + y; styDefs = keep; }
                else x = declName(v);
            } else { Str key; auto keep = styDefs; styDefs.clear(); x = declTail(v, key); styDefs = keep; }
            d += (i ? ", " : "") + x;
            if (s->inits[i]) d += " = " + pe(s->inits[i], 14);
        }
        o += in + (s->vars[0]->stor == Var::STATIC ? sty(8) ? "static volatile " : "static " : sty(6) ? "auto " : sty(4) && s->vars.size() == 1 && s->vars[0]->noalias ? "register " : "") + d + ";\n";
        break;
    }
    case S_EMPTY: o += in + ";\n"; break;
    case S_RAW: case S_TYPEDECL: o += s->text; break;
    case S_VASTART: o += in + "va_start(" + s->var->name + ", " + s->text + ");\n"; break;
    case S_VAEND: o += in + "va_end(" + s->var->name + ");\n"; break;
    }
}
Str prelude() {
    return
        "void Out(int v) { _emit 0x8B _emit 0x46 _emit 0x04 _emit 0xCD _emit 0xF1 }\n"
        "void ClearBss(void* p, int v, int n) { _emit 0x8B _emit 0x7E _emit 0x04 _emit 0x8B _emit 0x46 _emit 0x06 _emit 0x8B _emit 0x4E _emit 0x08 _emit 0xF3 _emit 0xAA }\n"
        "void Exit(int c) { _emit 0x8B _emit 0x46 _emit 0x04 _emit 0xB4 _emit 0x4C _emit 0xCD _emit 0x21 }\n"
        "int main(void);\n"
        "void _start(void) { ClearBss(&_SBSS, 0, &_EBSS-&_SBSS); Exit(main()); }\n";
}
static Str fhead(const Func* f, bool proto = false) {
    Str a;
    int nq = 0, how = proto && sty(40) ? 1 + sty(50) : 0; // names of a prototype's parameters: as in the definition, none, others
    for (auto v : f->params) {
        Var w = *v;
        if (how) w.name = how == 1 ? "" : fmt("q%d", nq++);
        a += a.empty() ? "" : ", ";
        if (v->t->k == Type::FPTR && sty(25)) { // declared as a function
            Str b;
            for (auto x : v->t->args) b += (b.empty() ? "" : ", ") + typeName(x, sty(30) ? "z" : "");
            a += typeName(v->t->el, w.name + "(") + (b.empty() ? "void" : b) + ")";
        } else a += declName(how ? &w : v);
    }
    if (f->variadic) a += ", ...";
    if (f->name == "main") return "int main(void)";
    styFptr = true;
    Str head = typeName(f->ret, f->name);
    styFptr = false;
    return head + "(" + (a.empty() ? f->name != "main" && sty(20) ? "" : "void" : a) + ")";
}
static Str structBody(const SDef* d) {
    Str o = Str(d->isUnion ? "union " : "struct ") + d->tag + " {", last;
    for (auto& m : d->m) {
        Base b;
        Str x = declarator(m.t, m.name, b), key = b.key();
        if (key == last && sty(60)) { o.pop_back(); o += ", " + x + ";"; continue; }
        o += " " + baseText(b) + " " + x + ";"; last = key;
    }
    return o + " }";
}
static Str structText(const SDef* d) { return structBody(d) + ";\n"; }
static Str initText(const Var* v) {
    if (v->strInit) return " = \"" + esc(v->str) + "\"";
    return v->hasInit ? " = " + constText(v->init) : "";
}
static Str printAll(const Program& p, bool withPrelude) {
    Str o;
    if (withPrelude) o += prelude();
    size_t gi = 0;
    for (auto& t : p.typedefs) if (t.t->k == Type::FPTR) o += "typedef " + typeName(t.t, t.name) + ";\n"; // structs use it
    for (auto d : p.structs) {
        Str decls;
        // (only the last one, so that the order of the objects stays the same)
        while (d == p.structs.back() && gi < p.globals.size() && sty(80)) {
            Var* v = p.globals[gi]; Str key, x = declTail(v, key);
            if (key != fmt("%d ", Type::STRUCT) + d->tag) break;
            decls += (decls.empty() ? " " : ", ") + x; ++gi;
        }
        o += structBody(d) + decls + ";\n";
    }
    for (auto d : p.late) o += structBody(d) + ";\n";
    if (!p.enums.empty()) {
        o += sty(30) ? "enum En {" : "enum {";
        int last = -1; bool first = true;
        for (auto& e : p.enums) { o += (first ? " " : ", ") + e.name; if (e.v != last + 1 || (first && e.v)) o += " = " + constText(e.v); last = e.v; first = false; }
        o += sty(20) ? ", }" : " }";
        while (gi < p.globals.size() && sty(70)) {
            Var* v = p.globals[gi]; Str key, x = declTail(v, key);
            if (key != fmt("%d ", Type::INT)) break;
            o += (o.back() == '}' ? " " : ", ") + x + initText(v); ++gi;
        }
        o += ";\n";
    }
    Str last;
    for (auto& t : p.typedefs) {
        if (t.t->k == Type::FPTR) continue;
        Base b;
        Str x = declarator(t.t, t.name, b), key = b.key();
        if (key == last && sty(60)) { o.resize(o.size() - 2); o += ", " + x + ";\n"; continue; }
        o += "typedef " + baseText(b) + " " + x + ";\n"; last = key;
    }
    for (int n = 0; n < 3 && !p.globals.empty() && sty(50); ++n) { // further names for some of the types in use
        TP x = p.globals[style->next() % p.globals.size()]->t;
        while ((x->k == Type::ARR || x->k == Type::PTR) && sty(30)) x = x->el;
        if (x->k == Type::VOID || x->k == Type::FPTR || styDefs.count(x)) continue;
        Str nm = fmt("Y%d", n);
        o += "typedef " + typeName(x, nm) + ";\n";
        styDefs[x] = nm;
    }
    last.clear();
    for (; gi < p.globals.size(); ++gi) {
        const Var* v = p.globals[gi];
        Base b;
        Str x = v->alias.empty() ? declarator(v->strInit ? v->t->el : v->t, v->name + (v->strInit ? "[]" : ""), b) : v->name, key = v->alias.empty() ? b.key() : v->alias;
        if (key == last && sty(60)) { o.resize(o.size() - 2); o += ", " + x + initText(v) + ";\n"; continue; }
        o += (sty(8) ? "static " : "") + (v->alias.empty() ? baseText(b) : v->alias) + " " + x + initText(v) + ";\n"; last = key;
    }
    for (auto f : p.fns) if (f->proto) o += (sty(10) ? "extern " : "") + fhead(f, true) + ";\n";
    for (auto f : p.fns) { o += (!f->proto && !f->protoLess && sty(5) ? "static " : "") + fhead(f) + "\n{\n"; pbody(o, f->body, 1); o += "}\n"; }
    return o + p.tail;
}
Str print(const Program& p, bool withPrelude) {
    Style st(p.style);
    style = p.style ? &st : nullptr;
    Str o = printAll(p, withPrelude);
    style = nullptr; styDefs.clear();
    return o;
}
uint64_t featureHash(const Program& p) {
    Str s;
    for (auto& f : p.feat) s += fmt("%s:%d;", f.first.c_str(), f.second);
    return hashStr(s);
}

// -------------------------------------------------------------- interpreter
namespace {
enum Flow { F_NORM, F_BREAK, F_CONT, F_RET, F_GOTO };
struct Interp {
    Program& p;
    std::vector<uint8_t> mem, init, valid;
    int sp = 0xff00, strNext = 0x8000;
    Trace tr;
    uint64_t steps = 0;
    Str gotoLabel;
    uint16_t retVal = 0; bool retHas = false;
    int depth = 0;
    std::vector<Func*> fnTab;
    struct Frame { Func* f; std::vector<int> addr; std::vector<uint16_t> va; };
    Frame* fr = nullptr;
    std::map<const Var*, std::pair<std::vector<uint16_t>*, size_t>> vaState;

    explicit Interp(Program& pp) : p(pp), mem(65536), init(65536), valid(65536) {}
    [[noreturn]] void ub(const char* w) { if (getenv("VP_UBDUMP")) fprintf(stderr, "/*%s*/\n%s\n", w, print(p, false).c_str()); throw Discard{Str("interp: ") + w}; }
    void tick() { if (++steps > 60000) ub("step budget"); }
    void alloc(int a, int n, bool in) { for (int i = 0; i < n; ++i) { valid[a + i] = 1; init[a + i] = in; } }
    uint16_t load(int a, TP t) {
        a &= 0xffff;
        int n = isChar(t) ? 1 : 2;
        for (int i = 0; i < n; ++i) { if (!valid[(a + i) & 0xffff]) ub("bad read"); if (!init[(a + i) & 0xffff]) ub("uninitialised read"); }
        if (t->k == Type::CHAR) return (uint16_t)(int8_t)mem[a];
        if (t->k == Type::UCHAR) return mem[a];
        return mem[a] | mem[(a + 1) & 0xffff] << 8;
    }
    void store(int a, TP t, uint16_t v) {
        a &= 0xffff;
        int n = isChar(t) ? 1 : 2;
        for (int i = 0; i < n; ++i) { if (!valid[(a + i) & 0xffff]) ub("bad write"); mem[(a + i) & 0xffff] = v >> 8 * i; init[(a + i) & 0xffff] = 1; }
    }
    uint16_t conv(uint16_t v, TP t) {
        if (t->k == Type::CHAR) return (uint16_t)(int8_t)v;
        if (t->k == Type::UCHAR) return v & 0xff;
        return v;
    }
    int varAddr(Var* v) { return v->stor == Var::LOCAL || v->stor == Var::PARAM ? fr->addr[v->idx] : v->idx; }
    int lv(Expr* e) {
        tick();
        switch (e->op) {
        case VAR: { int a = varAddr(e->var); if (a < 0) ub("dead variable"); return a; }
        case INDEX: {
            int base = rv(e->k[0]);
            int16_t i = (int16_t)rv(e->k[1]);
            return (base + i * sizeOf(e->t)) & 0xffff;
        }
        case DEREF: return rv(e->k[0]);
        case MEMBER: return (lv(e->k[0]) + e->mem->off) & 0xffff;
        case ARROW: return (rv(e->k[0]) + e->mem->off) & 0xffff;
        case COMMA: rv(e->k[0]); return lv(e->k[1]);
        case VAARG: return -2;
        default: ub("not an lvalue");
        }
    }
    uint16_t binop(const Str& o, uint16_t a, uint16_t b, bool uns, bool unsShift) {
        int16_t sa = a, sb = b;
        if (o == "+") return a + b;
        if (o == "-") return a - b;
        if (o == "*") return (uint16_t)((uint32_t)a * b);
        if (o == "/" || o == "%") {
            if (!b) ub("division by zero");
            if (uns) return o == "/" ? a / b : a % b;
            if (sa == -32768 && sb == -1) ub("division overflow");
            return o == "/" ? sa / sb : sa % sb;
        }
        if (o == "&") return a & b;
        if (o == "|") return a | b;
        if (o == "^") return a ^ b;
        if (o == "<<") { if (b > 15) ub("shift count"); return a << b; }
        if (o == ">>") { if (b > 15) ub("shift count"); return unsShift ? a >> b : (uint16_t)(sa >> b); }
        if (o == "==") return a == b;
        if (o == "!=") return a != b;
        if (o == "<") return uns ? a < b : sa < sb;
        if (o == "<=") return uns ? a <= b : sa <= sb;
        if (o == ">") return uns ? a > b : sa > sb;
        return uns ? a >= b : sa >= sb;
    }
    uint16_t rv(Expr* e) {
        tick();
        switch (e->op) {
        case NUM: return (uint16_t)e->v;
        case STR:
            if (e->strAddr < 0) {
                e->strAddr = strNext; strNext += e->o.size() + 1;
                if (strNext > 0xa000) ub("strings");
                alloc(e->strAddr, e->o.size() + 1, true);
                memcpy(&mem[e->strAddr], e->o.c_str(), e->o.size() + 1);
            }
            return e->strAddr;
        case FNAME: return fnAddr(e->fn);
        case VAR: case INDEX: case DEREF: case MEMBER: case ARROW:
            if (e->t->k == Type::ARR) return lv(e);
            if (e->t->k == Type::STRUCT) return lv(e);
            if (e->op == VAR && e->var->t->k == Type::FPTR) return load(lv(e), &T_UINT);
            return load(lv(e), e->t);
        case NEG: return -rv(e->k[0]);
        case PLUS: return rv(e->k[0]);
        case NOT: return !rv(e->k[0]);
        case BNOT: return ~rv(e->k[0]);
        case ADDR: return e->k[0]->op == FNAME ? rv(e->k[0]) : lv(e->k[0]);
        case BIN: {
            TP a = e->k[0]->t, b = e->k[1]->t;
            uint16_t x = rv(e->k[0]), y = rv(e->k[1]);
            auto decay = [](TP t) { return t->k == Type::PTR || t->k == Type::ARR; };
            if (decay(a) || decay(b)) {
                if (e->o == "+") return decay(a) ? x + (int16_t)y * sizeOf(a->el) : y + (int16_t)x * sizeOf(b->el);
                if (e->o == "-") {
                    if (!decay(b)) return x - (int16_t)y * sizeOf(a->el);
                    return (int16_t)(x - y) / sizeOf(a->el);
                }
                return binop(e->o, x, y, true, true);
            }
            return binop(e->o, x, y, arithType(a, b)->k == Type::UINT, promote(a)->k == Type::UINT);
        }
        case LAND: return rv(e->k[0]) && rv(e->k[1]);
        case LOR: return rv(e->k[0]) || rv(e->k[1]);
        case COND: { Expr* r = rv(e->k[0]) ? e->k[1] : e->k[2]; return rv(r); }
        case COMMA: rv(e->k[0]); return rv(e->k[1]);
        case ASSIGN: {
            TP t = e->k[0]->t;
            if (t->k == Type::STRUCT) {
                int d = lv(e->k[0]), s = lv(e->k[1]);
                int n = sizeOf(t);
                if (d != s && std::abs(d - s) < n) ub("overlapping copy");
                std::vector<uint8_t> a(n), b(n);
                for (int i = 0; i < n; ++i) { if (!valid[s + i] || !valid[d + i]) ub("struct copy"); a[i] = mem[s + i]; b[i] = init[s + i]; }
                for (int i = 0; i < n; ++i) { mem[d + i] = a[i]; init[d + i] = b[i]; }
                return d;
            }
            uint16_t v;
            int d;
            if (e->o == "=") { v = rv(e->k[1]); d = lv(e->k[0]); }
            else {
                uint16_t r = rv(e->k[1]);
                d = lv(e->k[0]);
                uint16_t l = load(d, t);
                Str o = e->o.substr(0, e->o.size() - 1);
                if (isPtr(t)) v = o == "+" ? l + (int16_t)r * sizeOf(t->el) : l - (int16_t)r * sizeOf(t->el);
                else v = binop(o, l, r, arithType(t, e->k[1]->t)->k == Type::UINT, promote(t)->k == Type::UINT);
            }
            store(d, t->k == Type::FPTR ? &T_UINT : t, v);
            return t->k == Type::FPTR ? v : conv(v, t);
        }
        case INCDEC: {
            TP t = e->k[0]->t;
            int d = lv(e->k[0]);
            uint16_t l = load(d, t), n = isPtr(t) ? sizeOf(t->el) : 1, v = e->v & 1 ? l - n : l + n;
            store(d, t, v);
            return e->v >= 2 ? l : conv(v, t);
        }
        case CAST: return conv(rv(e->k[0]), e->ty);
        case SIZEOFT: return sizeOf(e->ty);
        case SIZEOFE: return sizeOf(e->k[0]->t);
        case CALL: {
            std::vector<uint16_t> a;
            for (auto x : e->k) a.push_back(rv(x));
            return call(e->fn, a);
        }
        case CALLPTR: {
            uint16_t f = rv(e->k[0]);
            std::vector<uint16_t> a;
            for (size_t i = 1; i < e->k.size(); ++i) a.push_back(rv(e->k[i]));
            if (f < 0xf000 || (size_t)(f - 0xf000) >= fnTab.size()) ub("bad function pointer");
            return call(fnTab[f - 0xf000], a);
        }
        case VAARG: {
            auto& st = vaState[e->var];
            if (!st.first || st.second >= st.first->size()) ub("va_arg");
            uint16_t v = (*st.first)[st.second++];
            return conv(v, e->ty);
        }
        }
        return 0;
    }
    int fnAddr(Func* f) {
        for (size_t i = 0; i < fnTab.size(); ++i) if (fnTab[i] == f) return 0xf000 + i;
        fnTab.push_back(f);
        return 0xf000 + fnTab.size() - 1;
    }
    uint16_t call(Func* f, std::vector<uint16_t>& args) {
        if (++depth > 60) ub("call depth");
        ++tr.calls[f->name];
        Frame nf; nf.f = f; nf.addr.assign(f->nslots, -1);
        Frame* old = fr;
        int osp = sp;
        for (size_t i = 0; i < f->params.size(); ++i) {
            Var* v = f->params[i];
            sp -= 2;
            alloc(sp, 2, true);
            nf.addr[v->idx] = sp;
            uint16_t a = i < args.size() ? args[i] : 0;
            mem[sp] = a; mem[sp + 1] = a >> 8;
        }
        for (size_t i = f->params.size(); i < args.size(); ++i) nf.va.push_back(args[i]);
        fr = &nf;
        retVal = 0; retHas = false;
        Flow fl = list(f->body, nullptr);
        if (fl == F_GOTO) ub("goto target missing");
        uint16_t r = retVal; bool has = retHas;
        retHas = false;
        for (int a = sp; a < osp; ++a) valid[a] = init[a] = 0;
        sp = osp; fr = old; --depth;
        if (fl == F_RET && has) return f->ret->k == Type::VOID ? 0 : conv(r, f->ret);
        if (f->ret->k != Type::VOID) ub("missing return value");
        return 0;
    }
    // the label x of a switch may be inside a block or a loop of its body
    static bool holds(Stmt* s, Stmt* x) {
        if (s == x) return true;
        if (s->k != S_BLOCK && s->k != S_DO) return false;
        for (auto y : s->body) if (holds(y, x)) return true;
        return false;
    }
    static void labels(std::vector<Stmt*>& b, std::vector<Stmt*>& out) {
        for (auto x : b) {
            if (x->k == S_CASE || x->k == S_DEFAULT) out.push_back(x);
            else if ((x->k == S_BLOCK || x->k == S_DO) && x->hasCase) labels(x->body, out);
        }
    }
    void reserve(Var* v) {
        int n = (sizeOf(v->t) + 1) & -2;
        sp -= n;
        if (sp < 0xb000) ub("interpreter stack");
        alloc(sp, n, false);
        fr->addr[v->idx] = sp;
    }
    Flow execFrom(Stmt* s, Stmt* label) {
        tick();
        Flow f = list(s->body, label, true);
        if (s->k != S_DO) return f;
        for (;;) {
            if (f == F_BREAK) break;
            if (f == F_RET || f == F_GOTO) return f;
            if (!rv(s->e)) break;
            f = list(s->body, nullptr);
        }
        return F_NORM;
    }
    Flow list(std::vector<Stmt*>& b, Stmt* startAt, bool isSwitchBody = false) {
        size_t i = 0;
        int osp = sp;
        std::vector<Var*> declared;
        Flow r = F_NORM;
        if (startAt) {
            while (i < b.size() && !holds(b[i], startAt)) ++i;
            // the objects declared before the label exist, without a value
            for (size_t j = 0; j < i; ++j)
                if (b[j]->k == S_DECL)
                    for (auto v : b[j]->vars)
                        if (v->stor == Var::LOCAL) { reserve(v); declared.push_back(v); }
        }
        Stmt* enter = isSwitchBody && i < b.size() && b[i] != startAt ? startAt : nullptr;
        for (; i < b.size(); ++i) {
            Flow f = enter ? execFrom(b[i], enter) : exec(b[i], declared);
            enter = nullptr;
            if (f == F_NORM) continue;
            if (f == F_GOTO) {
                size_t j = 0;
                while (j < b.size() && !(b[j]->k == S_LABEL && b[j]->label == gotoLabel)) ++j;
                if (j < b.size()) { i = j; tick(); continue; }
            }
            r = f;
            break;
        }
        // objects of this block die
        for (auto v : declared) if (v->stor == Var::LOCAL) fr->addr[v->idx] = -1;
        for (int a = sp; a < osp; ++a) valid[a] = init[a] = 0;
        sp = osp;
        return r;
    }
    Flow exec(Stmt* s, std::vector<Var*>& declared) {
        tick();
        switch (s->k) {
        case S_EXPR: rv(s->e); return F_NORM;
        case S_OUT: { uint16_t v = rv(s->e); if (tr.out.size() > 4000) ub("too much output"); tr.out.push_back(v); return F_NORM; }
        case S_BLOCK: return list(s->body, nullptr);
        case S_IF: if (rv(s->e)) return list(s->body, nullptr); if (s->hasElse) return list(s->body2, nullptr); return F_NORM;
        case S_WHILE: while (rv(s->e)) { Flow f = list(s->body, nullptr); if (f == F_BREAK) break; if (f == F_RET || f == F_GOTO) return f; } return F_NORM;
        case S_DO: do { Flow f = list(s->body, nullptr); if (f == F_BREAK) break; if (f == F_RET || f == F_GOTO) return f; } while (rv(s->e)); return F_NORM;
        case S_FOR:
            if (s->e) rv(s->e);
            while (!s->e2 || rv(s->e2)) {
                tick();
                Flow f = list(s->body, nullptr);
                if (f == F_BREAK) break;
                if (f == F_RET || f == F_GOTO) return f;
                if (s->e3) rv(s->e3);
            }
            return F_NORM;
        case S_SWITCH: {
            uint16_t v = rv(s->e);
            Stmt *st = nullptr, *def = nullptr;
            std::vector<Stmt*> ls;
            labels(s->body, ls);
            for (auto x : ls) { if (x->k == S_CASE && (uint16_t)x->val == v && !st) st = x; if (x->k == S_DEFAULT) def = x; }
            if (!st) st = def;
            if (!st) return F_NORM;
            Flow f = list(s->body, st, true);
            return f == F_BREAK ? F_NORM : f;
        }
        case S_CASE: case S_DEFAULT: case S_LABEL: case S_EMPTY: case S_RAW: case S_TYPEDECL: case S_VAEND: return F_NORM;
        case S_BREAK: return F_BREAK;
        case S_CONTINUE: return F_CONT;
        case S_RETURN: if (s->e) { uint16_t v = rv(s->e); retVal = v; retHas = true; } else retHas = false; return F_RET;
        case S_GOTO: gotoLabel = s->label; return F_GOTO;
        case S_DECL:
            for (size_t i = 0; i < s->vars.size(); ++i) {
                Var* v = s->vars[i];
                if (v->stor == Var::STATIC) continue;
                uint16_t x = 0;
                if (fr->addr[v->idx] < 0) {
                    int n = (sizeOf(v->t) + 1) & -2;
                    sp -= n;
                    if (sp < 0xb000) ub("interpreter stack");
                    alloc(sp, n, false);
                    declared.push_back(v);
                    int at = sp;
                    if (s->inits[i]) { fr->addr[v->idx] = -1; x = rv(s->inits[i]); }
                    fr->addr[v->idx] = at;
                } else { // re-executed after a backward goto: contents become indeterminate
                    int a = fr->addr[v->idx];
                    if (s->inits[i]) x = rv(s->inits[i]);
                    for (int k = 0; k < sizeOf(v->t); ++k) init[a + k] = 0;
                }
                if (s->inits[i]) store(fr->addr[v->idx], v->t->k == Type::FPTR ? &T_UINT : v->t, x);
            }
            return F_NORM;
        case S_VASTART: vaState[s->var] = {&fr->va, 0}; return F_NORM;
        }
        return F_NORM;
    }
    void run() {
        int a = 0x100;
        auto place = [&](Var* v) {
            int n = sizeOf(v->t);
            v->idx = a;
            if (a + n > 0x7f00) ub("globals");
            alloc(a, n, true);
            if (v->strInit) memcpy(&mem[a], v->str.c_str(), v->str.size() + 1);
            else if (v->hasInit) { mem[a] = v->init; if (n > 1) mem[a + 1] = v->init >> 8; }
            a += n + 3; // gap detects overruns
        };
        for (auto v : p.globals) place(v);
        for (auto f : p.fns) for (auto v : f->statics) place(v);
        std::vector<uint16_t> none;
        uint16_t r = call(p.mainFn, none);
        tr.exitCode = r & 0xff;
        for (auto v : p.globals) if (!hasAddr(v->t)) tr.globals[v->name] = Bytes(mem.begin() + v->idx, mem.begin() + v->idx + sizeOf(v->t));
        tr.steps = steps;
    }
};
} // namespace
Trace interpret(Program& p) { Interp i(p); i.run(); return i.tr; }

// ---------------------------------------------------------------- generator
namespace {
struct Gen {
    Src& s; const Opts& o; Program& p;
    Func* cur = nullptr;
    std::vector<std::vector<Var*>> scopes;
    std::vector<Var*> counters;
    int labelCost = 0, labelNo = 0, stmtBudget = 0, nesting = 0, loopDepth = 0, breakDepth = 0, contDepth = 0, strCount = 0, arrayDecls = 0, varNo = 0, localBytes = 0;
    std::vector<Str> outerLabels;      // forward labels that may be targeted
    std::set<Str> usedLabels;
    // full-expression effect discipline
    int seBudget = 0; Var* seVar = nullptr; bool globReserved = false, seGlobal = false;
    std::vector<Var*> hidden;          // not readable now
    int namedLabels = 0;
    int nodesLeft = 0;                 // bounds the size of one full expression

    Gen(Src& ss, const Opts& oo, Program& pp) : s(ss), o(oo), p(pp) {}

    // the types visible in a scope (local ones may shadow outer ones)
    struct Types { std::vector<SDef*> structs; std::vector<Enumerator> enums; std::vector<TypedefDecl> typedefs; int nStructs, nMembers; };
    std::vector<Types> types;
    int nStructs = 0, nMembers = 0, globalArrays = 0, typeNo = 0;
    std::vector<int> pool;             // constants used so far
    void restoreTypes(const Types& x) { p.structs = x.structs; p.enums = x.enums; p.typedefs = x.typedefs; nStructs = x.nStructs; nMembers = x.nMembers; }
    void pushScope() { scopes.emplace_back(); types.push_back({p.structs, p.enums, p.typedefs, nStructs, nMembers}); }
    std::vector<Str> deadNames; // of typedefs and enumerators that have gone out of scope
    void popScope() {
        auto had = [](auto& v, const Str& n) { for (auto& x : v) if (x.name == n) return true; return false; };
        for (auto& x : p.typedefs) if (!had(types.back().typedefs, x.name)) deadNames.push_back(x.name);
        for (auto& x : p.enums) if (!had(types.back().enums, x.name)) deadNames.push_back(x.name);
        scopes.pop_back(); restoreTypes(types.back()); types.pop_back(); }
    // the type can be written here (its tag is not shadowed)
    bool nameable(TP t) {
        if (t->k == Type::STRUCT) return std::find(p.structs.begin(), p.structs.end(), t->sd) != p.structs.end();
        return t->el ? nameable(t->el) : true;
    }
    void localType(std::vector<Stmt*>& out) {
        Stmt* st = mks(S_TYPEDECL);
        int k = s.weighted({o.structs && nStructs < 7 && nMembers < 27 && arrayDecls < 18 ? 50 : 0, o.enums ? 25 : 0, o.typedefs ? 25 : 0, 1});
        if (k == 0) {
            p.sdefs.emplace_back();
            SDef* d = &p.sdefs.back();
            Str tag = fmt("Q%d", typeNo++);
            auto vis = p.structs;
            if (!vis.empty() && s.chance(60)) {
                tag = vis[s.below(vis.size())]->tag;
                for (auto x : types.back().structs) (void)x;
                for (auto x : localTags()) if (x == tag) tag = fmt("Q%d", typeNo++);
                feat("shadow_tag");
            }
            d->tag = tag; d->isUnion = s.chance(25);
            int nm = 1 + s.below(4), off = 0;
            for (int j = 0; j < nm; ++j) {
                TP t = pickType();
                if (s.chance(20)) { t = arrOf(t, 1 + s.below(3)); ++arrayDecls; }
                else if (!vis.empty() && s.chance(15)) { SDef* in = vis[s.below(vis.size())]; if (in->tag != tag) t = structT(in); }
                d->m.push_back({fmt("m%d", j), t, d->isUnion ? 0 : off});
                off += sizeOf(t);
                d->size = d->isUnion ? std::max(d->size, sizeOf(t)) : off;
            }
            ++nStructs; nMembers += nm;
            p.structs.erase(std::remove_if(p.structs.begin(), p.structs.end(), [&](SDef* x) { return x->tag == tag; }), p.structs.end());
            p.structs.push_back(d);
            st->text = "    " + structText(d);
            feat("local_struct_type");
        } else if (k == 1) {
            int n = 1 + s.below(3), v = s.range(-300, 300);
            st->text = "    enum { ";
            for (int i = 0; i < n; ++i) {
                Str nm = fmt("K%d", typeNo++);
                if (i == 0 && !p.enums.empty() && s.coin()) { Str x = p.enums[s.below(p.enums.size())].name; bool here = false; for (auto& y : localEnums()) here |= y == x; if (!here) { nm = x; feat("shadow_enum"); } }
                p.enums.erase(std::remove_if(p.enums.begin(), p.enums.end(), [&](const Enumerator& x) { return x.name == nm; }), p.enums.end());
                if (i == 0 || s.chance(30)) { v = i ? s.range(-300, 300) : v; st->text += fmt("%s%s = %d", i ? ", " : "", nm.c_str(), v); }
                else st->text += ", " + nm;
                p.enums.push_back({nm, v++});
            }
            st->text += " };\n";
            feat("local_enum");
        } else if (k == 2) {
            Str nm = fmt("U%d", typeNo++);
            if (!p.typedefs.empty() && s.coin()) { Str x = p.typedefs[s.below(p.typedefs.size())].name; bool here = false; for (auto& y : localTypedefs()) here |= y == x; if (!here && x != "FT") { nm = x; feat("shadow_typedef"); } }
            TP t = pickType();
            if (!p.structs.empty() && s.chance(30)) t = structT(p.structs[s.below(p.structs.size())]);
            p.typedefs.erase(std::remove_if(p.typedefs.begin(), p.typedefs.end(), [&](const TypedefDecl& x) { return x.name == nm; }), p.typedefs.end());
            p.typedefs.push_back({nm, t});
            // (an existing typedef name after a lone "unsigned" is a type to the compiler, which its tests rely on)
            st->text = "    typedef " + (t->k == Type::UINT ? "unsigned int " + nm : typeName(t, nm)) + ";\n";
            feat("local_typedef");
        } else return;
        out.push_back(st);
    }
    // names declared in the current scope: visible now but not when it was entered
    std::vector<Str> localTags() { std::vector<Str> r; auto& o = types.back().structs; for (auto x : p.structs) if (std::find(o.begin(), o.end(), x) == o.end()) r.push_back(x->tag); return r; }
    std::vector<Str> localEnums() { std::vector<Str> r; auto& o = types.back().enums; for (auto& x : p.enums) { bool f = false; for (auto& y : o) f |= y.name == x.name && y.v == x.v; if (!f) r.push_back(x.name); } return r; }
    std::vector<Str> localTypedefs() { std::vector<Str> r; auto& o = types.back().typedefs; for (auto& x : p.typedefs) { bool f = false; for (auto& y : o) f |= y.name == x.name && y.t == x.t; if (!f) r.push_back(x.name); } return r; }
    // a copy of an expression without effects (null if it cannot be copied)
    Expr* clone(Expr* e) {
        switch (e->op) {
        case ASSIGN: case INCDEC: case CALLPTR: case VAARG: case STR: case LAND: case LOR: case COND: case COMMA: return nullptr;
        case CALL: if (e->fn->cls == IMPURE) return nullptr; break;
        default: break;
        }
        if (--nodesLeft < 0) return nullptr;
        Expr* n = mk(e->op, e->t);
        *n = *e;
        for (auto& x : n->k) if (!(x = clone(x))) return nullptr;
        return n;
    }

    // --- node helpers
    Expr* mk(Op op, TP t) { p.exprs.emplace_back(); Expr* e = &p.exprs.back(); e->op = op; e->t = t; return e; }
    Stmt* mks(SK k) { p.stmts.emplace_back(); Stmt* st = &p.stmts.back(); st->k = k; return st; }
    TP ptrTo(TP t) { for (auto& x : p.types) if (x.k == Type::PTR && x.el == t) return &x; p.types.push_back({Type::PTR, t, 0, nullptr, {}}); return &p.types.back(); }
    TP arrOf(TP t, int n) { for (auto& x : p.types) if (x.k == Type::ARR && x.el == t && x.n == n) return &x; p.types.push_back({Type::ARR, t, n, nullptr, {}}); return &p.types.back(); }
    TP structT(SDef* d) { for (auto& x : p.types) if (x.k == Type::STRUCT && x.sd == d) return &x; p.types.push_back({Type::STRUCT, nullptr, 0, d, {}}); return &p.types.back(); }
    TP fptr(TP ret, std::vector<TP> a) { p.types.push_back({Type::FPTR, ret, 0, nullptr, a}); return &p.types.back(); }
    void feat(const Str& f) { ++p.feat[f]; }
    Expr* num(int v, int style = 0) {
        Expr* e = mk(NUM, &T_INT);
        e->v = v;
        if (style == 1 && v >= 0) e->o = fmt("0x%x", v);
        else if (style == 2 && v > 0) e->o = fmt("0%o", v);
        else if (style == 3 && v >= 32 && v < 127 && v != '\'' && v != '\\') e->o = fmt("'%c'", v);
        else e->o = fmt("%d", v);
        if (v == -32768) e->o = "(-32767 - 1)";
        return e;
    }
    Expr* vref(Var* v) { Expr* e = mk(VAR, v->t); e->var = v; return e; }
    Expr* bin(const Str& op, Expr* a, Expr* b) {
        Expr* e = mk(BIN, nullptr); e->o = op; e->k = {a, b};
        if (!isConst(a)) e->k[1] = b = plainConst(b);
        bool cmp = op == "<" || op == "<=" || op == ">" || op == ">=" || op == "==" || op == "!=";
        auto dec = [&](TP t) -> TP { return t->k == Type::ARR ? ptrTo(t->el) : t; };
        TP x = dec(a->t), y = dec(b->t);
        if (cmp) e->t = &T_INT;
        else if (isPtr(x) && isPtr(y)) e->t = &T_INT;
        else if (isPtr(x)) e->t = x;
        else if (isPtr(y)) e->t = y;
        else if (op == "<<" || op == ">>") e->t = promote(x);
        else e->t = arithType(x, y);
        return e;
    }
    Expr* un(Op op, Expr* a) { Expr* e = mk(op, nullptr); e->k = {a}; e->t = op == NOT ? &T_INT : promote(a->t); return e; }
    Expr* assign(Expr* l, const Str& op, Expr* r) { Expr* e = mk(ASSIGN, l->t); e->o = op; e->k = {l, r}; return e; }
    Expr* index(Expr* a, Expr* i) { Expr* e = mk(INDEX, a->t->el); e->k = {a, i}; return e; }
    Expr* deref(Expr* a) { Expr* e = mk(DEREF, a->t->el); e->k = {a}; return e; }
    Expr* addr(Expr* a) { Expr* e = mk(ADDR, ptrTo(a->t)); e->k = {a}; return e; }
    Expr* member(Expr* a, const Member* m, bool arrow) { Expr* e = mk(arrow ? ARROW : MEMBER, m->t); e->o = m->name; e->mem = m; e->k = {a}; return e; }
    Expr* incdec(Expr* l, int v) { Expr* e = mk(INCDEC, promote(l->t)); e->v = v; e->k = {l}; if (isPtr(l->t)) e->t = l->t; return e; }
    Expr* callE(Func* f, std::vector<Expr*> a) { Expr* e = mk(CALL, f->ret->k == Type::VOID ? f->ret : promote(f->ret)); e->fn = f; e->k = a; return e; }
    Expr* cast(TP t, Expr* a) { Expr* e = mk(CAST, t); e->ty = t; e->k = {a}; return e; }
    Func* asFn = nullptr;
    // the same pointer, possibly converted to another pointer type and back
    Expr* viaCast(Expr* e) {
        if (!isPtr(e->t) || !o.castsOn || !s.chance(7) || !nameable(e->t)) return e;
        feat("ptr_cast");
        TP u = s.coin() ? &T_CHAR : &T_INT;
        if (!p.structs.empty() && s.chance(60)) u = structT(p.structs[s.below(p.structs.size())]);
        TP t = e->t;
        if (asFn && asFn != cur && nameable(asFn->ret) && s.coin()) { // through a function of another type
            feat("ptr_cast_call");
            e = callE(asFn, {cast(asFn->ret, e)}); e->t = asFn->ret;
            if (s.coin()) return cast(t, e);
        }
        return cast(t, cast(ptrTo(u), e));
    }
    Stmt* exprS(Expr* e) { Stmt* x = mks(S_EXPR); x->e = e; return x; }
    Stmt* outS(Expr* e) { Stmt* x = mks(S_OUT); x->e = e; return x; }

    // constant in the compiler's sense
    bool isConst(Expr* e) {
        switch (e->op) {
        case NUM: case SIZEOFT: case SIZEOFE: return true;
        case VAR: return false;
        case NEG: case PLUS: case BNOT: case NOT: return isConst(e->k[0]);
        case BIN: return isConst(e->k[0]) && isConst(e->k[1]);
        case COND: return isConst(e->k[0]) && (constVal(e->k[0]) ? isConst(e->k[1]) : isConst(e->k[2]));
        case COMMA: return isConst(e->k[1]);
        default: return false;
        }
    }
    long constVal(Expr* e) {   // exact mathematical value; out of range marks the node unusable
        switch (e->op) {
        case NUM: return e->v;
        case SIZEOFT: return sizeOf(e->ty);
        case SIZEOFE: return sizeOf(e->k[0]->t);
        case NEG: return -constVal(e->k[0]);
        case PLUS: return constVal(e->k[0]);
        case BNOT: return ~constVal(e->k[0]);
        case NOT: return !constVal(e->k[0]);
        case COND: return constVal(e->k[0]) ? constVal(e->k[1]) : constVal(e->k[2]);
        case COMMA: return constVal(e->k[1]);
        case BIN: {
            long a = constVal(e->k[0]), b = constVal(e->k[1]);
            const Str& op = e->o;
            if (op == "+") return a + b;
            if (op == "-") return a - b;
            if (op == "*") return a * b;
            if (op == "/") return b ? a / b : 99999;
            if (op == "%") return b ? a % b : 99999;
            if (op == "&") return a & b;
            if (op == "|") return a | b;
            if (op == "^") return a ^ b;
            if (op == "<<") return b < 0 || b > 14 || a < 0 ? 99999 : a << b;
            if (op == ">>") return b < 0 || b > 15 ? 99999 : a >> b;
            return 99999;
        }
        default: return 99999;
        }
    }
    // make a node acceptable: constant subtrees stay within 16 bits and use foldable operators
    Expr* fixConst(Expr* e, TP fallback = nullptr) {
        (void)fallback;
        if (!isConst(e)) return e;
        long v = constVal(e);
        if (v > 32767 || v < -32768) return num((int)(v & 0x7fff));
        return e;
    }

    // the compiler holds it as a condition code
    bool boolLike(Expr* e) {
        switch (e->op) {
        case BIN: return !isConst(e) && (e->o == "<" || e->o == "<=" || e->o == ">" || e->o == ">=" || e->o == "==" || e->o == "!=");
        case NOT: return !isConst(e);
        case LAND: case LOR: return true;
        case PLUS: return boolLike(e->k[0]);
        case COMMA: return boolLike(e->k[1]);
        case COND: return isConst(e->k[0]) && boolLike(constVal(e->k[0]) ? e->k[1] : e->k[2]);
        default: return false;
        }
    }
    // its code contains labels (not accepted where no code is generated)
    bool hasLabel(Expr* e) {
        if (e->op == LAND || e->op == LOR || e->op == STR || (e->op == COND && !isConst(e->k[0]))) return true;
        for (auto k : e->k) if (hasLabel(k)) return true;
        return false;
    }
    bool hasCode(Expr* e) {
        if (e->op == COMMA) return true;
        for (auto k : e->k) if (hasCode(k)) return true;
        return false;
    }
    // constant right operands must not come with code
    Expr* plainConst(Expr* e) { return isConst(e) && hasCode(e) ? num((int)(int16_t)constVal(e)) : e; }

    // --- visibility
    bool isGlob(Var* v) { return v->stor == Var::GLOBAL || v->stor == Var::STATIC; }
    bool canRead(Var* v) {
        if (v->reserved) return false;
        if (isGlob(v) || v->target) {
            bool g = isGlob(v) || (v->target && (isGlob(v->target) || v->stor == Var::PARAM));
            if (g && cur->cls == PURE) return false;
            if (g && globReserved) return false;
        }
        if (v->target && v->target->reserved) return false;
        return true;
    }
    bool canWrite(Var* v) {
        if (v->counter || v->reserved) return false;
        if ((isGlob(v) || (v->target && isPtr(v->t) && isGlob(v->target))) && cur->cls != IMPURE) return false;
        return true;
    }
    std::vector<Var*> visible(std::function<bool(Var*)> f) {
        std::vector<Var*> r;
        std::set<Str> seen;
        for (int i = (int)scopes.size() - 1; i >= 0; --i)
            for (int j = (int)scopes[i].size() - 1; j >= 0; --j) {
                Var* v = scopes[i][j];
                if (!seen.insert(v->name).second) continue;
                if (std::find(hidden.begin(), hidden.end(), v) != hidden.end()) continue;
                if (f(v)) r.push_back(v);
            }
        std::reverse(r.begin(), r.end());
        return r;
    }

    // --- constants and indices
    Expr* genNum() {
        int v = pool.empty() || !s.chance(20) ? s.i16() : pool[s.below(pool.size())] + s.pick(std::vector<int>{0, 0, 0, 1, -1, 256, -256});
        if (v < -32768) v = -32768;
        if (v > 32767) v = 32767;
        pool.push_back(v);
        int st = s.weighted({70, 15, 7, 8});
        if (st == 3 && !(v >= 32 && v < 127)) v = 32 + s.below(95);
        return num(v, st);
    }
    Expr* genIndex(int n, int d) {     // value in 0..n-1 for a power-of-two or any n
        if (n == 1 || nodesLeft < -20) return num(s.below(n));
        std::vector<Var*> cs;
        for (auto c : counters) if (c->inLoop && c->cmax < n && canRead(c)) cs.push_back(c);
        int k = s.weighted({30, cs.empty() ? 0 : 30, 40, 4});
        if (k == 3) { Expr* c = genVarExpr(d - 1); feat("index_bool"); return s.coin() ? un(NOT, c) : bin(s.coin() ? ">" : "!=", c, genNum()); }
        if (k == 0) return num(s.below(n));
        if (k == 1) return vref(s.pick(cs));
        int m = 1;
        while (m * 2 <= n) m *= 2;
        if (m == 1) return num(0);
        Expr* e = genExpr(d - 1);
        if (isConst(e)) return num((int)(constVal(e) & (m - 1)));
        feat("index_expr");
        return bin("&", e, num(m - 1));
    }

    // --- places: scalar lvalues reachable from a variable
    // returns an lvalue of arithmetic type (or any scalar if wantPtr)
    Expr* refine(Expr* e, int d) {
        for (int guard = 0; guard < 6; ++guard) {
            if (e->t->k == Type::ARR) {
                if (e->t->n > 1 && s.chance(10) && e->t->el->k != Type::ARR) e = deref(bin("+", e, genIndex(e->t->n, d)));
                else if (s.chance(5)) e = deref(e);
                else e = index(e, genIndex(e->t->n, d));
                feat("array");
                continue;
            }
            if (e->t->k == Type::STRUCT) {
                SDef* sd = e->t->sd;
                feat(sd->isUnion ? "union_member" : "struct_member");
                const Member* m = &sd->m[s.below(sd->m.size())];
                if (s.chance(15) && e->op != VAARG) e = member(addr(e), m, true);
                else if (e->op == DEREF && s.chance(70)) e = member(e->k[0], m, true);
                else e = member(e, m, false);
                continue;
            }
            break;
        }
        return e;
    }
    bool placeable(Var* v, bool write) {
        if (v->t->k == Type::FPTR || v->t->k == Type::VOID) return false;
        if (v->alias == "va_list") return false;
        if (isPtr(v->t) && !v->target) return false;
        return canRead(v) && (!write || (canWrite(v) || (isPtr(v->t) && v->target && (!isGlob(v->target) || cur->cls == IMPURE) && !(v->stor == Var::PARAM && cur->cls != IMPURE) && !v->target->counter)));
    }
    Expr* placeOf(Var* v, int d, bool write) {
        if (isPtr(v->t)) {
            Var* t = v->target; (void)t;
            if (v->slack >= 0 && v->cmax > 1) { // points into an array; safe extent is cmax elements
                Expr* b = viaCast(vref(v));
                int n = v->cmax;
                int k = s.weighted({45, 25, 30});
                Expr* e;
                if (k == 0) e = index(b, genIndex(n, d));
                else if (k == 1) e = deref(b);
                else e = deref(bin("+", b, genIndex(n, d)));
                feat("ptr_access");
                return refine(e, d);
            }
            feat("ptr_access");
            if (v->t->el->k == Type::PTR && v->target && v->target->target) { // pointer to pointer
                Var* q = v->target;
                Expr* b = viaCast(deref(viaCast(vref(v))));
                feat("ptr_ptr");
                if (q->cmax > 1) return refine(index(b, genIndex(q->cmax, d)), d);
                return refine(deref(b), d);
            }
            return refine(deref(viaCast(vref(v))), d);
        }
        (void)write;
        return refine(vref(v), d);
    }
    Expr* genPlace(int d, bool write) {
        if (lnOk(write) && s.chance(20)) if (Expr* e = lnField(std::min(d, 2), write)) return e;
        auto vs = visible([&](Var* v) { return placeable(v, write); });
        if (vs.empty()) return nullptr;
        Expr* e = placeOf(vs[s.below(vs.size())], d, write);
        if (!isArith(e->t)) return nullptr;
        return e;
    }

    // --- calls
    std::vector<Func*> callable(bool impureOk, bool needValue) {
        std::vector<Func*> r;
        for (auto f : p.fns) {
            if (f == cur || f == p.mainFn || f->special == 9) continue;
            bool isLater = std::find(p.fns.begin(), p.fns.end(), f) > std::find(p.fns.begin(), p.fns.end(), cur);
            if (isLater) continue;
            if (needValue && f->ret->k == Type::VOID) continue;
            if (cur->cls == PURE && f->cls != PURE) continue;
            if (cur->cls == READER && f->cls == IMPURE) continue;
            if (f->cls == IMPURE && !impureOk) continue;
            if (f->cls == READER && globReserved) continue;
            r.push_back(f);
        }
        return r;
    }
    // an argument for parameter v
    Expr* genArg(Func* f, Var* v, int d) {
        if (isPtr(v->t)) {
            // array/pointer argument with at least v->cmax elements
            std::vector<Expr*> c;
            auto vs = visible([&](Var* x) {
                if (globReserved && (isGlob(x) || x->target)) return false;
                if (x->reserved) return false;
                if (x->t->k == Type::ARR && x->t->el == v->t->el && x->t->n >= v->cmax) return f->cls != IMPURE || !isGlob(x) || cur->cls == IMPURE;
                if (x->t == v->t->el && v->cmax == 1 && !x->counter && !x->noalias) return true;
                if (x->t == v->t && x->target && x->cmax >= v->cmax) return true;
                return false;
            });
            if (vs.empty()) return nullptr;
            Var* x = vs[s.below(vs.size())];
            if (cur->cls == PURE && (isGlob(x) || x->target)) return nullptr;
            if (x->t->k == Type::ARR) {
                int room = x->t->n - v->cmax;
                switch (s.below(3)) {
                case 0: return s.chance(80) ? vref(x) : viaCast(addr(index(vref(x), num(0))));
                case 1: return addr(index(vref(x), num(s.below(room + 1))));
                default: return bin("+", vref(x), num(s.below(room + 1)));
                }
            }
            if (x->t == v->t) return viaCast(vref(x));
            return viaCast(addr(vref(x)));
        }
        if (v->t->k == Type::FPTR) { feat("fptr_arg"); return fpValue(d); }
        if (v->counter) return f->special == 2 ? bin("&", genVarExpr(d), num(3)) : num(s.below(6));
        Expr* e = genExpr(d);
        return e;
    }
    Expr* genCall(Func* f, int d) {
        std::vector<Expr*> a;
        if (f->variadic) {
            int n = s.chance(12) ? 7 + s.below(9) : s.below(7);
            a.push_back(num(n));
            if (n > 7) feat("many_args");
            if (f->params.size() > 1) a.push_back(genExpr(d - 1));
            for (int i = 0; i < n; ++i) a.push_back(genExpr(d - 2));
            feat("variadic_call");
        } else {
            for (auto v : f->params) { Expr* e = genArg(f, v, d - 1); if (!e) return nullptr; a.push_back(e); }
        }
        feat(fmt("call%d", (int)a.size()));
        return callE(f, a);
    }

    // --- expressions
    Expr* genVarExpr(int d) { // something the compiler does not consider constant
        for (int i = 0; i < 3; ++i) { Expr* e = genPlace(d, false); if (e) return e; }
        auto vs = visible([&](Var* v) { return isArith(v->t) && canRead(v); });
        if (!vs.empty()) return vref(vs[s.below(vs.size())]);
        return cast(&T_INT, num(s.below(100)));
    }
    Expr* leaf(int d) {
        if (s.chance(o.pConst)) return genNum();
        if (o.sizeofs && s.chance(2)) {
            feat("sizeof");
            if (s.coin()) { Expr* e = mk(SIZEOFT, &T_INT); e->ty = pickType(true); return e; }
            auto vs = visible([&](Var* v) { return v->t->k != Type::FPTR && v->alias != "va_list" && !(v->stor == Var::PARAM && isChar(v->t)); });
            if (!vs.empty()) { Expr* e = mk(SIZEOFE, &T_INT); e->k = {vref(vs[s.below(vs.size())])}; return e; }
        }
        if (!p.enums.empty() && o.enums && s.chance(4)) { feat("enum"); auto& en = p.enums[s.below(p.enums.size())]; Expr* e = num(en.v); e->o = en.name; return e; }
        if (o.strings && strCount < 6 && s.chance(o.pStr)) {
            ++strCount; labelCost += 1; feat("string");
            Expr* e = mk(STR, arrOf(&T_CHAR, 5));
            for (int i = 0; i < 4; ++i) e->o += (char)(s.chance(10) ? 128 + s.below(128) : 33 + s.below(94));
            return index(e, genIndex(4, 1));
        }
        Expr* e = genPlace(d, false);
        if (e) return e;
        return genNum();
    }
    Str pickBinOp() {
        if (s.chance(o.pCmp)) { static const char* c[] = {"<", "<=", ">", ">=", "==", "!="}; return c[s.below(6)]; }
        if (s.chance(o.pMulDiv)) { static const char* c[] = {"*", "/", "%"}; return c[s.below(3)]; }
        if (s.chance(o.pShift)) return s.coin() ? ">>" : "<<";
        static const char* c[] = {"+", "-", "&", "|", "^"};
        return c[s.below(5)];
    }
    Expr* nonConst(Expr* e, int d) { return isConst(e) ? genVarExpr(d) : e; }
    Expr* genExpr(int d) {
        if (--nodesLeft < 0) d = 0;
        if (d <= 0) return leaf(0);
        if (seBudget > 0 && s.chance(30)) { Expr* e = genSE(d); if (e) return e; }
        int k = s.weighted({25, 45, 12, o.pLogic, o.pCond, o.pComma, o.castsOn ? 6 : 0, o.pCall, o.pointers ? 3 : 0, sigFns.size() > 1 ? 6 : 0, lnOk(false) ? 5 : 0});
        switch (k) {
        case 9: return fpExpr(d);
        case 10: return lnExpr(d);
        case 0: return leaf(d);
        case 1: return genBin(d);
        case 2: {
            static const Op ops[] = {NEG, NOT, BNOT, PLUS};
            Op op = ops[s.weighted({35, 30, 25, 10})];
            Expr* a = genExpr(d - 1);
            if (op == NOT && isConst(a)) a = genVarExpr(d - 1);
            if (boolLike(a)) feat("unary_bool");
            feat(op == NEG ? "neg" : op == NOT ? "not" : op == BNOT ? "bnot" : "plus");
            return fixConst(un(op, a));
        }
        case 3: {
            if (labelCost > 200) return leaf(d);
            Op op = s.coin() ? LAND : LOR;
            Expr *a = genExpr(d - 1), *b = genExpr(d - 1);
            if (!s.chance(25)) a = nonConst(a, d - 1);
            if (!s.chance(25)) b = nonConst(b, d - 1);
            if (isConst(a) || isConst(b)) feat("const_logic");
            labelCost += 1;
            feat(op == LAND ? "land" : "lor");
            Expr* e = mk(op, &T_INT);
            e->k = {a, b};
            return e;
        }
        case 4: {
            if (labelCost > 200) return leaf(d);
            labelCost += 3;
            feat("cond");
            Expr* e = mk(COND, nullptr);
            Expr* c = s.chance(10) ? num(s.below(2)) : genExpr(d - 1);
            Expr *a = genExpr(d - 1), *b = genExpr(d - 1);
            if (isConst(c)) {
                Expr*& dead = constVal(c) ? b : a;
                if (hasLabel(dead) || arithType(a->t, b->t) != promote(constVal(c) ? a->t : b->t)) dead = genNum();
                if (arithType(a->t, b->t) != promote(constVal(c) ? a->t : b->t)) return constVal(c) ? a : b;
            }
            e->k = {c, a, b};
            e->t = arithType(a->t, b->t);
            return fixConst(e);
        }
        case 5: {
            feat("comma");
            Expr *a = genExpr(d - 1), *b = genExpr(d - 1);
            Expr* e = mk(COMMA, b->t); e->k = {a, b}; e->t = promote(b->t);
            e->paren = true;
            return e;
        }
        case 6: {
            static const TP ts[] = {&T_CHAR, &T_UCHAR, &T_INT, &T_UINT};
            feat("cast");
            TP t = ts[s.below(4)];
            if (t->k == Type::UINT && !o.pUnsigned) t = &T_INT;
            if (isChar(t) && !o.pChar) t = &T_INT;
            Expr* e = cast(t, genExpr(d - 1));
            e->t = t;
            return e;
        }
        case 7: {
            auto fs = callable(false, true);
            if (fs.empty()) return genBin(d);
            Expr* e = genCall(fs[s.below(fs.size())], d);
            return e ? e : leaf(d);
        }
        default: {
            // pointer comparison / difference within one array
            auto ps = visible([&](Var* v) { return isPtr(v->t) && v->target && canRead(v) && v->target->t->k == Type::ARR && scopeVisible(v->target); });
            if (ps.empty()) return leaf(d);
            Var* a = ps[s.below(ps.size())];
            std::vector<Var*> qs;
            for (auto q : ps) if (q->target == a->target && q->t == a->t) qs.push_back(q);
            Var* b = qs[s.below(qs.size())];
            Expr *x = vref(a), *y = s.coin() ? vref(b) : a->target->t->el == a->t->el ? (s.coin() ? vref(a->target) : bin("+", vref(a->target), genIndex(a->target->t->n, d - 1))) : vref(b);
            if (s.chance(40)) { feat("ptr_diff"); return bin("-", x, y); }
            static const char* c[] = {"<", "<=", ">", ">=", "==", "!="};
            feat("ptr_cmp");
            return bin(c[s.below(6)], x, y);
        }
        }
    }
    bool scopeNames(Var* t) {
        for (int i = (int)scopes.size() - 1; i >= 0; --i)
            for (int j = (int)scopes[i].size() - 1; j >= 0; --j)
                if (scopes[i][j]->name == t->name) return scopes[i][j] == t;
        return false;
    }
    bool scopeVisible(Var* t) { // t's name still denotes t
        for (int i = (int)scopes.size() - 1; i >= 0; --i)
            for (int j = (int)scopes[i].size() - 1; j >= 0; --j)
                if (scopes[i][j]->name == t->name) return scopes[i][j] == t && std::find(hidden.begin(), hidden.end(), t) == hidden.end();
        return false;
    }
    Expr* genBin(int d) {
        Str op = pickBinOp();
        feat("op" + op);
        Expr* a = genExpr(d - 1);
        Expr* b;
        if (op == "/" || op == "%") {
            switch (s.weighted({45, 30, 25})) {
            case 0: {
                int v = 0;
                switch (s.below(4)) {
                case 0: v = 1 << s.below(15); break;
                case 1: v = 1 + s.below(20); break;
                case 2: v = s.i16(); if (v == -32768) v = 3; if (!v) v = 7; break;
                default: v = 1 + s.below(300); break;
                }
                b = num(v);
                break;
            }
            case 1: b = bin("+", bin("&", nonConst(genExpr(d - 2), d), num(s.coin() ? 7 : 255)), num(1)); b->paren = true; break;
            default: b = bin("|", nonConst(genExpr(d - 2), d), num(1)); b->paren = true; break;
            }
        } else if (op == "<<" || op == ">>") {
            if (s.chance(60)) b = num(s.below(16));
            else b = bin("&", nonConst(genExpr(d - 2), d), num(15));
        } else b = genExpr(d - 1);
        bool cmp = op == "<" || op == "<=" || op == ">" || op == ">=" || op == "==" || op == "!=";
        if (isConst(a) && isConst(b)) {
            if (cmp) a = genVarExpr(d - 1);
            else {
                Expr* e = bin(op, a, b);
                long v = constVal(e);
                if (v > 32767 || v < -32768) a = genVarExpr(d - 1);
                else { feat("const_fold"); return e; }
            }
        }
        if (cmp && !isConst(a) && s.chance(20)) { // related operands
            Expr* x = clone(a);
            if (x && isArith(x->t)) {
                feat("related_cmp");
                switch (s.below(4)) {
                case 0: b = bin("+", x, num(1)); b->paren = true; break;
                case 1: b = bin("-", x, num(1)); b->paren = true; break;
                default: b = x; b->paren = true;
                }
            }
        }
        Expr* e = bin(op, a, plainConst(b));
        if (s.chance(15)) e->paren = true;
        return e;
    }
    // a side effect on the reserved object, at most once per full expression
    Expr* genSE(int d) {
        --seBudget;
        if (seGlobal) {
            auto fs = callable(true, true);
            std::vector<Func*> im;
            for (auto f : fs) if (f->cls == IMPURE) im.push_back(f);
            if (!im.empty() && s.chance(60)) { Expr* e = genCall(im[s.below(im.size())], d); if (e) { feat("impure_call_in_expr"); return e; } }
            auto gs = visible([&](Var* v) { return isGlob(v) && isArith(v->t) && canWrite(v); });
            if (gs.empty()) return nullptr;
            feat("se_global");
            return seOn(vref(gs[s.below(gs.size())]), d);
        }
        feat("se_local");
        Expr* e = seOn(vref(seVar), d);
        if (s.chance(15) && labelCost < 200) {
            // sequence point: the right operand may use the variable again
            int r = seVar->reserved; seVar->reserved = 0;
            Expr* rest = bin(s.coin() ? "+" : "^", vref(seVar), genExpr(d - 1));
            seVar->reserved = r;
            feat("se_then_use");
            if (s.coin()) { Expr* c = mk(COMMA, rest->t); c->k = {e, rest}; c->paren = true; return c; }
            labelCost += 1;
            Expr* c = mk(s.coin() ? LAND : LOR, &T_INT); c->k = {e, rest}; c->paren = true;
            return c;
        }
        return e;
    }
    Str pickAssignOp() {
        static const char* ops[] = {"=", "+=", "-=", "&=", "|=", "^=", "<<=", ">>=", "*=", "/=", "%="};
        return ops[s.weighted({40, 12, 12, 6, 6, 6, 4, 4, 6, 5, 5})];
    }
    Expr* rhsFor(const Str& op, int d, bool chr) {
        Expr* e = rhsFor1(op, d);
        (void)chr;
        return e;
    }
    Expr* rhsFor1(const Str& op, int d) {
        if (op == "<<=" || op == ">>=") return s.chance(60) ? num(s.below(16)) : bin("&", genVarExpr(d), num(15));
        if (op == "/=" || op == "%=") return s.chance(50) ? num(1 + s.below(40)) : bin("+", bin("&", genVarExpr(d), num(15)), num(1));
        return genExpr(d);
    }
    Expr* seOn(Expr* l, int d) {
        Expr* e;
        if (s.chance(45)) e = incdec(l, s.below(4));
        else { Str op = pickAssignOp(); e = assign(l, op, rhsFor(op, d - 1, isChar(l->t))); e->t = promote(l->t); feat("embedded_assign" ); }
        e->paren = e->op == ASSIGN;
        return e;
    }
    // a whole expression statement / condition / initialiser
    Expr* fullExpr(int d) {
        seBudget = 0; seVar = nullptr; seGlobal = globReserved = false; nodesLeft = 70;
        if (o.sideEffects && s.chance(o.pSE)) {
            if (cur->cls == IMPURE && s.chance(35)) { seGlobal = globReserved = true; seBudget = 1; }
            else {
                auto vs = visible([&](Var* v) { return !isGlob(v) && isArith(v->t) && v->noalias && canWrite(v) && canRead(v); });
                if (!vs.empty()) { seVar = vs[s.below(vs.size())]; seVar->reserved++; seBudget = 1; }
            }
        }
        Expr* e = genExpr(d);
        if (seVar) seVar->reserved--;
        seBudget = 0; seVar = nullptr; seGlobal = globReserved = false;
        return e;
    }
    Expr* pureExpr(int d) { nodesLeft = 50; seBudget = 0; seVar = nullptr; seGlobal = globReserved = false; return genExpr(d); }
    Expr* cond(int d) { Expr* e = fullExpr(d); return isConst(e) ? genVarExpr(d) : e; }

    // --- types and declarations
    TP pickType(bool any = false) {
        if (any && !p.structs.empty() && s.chance(25)) return structT(p.structs[s.below(p.structs.size())]);
        if (any && s.chance(20)) return ptrTo(&T_INT);
        if (s.chance(o.pChar)) return s.coin() ? &T_CHAR : &T_UCHAR;
        if (s.chance(o.pUnsigned)) return &T_UINT;
        return &T_INT;
    }
    Str newName(bool allowShadow) {
        if (allowShadow && o.shadow && scopes.size() > 1 && s.chance(15)) {
            // reuse the name of a variable of an outer scope (not of this one)
            std::vector<Var*> c;
            // (the parameters belong to the scope of the function body)
            for (size_t i = 0; i + 1 < scopes.size(); ++i) if (i != 1 || scopes.size() > 3) for (auto v : scopes[i]) if (!v->counter) c.push_back(v);
            if (!c.empty()) {
                Str n = c[s.below(c.size())]->name;
                bool clash = false;
                for (auto v : scopes.back()) clash |= v->name == n;
                if (!clash) { feat("shadow"); return n; }
            }
        }
        if (allowShadow && o.shadow && scopes.size() > 1 && !deadNames.empty() && s.chance(25)) {
            Str n = deadNames[s.below(deadNames.size())];
            bool clash = false;
            for (auto v : scopes.back()) clash |= v->name == n;
            for (auto v : scopes.size() > 1 ? scopes[1] : scopes[0]) clash |= v->name == n; // (parameters)
            for (auto& x : p.typedefs) clash |= x.name == n;
            for (auto& x : p.enums) clash |= x.name == n;
            if (!clash) { feat("dead_name"); return n; }
        }
        return fmt("%c%d", "vxyzwbt"[s.below(7)], varNo++);
    }
    // labels have a name space of their own
    std::set<Str> labelNames;
    Str newLabel() {
        if (o.shadow && s.chance(20) && !p.globals.empty()) {
            Var* v = s.pick(p.globals);
            if (v->name[0] != 'l' && labelNames.insert(v->name).second) { feat("label_like_var"); return v->name; }
        }
        return fmt("L%d", labelNo++);
    }
    Var* newVar(const Str& n, TP t, Var::Stor st) {
        p.vars.emplace_back();
        Var* v = &p.vars.back();
        v->name = n; v->t = t; v->stor = st;
        if (st == Var::LOCAL || st == Var::PARAM) v->idx = cur->nslots++;
        return v;
    }
    void maybeAlias(Var* v) {
        if (!o.typedefs) return;
        for (auto& t : p.typedefs) if (t.t == v->t && s.chance(60)) { v->alias = t.name; feat("typedef"); return; }
    }
    void makeStructs() {
        if (!o.structs || !s.chance(o.structPct)) return;
        int n = 1 + s.below(3);
        for (int i = 0; i < n; ++i) {
            p.sdefs.emplace_back();
            SDef* d = &p.sdefs.back();
            d->tag = fmt("S%d", i);
            d->isUnion = s.chance(25);
            int nm = 1 + s.below(5), off = 0;
            for (int j = 0; j < nm; ++j) {
                TP t;
                int k = s.weighted({60, 20, i > 0 ? 20 : 0, sig && !d->isUnion ? 20 : 0});
                if (k == 0) t = pickType();
                else if (k == 1 && arrayDecls < 8) { t = arrOf(pickType(), 1 + s.below(4)); ++arrayDecls; }
                else if (k == 2) t = structT(p.structs[s.below(p.structs.size())]);
                else t = k == 3 ? sig : &T_INT;
                if (d->isUnion && hasFptr(t)) t = &T_INT;
                d->m.push_back({fmt("m%d", j), t, d->isUnion ? 0 : off});
                off += sizeOf(t);
                d->size = d->isUnion ? std::max(d->size, sizeOf(t)) : off;
            }
            p.structs.push_back(d);
        }
    }
    void makeGlobals() {
        int n = 1 + s.below(o.nglobals);
        for (int i = 0; i < n; ++i) {
            TP t = pickType();
            int k = s.weighted({50, o.arrays ? 25 : 0, p.structs.empty() ? 0 : 20, o.strings ? 5 : 0, o.arrays && o.multiDim ? 6 : 0});
            Var* v = nullptr;
            Str name = fmt("g%d", i);
            switch (k) {
            case 0:
                v = newVar(name, t, Var::GLOBAL);
                if (s.chance(40)) { v->hasInit = true; v->init = isChar(t) ? (t->k == Type::CHAR ? s.range(-127, 127) : s.range(0, 255)) : s.i16(); feat("global_init"); }
                maybeAlias(v);
                break;
            case 1: if (arrayDecls > 10) continue; ++arrayDecls; v = newVar(name, arrOf(t, 1 << s.below(4)), Var::GLOBAL); break;
            case 2: {
                TP st = structT(p.structs[s.below(p.structs.size())]);
                if (s.chance(40) && arrayDecls < 10) { ++arrayDecls; st = arrOf(st, 2 << s.below(2)); }
                v = newVar(name, st, Var::GLOBAL);
                maybeAlias(v);
                break; }
            case 3: {
                Str str;
                int l = 1 + s.below(12);
                for (int j = 0; j < l; ++j) str += (char)(s.chance(10) ? 1 + s.below(255) : 32 + s.below(95));
                for (auto& c : str) if (!c) c = 'z';
                ++arrayDecls;
                v = newVar(name, arrOf(s.coin() ? &T_CHAR : &T_UCHAR, l + 1), Var::GLOBAL);
                v->strInit = true; v->str = str;
                feat("global_string");
                break; }
            default:
                if (arrayDecls > 8) continue;
                arrayDecls += 2;
                feat("multidim");
                if (s.chance(40)) { ++arrayDecls; t = arrOf(t, 1 + s.below(4)); feat("multidim3"); }
                v = newVar(name, arrOf(arrOf(t, t->k == Type::ARR ? 1 + s.below(4) : 2 << s.below(2)), 2 + s.below(3)), Var::GLOBAL);
                break;
            }
            p.globals.push_back(v);
        }
        if (o.pointers) for (int i = 0, m = s.below(3); i < m; ++i) makePointer(nullptr, fmt("gp%d", i), Var::GLOBAL);
        if (o.hugeFrame && s.chance(o.hugeFrame)) { p.globals.insert(p.globals.begin() + s.below(p.globals.size() + 1), newVar("gpad", arrOf(&T_CHAR, 100 + s.below(2000)), Var::GLOBAL)); }
    }
    // create a pointer with a fixed target; init/assignment statement appended to `init` (if local)
    Var* makePointer(std::vector<Stmt*>* init, const Str& name, Var::Stor st) {
        auto c = st == Var::GLOBAL ? p.globals : visible([&](Var* v) { return true; });
        std::vector<Var*> ok;
        for (auto v : c) {
            if (v->counter || v->noalias || v->t->k == Type::FPTR || v->t->k == Type::VOID || v->alias == "va_list" || v->strInit || (v->t->k == Type::ARR && v->t->el->k == Type::FPTR)) continue;
            if (v->stor == Var::PARAM) continue;
            if (cur && cur->cls != IMPURE && isGlob(v)) continue;
            if (isPtr(v->t) && (!v->target || isPtr(v->t->el) || st == Var::GLOBAL || isGlob(v))) continue;
            if (!nameable(v->t)) continue;
            ok.push_back(v);
        }
        if (ok.empty()) return nullptr;
        Var* t = ok[s.below(ok.size())];
        TP el = t->t; int cm = 1;
        if (t->t->k == Type::ARR) { el = t->t->el; cm = std::max(1, t->t->n / 2); if (el->k == Type::ARR) return nullptr; }
        Var* v = newVar(name, ptrTo(el), st);
        v->target = t;
        v->cmax = cm; v->slack = t->t->k == Type::ARR ? t->t->n - cm : 0;
        v->noalias = false;
        feat("pointer_var");
        if (st == Var::GLOBAL) { p.globals.push_back(v); return v; }
        (void)init;
        return v;
    }
    Expr* pointerValue(Var* v, int d) {
        Var* t = v->target;
        if (t->t->k == Type::ARR) {
            int room = v->slack + 1;
            int m = 1; while (m * 2 <= room) m *= 2;
            switch (s.below(4)) {
            case 0: return vref(t);
            case 1: return addr(index(vref(t), num(s.below(room))));
            case 2: return bin("+", vref(t), num(s.below(room)));
            default: return m > 1 ? addr(index(vref(t), bin("&", genVarExpr(d), num(m - 1)))) : vref(t);
            }
        }
        return addr(vref(t));
    }
    int frameOff = 0;
    void declare(std::vector<Stmt*>& out, int d) {
        int k = s.weighted({60, o.arrays ? 12 : 0, p.structs.empty() ? 0 : 12, o.pointers ? 14 : 0, o.statics && cur->lateGlobals < 2 && cur->cls == IMPURE ? 8 : 0, o.funptrs ? 5 : 0, o.shadow && scopes.size() > 2 ? o.wType : 0});
        switch (k) {
        case 6: localType(out); break;
        case 0: {
            int n = s.chance(15) ? 2 + s.below(2) : 1;
            TP t = pickType();
            Stmt* st = mks(S_DECL);
            std::vector<Var*> later;
            std::vector<Var*> made;
            for (int i = 0; i < n; ++i) {
                Var* v = newVar(newName(true), t, Var::LOCAL);
                for (auto x : made) if (x->name == v->name) v->name = fmt("w%d", varNo++);
                v->noalias = s.chance(60);
                if (n == 1) maybeAlias(v);
                Expr* init = nullptr;
                // an outer variable of the same name is not readable in its own initialiser
                std::vector<Var*> save = hidden;
                for (auto& sc : scopes) for (auto x : sc) if (x->name == v->name) hidden.push_back(x);
                for (auto x : made) for (auto& sc : scopes) for (auto y : sc) if (y->name == x->name) hidden.push_back(y);
                if (!s.chance(o.pNoInit)) init = fullExpr(d);
                hidden = save;
                made.push_back(v);
                st->vars.push_back(v); st->inits.push_back(init);
                if (!init) later.push_back(v);
            }
            out.push_back(st);
            for (auto v : made) { if (std::find(later.begin(), later.end(), v) == later.end()) scopes.back().push_back(v); }
            // names of uninitialised variables hide outer ones at once
            for (auto v : later) { scopes.back().push_back(v); hidden.push_back(v); }
            for (auto v : later) {
                Expr* e = fullExpr(d);
                hidden.erase(std::find(hidden.begin(), hidden.end(), v));
                out.push_back(exprS(assign(vref(v), "=", e)));
            }
            break;
        }
        case 1: {
            if (arrayDecls > 20) return;
            if (o.multiDim && s.chance(20)) {
                arrayDecls += 2;
                TP t = pickType();
                if (s.chance(40)) { ++arrayDecls; t = arrOf(t, 1 + s.below(3)); feat("multidim3"); }
                t = arrOf(arrOf(t, 1 + s.below(4)), 1 + s.below(3));
                Var* v = newVar(newName(true), t, Var::LOCAL);
                out.push_back(declS(v, nullptr));
                scopes.back().push_back(v); hidden.push_back(v);
                initLeaves(out, vref(v));
                hidden.erase(std::find(hidden.begin(), hidden.end(), v));
                feat("multidim");
                break;
            }
            ++arrayDecls;
            bool huge = o.hugeFrame && s.chance(o.hugeFrame);
            TP t = arrOf(pickType(), huge ? 64 << s.below(3) : 1 << s.below(4));
            Var* v = newVar(newName(true), t, Var::LOCAL);
            Stmt* st = mks(S_DECL); st->vars = {v}; st->inits = {nullptr};
            out.push_back(st);
            if (huge) feat("huge_frame");
            Var* c = freeCounter();
            if (c) {
                c->inLoop = true;
                // for (c = 0; c < n; ++c) a[c] = expr;   (the array itself is not readable yet)
                scopes.back().push_back(v); hidden.push_back(v);
                Stmt* f = mks(S_FOR);
                f->e = assign(vref(c), "=", num(0)); f->e2 = bin("<", vref(c), num(t->n)); f->e3 = incdec(vref(c), s.coin() ? 0 : 2);
                int oc = c->cmax; c->cmax = t->n - 1;
                f->body.push_back(exprS(assign(index(vref(v), vref(c)), "=", pureExpr(std::min(d, 2)))));
                c->cmax = oc;
                f->val = s.below(2);
                hidden.erase(std::find(hidden.begin(), hidden.end(), v));
                c->inLoop = false;
                labelCost += 4;
                out.push_back(f);
            } else {
                scopes.back().push_back(v); hidden.push_back(v);
                for (int i = 0; i < t->n && i < 16; ++i) out.push_back(exprS(assign(index(vref(v), num(i)), "=", pureExpr(1))));
                // partly initialised: stays in scope (it may shadow), never used
                if (t->n <= 16) hidden.erase(std::find(hidden.begin(), hidden.end(), v));
            }
            break;
        }
        case 2: {
            TP t = structT(p.structs[s.below(p.structs.size())]);
            Var* v = newVar(newName(true), t, Var::LOCAL);
            maybeAlias(v);
            Stmt* st = mks(S_DECL); st->vars = {v}; st->inits = {nullptr};
            out.push_back(st);
            std::vector<Var*> src;
            if (cur->cls != PURE) for (auto g : p.globals) if (g->t == t && g->name != v->name && scopeVisible(g)) src.push_back(g);
            scopes.back().push_back(v);
            feat("local_struct");
            if (!src.empty() && s.coin()) { out.push_back(exprS(assign(vref(v), "=", vref(src[s.below(src.size())])))); feat("struct_assign"); }
            else { hidden.push_back(v); initLeaves(out, vref(v)); hidden.erase(std::find(hidden.begin(), hidden.end(), v)); }
            break;
        }
        case 3: {
            Var* v = makePointer(nullptr, fmt("p%d", varNo++), Var::LOCAL);
            if (!v) return;
            if (!scopeVisible(v->target)) return;
            Stmt* st = mks(S_DECL); st->vars = {v}; st->inits = {s.coin() ? pointerValue(v, 1) : nullptr};
            out.push_back(st);
            if (!st->inits[0]) out.push_back(exprS(assign(vref(v), "=", pointerValue(v, 1))));
            scopes.back().push_back(v);
            break;
        }
        case 4: {
            TP t = pickType();
            if (s.chance(30) && arrayDecls < 16) { ++arrayDecls; t = arrOf(t, 1 << s.below(3)); }
            Var* v = newVar(newName(true), t, Var::STATIC);
            Stmt* st = mks(S_DECL); st->vars = {v}; st->inits = {nullptr};
            out.push_back(st);
            cur->statics.push_back(v);
            cur->lateGlobals++;
            scopes.back().push_back(v);
            feat("static_local");
            break;
        }
        default: {
            auto fs = callable(true, true);
            std::vector<Func*> ok;
            for (auto f : fs) if (!f->variadic && f->special == 0 && f->ret->k == Type::INT) { bool simple = true; for (auto x : f->params) simple &= isArith(x->t); if (simple && f->cls != IMPURE) ok.push_back(f); }
            if (ok.empty()) return;
            Func* f = ok[s.below(ok.size())];
            std::vector<TP> a;
            for (auto x : f->params) a.push_back(x->t);
            Var* v = newVar(fmt("fp%d", varNo++), fptr(&T_INT, a), Var::LOCAL);
            v->ftarget = f;
            Expr* fe = mk(FNAME, v->t); fe->fn = f;
            if (s.coin()) { Expr* ad = mk(ADDR, v->t); ad->k = {fe}; fe = ad; }
            Stmt* st = mks(S_DECL); st->vars = {v};
            if (fe->op == ADDR) fe = fe->k[0];
            st->inits = {s.coin() ? fe : nullptr};
            out.push_back(st);
            if (!st->inits[0]) out.push_back(exprS(assign(vref(v), "=", fe)));
            scopes.back().push_back(v);
            feat("fnptr_var");
            // use it at once
            for (int i = 0; i < 1 + (int)s.below(2); ++i) {
                Expr* c = mk(CALLPTR, &T_INT);
                c->v = s.coin();
                c->k.push_back(vref(v));
                for (auto x : f->params) { (void)x; c->k.push_back(pureExpr(d - 1)); }
                Expr* e = c;
                if (s.coin()) e = bin("+", pureExpr(1), c);
                if (cur->cls == IMPURE) out.push_back(outS(e));
                else { auto w = visible([&](Var* y) { return isArith(y->t) && canWrite(y) && !isGlob(y); }); if (!w.empty()) out.push_back(exprS(assign(vref(w[s.below(w.size())]), "=", e))); }
            }
            break;
        }
        }
    }
    void initLeaves(std::vector<Stmt*>& out, Expr* e) {
        if (out.size() > 400) throw Discard{"struct too big"};
        if (e->t->k == Type::ARR) { for (int i = 0; i < e->t->n; ++i) initLeaves(out, index(e, num(i))); return; }
        if (e->t->k == Type::STRUCT) { for (auto& m : e->t->sd->m) initLeaves(out, member(e, &m, false)); return; }
        if (e->t->k == Type::FPTR) { out.push_back(exprS(assign(e, "=", fnameE()))); return; }
        out.push_back(exprS(assign(e, "=", s.chance(70) ? genNum() : pureExpr(1))));
    }
    void initFptrs(std::vector<Stmt*>& out, Expr* e) { // never null
        if (!hasFptr(e->t)) return;
        if (e->t->k == Type::ARR) { for (int i = 0; i < e->t->n; ++i) initFptrs(out, index(e, num(i))); return; }
        if (e->t->k == Type::STRUCT) { for (auto& m : e->t->sd->m) initFptrs(out, member(e, &m, false)); return; }
        out.push_back(exprS(assign(e, "=", fnameE())));
    }

    // --- function pointers of the program's own type
    TP sig = nullptr;
    std::vector<Func*> sigFns;
    Func* fsel = nullptr;
    Var *fz = nullptr;            // may be null
    Expr* fnameE() {
        Func* f = sigFns.empty() ? cur : sigFns[s.below(sigFns.size())];
        Expr* e = mk(FNAME, sig); e->fn = f;
        if (s.chance(20)) { Expr* a = mk(ADDR, sig); a->k = {e}; e = a; }
        return e;
    }
    // a pointer to one of the function pointers that are never null and never go away
    TP sigP = nullptr;
    Func* fcall = nullptr;
    Expr* fqVal(int d) {
        auto qs = visible([&](Var* v) { return v->t == sigP && canRead(v); });
        if (!qs.empty() && s.chance(35)) return vref(qs[s.below(qs.size())]);
        auto root = [](Expr* e) { while (e->op != VAR) { if (e->op == DEREF || e->k.empty()) return (Var*)nullptr; e = e->k[0]; } return e->var; };
        for (int i = 0; i < 4; ++i) {
            Expr* e = fpPlace(d, false);
            if (!e) return nullptr;
            Var* v = root(e);
            if (!v || !isGlob(v)) continue;
            if (e->op == INDEX && s.coin()) return isConst(e->k[1]) && constVal(e->k[1]) == 0 && s.coin() ? bin("+", e->k[0], num(0)) : bin("+", e->k[0], e->k[1]);
            return addr(e);
        }
        return nullptr;
    }
    Expr* fpPlace(int d, bool write) {
        if (cur->cls == IMPURE && !globReserved && s.chance(25)) {
            auto qs = visible([&](Var* v) { return v->t == sigP && canRead(v); });
            if (!qs.empty()) { feat("fptr_ptr"); Expr* q = vref(qs[s.below(qs.size())]); return s.coin() ? deref(q) : index(q, num(0)); }
        }
        auto vs = visible([&](Var* v) {
            if (v == fz || (v->stor == Var::LOCAL && v->ftarget)) return false;
            if (!(v->t == sig || (v->t->k == Type::ARR && v->t->el == sig) || (v->t->k == Type::STRUCT && v->stor == Var::GLOBAL && hasFptr(v->t)))) return false;
            return canRead(v) && (!write || canWrite(v));
        });
        if (vs.empty()) return nullptr;
        Expr* e = vref(vs[s.below(vs.size())]);
        for (;;) {
            if (e->t->k == Type::ARR) e = index(e, genIndex(e->t->n, d));
            else if (e->t->k == Type::STRUCT) {
                std::vector<const Member*> ms;
                for (auto& m : e->t->sd->m) if (hasFptr(m.t)) ms.push_back(&m);
                const Member* m = ms[s.below(ms.size())];
                e = s.chance(30) ? member(addr(e), m, true) : member(e, m, false);
            } else return e;
        }
    }
    Expr* fpValue(int d) {
        switch (s.weighted({30, 45, fsel && fsel != cur ? 12 : 0, labelCost < 180 ? 10 : 0, 6})) {
        case 1: if (Expr* e = fpPlace(d, false)) return e; break;
        case 2: { feat("fptr_result"); Expr* e = callE(fsel, {genExpr(d - 1)}); e->t = sig; return e; }
        case 3: { labelCost += 3; feat("fptr_cond"); Expr* e = mk(COND, sig); Expr* c = nonConst(genExpr(d - 1), 1); Expr* a = fpValue(d - 1); e->k = {c, a, fpValue(d - 1)}; return e; }
        case 4: { feat("fptr_cast"); Expr* e = mk(CAST, sig); e->ty = sig; e->k = {fpValue(d - 1)}; return e; }
        }
        return fnameE();
    }
    Expr* fpCall(Expr* f, int d) {
        Expr* c = mk(CALLPTR, promote(sig->el));
        c->v = s.chance(30);
        c->k.push_back(f);
        for (size_t i = 0; i < sig->args.size(); ++i) c->k.push_back(genExpr(d - 1));
        feat("fptr_call");
        return c;
    }
    Expr* fpExpr(int d) {
        if (fcall && fcall != cur && cur->cls == IMPURE && !globReserved && s.chance(40)) if (Expr* e = fqVal(1)) {
            feat("fptr_ptr_arg");
            std::vector<Expr*> a = {e};
            for (size_t i = 1; i < fcall->params.size(); ++i) a.push_back(genExpr(d - 1));
            return callE(fcall, a);
        }
        Expr* q = s.chance(45) ? fpPlace(1, false) : nullptr;
        if (!q) return fpCall(fpValue(d - 1), d);
        feat("fptr_test");
        if (fz && scopeVisible(fz) && canRead(fz) && s.chance(60)) q = vref(fz);
        switch (s.below(labelCost > 200 ? 1 : 3)) {
        case 0: return un(NOT, q);
        case 1: {
            labelCost += 1;
            Expr* e = mk(s.coin() ? LAND : LOR, &T_INT);
            Expr* x = nonConst(genExpr(d - 1), 1);
            if (s.coin()) e->k = {q, x}; else e->k = {x, q};
            return e;
        }
        default: {
            labelCost += 3;
            Expr* e = mk(COND, nullptr);
            Expr *a = q->op == VAR && q->var == fz ? fpCall(vref(fz), d) : genExpr(d - 1), *b = genExpr(d - 1);
            e->k = {q, a, b}; e->t = arithType(a->t, b->t);
            return e;
        }
        }
    }
    void fpStmt(std::vector<Stmt*>& out, int d, bool declOk) {
        if (sigP && declOk && cur->cls == IMPURE && s.chance(30)) {
            Expr* e = fqVal(2);
            if (!e) return;
            Var* v = newVar(fmt("fq%d", varNo++), sigP, Var::LOCAL);
            Stmt* ds = mks(S_DECL); ds->vars = {v}; ds->inits = {s.coin() ? e : nullptr};
            out.push_back(ds);
            if (!ds->inits[0]) out.push_back(exprS(assign(vref(v), "=", e)));
            scopes.back().push_back(v);
            return;
        }
        int k = s.weighted({40, declOk ? 20 : 0, fz && cur->cls == IMPURE && scopeVisible(fz) ? 25 : 0, 10});
        if (k == 0) {
            Expr* w = fpPlace(1, true);
            if (!w) return;
            feat("fptr_assign");
            Expr* v = fpValue(d);
            if (s.chance(15)) if (Expr* w2 = fpPlace(0, true)) if (disjoint(w, w2)) { v = assign(w2, "=", v); v->t = sig; }
            out.push_back(exprS(assign(w, "=", v)));
        } else if (k == 1) {
            bool st = cur->cls == IMPURE && cur->lateGlobals < 2 && o.statics && s.chance(20);
            Var* v = newVar(fmt("fp%d", varNo++), sig, st ? Var::STATIC : Var::LOCAL);
            Stmt* ds = mks(S_DECL); ds->vars = {v}; ds->inits = {!st && s.coin() ? fpValue(d) : nullptr};
            feat("fptr_local");
            out.push_back(ds);
            if (st) { cur->statics.push_back(v); cur->lateGlobals++; }
            if (!ds->inits[0]) out.push_back(exprS(assign(vref(v), "=", fpValue(d))));
            scopes.back().push_back(v);
        } else if (k == 2) {
            feat("fptr_null");
            switch (s.below(3)) {
            case 0: out.push_back(exprS(assign(vref(fz), "=", num(0)))); break;
            case 1: out.push_back(exprS(assign(vref(fz), "=", fpValue(d)))); break;
            default: {
                Stmt* st = mks(s.coin() ? S_DO : S_WHILE);
                labelCost += 3;
                st->e = vref(fz); st->val = 1;
                if (s.coin()) st->body.push_back(outS(num(77)));
                st->body.push_back(exprS(assign(vref(fz), "=", num(0))));
                out.push_back(st);
            }
            }
        } else {
            Expr* q = fpPlace(1, false);
            if (!q) return;
            if (fz && scopeVisible(fz) && canRead(fz) && s.coin()) q = vref(fz);
            Stmt* st = mks(S_IF); labelCost += 2;
            st->e = s.coin() ? q : un(NOT, q); st->val = s.below(4);
            feat("fptr_if");
            bodyOf(st->body);
            if (s.coin()) { st->hasElse = true; bodyOf(st->body2); }
            out.push_back(st);
        }
    }
    void makeSig() { // before structs and globals
        if (!o.funptrs || !s.chance(22)) return;
        std::vector<TP> a;
        for (int i = 0, n = s.weighted({10, 45, 30, 10, 5}); i < n; ++i) a.push_back(pickType());
        TP ret = s.chance(60) ? &T_INT : pickType();
        p.types.push_back({Type::FPTR, ret, 0, nullptr, a, "FT"});
        sig = &p.types.back();
        p.typedefs.push_back({"FT", sig});
        if (s.coin()) sigP = ptrTo(sig);
    }
    void makeFptrs() { // the functions and objects
        if (!sig) return;
        for (auto n : {"fv", "fw"}) if (s.coin()) p.globals.push_back(newVar(n, sig, Var::GLOBAL));
        if (s.coin()) { fz = newVar("fz", sig, Var::GLOBAL); p.globals.push_back(fz); }
        if (o.arrays && s.coin()) { ++arrayDecls; p.globals.push_back(newVar("fa", arrOf(sig, 2 << s.below(2)), Var::GLOBAL)); }
    }
    void makeSigFns() {
        if (!sig) return;
        for (int i = 0, n = 2 + s.below(2); i < n; ++i) {
            Func* f = newFunc(fmt("q%d", i), sig->el, PURE);
            beginFunc(f);
            p.fns.push_back(f);
            int k = 0;
            for (auto t : sig->args) { Var* v = param(f, fmt("a%d", k++), t); v->noalias = true; }
            f->proto = s.chance(20);
            pushScope();
            stmtBudget = 2;
            if (s.chance(30)) { addCounters(1); stmts(f->body, 2, true); }
            Stmt* r = mks(S_RETURN); r->e = pureExpr(2); f->body.push_back(r);
            sigFns.push_back(f);
        }
        if (s.coin()) {
            Func* f = newFunc("fsel", sig, PURE);
            beginFunc(f);
            f->special = 9;
            p.fns.push_back(f);
            param(f, "i", s.coin() ? &T_INT : &T_CHAR)->noalias = true;
            pushScope();
            if (s.coin()) { Stmt* st = mks(S_IF); labelCost += 2; st->e = pureExpr(2); st->val = s.below(4); Stmt* r = mks(S_RETURN); r->e = fpValue(1); st->body.push_back(r); f->body.push_back(st); }
            Stmt* r = mks(S_RETURN); r->e = fpValue(2); f->body.push_back(r);
            fsel = f;
        }
        if (sigP && s.coin()) {
            Func* f = newFunc("fcall", promote(sig->el), READER);
            beginFunc(f);
            f->special = 9;
            p.fns.push_back(f);
            Var* q = param(f, "q", sigP);
            for (size_t i = 0; i < sig->args.size(); ++i) param(f, fmt("a%d", (int)i), sig->args[i])->noalias = true;
            pushScope();
            Expr* c = mk(CALLPTR, promote(sig->el));
            c->v = s.coin();
            c->k.push_back(s.coin() ? deref(vref(q)) : index(vref(q), num(0)));
            for (size_t i = 0; i < sig->args.size(); ++i) c->k.push_back(vref(f->params[i + 1]));
            Stmt* r = mks(S_RETURN); r->e = c; f->body.push_back(r);
            fcall = f;
        }
        if (s.coin()) {
            Func* f = newFunc("fap", &T_INT, PURE);
            beginFunc(f);
            p.fns.push_back(f);
            int at = s.below(3), n = 1 + s.below(4);
            for (int i = 0; i < n; ++i) { Var* v = param(f, fmt("a%d", i), i == std::min(at, n - 1) ? sig : pickType()); v->noalias = true; }
            pushScope();
            stmtBudget = 3;
            if (s.chance(40)) stmts(f->body, 2, true);
            Stmt* r = mks(S_RETURN); r->e = bin(s.coin() ? "+" : "-", fpExpr(2), fpCall(fpValue(2), 2)); f->body.push_back(r);
        }
    }
    Var* freeCounter() {
        for (auto c : counters) if (!c->inLoop && !hiddenName(c)) return c;
        return nullptr;
    }
    bool hiddenName(Var* c) { return !scopeVisible(c); }

    // --- places of structure type
    Expr* structPlace(int d, bool write) {
        auto base = [](TP t) { while (t->k == Type::ARR || t->k == Type::PTR) t = t->el; return t; };
        auto vs = visible([&](Var* v) { return placeable(v, write) && base(v->t)->k == Type::STRUCT; });
        if (lnOk(write) && s.chance(35)) {
            feat("ln_copy");
            Expr* e = lnVal(d);
            return e->op == ADDR && s.coin() ? e->k[0] : deref(e);
        }
        if (vs.empty()) return nullptr;
        Var* v = vs[s.below(vs.size())];
        Expr* e = vref(v);
        if (isPtr(v->t)) {
            if (v->t->el->k != Type::STRUCT) return nullptr;
            e = viaCast(e);
            e = v->slack >= 0 && v->cmax > 1 && s.coin() ? index(e, genIndex(v->cmax, d)) : deref(e);
        }
        for (;;) {
            if (e->t->k == Type::ARR) { e = index(e, genIndex(e->t->n, d)); continue; }
            if (e->t->k != Type::STRUCT) return nullptr;
            std::vector<const Member*> ms;
            for (auto& m : e->t->sd->m) if (base(m.t)->k == Type::STRUCT && m.t->k != Type::PTR) ms.push_back(&m);
            if (ms.empty() || s.coin()) return e;
            const Member* m = ms[s.below(ms.size())];
            e = e->op == DEREF && s.coin() ? member(e->k[0], m, true) : s.chance(15) ? member(addr(e), m, true) : member(e, m, false);
        }
    }

    // --- the value of an assignment or increment of an arbitrary place
    bool mentions(Expr* e, Var* v) {
        if (e->var == v) return true;
        for (auto k : e->k) if (mentions(k, v)) return true;
        return false;
    }
    Expr* effect(int d, Expr*& l) {
        seBudget = 0; seVar = nullptr; seGlobal = globReserved = false; nodesLeft = 60;
        l = nullptr;
        for (int i = 0; i < 3 && (!l || l->op == VAR); ++i) l = genPlace(d, true);
        if (!l) return nullptr;
        feat("effect_value");
        Expr* e;
        if (s.chance(60)) e = incdec(l, s.below(4));
        else { Str op = pickAssignOp(); e = assign(l, op, rhsFor(op, d - 1, isChar(l->t))); e->t = promote(l->t); e->paren = true; }
        return e;
    }
    // an operand whose value the effect cannot change
    Expr* besides(Expr* l) {
        auto vs = visible([&](Var* v) { return v->noalias && isArith(v->t) && !isGlob(v) && canRead(v) && !mentions(l, v); });
        if (vs.empty() || s.coin()) return genNum();
        return vref(vs[s.below(vs.size())]);
    }
    Expr* around(Expr* e, Expr* l, int d) {
        switch (s.weighted({30, 12, 22, 18, labelCost < 200 ? 6 : 0, labelCost < 200 ? 6 : 0, 6})) {
        case 0: return e;
        case 1: { static const Op ops[] = {NEG, NOT, BNOT, PLUS}; return un(ops[s.below(4)], e); }
        case 2: {
            Str op = pickBinOp();
            if (op == "/" || op == "%") return bin(op, e, num(1 + s.below(40)));
            if (op == "<<" || op == ">>") return bin(op, e, num(s.below(16)));
            Expr* x = bin(op, e, besides(l)); x->paren = s.chance(30); return x;
        }
        case 3: {
            Str op = pickBinOp();
            if (op == "<<" || op == ">>" || op == "/" || op == "%") op = "-";
            Expr* x = bin(op, besides(l), e); x->paren = s.chance(30); return x;
        }
        case 4: { labelCost += 3; Expr* c = mk(COND, nullptr); Expr *a = besides(l), *b = besides(l); c->k = {e, a, b}; c->t = arithType(a->t, b->t); return c; }
        case 5: { labelCost += 1; Expr* c = mk(s.coin() ? LAND : LOR, &T_INT); Expr* x = nonConst(pureExpr(d - 1), 1); c->k = {e, x}; return c; } // a sequence point
        default: { Expr* x = pureExpr(d - 1); Expr* c = mk(COMMA, x->t); c->k = {e, x}; c->paren = true; return isConst(x) ? e : c; }
        }
    }
    void effectStmt(std::vector<Stmt*>& out, int d) {
        Expr* l;
        Expr* e = effect(2, l);
        if (!e) return;
        int k = s.weighted({45, cur->cls == IMPURE ? 20 : 0, labelCost < 200 ? 20 : 0, 15});
        if (k == 3) { // an argument
            auto fs = callable(cur->cls == IMPURE, true);
            std::vector<Func*> ok;
            for (auto f : fs) {
                bool y = !f->variadic && !f->special && !f->params.empty();
                for (auto v : f->params) y = y && isArith(v->t) && !v->counter;
                if (y) ok.push_back(f);
            }
            if (!ok.empty()) {
                Func* f = ok[s.below(ok.size())];
                std::vector<Expr*> a;
                size_t at = s.below(f->params.size());
                for (size_t i = 0; i < f->params.size(); ++i) a.push_back(i == at ? around(e, l, d) : besides(l));
                feat("effect_arg");
                Expr* c = callE(f, a);
                out.push_back(cur->cls == IMPURE ? outS(c) : exprS(c));
                return;
            }
            k = 0;
        }
        if (k == 2) {
            Stmt* st = mks(S_IF); labelCost += 2;
            st->e = around(e, l, d); st->val = s.below(4);
            feat("effect_cond");
            bodyOf(st->body);
            if (s.coin()) { st->hasElse = true; bodyOf(st->body2); }
            out.push_back(st);
            return;
        }
        if (k == 1) { out.push_back(outS(around(e, l, d))); return; }
        auto vs = visible([&](Var* v) { return v->noalias && isArith(v->t) && !isGlob(v) && canWrite(v) && !mentions(e, v); });
        if (vs.empty()) { out.push_back(exprS(e)); return; }
        Expr* t = vref(vs[s.below(vs.size())]);
        t->var->reserved++;
        Expr* x = around(e, l, d);
        t->var->reserved--;
        static const char* ops[] = {"=", "=", "+=", "-=", "^=", "&="};
        out.push_back(exprS(assign(t, ops[s.below(6)], x)));
    }

    // --- pointers kept in memory: *++*pp, *t[1]--, **pp++ ... with every position known
    void cellStmt(std::vector<Stmt*>& outer) {
        if (arrayDecls > 20 || nesting > 4) return;
        feat("cells");
        Stmt* blk = mks(S_BLOCK);
        auto& out = blk->body;
        TP el = s.coin() ? pickType() : s.coin() ? &T_CHAR : &T_INT;
        TP pt = ptrTo(el);
        int n = 3 + s.below(3), id = varNo++;
        bool arr = s.chance(65), st = cur->cls == IMPURE && cur->lateGlobals < 2 && o.statics && s.chance(20);
        auto mkv = [&](const char* x, TP t, bool stat) {
            Var* v = newVar(fmt("%s%d", x, id), t, stat ? Var::STATIC : Var::LOCAL);
            Stmt* ds = mks(S_DECL); ds->vars = {v}; ds->inits = {nullptr}; out.push_back(ds);
            if (stat) { cur->statics.push_back(v); cur->lateGlobals++; }
            return v;
        };
        ++arrayDecls;
        Var* buf = mkv("cb", arrOf(el, n), false);
        if (arr) ++arrayDecls;
        int N = arr ? 2 + s.below(2) : 1;
        Var* t = mkv("ct", arr ? arrOf(pt, N) : pt, st);
        Var* pp = mkv("cp", ptrTo(pt), false);
        Var* acc = mkv("ca", &T_INT, false);
        for (int i = 0; i < n; ++i) out.push_back(exprS(assign(index(vref(buf), num(i)), "=", genNum())));
        std::vector<int> pos(N);
        for (int k = 0; k < N; ++k) {
            pos[k] = s.below(n);
            Expr* v = pos[k] == 0 && s.coin() ? vref(buf) : s.coin() ? addr(index(vref(buf), num(pos[k]))) : bin("+", vref(buf), num(pos[k]));
            out.push_back(exprS(assign(arr ? index(vref(t), num(k)) : vref(t), "=", v)));
        }
        int q = arr ? s.below(N) : 0;
        out.push_back(exprS(assign(vref(pp), "=", arr ? (q ? bin("+", vref(t), num(q)) : vref(t)) : addr(vref(t)))));
        out.push_back(exprS(assign(vref(acc), "=", genNum())));
        // an lvalue for one of the pointers; k says which
        auto cell = [&](int& k) -> Expr* {
            for (;;) switch (s.below(8)) {
            case 0: k = s.below(N); return arr ? index(vref(t), num(k)) : vref(t);
            case 1: k = q; return deref(vref(pp));
            case 2: { k = q + s.below(N - q); return index(vref(pp), num(k - q)); }
            case 3: { k = q + s.below(N - q); return deref(bin("+", vref(pp), num(k - q))); }
            case 4: if (q + 1 < N) { k = ++q; return deref(incdec(vref(pp), 0)); } break;
            case 5: if (q > 0) { k = --q; return deref(incdec(vref(pp), 1)); } break;
            case 6: if (q + 1 < N) { k = q++; return deref(incdec(vref(pp), 2)); } break;
            default: if (q > 0) { k = q--; return deref(incdec(vref(pp), 3)); } break;
            }
        };
        auto elem = [&]() -> Expr* {
            int k;
            Expr* c = cell(k);
            for (;;) switch (s.below(9)) {
            case 0: return deref(c);
            case 1: return index(c, num(s.below(n - pos[k])));
            case 2: return deref(bin("+", c, num(s.below(n - pos[k]))));
            case 3: if (pos[k] + 1 < n) { ++pos[k]; return deref(incdec(c, 0)); } break;
            case 4: if (pos[k] > 0) { --pos[k]; return deref(incdec(c, 1)); } break;
            case 5: if (pos[k] + 1 < n) { ++pos[k]; return deref(incdec(c, 2)); } break;
            case 6: if (pos[k] > 0) { --pos[k]; return deref(incdec(c, 3)); } break;
            case 7: { int m = s.below(n - pos[k]); pos[k] += m; Expr* a = assign(c, "+=", num(m)); a->paren = true; return deref(a); }
            default: { int m = s.below(n - pos[k]); if (pos[k] + m + 1 >= n) break; pos[k] += m + 1; Expr* a = assign(c, "=", bin("+", vref(buf), num(pos[k]))); a->paren = true; return index(a, num(0)); }
            }
        };
        for (int i = 0, m = 2 + s.below(5); i < m; ++i) {
            Expr* e = elem();
            Stmt* x;
            switch (s.weighted({25, 25, 12, 12, labelCost < 200 ? 10 : 0, arr ? 10 : 0, 8})) {
            case 0: x = exprS(assign(vref(acc), "=", bin("+", bin("*", vref(acc), num(3)), e))); break;
            case 1: x = exprS(assign(vref(acc), s.coin() ? "+=" : "^=", s.coin() ? e : incdec(e, s.below(4)))); break;
            case 2: x = exprS(assign(e, s.coin() ? "=" : "+=", genNum())); break;
            case 3: x = exprS(incdec(e, s.below(4))); break;
            case 4: { x = mks(S_IF); labelCost += 2; x->e = bin(s.coin() ? ">" : "==", e, genNum()); x->val = 1; x->body.push_back(exprS(assign(vref(acc), "+=", num(1 + s.below(9))))); break; }
            case 5: { out.push_back(exprS(assign(vref(acc), "+=", e))); int a = s.below(N), b = s.below(N); x = exprS(assign(vref(acc), "-=", s.coin() ? bin("-", index(vref(t), num(a)), index(vref(t), num(b))) : bin(s.coin() ? "<" : "==", index(vref(t), num(a)), index(vref(t), num(b))))); break; }
            default: { // *p++ = *q++ style: two places of different pointers are not known to differ, so only reads mix
                Expr* l = index(vref(buf), num(s.below(n)));
                x = exprS(assign(l, "=", e));
            }
            }
            out.push_back(x);
        }
        for (int i = 0; i < n; ++i) out.push_back(exprS(assign(vref(acc), "=", bin("+", bin("*", vref(acc), num(3)), index(vref(buf), num(i))))));
        for (int k = 0; k < N; ++k) out.push_back(exprS(assign(vref(acc), "=", bin("+", bin("*", vref(acc), num(3)), bin("-", arr ? index(vref(t), num(k)) : vref(t), vref(buf))))));
        if (cur->cls == IMPURE) out.push_back(outS(vref(acc)));
        else { auto w = visible([&](Var* y) { return isArith(y->t) && canWrite(y) && !isGlob(y); }); if (!w.empty()) out.push_back(exprS(assign(vref(w[s.below(w.size())]), "+=", vref(acc)))); }
        outer.push_back(blk);
    }

    // --- pointers to void into one array, with every position known (-1: null)
    Func *vCmp = nullptr, *vSel = nullptr, *vFill = nullptr;
    void makeVoidFns() {
        if (!o.pointers || !o.castsOn || !s.chance(20)) return;
        TP vt = ptrTo(&T_VOID);
        auto start = [&](const char* n, TP ret) {
            Func* f = newFunc(n, ret, PURE);
            beginFunc(f);
            f->special = 9;
            p.fns.push_back(f);
            return f;
        };
        auto ret = [&](Func* f, Expr* e) { Stmt* r = mks(S_RETURN); r->e = e; f->body.push_back(r); };
        if (s.coin()) { // how p and q compare
            Func* f = start("vcmp", &T_INT);
            Var *a = param(f, "p", vt), *b = param(f, "q", vt);
            pushScope();
            static const char* ops[] = {"==", "!=", "==", "!="};
            vCmp = f; vCmpOp = ops[s.below(4)];
            if (s.coin()) ret(f, bin(vCmpOp, vref(a), vref(b)));
            else {
                Stmt* i = mks(S_IF); i->val = 1; i->e = bin(vCmpOp, vref(a), vref(b));
                Stmt* r = mks(S_RETURN); r->e = num(1); i->body.push_back(r);
                f->body.push_back(i); ret(f, num(0));
            }
        }
        if (s.coin()) { // one of p and q
            Func* f = start("vsel", vt);
            Var *a = param(f, "p", vt), *b = param(f, "q", vt), *k = param(f, "k", &T_INT);
            pushScope();
            vSel = f;
            if (s.coin()) { Expr* c = mk(COND, vt); c->k = {vref(k), vref(a), vref(b)}; ret(f, c); }
            else {
                Stmt* i = mks(S_IF); i->val = 1; i->e = vref(k);
                Stmt* r = mks(S_RETURN); r->e = vref(a); i->body.push_back(r);
                f->body.push_back(i); ret(f, vref(b));
            }
        }
        if (s.coin()) { // n bytes from p on
            Func* f = start("vfill", &T_VOID);
            Var *a = param(f, "p", vt), *v = param(f, "v", &T_CHAR), *k = param(f, "n", &T_INT);
            pushScope();
            vFill = f;
            Var* c = newVar("c", ptrTo(&T_CHAR), Var::LOCAL);
            f->body.push_back(declS(c, s.coin() ? vref(a) : cast(ptrTo(&T_CHAR), vref(a))));
            Stmt* w = mks(S_WHILE); w->val = 1; w->e = incdec(vref(k), 3);
            w->body.push_back(exprS(assign(deref(incdec(vref(c), 2)), "=", vref(v))));
            f->body.push_back(w);
        }
    }
    const char* vCmpOp = "==";
    // one condition over a variable, tried with values chosen around its constant (equal low or high bytes, opposite signs)
    void probeStmt(std::vector<Stmt*>& outer) {
        if (nesting > 4 || cur->cls != IMPURE) return;
        feat("probe");
        int id = varNo++;
        TP t = s.chance(60) ? &T_INT : pickType();
        Stmt* blk = mks(S_BLOCK);
        auto& out = blk->body;
        auto mkv = [&](const char* x, TP t) { Var* v = newVar(fmt("%s%d", x, id), t, Var::LOCAL); Stmt* ds = mks(S_DECL); ds->vars = {v}; ds->inits = {nullptr}; out.push_back(ds); return v; };
        bool glob = s.chance(30);
        std::vector<Var*> gs; if (glob) gs = visible([&](Var* y) { return y->t == t && canWrite(y); });
        Var* v = gs.empty() ? mkv("pv", t) : s.pick(gs);
        Var* acc = mkv("pa", &T_INT);
        int K = s.chance(35) ? s.below(256) : s.i16(), steps = s.weighted({15, 60, 25}), cmp = s.below(9), K3 = s.coin() ? 0 : s.i16(), how = s.below(6);
        static const char* const ops[] = {"^", "&", "|", "+", "-", "*", "^", "&"};
        static const char* const cs[] = {"==", "!=", "<", "<=", ">", ">="};
        int op[2] = {(int)s.below(8), (int)s.below(8)}, kk[2] = {K, s.chance(50) ? (int)s.below(256) : s.i16()}, pre = s.below(8);
        auto core = [&]() {
            Expr* e = vref(v);
            if (pre < 2) e = un(pre ? NEG : BNOT, e);
            for (int i = 0; i < steps; ++i) { e = bin(ops[op[i]], e, num(kk[i])); e->paren = true; }
            if (cmp < 6) e = bin(cs[cmp], e, num(steps ? K3 : K));
            return e;
        };
        int n = 3 + s.below(4);
        out.push_back(exprS(assign(vref(acc), "=", num(0))));
        for (int i = 0; i < n; ++i) {
            int x = K;
            switch (s.below(10)) {
            case 0: x = K ^ 1; break; case 1: x = K + 256; break; case 2: x = K - 256; break; case 3: x = K ^ 0x8000; break;
            case 4: x = K ^ 0xff00; break; case 5: x = -K; break; case 6: x = ~K; break; case 7: x = K & 0xff; break; case 8: x = s.i16(); break;
            }
            x = (int16_t)x;
            if (isChar(t)) x = t->k == Type::CHAR ? (int8_t)x : (uint8_t)x;
            out.push_back(exprS(assign(vref(v), "=", num(x))));
            Stmt* y = exprS(assign(vref(acc), "+=", num(1 << i)));
            if (how < 4) { Stmt* f = mks(S_IF); labelCost += 2; f->val = 1; f->e = how & 1 ? un(NOT, core()) : core(); f->body.push_back(y); y = f; }
            else if (how == 4) y = exprS(assign(vref(acc), "+=", core()));
            else y = outS(core());
            out.push_back(y);
        }
        out.push_back(outS(vref(acc)));
        outer.push_back(blk);
    }
    void voidStmt(std::vector<Stmt*>& outer) {
        if (arrayDecls > 20 || nesting > 4) return;
        feat("void_ptr");
        TP vt = ptrTo(&T_VOID);
        TP el = s.chance(40) ? pickType() : s.coin() ? &T_CHAR : &T_INT;
        int n = 3 + s.below(3), id = varNo++, sz = sizeOf(el);
        Stmt* blk = mks(S_BLOCK);
        auto& out = blk->body;
        auto mkv = [&](const char* x, TP t, bool stat) {
            Var* v = newVar(fmt("%s%d", x, id), t, stat ? Var::STATIC : Var::LOCAL);
            Stmt* ds = mks(S_DECL); ds->vars = {v}; ds->inits = {nullptr}; out.push_back(ds);
            if (stat) { cur->statics.push_back(v); cur->lateGlobals++; }
            return v;
        };
        auto late = [&]() { return cur->cls == IMPURE && cur->lateGlobals < 2 && o.statics && s.chance(20); };
        ++arrayDecls;
        Var* buf = mkv("vb", arrOf(el, n), late());
        bool arr = s.chance(40);
        if (arr) ++arrayDecls;
        Var* va = mkv("vp", arr ? arrOf(vt, 2) : vt, late());
        Var* vb = mkv("vq", vt, late());
        Var* tp = mkv("vt", ptrTo(el), false);
        Var* pp = s.coin() ? mkv("vi", ptrTo(vt), false) : nullptr;
        Var* acc = mkv("va", &T_INT, false);
        for (int i = 0; i < n; ++i) out.push_back(exprS(assign(index(vref(buf), num(i)), "=", genNum())));
        out.push_back(exprS(assign(vref(acc), "=", genNum())));
        int N = arr ? 3 : 2, inPP = s.below(N), tpos = s.below(n);
        std::vector<int> pos(N);
        auto direct = [&](int k) { return k == N - 1 ? vref(vb) : arr ? index(vref(va), num(k)) : vref(va); };
        auto slot = [&](int k) { return pp && k == inPP && s.coin() ? deref(vref(pp)) : direct(k); };
        auto fixed = [&](int x) -> Expr* { // a pointer to element x
            switch (s.below(6)) {
            case 0: return addr(index(vref(buf), num(x)));
            case 1: return bin("+", vref(buf), num(x));
            case 2: return x ? addr(index(vref(buf), num(x))) : vref(buf);
            case 3: return cast(vt, s.coin() ? addr(index(vref(buf), num(x))) : bin("+", vref(buf), num(x)));
            case 4: return bin("+", cast(ptrTo(&T_CHAR), vref(buf)), num(x * sz));
            default: return tpos == x ? vref(tp) : addr(index(vref(buf), num(x)));
            }
        };
        out.push_back(exprS(assign(vref(tp), "=", addr(index(vref(buf), num(tpos))))));
        for (int k = 0; k < N; ++k) { pos[k] = s.below(n); out.push_back(exprS(assign(direct(k), "=", fixed(pos[k])))); }
        if (pp) out.push_back(exprS(assign(vref(pp), "=", addr(direct(inPP)))));
        auto value = [&](int& x, bool null) -> Expr* { // some pointer; x: the element
            int k = s.below(N);
            for (int t = 0; t < 8; ++t) switch (s.below(7)) {
            case 0: case 1: if (pos[k] < 0 && !null) break; x = pos[k]; return slot(k);
            case 2: if (!null || !s.chance(40)) break; x = -1; return num(0);
            case 3: if (!vSel || vSel == cur) break; {
                int a = s.below(n), j = s.coin();
                if (pos[k] < 0 && !null) break;
                x = j ? pos[k] : a;
                feat("void_call");
                Expr* c = callE(vSel, {slot(k), fixed(a), s.coin() ? num(j) : bin(j ? "==" : "!=", vref(tp), addr(index(vref(buf), num(tpos))))}); c->t = vt; return c; }
            case 4: if (labelCost > 200 || pos[k] < 0) break; { // a conditional between pointers to void
                int m = s.below(N);
                if (pos[m] < 0) break;
                static const char* ops[] = {"<", "<=", ">", ">=", "==", "!="};
                Str op = ops[s.below(6)];
                int a = pos[k], b = pos[m];
                bool y = op == "<" ? a < b : op == "<=" ? a <= b : op == ">" ? a > b : op == ">=" ? a >= b : op == "==" ? a == b : a != b;
                x = y ? a : b;
                labelCost += 3;
                Expr* c = mk(COND, vt); c->k = {bin(op, slot(k), slot(m)), slot(k), slot(m)}; return c; }
            default: x = s.below(n); return fixed(x);
            }
            x = s.below(n); return fixed(x);
        };
        auto elem = [&]() -> Expr* { // an element through some pointer to void
            std::vector<int> ks;
            for (int k = 0; k < N; ++k) if (pos[k] >= 0) ks.push_back(k);
            if (ks.empty()) return nullptr;
            int k = ks[s.below(ks.size())], x = pos[k];
            Expr* q = cast(ptrTo(el), slot(k));
            switch (s.below(4)) {
            case 0: return deref(q);
            case 1: return index(q, num(s.below(n - x)));
            case 2: return deref(bin("+", q, num(s.below(n - x))));
            default: out.push_back(exprS(assign(vref(tp), "=", s.coin() ? slot(k) : q))); tpos = x; return s.coin() ? deref(vref(tp)) : index(vref(tp), num(s.below(n - x)));
            }
        };
        auto add = [&](Expr* e) { return s.coin() ? exprS(assign(vref(acc), s.coin() ? "+=" : "^=", e)) : exprS(assign(vref(acc), "=", bin("+", bin("*", vref(acc), num(3)), e))); };
        auto bump = [&]() { return exprS(assign(vref(acc), "+=", num(1 + s.below(90)))); };
        auto cmp = [&]() -> Expr* {
            int k = s.below(N), x;
            if (s.chance(20) && labelCost < 200) { labelCost += 1; return bin(s.coin() ? "==" : "!=", slot(k), num(0)); }
            Expr* v = value(x, true);
            if (vCmp && vCmp != cur && s.chance(30)) { feat("void_call"); return callE(vCmp, {slot(k), v}); }
            static const char* ops[] = {"==", "!=", "<", "<=", ">", ">="};
            bool null = pos[k] < 0 || x < 0;
            Str op = ops[s.below(null ? 2 : 6)];
            labelCost += 1;
            if (v->op != NUM && s.chance(25)) return bin(op, v, slot(k));
            return bin(op, slot(k), v);
        };
        for (int i = 0, m = 3 + s.below(6); i < m; ++i) {
            Stmt* x = nullptr;
            int k = s.below(N), y;
            switch (s.weighted({20, labelCost < 200 ? 20 : 0, labelCost < 200 ? 15 : 0, 12, 12, 8, pp ? 5 : 0, vFill && vFill != cur && cur->cls == IMPURE ? 12 : 0, labelCost < 200 ? 8 : 0})) {
            case 0: { Expr* v = value(y, true); x = exprS(assign(slot(k), "=", v)); pos[k] = y; break; }
            case 1: x = add(cmp()); break;
            case 2: {
                x = mks(S_IF); labelCost += 3; x->val = s.below(4);
                int q = s.below(4);
                Expr* e = q == 0 ? slot(k) : q == 1 ? un(NOT, slot(k)) : cmp();
                if (q == 3) { Expr* l = mk(s.coin() ? LAND : LOR, &T_INT); l->k = {s.coin() ? slot(k) : cmp(), e}; e = l; }
                x->e = e; x->body.push_back(bump());
                if (s.coin()) { x->hasElse = true; x->body2.push_back(bump()); }
                break; }
            case 3: { Expr* e = elem(); if (e) x = add(e); break; }
            case 4: { Expr* e = elem(); if (e) x = s.chance(30) ? exprS(incdec(e, s.below(4))) : exprS(assign(e, s.coin() ? "=" : "+=", genNum())); break; }
            case 5: if (pos[k] >= 0) x = add(bin("-", cast(ptrTo(&T_CHAR), slot(k)), cast(ptrTo(&T_CHAR), vref(buf)))); break;
            case 6: inPP = k; x = exprS(assign(vref(pp), "=", addr(direct(k)))); break;
            case 7: if (pos[k] >= 0) { feat("void_call"); x = exprS(callE(vFill, {slot(k), genNum(), num(s.below((n - pos[k]) * sz + 1))})); } break;
            default: { // forwards to a known element
                if (pos[k] < 0) break;
                int to = pos[k] + s.below(n - pos[k]);
                labelCost += 4;
                x = mks(S_WHILE); x->val = 1; x->e = bin(s.coin() ? "!=" : "<", slot(k), addr(index(vref(buf), num(to))));
                x->body.push_back(exprS(assign(slot(k), "=", bin("+", cast(ptrTo(el), slot(k)), num(1)))));
                x->body.push_back(bump());
                pos[k] = to; break; }
            }
            if (x) out.push_back(x);
        }
        for (int i = 0; i < n; ++i) out.push_back(exprS(assign(vref(acc), "=", bin("+", bin("*", vref(acc), num(3)), index(vref(buf), num(i))))));
        for (int k = 0; k < N; ++k) if (pos[k] >= 0) out.push_back(exprS(assign(vref(acc), "=", bin("+", bin("*", vref(acc), num(3)), bin("-", cast(ptrTo(&T_CHAR), direct(k)), cast(ptrTo(&T_CHAR), vref(buf)))))));
        if (cur->cls == IMPURE) out.push_back(outS(vref(acc)));
        else { auto w = visible([&](Var* y) { return isArith(y->t) && canWrite(y) && !isGlob(y); }); if (!w.empty()) out.push_back(exprS(assign(vref(w[s.below(w.size())]), "+=", vref(acc)))); }
        outer.push_back(blk);
    }

    // --- linked structures: every link always points at an element of la
    SDef* ln = nullptr; TP lnT = nullptr, lnP = nullptr; Var *la = nullptr, *lp = nullptr;
    std::map<Str, const Member*> lm;
    Func* lnWalk = nullptr;
    bool lnOk(bool write) { return la && cur && scopeVisible(la) && canRead(la) && (!write || canWrite(la)) && nodesLeft > -20; }
    Expr* lnLink(Expr* p, const Str& m) { // the member of the node p points at
        if (p->op == ADDR && s.coin()) return member(p->k[0], lm[m], false);
        switch (s.below(8)) {
        case 0: return member(deref(p), lm[m], false);
        case 1: return member(index(p, num(0)), lm[m], false);
        default: return member(p, lm[m], true);
        }
    }
    std::vector<Var*> lnLocals() { return visible([&](Var* v) { return v->t == lnP && canRead(v); }); }
    Expr* lnVal(int d) {
        --nodesLeft;
        if (d > 0) switch (s.weighted({30, lm.count("pn") ? 15 : 0, labelCost < 190 ? 5 : 0, lnWalk && lnWalk != cur ? 12 : 0, 5, 4, 25})) {
        case 0: feat("ln_next"); return lnLink(lnVal(d - 1), "n");
        case 1: feat("ln_pp"); return deref(lnLink(lnVal(d - 1), "pn"));
        case 2: { labelCost += 3; Expr* e = mk(COND, lnP); Expr* c = nonConst(genExpr(d - 1), 1); Expr* a = lnVal(d - 1); e->k = {c, a, lnVal(d - 1)}; e->paren = true; return e; }
        case 3: { feat("ln_call"); Expr* a = lnVal(d - 1); Expr* e = callE(lnWalk, {a, s.coin() ? num(s.below(6)) : bin("&", genVarExpr(d - 1), num(3))}); e->t = lnP; return e; }
        case 4: { Expr* x = lnVal(d - 1); if (s.chance(70)) { TP u = p.structs.empty() || s.coin() ? &T_CHAR : structT(p.structs[s.below(p.structs.size())]); x = cast(ptrTo(u), x); } return cast(lnP, x); }
        case 5: { Expr* x = genVarExpr(d - 1); Expr* e = mk(COMMA, lnP); e->k = {x, lnVal(d - 1)}; e->paren = true; return e; }
        }
        auto vs = lnLocals();
        if (!vs.empty() && s.chance(40)) return vref(vs[s.below(vs.size())]);
        int N = la->t->n;
        switch (s.below(4)) {
        case 0: return vref(la);
        case 1: return bin("+", vref(la), genIndex(N, d));
        default: return addr(index(vref(la), genIndex(N, d)));
        }
    }
    Expr* decayed(Expr* e) { return e->t->k == Type::ARR ? bin("+", e, num(0)) : e; }
    Expr* lnField(int d, bool) {
        Expr* p = decayed(lnVal(d));
        if (p->op == BIN || p->op == CAST || p->op == COND) p->paren = true;
        static const char* f[] = {"v", "c", "a", "s"};
        Str m = f[s.below(4)];
        if (!lm.count(m)) m = "v";
        feat("ln_field");
        Expr* e = refine(lnLink(p, m), d);
        return isArith(e->t) ? e : nullptr;
    }
    Expr* lnExpr(int d) {
        feat("ln_expr");
        switch (s.below(labelCost > 200 ? 2 : 4)) {
        case 0: { static const char* ops[] = {"==", "!=", "<", ">="}; Expr* a = lnVal(d - 1); Expr* b = lnVal(d - 1); Expr* e = bin(ops[s.below(4)], a, b); e->t = &T_INT; return e; }
        case 1: { Expr* a = lnVal(d - 1); Expr* e = bin("-", a, s.coin() ? vref(la) : lnVal(d - 1)); e->t = &T_INT; return e; }
        case 2: return un(NOT, decayed(lnVal(d - 1)));
        default: { labelCost += 1; Expr* e = mk(s.coin() ? LAND : LOR, &T_INT); Expr* a = decayed(lnVal(d - 1)); Expr* x = nonConst(genExpr(d - 1), 1); if (s.coin()) e->k = {a, x}; else e->k = {x, a}; return e; }
        }
    }
    void lnStmt(std::vector<Stmt*>& out, int d, bool declOk) {
        feat("ln_stmt");
        nodesLeft = 60; seBudget = 0; seVar = nullptr; seGlobal = globReserved = false;
        switch (s.weighted({40, lm.count("pn") ? 15 : 0, declOk ? 20 : 0, 15, lm.count("z") && nesting < 4 ? 10 : 0})) {
        case 0: {
            Expr* l = lm.count("pn") && s.chance(20) ? deref(lnLink(lnVal(1), "pn")) : lnLink(lnVal(1), "n");
            auto vs = lnLocals();
            if (!vs.empty() && s.chance(35)) l = vref(vs[s.below(vs.size())]);
            out.push_back(exprS(assign(l, "=", lnVal(d))));
            break;
        }
        case 1: out.push_back(exprS(assign(lnLink(lnVal(1), "pn"), "=", addr(lnLink(lnVal(1), "n"))))); break;
        case 2: {
            Var* v = newVar(fmt("lv%d", varNo++), lnP, Var::LOCAL);
            Stmt* ds = mks(S_DECL); ds->vars = {v}; ds->inits = {lnVal(d)};
            out.push_back(ds);
            scopes.back().push_back(v);
            break;
        }
        case 3: {
            Stmt* st = mks(S_IF); labelCost += 2;
            st->e = lnExpr(2); st->val = s.below(4);
            bodyOf(st->body);
            out.push_back(st);
            break;
        }
        default: { // a null-terminated chain through z, walked or reversed
            feat("ln_chain");
            Stmt* b = mks(S_BLOCK);
            labelCost += 14;
            int id = varNo++, N = la->t->n;
            auto mkv = [&](const char* x, TP t) { Var* v = newVar(fmt("%s%d", x, id), t, Var::LOCAL); Stmt* ds = mks(S_DECL); ds->vars = {v}; ds->inits = {nullptr}; b->body.push_back(ds); return v; };
            Var *pv = mkv("zp", lnP), *iv = mkv("zi", &T_INT), *r = mkv("zr", lnP), *t = mkv("zt", lnP);
            auto z = [&](Expr* e) { return member(e, lm["z"], true); };
            Stmt* l = mks(S_FOR); l->val = s.below(2);
            l->e = assign(vref(iv), "=", num(0)); l->e2 = bin("<", vref(iv), num(N)); l->e3 = incdec(vref(iv), s.below(2) * 2);
            Expr* c = mk(COND, lnP); Expr* nx = addr(index(vref(la), bin("+", vref(iv), num(1))));
            Stmt* li = mks(S_IF); li->val = 1; li->e = bin("<", vref(iv), num(N - 1)); (void)c;
            li->body.push_back(exprS(assign(member(index(vref(la), vref(iv)), lm["z"], false), "=", nx)));
            li->hasElse = true; li->body2.push_back(exprS(assign(member(index(vref(la), vref(iv)), lm["z"], false), "=", num(0))));
            l->body.push_back(li);
            b->body.push_back(l);
            b->body.push_back(exprS(assign(vref(pv), "=", vref(la))));
            b->body.push_back(exprS(assign(vref(r), "=", num(0))));
            if (s.coin()) { // reverse
                Stmt* w = mks(S_WHILE); w->val = 1; w->e = s.coin() ? (Expr*)vref(pv) : bin("!=", vref(pv), num(0));
                w->body = {exprS(assign(vref(t), "=", z(vref(pv)))), exprS(assign(z(vref(pv)), "=", vref(r))), exprS(assign(vref(r), "=", vref(pv))), exprS(assign(vref(pv), "=", vref(t)))};
                b->body.push_back(w);
            } else b->body.push_back(exprS(assign(vref(r), "=", vref(pv))));
            b->body.push_back(exprS(assign(vref(iv), "=", genNum())));
            Stmt* w;
            Stmt* use = exprS(assign(vref(iv), "=", bin("+", bin("*", vref(iv), num(3)), member(vref(t), lm["v"], true))));
            switch (s.below(3)) {
            case 0: w = mks(S_FOR); w->val = s.below(2); w->e = assign(vref(t), "=", vref(r)); w->e2 = s.coin() ? (Expr*)vref(t) : bin("!=", vref(t), num(0)); w->e3 = assign(vref(t), "=", z(vref(t))); w->body = {use}; break;
            case 1: { b->body.push_back(exprS(assign(vref(t), "=", vref(r)))); w = mks(S_DO); w->val = 1; w->body = {use}; w->e = assign(vref(t), "=", z(vref(t))); w->e->paren = true; break; }
            default: { w = mks(S_WHILE); w->val = 1; Expr* a = assign(vref(t), "=", vref(r)); a->paren = true; w->e = s.coin() ? bin("!=", a, num(0)) : a; w->body = {use, exprS(assign(vref(r), "=", z(vref(t))))}; }
            }
            b->body.push_back(w);
            b->body.push_back(outS(vref(iv)));
            out.push_back(b);
        }
        }
    }
    void makeList() { // after the structures
        if (!o.structs || !o.pointers || !o.pList || !s.chance(o.pList)) return;
        p.sdefs.emplace_back();
        ln = &p.sdefs.back();
        ln->tag = "LN";
        lnT = structT(ln); lnP = ptrTo(lnT);
        std::vector<Member> ms = {{"v", pickType(), 0}, {"n", lnP, 0}};
        if (s.coin()) ms.push_back({"c", s.coin() ? &T_CHAR : &T_UCHAR, 0});
        if (s.coin()) ms.push_back({"pn", ptrTo(lnP), 0});
        if (s.coin()) ms.push_back({"z", lnP, 0});
        if (arrayDecls < 8 && s.chance(30)) { ++arrayDecls; ms.push_back({"a", arrOf(pickType(), 2 + s.below(3)), 0}); }
        if (!p.structs.empty() && s.chance(30)) { SDef* in = p.structs[s.below(p.structs.size())]; if (in->size < 20 && !hasFptr(structT(in))) ms.push_back({"s", structT(in), 0}); }
        for (size_t i = ms.size(); i-- > 1;) std::swap(ms[i], ms[s.below(i + 1)]);
        int off = 0;
        for (auto& m : ms) { m.off = off; off += sizeOf(m.t); }
        ln->m = ms; ln->size = off;
        for (auto& m : ln->m) lm[m.name] = &m;
        p.late.push_back(ln);
        ++nStructs; nMembers += ms.size();
    }
    void makeListVars() {
        if (!ln) return;
        ++arrayDecls;
        la = newVar("la", arrOf(lnT, 2 + s.below(3)), Var::GLOBAL);
        p.globals.push_back(la);
        if (s.coin()) { lp = newVar("lp", lnP, Var::GLOBAL); p.globals.push_back(lp); }
    }
    void lnInit(std::vector<Stmt*>& out) {
        if (!ln) return;
        int N = la->t->n;
        for (int i = 0; i < N; ++i) {
            Expr* e = index(vref(la), num(i));
            out.push_back(exprS(assign(member(e, lm["n"], false), "=", addr(index(vref(la), num(s.below(N)))))));
            if (lm.count("pn")) out.push_back(exprS(assign(member(e, lm["pn"], false), "=", addr(member(index(vref(la), num(s.below(N))), lm["n"], false)))));
        }
        if (lp) out.push_back(exprS(assign(vref(lp), "=", addr(index(vref(la), num(s.below(N)))))));
    }
    void makeAsFn() {
        if (!o.pointers || !o.castsOn || !s.chance(30)) return;
        TP u = !p.structs.empty() && s.chance(80) ? structT(p.structs[s.below(p.structs.size())]) : s.coin() ? &T_CHAR : &T_INT;
        Func* f = newFunc("as", ptrTo(u), PURE);
        beginFunc(f);
        f->special = 9;
        p.fns.push_back(f);
        Var* a = param(f, "p", ptrTo(u)); a->noalias = true;
        pushScope();
        f->proto = s.chance(30);
        Stmt* r = mks(S_RETURN); r->e = vref(a); f->body.push_back(r);
        asFn = f;
    }
    void makeListFns() {
        if (!ln || !s.chance(60)) return;
        Func* f = newFunc("lwalk", lnP, READER);
        beginFunc(f);
        f->special = 9;
        p.fns.push_back(f);
        Var* a = param(f, "p", lnP); a->noalias = true;
        Var* k = param(f, "k", &T_INT); k->noalias = true;
        pushScope();
        f->proto = s.chance(30);
        if (s.coin()) {
            Stmt* w = mks(S_WHILE); w->val = 1; w->e = bin(">", incdec(vref(k), 3), num(0));
            w->body.push_back(exprS(assign(vref(a), "=", member(vref(a), lm["n"], true))));
            f->body.push_back(w);
            Stmt* r = mks(S_RETURN); r->e = vref(a); f->body.push_back(r);
        } else {
            Stmt* r = mks(S_RETURN);
            Expr* c = mk(COND, lnP); Expr* rc = callE(f, {member(vref(a), lm["n"], true), bin("-", vref(k), num(1))}); rc->t = lnP;
            c->k = {bin("<=", vref(k), num(0)), vref(a), rc};
            r->e = c; f->body.push_back(r);
        }
        lnWalk = f;
    }

    // --- statements
    bool room() { return stmtBudget > 0 && labelCost < 230 && p.exprs.size() < 2500; }
    void stmts(std::vector<Stmt*>& out, int n, bool declOk) {
        for (int i = 0; i < n && room(); ++i) stmt(out, declOk);
    }
    void block(std::vector<Stmt*>& out, int n) {   // a new scope
        pushScope();
        ++nesting;
        size_t h = hidden.size();
        stmts(out, n, true);
        hidden.resize(h);
        --nesting;
        popScope();
        if (out.empty()) out.push_back(mks(S_EMPTY));
    }
    void bodyOf(std::vector<Stmt*>& out) { block(out, 1 + s.below(nesting > 2 ? 2 : 4)); }
    void stmt(std::vector<Stmt*>& out, bool declOk) {
        --stmtBudget;
        bool imp = cur->cls == IMPURE;
        int d = o.depth;
        if (o.pPad && s.chance(o.pPad)) {
            Stmt* r = mks(S_RAW);
            int n;
            switch (s.below(5)) {
            case 0: n = 1 + s.below(6); break;
            case 1: n = 20 + s.below(60); break;
            case 2: n = 80 + s.below(50); break;
            case 3: n = 115 + s.below(15); break;
            default: n = 100 + s.below(200); break;
            }
            for (int i = 0; i < n; ++i) r->text += "_emit 144 ";
            r->text += ";";
            feat("padding");
            out.push_back(r);
        }
        int k = s.weighted({imp ? o.wOut : 0, o.wAssign, o.wIncDec, nesting < 5 ? o.wIf : 0, nesting < 4 && loopDepth < 3 ? o.wLoop : 0, nesting < 4 ? o.wSwitch : 0, (breakDepth || contDepth) ? o.wJump * 2 : 0, o.wJump, outerLabels.empty() ? 0 : o.wGoto * 2, nesting < 5 ? o.wBlock : 0, imp ? o.wCall : 0, declOk ? o.wDecl : 0, o.pointers ? o.wPtr : 0, p.structs.empty() ? 0 : o.wStruct, o.wEmpty, nesting < 4 && namedLabels < 6 ? o.wGoto : 0, o.wDead, sigFns.size() > 1 ? o.wFptr : 0, o.wEffect, lnOk(true) ? 8 : 0, o.pointers ? o.wCells : 0, o.pointers && o.castsOn ? o.wVoid : 0, imp ? o.wProbe : 0});
        switch (k) {
        case 17: fpStmt(out, d, declOk); return;
        case 18: effectStmt(out, d); return;
        case 19: lnStmt(out, d, declOk); return;
        case 20: cellStmt(out); return;
        case 21: voidStmt(out); return;
        case 22: probeStmt(out); return;
        case 0: out.push_back(outS(fullExpr(d))); return;
        case 1: {
            Expr* l = nullptr;
            for (int i = 0; i < 3 && !l; ++i) l = genPlace(2, true);
            if (!l) { if (imp) out.push_back(outS(fullExpr(d))); return; }
            Str op = pickAssignOp();
            feat("assign" + op);
            // the target's own index expressions are pure, so the value may have one side effect on a local
            Expr* r;
            if (op == "=" || op[0] == '+' || op[0] == '^') r = l->op == VAR && s.coin() ? guardedExpr(l->var, d) : pureExpr(d);
            else r = rhsFor(op, d, isChar(l->t));
            Expr* e = assign(l, op, r);
            if (s.chance(8) && l->op == VAR) { // chained
                Expr* l2 = genPlace(1, true);
                if (l2 && !(l2->op == VAR && l2->var == l->var) && disjoint(l, l2)) { e->k[1] = assign(l2, "=", r); e->k[1]->t = promote(l2->t); e->o = "="; feat("chained_assign"); }
            }
            out.push_back(exprS(e));
            return;
        }
        case 2: {
            Expr* l = genPlace(2, true);
            if (!l) return;
            feat("incdec_stmt");
            out.push_back(exprS(incdec(l, s.below(4))));
            return;
        }
        case 3: {
            Stmt* st = mks(S_IF);
            labelCost += 2;
            feat("if");
            st->val = s.below(4);
            if (s.chance(5)) { st->e = num(s.below(2)); feat("if_const"); }
            else st->e = cond(d);
            bodyOf(st->body);
            if (s.chance(45)) { st->hasElse = true; feat("else"); bodyOf(st->body2); }
            // an unbraced if as then-branch would capture the else
            out.push_back(st);
            return;
        }
        case 4: loop(out); return;
        case 5: sw(out); return;
        case 6: {
            // break/continue, conditional or bare (code after a bare one is dead)
            bool c = contDepth && (!breakDepth || s.coin());
            if (!c && !breakDepth) return;
            Stmt* j = mks(c ? S_CONTINUE : S_BREAK);
            feat(c ? "continue" : "break");
            if (s.chance(20)) { out.push_back(j); feat("dead_after_jump"); return; }
            Stmt* st = mks(S_IF); labelCost += 2;
            st->e = cond(2); st->val = s.below(4);
            st->body.push_back(j);
            out.push_back(st);
            return;
        }
        case 7: {
            if (nesting < 1 && !s.chance(30)) return;
            Stmt* j = mks(S_RETURN);
            feat("return");
            if (cur->ret->k != Type::VOID) j->e = fullExpr(2);
            if (nesting > 0 && s.chance(20)) { out.push_back(j); feat("dead_after_return"); return; }
            Stmt* st = mks(S_IF); labelCost += 2;
            st->e = cond(2); st->val = s.below(4);
            if (s.chance(30)) { Stmt* b = mks(S_BLOCK); block(b->body, 1); st->body.push_back(b); }
            st->body.push_back(j);
            out.push_back(st);
            return;
        }
        case 8: {
            Stmt* j = mks(S_GOTO);
            j->label = outerLabels[s.below(outerLabels.size())];
            usedLabels.insert(j->label);
            feat("goto_forward");
            if (s.chance(20)) { out.push_back(j); return; }
            Stmt* st = mks(S_IF); labelCost += 2;
            st->e = cond(2); st->val = s.below(4);
            st->body.push_back(j);
            out.push_back(st);
            return;
        }
        case 9: {
            Stmt* b = mks(S_BLOCK);
            feat("block");
            bodyOf(b->body);
            out.push_back(b);
            return;
        }
        case 10: {
            auto fs = callable(true, false);
            if (fs.empty()) return;
            Func* f = fs[s.below(fs.size())];
            Expr* e = genCall(f, d);
            if (!e) return;
            if (f->ret->k == Type::VOID || s.chance(30)) out.push_back(exprS(e));
            else out.push_back(outS(e));
            return;
        }
        case 11: declare(out, d); return;
        case 12: {
            // move a pointer
            auto ps = visible([&](Var* v) { return isPtr(v->t) && v->target && !v->reserved && v->stor == Var::LOCAL && scopeVisible(v->target); });
            if (ps.empty()) return;
            Var* v = ps[s.below(ps.size())];
            if (v->target->t->k == Type::ARR && v->cmax >= 1 && v->slack >= 2 && s.chance(50)) {
                // restart, then step within the slack
                out.push_back(exprS(assign(vref(v), "=", vref(v->target))));
                int st = s.below(3);
                if (st == 0) out.push_back(exprS(incdec(vref(v), s.coin() ? 0 : 2)));
                else if (st == 1) out.push_back(exprS(assign(vref(v), "+=", num(1 + s.below(v->slack)))));
                else { out.push_back(exprS(assign(vref(v), "+=", num(v->slack)))); out.push_back(exprS(s.coin() ? incdec(vref(v), s.coin() ? 1 : 3) : assign(vref(v), "-=", num(1 + s.below(v->slack))))); }
                feat("ptr_step");
                return;
            }
            feat("ptr_assign");
            out.push_back(exprS(assign(vref(v), "=", pointerValue(v, 1))));
            return;
        }
        case 13: {
            // struct assignment between two objects of the same type
            Expr* l = structPlace(2, true);
            if (!l) return;
            for (int i = 0; i < 4; ++i) {
                Expr* r = structPlace(2, false);
                if (!r || r->t != l->t) continue;
                if (l->op == VAR && r->op == VAR && l->var == r->var) continue;
                feat(l->op == VAR && r->op == VAR ? "struct_assign" : "struct_assign_place");
                out.push_back(exprS(assign(l, "=", r)));
                return;
            }
            return;
        }
        case 14: out.push_back(mks(S_EMPTY)); return;
        case 15: gotoRegion(out); return;
        case 16: {
            // a dead region: if (0) / while (0)
            feat("dead_region");
            labelCost += 3;
            Stmt* st = mks(s.coin() ? S_IF : S_WHILE);
            st->e = num(0); st->val = 1;
            if (st->k == S_WHILE) { ++loopDepth; ++breakDepth; ++contDepth; }
            block(st->body, 1 + s.below(3));
            if (st->k == S_WHILE) { --loopDepth; --breakDepth; --contDepth; }
            if (st->k == S_IF && s.coin()) { st->hasElse = true; bodyOf(st->body2); }
            out.push_back(st);
            return;
        }
        }
    }
    bool disjoint(Expr* a, Expr* b) { // conservative: two plain variables
        return a->op == VAR && b->op == VAR && a->var != b->var;
    }
    Expr* guardedExpr(Var* target, int d) {
        target->reserved++;
        Expr* e = fullExpr(d);
        target->reserved--;
        return e;
    }
    void gotoRegion(std::vector<Stmt*>& out) {
        if (s.coin()) {
            // forward label at the end of a block
            Stmt* b = mks(S_BLOCK);
            Str l = newLabel();
            ++namedLabels;
            labelCost += 1;
            pushScope(); ++nesting;
            size_t h = hidden.size();
            if (s.coin()) declare(b->body, 2);
            outerLabels.push_back(l);
            stmts(b->body, 2 + s.below(4), false);
            outerLabels.pop_back();
            if (usedLabels.count(l)) { Stmt* ls = mks(S_LABEL); ls->label = l; b->body.push_back(ls); }
            stmts(b->body, 1, false);
            b->body.push_back(mks(S_EMPTY));
            hidden.resize(h);
            --nesting; popScope();
            out.push_back(b);
        } else {
            Var* c = freeCounter();
            if (!c) return;
            Str l = newLabel();
            ++namedLabels;
            labelCost += 2;
            feat("goto_backward");
            c->inLoop = true; int oc = c->cmax; c->cmax = 99;
            out.push_back(exprS(assign(vref(c), "=", num(1 + s.below(o.maxLoop)))));
            Stmt* ls = mks(S_LABEL); ls->label = l; out.push_back(ls);
            // breaks/continues inside would leave an outer construct: allowed, but the counter stays
            int bd = breakDepth, cd = contDepth; breakDepth = contDepth = 0;
            auto ol = outerLabels; outerLabels.clear();
            Stmt* b = mks(S_BLOCK);
            bodyOf(b->body);
            out.push_back(b);
            outerLabels = ol;
            breakDepth = bd; contDepth = cd;
            Stmt* st = mks(S_IF); labelCost += 2;
            st->e = bin(">", incdec(vref(c), 1), num(0)); st->val = s.below(4);
            if (s.coin()) st->e = incdec(vref(c), 3);
            if (st->e->op == INCDEC) { /* c-- : true while c was non-zero */ }
            Stmt* g = mks(S_GOTO); g->label = l;
            st->body.push_back(g);
            out.push_back(st);
            c->inLoop = false; c->cmax = oc;
        }
    }
    void loop(std::vector<Stmt*>& out) {
        Var* c = freeCounter();
        if (!c) return;
        int n = s.below(o.maxLoop + 1);
        c->inLoop = true;
        int oc = c->cmax;
        ++loopDepth; ++breakDepth; ++contDepth;
        auto ol = outerLabels;
        labelCost += 5;
        int kind = s.weighted({45, 20, 20, 8, 7, 7, 7});
        Stmt* st;
        auto andMaybe = [&](Expr* e) -> Expr* {
            if (!s.chance(25)) return e;
            Expr* x = mk(LAND, &T_INT); x->k = {e, nonConst(pureExpr(2), 1)}; labelCost++;
            return x;
        };
        switch (kind) {
        case 0: {
            feat("for");
            st = mks(S_FOR);
            st->val = s.below(2);
            c->cmax = n;   // c <= n inside
            switch (s.below(4)) {
            case 0: case 1: st->e = assign(vref(c), "=", num(0)); st->e2 = andMaybe(bin(s.coin() ? "<" : "!=", vref(c), num(n))); st->e3 = incdec(vref(c), s.coin() ? 0 : 2); break;
            case 2: st->e = assign(vref(c), "=", num(n)); st->e2 = andMaybe(s.coin() ? bin(">", vref(c), num(0)) : (Expr*)vref(c)); st->e3 = incdec(vref(c), s.coin() ? 1 : 3); break;
            default: st->e = assign(vref(c), "=", num(n)); st->e2 = incdec(vref(c), 3); break;
            }
            if (s.chance(10)) { // init before the loop
                out.push_back(exprS(st->e)); st->e = nullptr; feat("for_noinit");
            }
            bodyOf(st->body);
            break;
        }
        case 1:
            feat("while");
            st = mks(S_WHILE); st->val = s.below(2);
            out.push_back(exprS(assign(vref(c), "=", num(n))));
            c->cmax = 99;
            st->e = andMaybe(s.coin() ? incdec(vref(c), 3) : bin(">", incdec(vref(c), 3), num(0)));
            bodyOf(st->body);
            break;
        case 2:
            feat("do");
            st = mks(S_DO); st->val = s.below(2);
            out.push_back(exprS(assign(vref(c), "=", num(n + 1))));
            c->cmax = 99;
            bodyOf(st->body);
            st->e = andMaybe(s.coin() ? incdec(vref(c), 1) : bin(">", incdec(vref(c), 1), num(0)));
            break;
        case 3: {
            feat("for_ever");
            st = mks(S_FOR); st->val = 1;
            out.push_back(exprS(assign(vref(c), "=", num(n))));
            Stmt* i = mks(S_IF); labelCost += 2;
            i->e = s.coin() ? un(NOT, incdec(vref(c), 3)) : bin("==", incdec(vref(c), 3), num(0));
            Stmt* b = mks(S_BREAK); i->body.push_back(b); i->val = s.below(2);
            c->cmax = 99;
            st->body.push_back(i);
            pushScope(); ++nesting;
            { size_t h = hidden.size(); stmts(st->body, 1 + s.below(3), true); hidden.resize(h); }
            --nesting; popScope();
            break;
        }
        case 5: {
            feat("do_0");
            st = mks(S_DO); st->val = s.below(2);
            bodyOf(st->body);
            st->e = num(0);
            break;
        }
        default: {
            feat("while_1");
            st = mks(kind == 6 ? s.coin() ? S_DO : S_FOR : S_WHILE); st->val = 1;
            if (st->k == S_FOR) st->e2 = num(1 + s.below(9)); else st->e = num(kind == 6 ? s.range(-2, 9) | 1 : 1);
            if (kind == 6) feat("do_1");
            out.push_back(exprS(assign(vref(c), "=", num(n))));
            Stmt* i = mks(S_IF); labelCost += 2;
            i->e = bin("<", incdec(vref(c), 1), num(0));
            Stmt* b = mks(S_BREAK); i->body.push_back(b); i->val = s.below(2);
            c->cmax = 99;
            st->body.push_back(i);
            pushScope(); ++nesting;
            { size_t h = hidden.size(); stmts(st->body, 1 + s.below(3), true); hidden.resize(h); }
            --nesting; popScope();
        }
        }
        c->inLoop = false; c->cmax = oc;
        --loopDepth; --breakDepth; --contDepth;
        outerLabels = ol;
        out.push_back(st);
    }
    void sw(std::vector<Stmt*>& out) {
        Stmt* st = mks(S_SWITCH);
        feat("switch");
        int n = o.bigSwitch && s.chance(15) ? 20 + s.below(s.coin() ? 12 : 40) : s.below(7);
        if (labelCost > 120) n = std::min(n, 24);
        bool pile = n > 15 && s.chance(50);
        std::vector<int> vals;
        int base = s.chance(70) ? s.range(-3, 3) : s.i16();
        for (int i = 0; i < n; ++i) {
            int v = s.chance(75) ? base + (int)s.below(n + 3) : s.i16();
            if (pile && s.chance(90)) v = base + i;
            if (v < -32768) v = -32768;
            if (v > 32767) v = 32767;
            if (std::find(vals.begin(), vals.end(), v) == vals.end()) vals.push_back(v);
        }
        labelCost += 4 + (int)vals.size();
        // make the controlling expression hit labels often
        Expr* c = cond(o.depth);
        if (s.chance(70) && !vals.empty()) {
            int m = 1; while (m < (int)vals.size() + 2) m *= 2;
            c = bin("+", bin("&", c, num(m - 1)), num(base > 32000 ? 32000 : base));
        }
        st->e = c;
        int defAt = s.chance(60) ? (int)s.below(vals.size() + 1) : -1;
        ++breakDepth; ++nesting;
        int stacked = 0;
        // A variable declared in one group is in scope in the later ones, but has no value there.
        // A block or a loop may begin in one group and end in a later one.
        const auto hid0 = hidden;
        bool decls = s.chance(25), nests = s.chance(15);
        std::vector<Var*> mine;
        std::vector<Stmt*>* dst = &st->body;
        Stmt* nest = nullptr;
        Var* cnt = nullptr; int cntMax = 0;
        size_t mineOut = 0;
        auto closeNest = [&]() {
            SK l = dst->empty() ? S_EMPTY : dst->back()->k;
            if (dst->empty() || l == S_CASE || l == S_DEFAULT) dst->push_back(mks(S_EMPTY));
            dst = &st->body;
            popScope();
            mine.resize(mineOut);
            if (cnt) { --contDepth; cnt->inLoop = false; cnt->cmax = cntMax; cnt = nullptr; }
            nest = nullptr;
            hidden = hid0;
            for (auto v : mine) hidden.push_back(v);
        };
        auto swDecl = [&]() {
            Stmt* d = mks(S_DECL);
            TP t = pickType();
            if (o.arrays && arrayDecls < 20 && s.chance(25)) { ++arrayDecls; t = arrOf(t, 1 + s.below(6)); }
            Var* v = newVar(newName(true), t, Var::LOCAL);
            v->noalias = true;
            d->vars = {v}; d->inits = {nullptr};
            auto h = hidden;
            for (auto& sc : scopes) for (auto x : sc) if (x->name == v->name) hidden.push_back(x);
            if (t->k != Type::ARR && s.coin()) d->inits[0] = fullExpr(2);
            hidden = h;
            scopes.back().push_back(v);
            mine.push_back(v);
            dst->push_back(d);
            if (!d->inits[0]) hidden.push_back(v);
            feat("decl_in_switch");
        };
        pushScope();
        if (decls && s.chance(40)) swDecl();
        for (int i = 0; i <= (int)vals.size(); ++i) {
            if (i == defAt) { dst->push_back(mks(S_DEFAULT)); feat(i == (int)vals.size() ? "default_last" : "default_early"); ++stacked; }
            if (i < (int)vals.size()) {
                Stmt* cs = mks(S_CASE); cs->val = vals[i];
                cs->e = num(vals[i], s.weighted({80, 10, 0, 10}));
                dst->push_back(cs);
                if (i + 1 < (int)vals.size() && s.chance(pile ? 99 : n > 15 ? 85 : 25)) { ++stacked; feat("stacked_case"); continue; }
            } else if (i != defAt) break;
            // statements of this group
            hidden = hid0;
            for (auto v : mine) hidden.push_back(v);
            for (auto v : mine)
                if (v->t->k != Type::ARR && s.coin() && scopeNames(v)) {
                    dst->push_back(exprS(assign(vref(v), "=", fullExpr(2))));
                    hidden.erase(std::find(hidden.begin(), hidden.end(), v));
                    feat("late_assign");
                }
            if (decls && s.chance(40)) swDecl();
            int ns = s.below(3);
            std::vector<Stmt*> body;
            pushScope();
            size_t h = hidden.size();
            stmts(body, ns, false);
            hidden.resize(h);
            popScope();
            if (cur->cls == IMPURE && s.chance(50)) body.insert(body.begin(), outS(num(100 + i)));
            if (s.chance(20)) { Stmt* b = mks(S_BLOCK); bodyOf(b->body); body.push_back(b); }
            for (auto x : body) dst->push_back(x);
            int k = s.weighted({60, 30, contDepth ? 6 : 0, 4});
            if (k == 0) dst->push_back(mks(S_BREAK));
            else if (k == 1) feat("fallthrough");
            else if (k == 2) { dst->push_back(mks(S_CONTINUE)); feat("continue_in_switch"); }
            else { Stmt* r = mks(S_RETURN); if (cur->ret->k != Type::VOID) r->e = pureExpr(1); dst->push_back(r); feat("return_in_switch"); }
            if (nest) { if (s.coin()) closeNest(); }
            else if (nests && s.coin() && i < (int)vals.size()) {
                cnt = s.coin() ? freeCounter() : nullptr;
                nest = mks(cnt ? S_DO : S_BLOCK);
                nest->hasCase = true;
                dst->push_back(nest);
                mineOut = mine.size();
                if (cnt) {
                    int n = 1 + s.below(4);
                    out.push_back(exprS(assign(vref(cnt), "=", num(n))));
                    cnt->inLoop = true; cntMax = cnt->cmax; cnt->cmax = 99;
                    nest->val = 1;
                    nest->e = bin(">", incdec(vref(cnt), 1), num(0));
                    ++contDepth;
                    labelCost += 3;
                    feat("case_in_loop");
                } else feat("case_in_block");
                dst = &nest->body;
                pushScope();
                hidden = hid0;
                for (auto v : mine) hidden.push_back(v);
                if (s.coin()) { swDecl(); if (mine.back()->t->k != Type::ARR && s.coin()) { dst->push_back(exprS(assign(vref(mine.back()), "=", num(i)))); } }
            }
        }
        if (nest) closeNest();
        popScope();
        hidden = hid0;
        if (!st->body.empty()) { SK l = st->body.back()->k; if (l == S_CASE || l == S_DEFAULT) st->body.push_back(mks(S_EMPTY)); }
        --breakDepth; --nesting;
        if (st->body.empty()) { st->body.push_back(mks(S_DEFAULT)); st->body.push_back(mks(S_EMPTY)); }
        out.push_back(st);
    }

    // --- functions
    void beginFunc(Func* f) {
        cur = f; labelCost = 0; namedLabels = 0; strCount = 0; outerLabels.clear(); usedLabels.clear(); labelNames.clear(); counters.clear(); hidden.clear();
        nesting = loopDepth = breakDepth = contDepth = 0;
        if (!types.empty()) restoreTypes(types[0]);
        scopes.resize(1); types.resize(1); arrayDecls = globalArrays;
        pushScope();
    }
    void addCounters(int n) { addCounters(cur->body, n); }
    void addCounters(std::vector<Stmt*>& out, int n) {
        Stmt* st = mks(S_DECL);
        for (int i = 0; i < n; ++i) {
            Var* c = newVar(fmt("i%d", i), &T_INT, Var::LOCAL);
            c->counter = true; c->noalias = true; c->cmax = 99;
            counters.push_back(c);
            scopes.back().push_back(c);
            st->vars.push_back(c); st->inits.push_back(s.coin() ? nullptr : num(0));
        }
        out.push_back(st);
        for (size_t i = 0; i < st->vars.size(); ++i) if (!st->inits[i]) out.push_back(exprS(assign(vref(st->vars[i]), "=", num(0))));
    }
    Func* newFunc(const Str& n, TP ret, Cls c) {
        p.funcs.emplace_back();
        Func* f = &p.funcs.back();
        f->name = n; f->ret = ret; f->cls = c;
        return f;
    }
    Var* param(Func* f, const Str& n, TP t) { Var* v = newVar(n, t, Var::PARAM); f->params.push_back(v); scopes.back().push_back(v); return v; }
    Stmt* declS(Var* v, Expr* init) { Stmt* st = mks(S_DECL); st->vars = {v}; st->inits = {init}; return st; }

    // a structure with bytes near the limit of short displacements, used directly and through a pointer
    void edgeFrame(std::vector<Stmt*>& out) {
        auto bytes = [](SDef* d) { for (auto& m : d->m) if (m.t->k == Type::CHAR || m.t->k == Type::UCHAR) return true; return false; };
        SDef* sd = nullptr;
        for (auto d : p.structs) if (bytes(d) && (!sd || s.coin())) sd = d;
        if (!sd) return;
        feat("edge_frame");
        Var* pad = newVar(fmt("e%d", varNo++), arrOf(&T_CHAR, 92 + s.below(36)), Var::LOCAL);
        out.push_back(declS(pad, nullptr));
        Var* v = newVar(fmt("e%d", varNo++), structT(sd), Var::LOCAL);
        out.push_back(declS(v, nullptr));
        initLeaves(out, vref(v));
        scopes.back().push_back(v);
        Var* q = newVar(fmt("e%d", varNo++), ptrTo(structT(sd)), Var::LOCAL);
        out.push_back(declS(q, addr(vref(v))));
        for (auto& m : sd->m) if (isArith(m.t)) out.push_back(outS(member(vref(q), &m, true)));
        for (auto& m : sd->m) if (isArith(m.t) && s.coin()) { out.push_back(exprS(assign(member(vref(q), &m, true), "=", genNum()))); out.push_back(outS(member(vref(v), &m, false))); }
    }
    void randomFunc(int i) {
        Cls c = (Cls)s.weighted({35, 20, 45});
        TP ret = s.chance(20) && c == IMPURE ? &T_VOID : (s.chance(75) ? &T_INT : pickType());
        Func* f = newFunc(fmt("f%d", i), ret, c);
        beginFunc(f);
        p.fns.push_back(f);
        int np = s.weighted({10, 20, 20, 15, 10, 8, 7, 5, 5});
        for (int k = 0; k < np; ++k) {
            TP t = &T_INT;
            if (s.chance(o.pChar / 2)) t = s.coin() ? &T_CHAR : &T_UCHAR;
            else if (s.chance(o.pUnsigned)) t = &T_UINT;
            Str n = fmt("a%d", k);
            if (o.shadow && s.chance(12) && !p.globals.empty()) {
                n = s.pick(p.globals)->name;
                for (auto x : f->params) if (x->name == n) n = fmt("a%d", k);
                if (n[0] != 'a') feat("shadow_param");
            }
            Var* v = param(f, n, t);
            v->noalias = s.chance(70);
            maybeAlias(v);
        }
        f->proto = s.chance(30);
        pushScope();
        stmtBudget = std::max(1, o.nstmts - 2);
        if (s.chance(20)) { // no variables outside a block, and a label after it
            feat("bare_function");
            Stmt* b = mks(S_BLOCK);
            Str l = newLabel();
            ++namedLabels;
            ++labelCost;
            pushScope();
            addCounters(b->body, 2);
            outerLabels.push_back(l);
            stmts(b->body, 1 + s.below(o.nstmts), true);
            outerLabels.pop_back();
            hidden.clear();
            popScope();
            f->body.push_back(b);
            if (usedLabels.count(l)) { Stmt* ls = mks(S_LABEL); ls->label = l; f->body.push_back(ls); }
            stmts(f->body, s.below(3), false);
            f->body.push_back(mks(S_EMPTY));
        } else {
            addCounters(2);
            if (o.hugeFrame && c == IMPURE && s.chance(20)) edgeFrame(f->body);
            stmts(f->body, 1 + s.below(o.nstmts), true);
        }
        if (f->ret->k != Type::VOID) { Stmt* r = mks(S_RETURN); r->e = fullExpr(o.depth); f->body.push_back(r); }
        else if (s.chance(20)) f->body.push_back(mks(S_RETURN));
    }
    // template functions with loops over arrays, recursion, varargs
    void templateFunc(int i) {
        int k = s.weighted({o.recursion ? 30 : 0, o.varargs ? 30 : 0, o.pointers ? 25 : 0, o.pointers ? 25 : 0, o.pointers && o.pChar ? 20 : 0, o.recursion ? 8 : 0, 1});
        if (k == 6) return;
        Func* f = newFunc(fmt("f%d", i), &T_INT, PURE);
        beginFunc(f);
        switch (k) {
        case 0: { // int r(int n, int a, ...) { if (n <= 0) return E; [locals] return r(n - 1, E) op E; }
            feat("recursion");
            Var* n = param(f, "n", &T_INT); n->counter = true; n->cmax = 6;
            int np = 1 + s.below(4);
            for (int j = 0; j < np; ++j) { Var* v = param(f, fmt("a%d", j), &T_INT); v->noalias = true; }
            p.fns.push_back(f);
            f->special = 1;
            pushScope();
            Stmt* st = mks(S_IF); st->e = bin("<=", vref(n), num(0)); st->val = s.below(4);
            Stmt* r = mks(S_RETURN); r->e = pureExpr(2); st->body.push_back(r);
            f->body.push_back(st);
            stmtBudget = 4;
            if (s.coin()) declare(f->body, 2);
            std::vector<Expr*> a;
            a.push_back(s.coin() ? bin("-", vref(n), num(1)) : bin("-", vref(n), num(2)));
            for (int j = 0; j < np; ++j) a.push_back(pureExpr(2));
            Expr* c = callE(f, a);
            static const char* ops[] = {"+", "-", "^", "*"};
            Expr* e = s.coin() ? bin(ops[s.below(4)], nonConst(pureExpr(2), 1), c) : bin(ops[s.below(4)], c, nonConst(pureExpr(2), 1));
            if (s.chance(30)) { // two recursive calls
                std::vector<Expr*> b;
                b.push_back(bin("-", vref(n), num(2)));
                for (int j = 0; j < np; ++j) b.push_back(pureExpr(1));
                e = bin("+", e, callE(f, b));
                feat("recursion2");
            }
            Stmt* rr = mks(S_RETURN); rr->e = e; f->body.push_back(rr);
            break;
        }
        case 1: { // variadic
            feat("variadic");
            f->variadic = true;
            Var* n = param(f, "n", &T_INT); n->counter = true;
            Var* last = n;
            if (s.coin()) { last = param(f, "x", &T_INT); }
            p.fns.push_back(f);
            pushScope();
            Var* vl = newVar("vl", ptrTo(&T_CHAR), Var::LOCAL); vl->alias = "va_list";
            Var* r = newVar("r", &T_INT, Var::LOCAL);
            Var* t = newVar("t", &T_INT, Var::LOCAL);
            f->body.push_back(declS(vl, nullptr));
            f->body.push_back(declS(r, s.coin() ? vref(n) : num(s.below(100))));
            f->body.push_back(declS(t, num(0)));
            Stmt* vs = mks(S_VASTART); vs->var = vl; vs->text = last->name; f->body.push_back(vs);
            Stmt* w = mks(S_WHILE); w->e = bin(">", incdec(vref(n), 3), num(0)); w->val = 1;
            Expr* va = mk(VAARG, &T_INT); va->var = vl; va->ty = &T_INT;
            if (s.coin()) { w->body.push_back(exprS(assign(vref(t), "=", va))); w->body.push_back(exprS(assign(vref(r), "=", bin(s.coin() ? "+" : "^", bin("*", vref(r), num(3)), vref(t))))); }
            else w->body.push_back(exprS(assign(vref(r), s.coin() ? "+=" : "^=", va)));
            f->body.push_back(w);
            Stmt* ve = mks(S_VAEND); ve->var = vl; f->body.push_back(ve);
            Stmt* rr = mks(S_RETURN); rr->e = last != n ? bin("+", vref(r), vref(last)) : vref(r); f->body.push_back(rr);
            break;
        }
        case 2: case 3: { // walk over an array: read (2) or modify (3)
            f->cls = k == 2 ? READER : IMPURE;
            feat(k == 2 ? "array_reader" : "array_writer");
            TP el = pickType();
            Var* a = param(f, "p", ptrTo(el));
            a->cmax = 4; a->slack = 0;
            Var* x = param(f, "x", &T_INT); x->noalias = true;
            p.fns.push_back(f);
            pushScope();
            Var* r = newVar("r", &T_INT, Var::LOCAL);
            Var* j = newVar("j", &T_INT, Var::LOCAL);
            f->body.push_back(declS(r, num(0)));
            f->body.push_back(declS(j, nullptr));
            Stmt* l = mks(S_FOR); l->val = s.below(2);
            l->e = assign(vref(j), "=", num(0)); l->e2 = bin("<", vref(j), num(4)); l->e3 = incdec(vref(j), s.below(2) * 2);
            Expr* at;
            switch (s.below(4)) {
            case 0: at = index(vref(a), vref(j)); break;
            case 1: at = deref(bin("+", vref(a), vref(j))); break;
            case 2: at = deref(incdec(vref(a), 2)); break;
            default: at = index(bin("+", vref(a), num(0)), vref(j)); at->k[0]->paren = true; break;
            }
            if (k == 2) l->body.push_back(exprS(assign(vref(r), "=", bin("+", bin("*", vref(r), num(1 + s.below(5))), at))));
            else { static const char* ops[] = {"=", "+=", "^=", "-="}; l->body.push_back(exprS(assign(at, ops[s.below(4)], bin("+", vref(x), vref(j))))); }
            f->body.push_back(l);
            Stmt* rr = mks(S_RETURN); rr->e = bin("+", vref(r), vref(x)); f->body.push_back(rr);
            break;
        }
        case 4: { // bounded string walk: while (*p && n--) r = r * k + *p++;
            f->cls = READER;
            feat("string_walk");
            TP el = s.coin() ? &T_CHAR : &T_UCHAR;
            Var* a = param(f, "p", ptrTo(el)); a->cmax = 2; a->slack = 0;
            p.fns.push_back(f);
            pushScope();
            Var* r = newVar("r", &T_INT, Var::LOCAL);
            Var* n = newVar("n", &T_INT, Var::LOCAL);
            f->body.push_back(declS(r, num(s.below(9))));
            f->body.push_back(declS(n, num(2)));
            Stmt* w = mks(S_WHILE); w->val = s.below(2);
            Expr* c = mk(LAND, &T_INT); c->k = {bin(">", incdec(vref(n), 3), num(0)), deref(vref(a))};
            w->e = c;
            w->body.push_back(exprS(assign(vref(r), "=", bin("+", bin("*", vref(r), num(7)), deref(incdec(vref(a), 2))))));
            f->body.push_back(w);
            Stmt* rr = mks(S_RETURN); rr->e = vref(r); f->body.push_back(rr);
            break;
        }
        case 5: { // mutual recursion through a prototype: even/odd style
            feat("mutual_recursion");
            Var* n = param(f, "n", &T_INT); n->counter = true; n->cmax = 6;
            Var* x = param(f, "x", &T_INT);
            f->special = 1;
            Func* g = newFunc(fmt("h%d", i), &T_INT, PURE);
            g->proto = s.coin(); // otherwise implicitly declared
            if (!g->proto) { f->lateGlobals++; feat("implicit_function"); }
            p.fns.push_back(f);
            Stmt* rr = mks(S_RETURN);
            Expr* c = mk(COND, &T_INT); c->k = {bin(">", vref(n), num(0)), bin("+", callE(g, {bin("-", vref(n), num(1)), bin("^", vref(x), num(s.below(1000)))}), num(1)), vref(x)};
            rr->e = c; f->body.push_back(rr);
            beginFunc(g);
            Var* n2 = param(g, "n", &T_INT); n2->counter = true; n2->cmax = 6;
            Var* x2 = param(g, "x", &T_INT);
            g->special = 1;
            p.fns.push_back(g);
            Stmt* r2 = mks(S_RETURN);
            Expr* c2 = mk(COND, &T_INT); c2->k = {bin("<=", vref(n2), num(0)), un(BNOT, vref(x2)), bin("-", callE(f, {bin("-", vref(n2), num(1)), bin("+", vref(x2), vref(n2))}), num(3))};
            r2->e = c2; g->body.push_back(r2);
            break;
        }
        }
    }
    void dump(std::vector<Stmt*>& out, Expr* e, int& budget) {
        if (budget <= 0) return;
        if (e->t->k == Type::ARR) { for (int i = 0; i < e->t->n && budget > 0; ++i) dump(out, index(e, num(i)), budget); return; }
        if (e->t->k == Type::STRUCT) { for (auto& m : e->t->sd->m) dump(out, member(e, &m, false), budget); return; }
        if (isPtr(e->t) || e->t->k == Type::FPTR) return;
        --budget;
        out.push_back(outS(e));
    }
    void program() {
        cur = nullptr;
        pushScope();
        if (o.enums && s.chance(40)) { int n = 1 + s.below(5), v = 0; for (int i = 0; i < n; ++i) { if (s.chance(30)) v = s.range(-500, 3000); p.enums.push_back({fmt("E%d", i), v++}); } }
        makeSig();
        makeStructs();
        if (o.typedefs && s.chance(40)) {
            if (s.coin()) p.typedefs.push_back({"T0", pickType()});
            if (!p.structs.empty() && s.coin()) p.typedefs.push_back({"T1", structT(p.structs[s.below(p.structs.size())])});
            if (s.coin()) p.typedefs.push_back({"T2", &T_INT});
        }
        Func dummy; dummy.cls = IMPURE; // for newVar of globals: not local, so cur is unused
        for (auto d : p.structs) { ++nStructs; nMembers += d->m.size(); }
        makeList();
        types[0] = {p.structs, p.enums, p.typedefs, nStructs, nMembers};
        makeGlobals();
        makeFptrs();
        makeListVars();
        globalArrays = arrayDecls;
        for (auto v : p.globals) scopes[0].push_back(v);
        makeSigFns();
        makeAsFn();
        makeListFns();
        makeVoidFns();
        int nf = s.below(o.nfuncs + 1);
        for (int i = 0; i < nf; ++i) { if (s.chance(40)) templateFunc(i); else randomFunc(i); }
        Func* m = newFunc("main", &T_INT, IMPURE);
        p.mainFn = m;
        beginFunc(m);
        p.fns.push_back(m);
        pushScope();
        addCounters(3);
        // give global pointers their targets
        lnInit(m->body);
        auto hid = hidden;
        for (auto v : p.globals) if (isPtr(v->t) && v->target) hidden.push_back(v);
        for (auto v : p.globals) if (isPtr(v->t) && v->target) { m->body.push_back(exprS(assign(vref(v), "=", pointerValue(v, 1)))); hidden.erase(std::find(hidden.begin(), hidden.end(), v)); }
        hidden = hid;
        for (auto v : p.globals) if (v != fz) initFptrs(m->body, vref(v));
        Var* canary = newVar("cn", &T_INT, Var::LOCAL); canary->noalias = true;
        m->body.push_back(declS(canary, num(12345)));
        stmtBudget = o.nstmts * 4;
        stmts(m->body, o.nstmts + s.below(o.nstmts + 1), true);
        if (o.dumpGlobals) {
            // observe every visible scalar, so that stray writes show
            int budget = 60;
            auto vs = visible([&](Var* v) { return !v->counter; });
            m->body.push_back(outS(vref(canary)));
            for (auto v : vs) { if (v->stor == Var::LOCAL && v->t->k == Type::FPTR) continue; if (v->t->k == Type::ARR && sizeOf(v->t) > 200) continue; dump(m->body, vref(v), budget); }
        }
        Stmt* r = mks(S_RETURN); r->e = s.coin() ? num(s.below(256)) : bin("&", genVarExpr(1), num(255)); m->body.push_back(r);
        restoreTypes(types[0]);
    }
};
} // namespace

std::unique_ptr<Program> generate(Src& s, const Opts& o) {
    std::unique_ptr<Program> p(new Program);
    Gen g(s, o, *p);
    g.program();
    p->style = s.chance(70) ? 1 + s.below(1000000) : 0;
    return p;
}

} // namespace cg
