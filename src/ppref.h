// Reference C preprocessor used as the oracle for scpp.
#pragma once
#include "pbt.h"
#include <set>

struct PTok {
    enum K { ID, NUM, STR, CHR, PUNCT, OTHER, BAD, NL, PLACE } k = OTHER;
    Str t;
    bool ws = false;             // preceded by white space (or a comment)
    int line = 0;
    bool mlt = false;            // the line of this token is not well determined
    bool amb = false;            // white space before it is not well determined
    std::set<Str> old;           // members of hs whose replacement was complete before
    bool painted = false;        // met while its own name was hidden
    std::set<Str> hs;            // names that must not be expanded here
    bool operator==(const PTok& o) const { return k == o.k && t == o.t; }
};
// Split text into preprocessing tokens. Comments become white space, spliced lines are joined.
// err is set for an unterminated comment.
std::vector<PTok> ppLex(const Str& text, Str* err = nullptr);

struct PpResult {
    Str error;                   // non-empty: the input violates C's rules (must be rejected)
    Str unsure;                  // non-empty: C leaves the result open (not judged)
    std::vector<PTok> out;
    // resources used
    int names = 0, maxNest = 0, maxList = 0, defTokens = 0, maxArgText = 0, maxArgs = 0, maxLive = 0, maxText = 0, maxTok = 0, maxCond = 0, expansions = 0, params = 0;
    std::map<Str, uint64_t> feat;
};
// alt selects the second reading of C's rule on nested self-references.
PpResult ppRun(const std::map<Str, Str>& files, const Str& mainName, bool alt = false);
// Both readings; unsure is set when they differ.
PpResult ppModel(const std::map<Str, Str>& files, const Str& mainName);
Str ppShow(const std::vector<PTok>& t, size_t max = 60, size_t from = 0);
// The resources are well within the tables of scpp.
bool ppWithinLimits(const PpResult& r);
