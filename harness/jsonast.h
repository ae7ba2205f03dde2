// JSON documents as trees: a strict parser, a writer and mutations
#pragma once
#include "core.h"

struct J
{
    enum Kind { NUL, BOOL, INT, HUGE_INT, REAL, STR, ARR, OBJ };
    Kind k = NUL;
    bool b = false; int64_t i = 0; double d = 0;
    std::string s;                                  // text; the digits of a HUGE_INT
    std::vector<std::pair<std::string, J>> m;       // members, or elements (without names)

    static J str (const std::string& x) { J j; j.k = STR; j.s = x; return j; }
    static J num (int64_t x) { J j; j.k = INT; j.i = x; return j; }
    static J real (double x) { J j; j.k = REAL; j.d = x; return j; }
    static J boolean (bool x) { J j; j.k = BOOL; j.b = x; return j; }
    static J huge (const std::string& x);
    static J of (Kind k) { J j; j.k = k; return j; }
    const J *get (const std::string& n) const;      // the only member of that name
    bool operator== (const J& o) const;
};
// RFC 8259, nothing else; lax: also comments, 01, 1., control characters in texts
bool json_parse (const std::string& text, J& out, bool lax = false);
std::string json_write (const J& j, int indent = 0);
bool json_duplicates (const J& j);                  // two members of one name somewhere
int json_depth (const J& j);
size_t json_nodes (const J& j);
// One random change to the tree; names: member names and texts worth trying. Returns what it did.
std::string json_mutate (Src& s, J& root, const std::vector<std::string>& names);
// One random change to the bytes
std::string text_mutate (Src& s, std::string& t, const std::vector<std::string>& tokens);
J json_scalar (Src& s, const std::vector<std::string>& names);
// The same tree as TOML: null comes as a date; headers: tables as [headers] where that can be said
std::string toml_write (const J& root, bool headers);
bool toml_mixed (const J& j);                       // an array of several types somewhere
// The same tree spelled in whatever way the format allows: escapes, quotes, blanks, numbers, comments
std::string json_spell (Src& s, const J& j);
std::string toml_spell (Src& s, const J& root);
// The text of the tree with one thing that no reader takes for JSON; returns what it did
std::string json_break (Src& s, J doc, std::string& text);
// Not JSON even to a lenient reader (the library's reads up to a byte 255)
bool json_hopeless (const std::string& text);
