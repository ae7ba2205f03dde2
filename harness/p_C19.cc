// C19: whatever a JSON mold file holds, reading it tells the truth: it is accepted if and only if
// it says what a mold can be, and then nothing of it is lost or made up.
#include "model.h"
#include <disir/fslib/json.h>
#include "text.h"
#include "jsonast.h"
#include <cmath>
#include <set>

namespace {
struct Reading
{
    bool bad = false;           // no mold
    bool open = false;          // whether it is read is not said
    bool vague = false;         // what it says is not said
    MoldSpec ms;
    void unsure () { open = vague = true; }
};
bool version_of (const J& j, Ver& v, Reading& r)
{
    if (j.k != J::STR) { r.bad = true; return false; }
    uint64_t n[2] = { 0, 0 };
    size_t at = 0;
    for (int i = 0; i < 2; i++)
    {
        size_t start = at;
        for (; at < j.s.size () && isdigit ((unsigned char) j.s[at]); at++) n[i] = std::min<uint64_t> (n[i] * 10 + (j.s[at] - '0'), 1ull << 40);
        bool ok = at > start && n[i] <= 0xffffffffull && (i || (at < j.s.size () && j.s[at++] == '.'));
        // blanks and signs are neither promised nor ruled out
        if (!ok && j.s.find_first_of (" +-\t\n") != std::string::npos) r.unsure ();
        if (!ok) { r.bad = true; return false; }
    }
    // nor is what follows
    if (at < j.s.size ()) r.unsure ();
    v = Ver ((uint32_t) n[0], (uint32_t) n[1]);
    if (v.zero ()) r.unsure ();
    return true;
}
// the members one kind of object has; others are neither promised to be ignored nor refused
void only (const J& j, std::initializer_list<const char *> keys, Reading& r)
{
    for (auto& x : j.m)
    {
        bool known = false;
        for (auto k : keys) known |= x.first == k;
        if (!known) r.open = true;
    }
}
const J *member (const J& j, const char *key)
{
    const J *x = j.k == J::OBJ ? j.get (key) : nullptr;
    return x && x->k == J::NUL ? nullptr : x;
}
void doc_of (const J& j, std::string& doc, Reading& r)
{
    const J *x = member (j, "documentation");
    if (!x) return;
    if (x->k != J::STR) { r.bad = true; return; }
    doc = x->s;
    if (doc.empty ()) r.unsure ();
}
bool number (const J& j) { return j.k == J::INT || j.k == J::HUGE_INT || j.k == J::REAL; }
double num_of (const J& j, const MoldNode& n, Reading& r)
{
    double d = j.k == J::INT ? (double) j.i : j.d;
    if (!std::isfinite (d) || fabs (d) > 9e15) r.unsure ();
    return n.type == VINT && !n.section && fabs (d) < 9e15 ? (double) (int64_t) d : d;
}
void read_restriction (const J& j, MoldNode& n, Reading& r)
{
    if (j.k != J::OBJ) { r.bad = true; return; }
    only (j, { "type", "value", "introduced", "deprecated", "documentation" }, r);
    const J *t = member (j, "type"), *v = member (j, "value");
    if (!t || t->k != J::STR || !v) { r.bad = true; return; }
    if (t->s.find ('\0') != std::string::npos) r.unsure ();
    Ver intro, depr (0, 0);
    std::string doc;
    if (const J *x = member (j, "introduced")) version_of (*x, intro, r);
    if (const J *x = member (j, "deprecated")) version_of (*x, depr, r);
    doc_of (j, doc, r);
    if (t->s == "MINIMUM_ENTRIES" || t->s == "MAXIMUM_ENTRIES")
    {
        IncSpec e; e.max = t->s[1] == 'A'; e.intro = intro; e.depr = depr;
        if (v->k == J::HUGE_INT) { r.unsure (); return; }
        if (v->k != J::INT) { r.bad = true; return; }
        if (v->i < 0 || v->i > 0x7fffffff) r.unsure ();
        e.n = v->i;
        for (auto& x : n.incs) if (x.max == e.max && x.intro == e.intro) r.bad = true;
        n.incs.push_back (e);
        return;
    }
    ExcSpec e; e.intro = intro; e.depr = depr; e.doc = doc;
    bool numeric = !n.section && (n.type == VINT || n.type == VFLT);
    if (t->s == "ENUM")
    {
        if (v->k != J::STR || n.section || n.type != VENUM) { r.bad = true; return; }
        if (v->s.find ('\0') != std::string::npos) r.unsure ();
        e.t = X_ENUM; e.s = v->s;
    }
    else if (t->s == "NUMERIC")
    {
        if (!number (*v) || !numeric) { r.bad = true; return; }
        e.t = X_NUM; e.lo = num_of (*v, n, r);
    }
    else if (t->s == "RANGE")
    {
        if (v->k != J::ARR || v->m.size () != 2 || !number (v->m[0].second) || !number (v->m[1].second) || !numeric) { r.bad = true; return; }
        e.t = X_RANGE; e.lo = num_of (v->m[0].second, n, r); e.hi = num_of (v->m[1].second, n, r);
        auto d = [] (const J& x) { return x.k == J::INT ? (double) x.i : x.d; };
        if (d (v->m[0].second) > d (v->m[1].second)) { r.bad = true; return; }
    }
    else { r.bad = true; return; }
    n.excs.push_back (e);
}
void read_elements (const J& j, std::vector<MoldNode>& out, Reading& r);
void read_element (const std::string& name, const J& j, std::vector<MoldNode>& out, Reading& r)
{
    MoldNode n;
    n.name = name;
    // (the parser the library uses ends every name at a NUL)
    if (name.find ('\0') != std::string::npos) r.unsure ();
    if (name.empty ()) r.unsure ();
    for (char ch : name) if (!(ch >= 'a' && ch <= 'z') && !(ch >= '0' && ch <= '9') && ch != '_') r.bad = true;
    if (j.k != J::OBJ) { r.bad = true; return; }
    const J *type = member (j, "type"), *el = member (j, "elements"), *defs = member (j, "defaults");
    doc_of (j, n.doc, r);
    if (const J *x = member (j, "deprecated")) version_of (*x, n.depr, r);
    n.section = el != nullptr;
    if (n.section)
    {
        only (j, { "elements", "introduced", "deprecated", "documentation", "restrictions" }, r);
        if (const J *x = member (j, "introduced")) version_of (*x, n.sec_intro, r);
        if (type) r.bad = true;
    }
    else
    {
        only (j, { "type", "defaults", "deprecated", "documentation", "restrictions" }, r);
        if (!type || type->k != J::STR || !defs || defs->k != J::ARR || defs->m.empty ()) { r.bad = true; return; }
        bool known = false;
        for (VT t : { VSTR, VINT, VFLT, VBOOL, VENUM }) if (type->s == vt_name (t)) { n.type = t; known = true; }
        if (!known) { r.bad = true; if (type->s.find ('\0') != std::string::npos) r.unsure (); return; }
    }
    if (const J *x = member (j, "restrictions"))
    {
        if (x->k != J::ARR) { r.bad = true; return; }
        for (auto& e : x->m) read_restriction (e.second, n, r);
    }
    if (n.section)
    {
        if (el->k != J::OBJ) { r.bad = true; return; }
        read_elements (*el, n.kids, r);
    }
    else for (auto& x : defs->m)
    {
        const J& e = x.second;
        DefSpec d;
        const J *v = member (e, "value");
        if (e.k != J::OBJ || !v) { r.bad = true; continue; }
        only (e, { "value", "introduced" }, r);
        if (const J *i = member (e, "introduced")) version_of (*i, d.intro, r);
        switch (n.type)
        {
        case VSTR: if (v->k != J::STR) r.bad = true; d.v = Val::str (v->s); break;
        case VENUM: if (v->k != J::STR) r.bad = true; d.v = Val::en (v->s); if (v->s.find ('\0') != std::string::npos) r.unsure (); break;
        case VBOOL: if (v->k != J::BOOL) r.bad = true; d.v = Val::boolean (v->b); break;
        case VINT: if (v->k != J::INT) r.bad = true; d.v = Val::integer (v->i); break;
        case VFLT: if (!number (*v)) r.bad = true; d.v = Val::flt (v->k == J::INT ? (double) v->i : v->d); if (!std::isfinite (d.v.f)) r.unsure (); break;
        }
        for (auto& o : n.defs) if (o.intro == d.intro) r.bad = true;
        n.defs.push_back (d);
    }
    out.push_back (n);
}
void read_elements (const J& j, std::vector<MoldNode>& out, Reading& r)
{
    for (auto& x : j.m) read_element (x.first, x.second, out, r);
}
Reading read_doc (const J& j)
{
    Reading r;
    if (j.k != J::OBJ) { r.bad = true; return r; }
    only (j, { "documentation", "mold" }, r);
    doc_of (j, r.ms.doc, r);
    // what else the documentation may be is not said
    if (r.bad) { r.bad = false; r.unsure (); }
    const J *m = member (j, "mold");
    if (!m || m->k != J::OBJ) r.bad = true;
    else read_elements (*m, r.ms.kids, r);
    return r;
}
void names_of (const std::vector<MoldNode>& k, std::vector<std::string>& out)
{
    for (auto& n : k)
    {
        out.push_back (n.name);
        for (auto& d : n.defs) if (d.v.t == VSTR || d.v.t == VENUM) out.push_back (d.v.s);
        names_of (n.kids, out);
    }
}
// (two names that differ only beyond a NUL are one to the library)
bool distinct (const std::vector<MoldNode>& k)
{
    std::set<std::string> seen;
    for (auto& n : k) if (!seen.insert (n.name).second || !distinct (n.kids)) return false;
    return true;
}
enum disir_status read_text (const std::string& text, struct disir_mold **mold)
{
    FILE *f = input_of (text);
    enum disir_status st = dio_json_unserialize_mold (instance (), f, mold);
    fclose (f);
    return st;
}
void again (const std::string& text) { MoldH x; read_text (text, &x.p); }

void run (Ctx& c)
{
    GenOpt o;
    o.max_depth = c.s.range (1, 3); o.max_kids = 4;
    o.strings = c.s.range (0, 2);
    o.valid_defaults = c.s.below (2);
    o.nonempty_sections = c.s.below (2);
    MoldSpec ms = gen_mold (c.s, o);
    std::string text = json_of_mold (ms);
    std::vector<std::string> names;
    names_of (ms.kids, names);
    for (const char *x : { "mold", "documentation", "elements", "type", "defaults", "value", "introduced", "deprecated", "restrictions", "unknown", "", "A", "a.b", "x y",
            "INTEGER", "FLOAT", "STRING", "BOOLEAN", "ENUM", "MINIMUM_ENTRIES", "MAXIMUM_ENTRIES", "RANGE", "NUMERIC", "integer", "1.0", "1.1", "2.0", "1.2.3", "1", "x.y", "-1.0", "0.0", "4294967296.0" }) names.push_back (x);
    names.push_back (std::string ("a\0b", 3));
    J doc;
    REQUIRE (json_parse (text, doc), "HARNESS: own text does not parse\n%s", text.c_str ());
    int n = c.s.range (0, 4);
    // as it is, in another spelling, with one thing that is not JSON, with bytes changed
    int how = c.s.weighted ({ 5, 3, 2, 3 });
    bool raw = how == 3;
    if (raw)
    {
        static const std::vector<std::string> T = { ",", "{", "}", "[", "]", "\"", ":", "null", "//x\n", "/*", "*/", "\\u0000", "\\ud800", "1e999", "-", "0x1", "\xff", std::string (1, '\0'), "Infinity", "'", "\n", "1.5.2", "00", "{\"a\":1}", "[[[[[[[[", "+1", "true", "\\", "\"elements\":", "\"type\":" };
        for (int i = 0; i < std::max (n, 1); i++) c.label ("bytes " + text_mutate (c.s, text, T));
    }
    else
    {
        for (int i = 0; i < n; i++) { std::string w = json_mutate (c.s, doc, names); if (w != "nothing") c.label (w); if (json_nodes (doc) > 800) throw Discard (); }
        if (how == 2) c.label (json_break (c.s, doc, text));
        else text = how == 1 ? json_spell (c.s, doc) : json_write (doc);
        if (how == 1) c.label ("spelled");
    }
    c.log ("%s", raw ? quote (text, 5000).c_str () : text.c_str ());
    J parsed;
    bool json = json_parse (text, parsed);
    Reading r;
    if (json) r = read_doc (parsed);
    if (!json || json_duplicates (parsed)) r.unsure ();
    if (json_hopeless (text)) { r.bad = true; r.open = false; c.label ("far from JSON"); }
    else REQUIRE (raw || how != 2, "HARNESS: not broken\n%s", text.c_str ());
    if (!json) c.label ("no JSON");

    MoldH mold;
    size_t b0 = heap_bytes ();
    int f0 = open_fds ();
    enum disir_status st = read_text (text, &mold.p);
    c.log ("%s (%s)", ss (st), disir_error (instance ()) ? disir_error (instance ()) : "");
    REQUIRE (open_fds () == f0, "a file is left open");
    REQUIRE (mold.p ? st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT : st != DISIR_STATUS_OK, "reading returned %s and %s mold", ss (st), mold.p ? "a" : "no");
    if (!r.open)
    {
        if (r.bad) REQUIRE (st != DISIR_STATUS_OK, "the text is no mold, but reading it returned OK");
        else REQUIRE (st == DISIR_STATUS_OK, "the text is a mold, but reading it returned %s (%s)", ss (st), disir_error (instance ()));
    }
    if (st == DISIR_STATUS_OK && !r.vague && !r.bad)
    {
        std::string w = dump (r.ms), g = dump (observe_mold (mold.p));
        REQUIRE (w == g, "contents: %s", dump_diff (w, g).c_str ());
    }
    if (mold.p)
    {
        struct disir_collection *col = nullptr;
        enum disir_status v = disir_mold_valid (mold.p, &col);
        if (col) dc_collection_finished (&col);
        REQUIRE ((v == DISIR_STATUS_OK) == (st == DISIR_STATUS_OK), "reading returned %s, asking again says %s", ss (st), ss (v));
    }
    if (st == DISIR_STATUS_OK && distinct (observe_mold (mold.p).kids))
    {
        // whatever was accepted can be written, and says the same
        std::string out = with_output ([&] (FILE *f) { OKAY (dio_json_serialize_mold (instance (), mold.p, f)); });
        MoldH back;
        enum disir_status s2 = read_text (out, &back.p);
        REQUIRE (s2 == DISIR_STATUS_OK, "written and read again: %s (%s)\n%s", ss (s2), disir_error (instance ()), out.c_str ());
        std::string w = dump (observe_mold (mold.p)), g = dump (observe_mold (back.p));
        REQUIRE (w == g, "written and read again: %s", dump_diff (w, g).c_str ());
    }
    c.label (r.open ? "open" : r.bad ? "no mold" : "mold");
    mold.reset ();
    again (text);
    size_t b1 = heap_bytes ();
    if (b1 > b0)
    {
        again (text);
        size_t b2 = heap_bytes ();
        if (b2 > b1) { again (text); size_t b3 = heap_bytes (); REQUIRE (b3 <= b2, "%zu bytes are lost with each reading", b3 - b2); }
    }
    if (st != DISIR_STATUS_OK && ms.kids.size () > 1) c.nontrivial (json ? "refused JSON" : "refused text");
    c.label (ss (st));
}
void deep (Ctx& c)
{
    for (int n : { 10, 100, 900, 5000, 100000 })
    {
        std::string t = "{\"mold\":{", e;
        for (int i = 0; i < n; i++) { t += "\"s\":{\"elements\":{"; e += "}}"; }
        t += e + "}}";
        MoldH m;
        c.log ("%d levels: %s", n, ss (read_text (t, &m.p)));
    }
}
}
Property property = { "C19",
    "JSON text of a random mold, changed in 0-4 places: values replaced by others of any kind, members removed, added, renamed, wrapped, copied elsewhere, or bytes truncated, changed, inserted, erased, one value replaced by what is no JSON, or the whole spelled otherwise; non-trivial: not accepted, from a mold of at least two elements",
    run, 12000, 200000, { { "deeply nested", deep } }, make_instance };
