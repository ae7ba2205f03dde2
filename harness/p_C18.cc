// C18: whatever a TOML configuration file holds, reading it tells the truth: it is accepted if and
// only if it says what a valid configuration of the mold says, and then nothing is lost or made up.
#include "model.h"
#include <disir/fslib/toml.h>
#include "text.h"
#include "jsonast.h"
#include <cmath>
#include <functional>
#include <algorithm>

namespace {
const char *VERSION = "@DISIR_CONFIG_VERSION";
struct Reading
{
    bool refused = false;       // no configuration can come of it
    bool bad = false;           // not valid for more than its elements
    bool open = false;          // whether it is read is not said
    bool vague = false;         // what the elements are is not said
    CfgSpec cs;
};
void read_member (const std::string& name, const J& j, const std::vector<MoldNode> *mk, std::vector<CfgNode>& out, Reading& r);
// tables are sets: by name
void read_object (const J& j, const std::vector<MoldNode> *mk, std::vector<CfgNode>& out, Reading& r, bool root)
{
    std::vector<const std::pair<std::string, J> *> m;
    for (auto& x : j.m) if (!root || x.first != VERSION) m.push_back (&x);
    std::stable_sort (m.begin (), m.end (), [] (auto *a, auto *b) { return a->first < b->first; });
    for (auto *x : m) read_member (x->first, x->second, mk, out, r);
}
void read_member (const std::string& name, const J& j, const std::vector<MoldNode> *mk, std::vector<CfgNode>& out, Reading& r)
{
    // an array of nothing says nothing, whatever its name
    if (j.k == J::ARR && j.m.empty () && name.find ('\0') != std::string::npos) { r.open = true; return; }
    if (j.k != J::ARR && (name.empty () || name.find ('\0') != std::string::npos)) { r.bad = r.vague = true; return; }
    const MoldNode *mn = nullptr;
    if (mk) for (auto& m : *mk) if (m.name == name) mn = &m;
    switch (j.k)
    {
    case J::NUL: r.refused = true; break;
    case J::ARR: for (auto& x : j.m) read_member (name, x.second, mk, out, r); break;
    case J::OBJ:
    {
        CfgNode n; n.section = true; n.name = name;
        if (mn && !mn->section) r.bad = r.vague = true;
        read_object (j, mn && mn->section ? &mn->kids : nullptr, n.kids, r, false);
        out.push_back (n);
        break;
    }
    default:
    {
        CfgNode n; n.name = name;
        if (mn && mn->section) r.bad = r.vague = true;
        switch (j.k)
        {
        case J::BOOL: n.v = Val::boolean (j.b); break;
        case J::INT: n.v = Val::integer (j.i); break;
        case J::REAL: if (!std::isfinite (j.d)) r.refused = true; n.v = Val::flt (j.d); break;
        case J::HUGE_INT: r.refused = true; break;
        default: n.v = mn && !mn->section && mn->type == VENUM ? Val::en (j.s) : Val::str (j.s);
        }
        out.push_back (n);
    }
    }
}
Reading read_doc (const J& j, const MoldSpec& ms)
{
    Reading r;
    if (j.k != J::OBJ) { r.open = true; return r; }
    const J *v = j.get (VERSION);
    if (!v) r.cs.version = Ver (1, 0);
    else if (v->k != J::STR) { r.open = true; return r; }
    else
    {
        uint64_t n[2] = { 0, 0 };
        size_t at = 0;
        for (int i = 0; i < 2; i++)
        {
            size_t start = at;
            for (; at < v->s.size () && isdigit ((unsigned char) v->s[at]); at++) n[i] = std::min<uint64_t> (n[i] * 10 + (v->s[at] - '0'), 1ull << 40);
            bool ok = at > start && n[i] <= 0xffffffffull && (i || (at < v->s.size () && v->s[at++] == '.'));
            if (!ok && v->s.find_first_of (" +-\t\n") != std::string::npos) r.open = true;
            if (!ok) { r.bad = r.vague = true; return r; }
        }
        if (at < v->s.size ()) r.open = true;
        r.cs.version = Ver ((uint32_t) n[0], (uint32_t) n[1]);
    }
    if (r.cs.version > ms.version ()) { r.refused = true; return r; }
    if (toml_mixed (j)) r.refused = true;
    read_object (j, &ms.kids, r.cs.kids, r, true);
    return r;
}
void names_of (const std::vector<MoldNode>& k, std::vector<std::string>& out)
{
    for (auto& n : k)
    {
        out.push_back (n.name);
        for (auto& d : n.defs) if (d.v.t == VSTR || d.v.t == VENUM) out.push_back (d.v.s);
        names_of (n.kids, out);
    }
}
J ast_of (const std::vector<CfgNode>& k)
{
    J o = J::of (J::OBJ);
    for (auto& n : k)
    {
        J v;
        if (n.section) v = ast_of (n.kids);
        else switch (n.v.t)
        {
        case VINT: v = J::num (n.v.i); break;
        case VFLT: v = J::real (n.v.f); break;
        case VBOOL: v = J::boolean (n.v.b); break;
        default: v = J::str (n.v.s);
        }
        bool done = false;
        for (auto& x : o.m) if (x.first == n.name)
        {
            if (x.second.k != J::ARR) { J a = J::of (J::ARR); a.m.emplace_back ("", x.second); x.second = a; }
            x.second.m.emplace_back ("", v);
            done = true;
        }
        if (!done) o.m.emplace_back (n.name, v);
    }
    return o;
}
enum disir_status read_text (const std::string& text, struct disir_mold *mold, struct disir_config **cfg)
{
    FILE *f = input_of (text);
    enum disir_status st = dio_toml_unserialize_config (instance (), f, mold, cfg);
    fclose (f);
    return st;
}
void again (const std::string& text, struct disir_mold *mold) { ConfigH x; read_text (text, mold, &x.p); }

void run (Ctx& c)
{
    GenOpt o; o.crowd = 60;
    o.max_depth = c.s.range (1, 3); o.max_kids = 4;
    o.strings = c.s.range (0, 2);
    o.nonempty_sections = c.s.below (2);
    MoldSpec ms = gen_mold (c.s, o);
    CfgSpec cs = gen_config (c.s, ms, gen_version_of (c.s, ms), o);
    MoldH mold (build_mold (ms));
    c.log ("%s", dump (ms).c_str ());
    std::vector<std::string> names;
    names_of (ms.kids, names);
    for (const char *x : { VERSION, "unknown", "", "A", "a.b", "a@1", "x y", "\xc3\xa5", "a-b", "\"", "=" }) names.push_back (x);
    names.push_back (std::string ("a\0b", 3));
    J doc = ast_of (cs.kids);
    doc.m.insert (doc.m.begin (), { VERSION, J::str (cs.version.str ()) });
    int n = c.s.range (0, 4);
    // as it is, in another spelling, with one thing that is not TOML, with bytes changed
    int how = c.s.weighted ({ 4, 4, 2, 3 });
    bool raw = how == 3, headers = !c.s.below (3);
    std::string text;
    Reading r;
    if (raw)
    {
        static const std::vector<std::string> T = { ",", "{", "}", "[", "]", "[[", "]]", "\"", "\"\"\"", "'", "'''", "=", ".", "#", "\\u0000", "\\uffff", "\\U00110000", "\\Uffffffff", "1e999", "-", "+", "0x1", "\xff", std::string (1, '\0'), "inf", "nan", "\n", "1.5.2", "00", "_", "1_0", "{\"a b\" = 1}", "{a.b = 1}", "1979-05-27", "1979-05-27T07:32:00Z", "99999999999-9-9", "1979-05-27T07:32:00.99999999999999+99:99", "[a]\n", "[[a]]\n", "a = 1\n", "true", "\\", "\r" };
        text = toml_write (doc, headers);
        for (int i = 0; i < std::max (n, 1); i++) c.label ("bytes " + text_mutate (c.s, text, T));
        r.open = true;
    }
    else
    {
        for (int i = 0; i < n; i++)
        {
            J d = doc;
            std::string w = json_mutate (c.s, d, names);
            if (d.k != J::OBJ || json_nodes (d) > 600) continue;
            doc = d;
            if (w != "nothing") c.label (w);
        }
        std::vector<J *> leaves;
        std::function<void (J&)> find = [&] (J& j) { if (j.k != J::OBJ && j.k != J::ARR) leaves.push_back (&j); for (auto& x : j.m) find (x.second); };
        find (doc);
        if (how == 2 && !leaves.empty ())
        {
            static const std::vector<std::string> BAD = { "12_", "_1", "1__2", "1_.5", "1._5", "1.5_", "1e", "1E+", "1e_5", "1e5_", "1.5e", "1.5e+", ".5", "1.2.3", "1e2e3", "+", "-", "--1", "+-1", "- 1", "1-2", "tru", "True", "truefalse", "nul", "a", "0x", "1x", "\"\\q\"", "\"\\x41\"", "\"\\u12\"", "\"\\u12g4\"", "\"\\U0001234\"", "\"\\ud800\"", "\"\\udfff\"", "\"\\U0000dabc\"", "\"\\U00110000\"", "\"\\Uffffffff\"", "\"a\"b", "\"a\" \"b\"", "'a'b", "1 2", "1, 2 3", "[1 2]", "[1,,2]", "[,1]", "[,]", "[1,2", "[1]]", "{a = 1", "{a 1}", "{a}", "{= 1}", "{a =}", "{a = 1, a = 2}", "{a = 1 b = 2}", "{, a = 1}", "{a.b.c}", "\"a\nb\"", "'a\nb'", "\"a\n", "'a\n", "= 1", "#", "", "@", "\\", "9223372036854775808", "-9223372036854775809", "1e999" };
            static const std::vector<std::string> AFTER = { "x", "x =", "= 1", "[", "[x", "[x]]", "[[x]", "[x.]", "[.x]", "[x..y]", "[]", "x y = 1", "[x] y", "[x] y = 1", "x = 1 y = 2", "x == 1", "x = \"", "x = \"\"\"y", "x = [", "1", "]", "}", ",", "x = 1\nx = 2", "\"x\" = 1\n'x' = 2", "[x]\ny = 1\ny = 1", "[[x]]\n[x]\ny = {}\ny = {}" };
            bool more = c.s.below (4) == 3;
            if (!more) *leaves[c.s.below (leaves.size ())] = J::str ("%BAD%");
            text = toml_write (doc, headers);
            std::string t = c.s.pick (more ? AFTER : BAD);
            size_t at = text.find ("\"%BAD%\"");
            // nothing at all may be fine between brackets
            if (!more && (t.empty () || t == "#") && at && (text[at - 1] == '[' || (at > 1 && text[at - 2] == ','))) t = ",";
            if (more) text += t + "\n"; else text.replace (at, 7, t);
            c.label (more ? "more after the end" : "no value");
            r.refused = true;
        }
        else
        {
            text = how == 1 ? toml_spell (c.s, doc) : toml_write (doc, headers);
            if (how == 1) c.label ("spelled");
            r = read_doc (doc, ms);
            if (json_duplicates (doc)) r.open = true;
        }
    }
    c.log ("%s", raw ? quote (text, 5000).c_str () : text.c_str ());

    ConfigH cfg;
    size_t b0 = heap_bytes ();
    int f0 = open_fds ();
    enum disir_status st = read_text (text, mold.p, &cfg.p);
    c.log ("%s (%s)", ss (st), disir_error (instance ()) ? disir_error (instance ()) : "");
    REQUIRE (open_fds () == f0, "a file is left open");
    REQUIRE (cfg.p ? st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT : st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT,
        "reading returned %s and %s configuration", ss (st), cfg.p ? "a" : "no");
    if (!r.open)
    {
        std::multiset<std::string> want;
        if (!r.refused && !r.vague) want = invalid_model (ms, r.cs);
        bool good = !r.refused && !r.bad && want.empty ();
        if (good && !r.vague) REQUIRE (st == DISIR_STATUS_OK, "everything is valid, but reading returned %s (%s)", ss (st), disir_error (instance ()));
        if (!good) REQUIRE (st != DISIR_STATUS_OK, "reading returned OK, but %s", r.refused ? "no configuration can come of it" : r.bad ? "the document is not a configuration" : ("invalid are " + join (want)).c_str ());
        if (r.refused) REQUIRE (!cfg.p, "reading returned a configuration, but none can come of it");
        if (cfg.p && !r.vague && !r.bad)
        {
            CfgSpec masked = r.cs; mask_unknown (ms, masked);
            std::string w = dump (masked), g = dump (observe_config_lax (cfg.p));
            REQUIRE (w == g, "contents: %s", dump_diff (w, g).c_str ());
            REQUIRE (observe_invalid (cfg.p, nullptr) == want, "invalid are %s, the report says %s", join (want).c_str (), join (observe_invalid (cfg.p, nullptr)).c_str ());
        }
        c.label (good ? "valid" : r.refused ? "refused" : r.bad ? "broken" : "invalid elements");
    }
    if (cfg.p)
    {
        enum disir_status v;
        observe_invalid (cfg.p, &v);
        REQUIRE ((v == DISIR_STATUS_OK) == (st == DISIR_STATUS_OK), "reading returned %s, asking again says %s", ss (st), ss (v));
    }
    if (st == DISIR_STATUS_OK)
    {
        // whatever was accepted can be written, and says the same
        CfgSpec got = observe_config (cfg.p);
        std::string out = with_output ([&] (FILE *f) { OKAY (dio_toml_serialize_config (instance (), cfg.p, f)); });
        ConfigH back;
        enum disir_status s2 = read_text (out, mold.p, &back.p);
        REQUIRE (s2 == DISIR_STATUS_OK, "written and read again: %s\n%s", ss (s2), out.c_str ());
        std::string w = dump (grouped (got, 2)), g = dump (grouped (observe_config (back.p), 2));
        REQUIRE (w == g, "written and read again: %s", dump_diff (w, g).c_str ());
    }
    cfg.reset ();
    again (text, mold.p);
    size_t b1 = heap_bytes ();
    if (b1 > b0)
    {
        again (text, mold.p);
        size_t b2 = heap_bytes ();
        if (b2 > b1) { again (text, mold.p); size_t b3 = heap_bytes (); REQUIRE (b3 <= b2, "%zu bytes are lost with each reading", b3 - b2); }
    }
    if (st != DISIR_STATUS_OK && cs.kids.size () > 1) c.nontrivial (raw ? "refused text" : "refused TOML");
    c.label (ss (st));
}
void deep (Ctx& c)
{
    MoldSpec ms; MoldNode k; k.name = "a"; k.type = VINT; k.defs.push_back (DefSpec { Ver (1, 0), Val::integer (1) }); ms.kids.push_back (k);
    MoldH mold (build_mold (ms));
    for (int n : { 10, 100, 900, 5000, 100000 })
        for (int kind = 0; kind < 3; kind++)
        {
            std::string t = "a = ", e;
            for (int i = 0; i < n; i++) { t += kind ? "{s = " : "["; e += kind ? "}" : "]"; }
            t += "1" + e + "\n";
            if (kind == 2) { t = "["; for (int i = 0; i < std::min (n, 100); i++) t += i ? ".s" : "s"; t += "]\na = 1\n"; }
            ConfigH cfg;
            enum disir_status st = read_text (t, mold.p, &cfg.p);
            c.log ("%d levels: %s", n, ss (st));
            if (kind) REQUIRE (st != DISIR_STATUS_OK, "%d unknown sections are valid", n);
        }
}
}
Property property = { "C18",
    "TOML text of a random valid configuration of a random mold, with table headers or inline tables, changed in 0-4 places: values replaced by others of any kind, members removed, added, renamed, wrapped, copied elsewhere, or bytes truncated, changed, inserted, erased, one value replaced by what is no TOML, or the whole spelled otherwise (kinds of strings, escapes, quoted keys, forms of numbers, comments, blanks, order of tables); non-trivial: not accepted, from a configuration of at least two elements",
    run, 12000, 200000, { { "deeply nested", deep } }, make_instance };
