// C17: whatever a JSON configuration file holds, reading it tells the truth: it is accepted if and
// only if it says what a valid configuration of the mold says, and then nothing is lost or made up.
#include "model.h"
#include <disir/fslib/json.h>
#include "text.h"
#include "jsonast.h"
#include <cmath>

namespace {
struct Reading
{
    bool refused = false;       // no configuration can come of it
    bool bad = false;           // not valid for more than its elements
    bool open = false;          // whether it is read is not said
    bool vague = false;         // what the elements are is not said
    CfgSpec cs;
};
Val val_of (const J& j, const MoldNode *mn, bool& vague)
{
    bool flt = mn && !mn->section && mn->type == VFLT;
    switch (j.k)
    {
    case J::BOOL: return Val::boolean (j.b);
    case J::INT: return flt ? Val::flt ((double) j.i) : Val::integer (j.i);
    case J::REAL: case J::HUGE_INT: if (!std::isfinite (j.d)) vague = true; return Val::flt (j.d);
    default: return mn && !mn->section && mn->type == VENUM ? Val::en (j.s) : Val::str (j.s);
    }
}
void read_member (const std::string& name, const J& j, const std::vector<MoldNode> *mk, std::vector<CfgNode>& out, Reading& r);
void read_object (const J& j, const std::vector<MoldNode> *mk, std::vector<CfgNode>& out, Reading& r)
{
    for (auto& x : j.m) read_member (x.first, x.second, mk, out, r);
}
void read_member (const std::string& name, const J& j, const std::vector<MoldNode> *mk, std::vector<CfgNode>& out, Reading& r)
{
    if (j.k != J::ARR && (name.empty () || name.find ('\0') != std::string::npos)) { r.bad = r.vague = true; return; }
    const MoldNode *mn = nullptr;
    if (mk) for (auto& m : *mk) if (m.name == name) mn = &m;
    switch (j.k)
    {
    case J::NUL: r.bad = r.vague = true; break;
    case J::ARR: for (auto& x : j.m) read_member (name, x.second, mk, out, r); break;
    case J::OBJ:
    {
        CfgNode n; n.section = true; n.name = name;
        if (mn && !mn->section) r.bad = r.vague = true;
        read_object (j, mn && mn->section ? &mn->kids : nullptr, n.kids, r);
        out.push_back (n);
        break;
    }
    default:
    {
        CfgNode n; n.name = name;
        if (mn && mn->section) r.bad = r.vague = true;
        n.v = val_of (j, mn, r.vague);
        out.push_back (n);
    }
    }
}
Reading read_doc (const J& j, const MoldSpec& ms)
{
    Reading r;
    const J *v = j.get ("version"), *cfg = j.get ("config");
    if (j.k != J::OBJ) { r.refused = true; return r; }
    if (!v || v->k != J::STR) { r.bad = r.vague = true; return r; }
    uint64_t n[2] = { 0, 0 };
    size_t at = 0;
    for (int i = 0; i < 2; i++)
    {
        size_t start = at;
        for (; at < v->s.size () && isdigit ((unsigned char) v->s[at]); at++) n[i] = std::min<uint64_t> (n[i] * 10 + (v->s[at] - '0'), 1ull << 40);
        bool ok = at > start && n[i] <= 0xffffffffull && (i || (at < v->s.size () && v->s[at++] == '.'));
        // blanks and signs are neither promised nor ruled out
        if (!ok && v->s.find_first_of (" +-\t\n") != std::string::npos) r.open = true;
        if (!ok) { r.bad = r.vague = true; return r; }
    }
    // nor is what follows
    if (at < v->s.size ()) r.open = true;
    uint32_t a = (uint32_t) n[0], b = (uint32_t) n[1];
    r.cs.version = Ver (a, b);
    if (r.cs.version > ms.version ()) { r.refused = true; return r; }
    if (!cfg || cfg->k != J::OBJ) { r.bad = true; return r; }
    read_object (*cfg, &ms.kids, r.cs.kids, r);
    return r;
}
bool nul_key (const J& j) { for (auto& x : j.m) if (x.first.find ('\0') != std::string::npos || nul_key (x.second)) return true; return false; }
void names_of (const std::vector<MoldNode>& k, std::vector<std::string>& out)
{
    for (auto& n : k)
    {
        out.push_back (n.name);
        for (auto& d : n.defs) if (d.v.t == VSTR || d.v.t == VENUM) out.push_back (d.v.s);
        names_of (n.kids, out);
    }
}
enum disir_status read_text (const std::string& text, struct disir_mold *mold, struct disir_config **cfg)
{
    FILE *f = input_of (text);
    enum disir_status st = dio_json_unserialize_config (instance (), f, mold, cfg);
    fclose (f);
    return st;
}
void again (const std::string& text, struct disir_mold *mold) { ConfigH x; read_text (text, mold, &x.p); }

void run (Ctx& c)
{
    GenOpt o; o.crowd = 60;
    o.max_depth = c.s.range (1, 3); o.max_kids = 4;
    o.strings = c.s.range (0, 2);
    o.nonempty_sections = c.s.below (2);
    MoldSpec ms = gen_mold (c.s, o);
    CfgSpec cs = gen_config (c.s, ms, gen_version_of (c.s, ms), o);
    MoldH mold (build_mold (ms));
    c.log ("%s", dump (ms).c_str ());
    std::string text = json_of (grouped (cs, 0));
    std::vector<std::string> names;
    names_of (ms.kids, names);
    for (const char *x : { "version", "config", "unknown", "", "A", "a.b", "a@1", "x y", "\xc3\xa5" }) names.push_back (x);
    names.push_back (std::string ("a\0b", 3));
    J doc;
    REQUIRE (json_parse (text, doc), "HARNESS: own text does not parse\n%s", text.c_str ());
    int n = c.s.range (0, 4);
    // as it is, in another spelling, with one thing that is not JSON, with bytes changed
    int how = c.s.weighted ({ 4, 4, 2, 3 });
    bool raw = how == 3, broken = false;
    if (raw)
    {
        static const std::vector<std::string> T = { ",", "{", "}", "[", "]", "\"", ":", "null", "//x\n", "/*", "*/", "\\u0000", "\\ud800", "1e999", "-", "0x1", "\xff", std::string (1, '\0'), "Infinity", "'", "\n", "1.5.2", "00", "{\"a\":1}", "[[[[[[[[", "+1", "true", "\\" };
        for (int i = 0; i < std::max (n, 1); i++) c.label ("bytes " + text_mutate (c.s, text, T));
    }
    else
    {
        for (int i = 0; i < n; i++) { std::string w = json_mutate (c.s, doc, names); if (w != "nothing") c.label (w); if (json_nodes (doc) > 600) throw Discard (); }
        if (c.s.below (8) == 7 && doc.k == J::OBJ) doc.m.emplace_back ("comment", J::str ("more"));
        if (how == 2)
        {
            c.label (json_break (c.s, doc, text));
            broken = true;
        }
        else if (how == 1) { text = json_spell (c.s, doc); c.label ("spelled"); J back; REQUIRE (json_parse (text, back), "HARNESS: the spelling does not parse\n%s", text.c_str ()); REQUIRE (back == doc || json_write (back) == json_write (doc), "HARNESS: the spelling says something else\n%s", text.c_str ()); }
        else text = json_write (doc);
    }
    c.log ("%s", raw ? quote (text, 5000).c_str () : text.c_str ());
    J parsed;
    bool json = json_parse (text, parsed);
    Reading r;
    if (json) { r = read_doc (parsed, ms); if (json_duplicates (parsed)) r.vague = true; }
    else c.label ("no JSON");
    // (the parser the library uses ends every name at a NUL)
    bool unsure = !json || r.open || json_duplicates (parsed) || nul_key (parsed);

    ConfigH cfg;
    size_t b0 = heap_bytes ();
    int f0 = open_fds ();
    enum disir_status st = read_text (text, mold.p, &cfg.p);
    c.log ("%s (%s)", ss (st), disir_error (instance ()) ? disir_error (instance ()) : "");
    REQUIRE (open_fds () == f0, "a file is left open");
    REQUIRE (cfg.p ? st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT : st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT,
        "reading returned %s and %s configuration", ss (st), cfg.p ? "a" : "no");
    if (!unsure)
    {
        std::multiset<std::string> want;
        if (!r.refused && !r.vague) want = invalid_model (ms, r.cs);
        bool good = !r.refused && !r.bad && want.empty ();
        if (good && !r.vague) REQUIRE (st == DISIR_STATUS_OK, "everything is valid, but reading returned %s (%s)", ss (st), disir_error (instance ()));
        if (!good) REQUIRE (st != DISIR_STATUS_OK, "reading returned OK, but %s", r.refused ? "no configuration can come of it" : r.bad ? "the document is not a configuration" : ("invalid are " + join (want)).c_str ());
        if (r.refused) REQUIRE (!cfg.p, "reading returned a configuration, but none can come of it");
        if (cfg.p && !r.vague && !r.bad)
        {
            CfgSpec masked = r.cs; mask_unknown (ms, masked);
            std::string w = dump (masked), g = dump (observe_config_lax (cfg.p));
            REQUIRE (w == g, "contents: %s", dump_diff (w, g).c_str ());
            REQUIRE (observe_invalid (cfg.p, nullptr) == want, "invalid are %s, the report says %s", join (want).c_str (), join (observe_invalid (cfg.p, nullptr)).c_str ());
        }
        c.label (good ? "valid" : r.refused ? "refused" : r.bad ? "broken" : "invalid elements");
    }
    if (json_hopeless (text))
    {
        REQUIRE (st != DISIR_STATUS_OK && !cfg.p, "this is not JSON, but reading returned %s and %s configuration", ss (st), cfg.p ? "a" : "no");
        c.label ("far from JSON");
    }
    else REQUIRE (!broken, "HARNESS: not broken\n%s", text.c_str ());
    if (cfg.p)
    {
        enum disir_status v;
        observe_invalid (cfg.p, &v);
        REQUIRE ((v == DISIR_STATUS_OK) == (st == DISIR_STATUS_OK), "reading returned %s, asking again says %s", ss (st), ss (v));
    }
    if (st == DISIR_STATUS_OK)
    {
        // whatever was accepted can be written, and says the same
        CfgSpec got = observe_config (cfg.p);
        std::string out = with_output ([&] (FILE *f) { OKAY (dio_json_serialize_config (instance (), cfg.p, f)); });
        ConfigH back;
        enum disir_status s2 = read_text (out, mold.p, &back.p);
        REQUIRE (s2 == DISIR_STATUS_OK, "written and read again: %s\n%s", ss (s2), out.c_str ());
        std::string w = dump (grouped (got, 1)), g = dump (grouped (observe_config (back.p), 1));
        REQUIRE (w == g, "written and read again: %s", dump_diff (w, g).c_str ());
    }
    else REQUIRE (disir_error (instance ()) || cfg.p || true, "no error message");
    cfg.reset ();
    again (text, mold.p);
    size_t b1 = heap_bytes ();
    if (b1 > b0)
    {
        again (text, mold.p);
        size_t b2 = heap_bytes ();
        if (b2 > b1) { again (text, mold.p); size_t b3 = heap_bytes (); REQUIRE (b3 <= b2, "%zu bytes are lost with each reading", b3 - b2); }
    }
    if (st != DISIR_STATUS_OK && cs.kids.size () > 1) c.nontrivial (json ? "refused JSON" : "refused text");
    c.label (ss (st));
}
void deep (Ctx& c)
{
    MoldSpec ms; MoldNode k; k.name = "a"; k.type = VINT; k.defs.push_back (DefSpec { Ver (1, 0), Val::integer (1) }); ms.kids.push_back (k);
    MoldH mold (build_mold (ms));
    for (int n : { 10, 100, 900, 5000, 100000 })
        for (int kind = 0; kind < 2; kind++)
        {
            std::string t = "{\"version\":\"1.0\",\"config\":{\"a\":", e;
            for (int i = 0; i < n; i++) { t += kind ? "{\"s\":" : "["; e += kind ? "}" : "]"; }
            t += "1" + e + "}}";
            ConfigH cfg;
            enum disir_status st = read_text (t, mold.p, &cfg.p);
            c.log ("%d levels: %s", n, ss (st));
            if (kind) REQUIRE (st != DISIR_STATUS_OK, "%d unknown sections are valid", n);
        }
}
}
Property property = { "C17",
    "JSON text of a random valid configuration of a random mold, changed in 0-4 places: values replaced by others of any kind, members removed, added, renamed, wrapped, copied elsewhere, or bytes truncated, changed, inserted, erased, one value replaced by what is no JSON, or the whole spelled otherwise (escapes, blanks, forms of numbers); non-trivial: not accepted, from a configuration of at least two elements",
    run, 12000, 200000, { { "deeply nested", deep } }, make_instance };
