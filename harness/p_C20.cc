// C20: a mold read together with an override file is the namespace mold in which exactly the
// overridden defaults are replaced or added; an override that cannot be applied is never ignored.
#include "model.h"
#include <disir/fslib/json.h>
#include "text.h"
#include "jsonast.h"
#include <cmath>
#include <algorithm>
#include <map>

namespace {
struct Reading { bool bad = false, open = false, none = false; void unsure () { open = true; } };
struct Over { Ver v; J value; };
const J *member (const J& j, const char *key)
{
    const J *x = j.k == J::OBJ ? j.get (key) : nullptr;
    return x && x->k == J::NUL ? nullptr : x;
}
bool version_of (const std::string& s, Ver& v, Reading& r)
{
    uint64_t n[2] = { 0, 0 };
    size_t at = 0;
    for (int i = 0; i < 2; i++)
    {
        size_t start = at;
        for (; at < s.size () && isdigit ((unsigned char) s[at]); at++) n[i] = std::min<uint64_t> (n[i] * 10 + (s[at] - '0'), 1ull << 40);
        bool ok = at > start && n[i] <= 0xffffffffull && (i || (at < s.size () && s[at++] == '.'));
        if (!ok && s.find_first_of (" +-\t\n") != std::string::npos) r.unsure ();
        if (!ok) { r.bad = true; return false; }
    }
    if (at < s.size ()) r.unsure ();
    v = Ver ((uint32_t) n[0], (uint32_t) n[1]);
    if (v.zero ()) r.unsure ();
    return true;
}
void only (const J& j, std::initializer_list<const char *> keys, Reading& r)
{
    for (auto& x : j.m)
    {
        bool known = false;
        for (auto k : keys) known |= x.first == k;
        if (!known) r.open = true;
    }
}
MoldNode *find (std::vector<MoldNode>& k, const std::string& name, Reading& r)
{
    size_t d = name.find ('.');
    std::string head = name.substr (0, d);
    if (head.empty ()) { r.unsure (); return nullptr; }
    for (char ch : head) if (!(ch >= 'a' && ch <= 'z') && !(ch >= '0' && ch <= '9') && ch != '_') { r.unsure (); return nullptr; }
    for (auto& n : k) if (n.name == head)
    {
        if (d == std::string::npos) return &n;
        if (!n.section) return nullptr;
        return find (n.kids, name.substr (d + 1), r);
    }
    return nullptr;
}
bool value_of (const J& v, const MoldNode& n, Val& out, Reading& r)
{
    switch (n.type)
    {
    case VSTR: out = Val::str (v.s); return v.k == J::STR;
    case VENUM: out = Val::en (v.s); if (v.s.find ('\0') != std::string::npos) r.unsure (); return v.k == J::STR;
    case VBOOL: out = Val::boolean (v.b); return v.k == J::BOOL;
    case VINT: out = Val::integer (v.i); return v.k == J::INT;
    default:
        out = Val::flt (v.k == J::INT ? (double) v.i : v.d);
        if (v.k != J::INT && v.k != J::HUGE_INT && v.k != J::REAL) return false;
        if (!std::isfinite (out.f)) r.unsure ();
        return true;
    }
}
// what the file says, by element and version
bool read_entry (const J& e, const std::map<std::string, Ver>& sync, std::vector<Over>& out, Reading& r)
{
    const J *ver = member (e, "version"), *val = member (e, "value");
    if (e.k != J::OBJ || !ver || ver->k != J::STR || !val) { r.bad = true; return false; }
    only (e, { "version", "value" }, r);
    Ver own;
    if (!version_of (ver->s, own, r)) return false;
    auto it = sync.find (ver->s);
    if (it == sync.end ()) { r.bad = true; return false; }
    for (auto& o : out) if (o.v == it->second) r.unsure ();
    out.push_back (Over { it->second, *val });
    return true;
}
Reading apply (const J& j, MoldSpec& ms)
{
    Reading r;
    if (j.k != J::OBJ) { r.bad = true; return r; }
    only (j, { "sync", "override" }, r);
    const J *sync = member (j, "sync"), *over = member (j, "override");
    if (!sync && !over) { r.bad = r.none = true; return r; }
    if ((sync && sync->k != J::ARR) || (over && over->k != J::OBJ)) { r.bad = true; return r; }
    std::map<std::string, Ver> map;
    std::vector<Ver> seen;
    if (sync) for (auto& x : sync->m)
    {
        const J& e = x.second;
        const J *o = member (e, "override"), *n = member (e, "namespace");
        if (e.k != J::OBJ || !o || !n || o->k != J::STR || n->k != J::STR) { r.bad = true; return r; }
        only (e, { "override", "namespace" }, r);
        Ver vo, vn;
        if (!version_of (o->s, vo, r) || !version_of (n->s, vn, r)) continue;
        for (auto& v : seen) if (v == vo) r.unsure ();      // which one counts is not said
        seen.push_back (vo);
        map[o->s] = vn;
    }
    Ver top = ms.version ();
    if (over) for (auto& x : over->m)
    {
        std::vector<Over> entries;
        if (x.second.k == J::ARR) for (auto& e : x.second.m) read_entry (e.second, map, entries, r);
        else read_entry (x.second, map, entries, r);
        // an array of nothing overrides nothing, of whatever element
        if (x.second.k == J::ARR && x.second.m.empty ()) { r.open = true; continue; }
        MoldNode *n = find (ms.kids, x.first, r);
        if (!n || n->section) { r.bad = true; continue; }
        std::stable_sort (entries.begin (), entries.end (), [] (const Over& a, const Over& b) { return a.v < b.v; });
        for (auto& e : entries)
        {
            if (e.v > top) { r.bad = true; continue; }
            Ver newest = highest_default (*n).intro;
            Val v;
            bool fits = value_of (e.value, *n, v, r);
            if (e.v < newest) { if (!fits) r.unsure (); continue; }     // what is older than the newest default changes nothing
            if (!fits) { r.bad = true; continue; }
            if (e.v == newest) { for (auto& d : n->defs) if (d.intro == newest) d.v = v; }
            else { DefSpec d; d.intro = e.v; d.v = v; n->defs.push_back (d); }
        }
    }
    return r;
}
void paths_of (const std::vector<MoldNode>& k, const std::string& prefix, bool sections, std::vector<std::pair<std::string, const MoldNode *>>& out)
{
    for (auto& n : k)
    {
        if (!n.section || sections) out.push_back ({ prefix + n.name, &n });
        if (n.section) paths_of (n.kids, prefix + n.name + ".", sections, out);
    }
}
J value_json (const Val& v)
{
    switch (v.t)
    {
    case VINT: return J::num (v.i);
    case VFLT: return J::real (v.f);
    case VBOOL: return J::boolean (v.b);
    default: return J::str (v.s);
    }
}
enum disir_status read_text (const std::string& text, const std::string& over, struct disir_mold **mold)
{
    std::string dir = scratch_dir ();
    write_file (dir + "/m.json", text);
    write_file (dir + "/m.o.json", over);
    return dio_json_unserialize_mold_filepath (instance (), (dir + "/m.json").c_str (), (dir + "/m.o.json").c_str (), mold);
}
void again (const std::string& text, const std::string& over) { MoldH x; read_text (text, over, &x.p); }

void run (Ctx& c)
{
    GenOpt o;
    o.max_depth = c.s.range (1, 3); o.max_kids = 4;
    o.strings = c.s.range (0, 2);
    o.valid_defaults = c.s.below (2);
    MoldSpec ms = gen_mold (c.s, o);
    std::string text = json_of_mold (ms);
    std::vector<std::pair<std::string, const MoldNode *>> paths;
    paths_of (ms.kids, "", false, paths);
    std::vector<Ver> vs = ms.versions ();
    if (c.s.below (4) == 3) vs.push_back (Ver (ms.version ().maj, ms.version ().min + 1));
    // the override file's own versions, each standing for one of the namespace's
    J sync = J::of (J::ARR), over = J::of (J::OBJ);
    std::vector<std::string> own;
    int n = c.s.range (1, 4);
    for (int i = 0; i < n; i++)
    {
        J e = J::of (J::OBJ);
        own.push_back (Ver (1 + i / 2, i % 2 ? 3 * i : i / 2).str ());
        e.m.push_back ({ "override", J::str (own.back ()) });
        e.m.push_back ({ "namespace", J::str (c.s.pick (vs).str ()) });
        sync.m.push_back ({ "", e });
    }
    int m = c.s.range (0, 4);
    for (int i = 0; i < m && !paths.empty (); i++)
    {
        auto& p = c.s.pick (paths);
        if (over.get (p.first)) continue;
        J list = J::of (J::ARR);
        int k = c.s.range (1, 3);
        for (int x = 0; x < k; x++)
        {
            J e = J::of (J::OBJ);
            e.m.push_back ({ "version", J::str (c.s.pick (own)) });
            e.m.push_back ({ "value", value_json (gen_value (c.s, p.second->type, o)) });
            list.m.push_back ({ "", e });
        }
        over.m.push_back ({ p.first, k == 1 && c.s.below (2) ? list.m[0].second : list });
    }
    J doc = J::of (J::OBJ);
    doc.m.push_back ({ "sync", sync });
    doc.m.push_back ({ "override", over });
    std::vector<std::string> names;
    std::vector<std::pair<std::string, const MoldNode *>> all;
    paths_of (ms.kids, "", true, all);
    for (auto& p : all) names.push_back (p.first);
    for (auto& v : vs) names.push_back (v.str ());
    for (const char *x : { "sync", "override", "version", "value", "namespace", "unknown", "a.unknown", "", "a@1", "a..b", "x y", "1.0", "1.1", "9.9", "1", "x.y", "1.2.3" }) names.push_back (x);
    int muts = c.s.weighted ({ 4, 3, 2, 1 });
    int how = c.s.weighted ({ 5, 2, 1, 1 });        // written plainly, spelled otherwise, one thing that is not JSON, bytes
    bool raw = how == 3;
    std::string otext = json_write (doc);
    if (raw)
    {
        static const std::vector<std::string> T = { ",", "{", "}", "[", "]", "\"", ":", "null", "/*", "\\u0000", "1e999", std::string (1, '\0'), "\n", "[[[[", "true", "\\" };
        for (int i = 0; i < std::max (muts, 1); i++) c.label ("bytes " + text_mutate (c.s, otext, T));
    }
    else
    {
        for (int i = 0; i < muts; i++) { std::string w = json_mutate (c.s, doc, names); if (w != "nothing") c.label (w); if (json_nodes (doc) > 500) throw Discard (); }
        if (how == 2) c.label (json_break (c.s, doc, otext));
        else otext = how == 1 ? json_spell (c.s, doc) : json_write (doc);
    }
    c.log ("%s", dump (ms).c_str ());
    c.log ("%s", raw ? quote (otext, 5000).c_str () : otext.c_str ());
    J parsed;
    MoldSpec want = ms;
    Reading r;
    bool json = json_parse (otext, parsed);
    if (json) r = apply (parsed, want);
    if (!json || json_duplicates (parsed)) r.unsure ();
    if (json_hopeless (otext)) { r.bad = true; r.open = false; c.label ("far from JSON"); }

    MoldH mold;
    size_t b0 = heap_bytes ();
    int f0 = open_fds ();
    enum disir_status st = read_text (text, otext, &mold.p);
    c.log ("%s (%s)", ss (st), disir_error (instance ()) ? disir_error (instance ()) : "");
    REQUIRE (open_fds () == f0, "a file is left open");
    REQUIRE (mold.p ? st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT : st != DISIR_STATUS_OK, "reading returned %s and %s mold", ss (st), mold.p ? "a" : "no");
    if (!r.open)
    {
        if (r.bad) REQUIRE (st != DISIR_STATUS_OK, "the overrides do not apply, but reading returned OK");
        else
        {
            REQUIRE (st == DISIR_STATUS_OK, "the overrides apply, but reading returned %s (%s)", ss (st), disir_error (instance ()));
            std::string w = dump (want), g = dump (observe_mold (mold.p));
            REQUIRE (w == g, "contents: %s", dump_diff (w, g).c_str ());
        }
    }
    if (mold.p)
    {
        struct disir_collection *col = nullptr;
        enum disir_status v = disir_mold_valid (mold.p, &col);
        if (col) dc_collection_finished (&col);
        REQUIRE ((v == DISIR_STATUS_OK) == (st == DISIR_STATUS_OK), "reading returned %s, asking again says %s", ss (st), ss (v));
    }
    if (st == DISIR_STATUS_OK && dump (want) != dump (ms)) c.nontrivial ("changes something");
    if (r.bad && !r.open && json) c.nontrivial ("does not apply");
    c.label (r.open ? "open" : r.bad ? "bad" : "good");
    c.label (ss (st));
    mold.reset ();
    again (text, otext);
    size_t b1 = heap_bytes ();
    if (b1 > b0)
    {
        again (text, otext);
        size_t b2 = heap_bytes ();
        if (b2 > b1) { again (text, otext); size_t b3 = heap_bytes (); REQUIRE (b3 <= b2, "%zu bytes are lost with each reading", b3 - b2); }
    }
}
}
Property property = { "C20",
    "random mold and an override file for it: 1-4 synchronised versions, 0-4 elements with 1-3 values each; changed in 0-3 places (values, members, names, versions, bytes); non-trivial: a default changes, or the file does not apply",
    run, 12000, 200000, {}, make_instance };
