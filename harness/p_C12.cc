// C12: comparing two objects tells exactly whether they differ: configurations and sections by
// their elements and values, molds by their elements, types, defaults, restrictions and texts.
#include "model.h"
#include <algorithm>

static enum disir_status compare (struct disir_context *a, struct disir_context *b, std::vector<std::string>& rep)
{
    struct disir_diff_report *r = nullptr;
    enum disir_status st = dc_compare (a, b, &r), bare = dc_compare (a, b, nullptr);
    rep.clear ();
    REQUIRE (st == bare, "%s with a report, %s without", ss (st), ss (bare));
    if (r)
    {
        for (int i = 0; i < r->dr_entries; i++) { rep.push_back (r->dr_diff_string[i]); free (r->dr_diff_string[i]); }
        free (r->dr_diff_string); free (r);
        REQUIRE (!rep.empty (), "an empty report");
    }
    return st;
}
static void check (struct disir_context *a, struct disir_context *b, bool equal, const char *what)
{
    std::vector<std::string> r1, r2;
    enum disir_status s1 = compare (a, b, r1), s2 = compare (b, a, r2);
    enum disir_status want = equal ? DISIR_STATUS_OK : DISIR_STATUS_CONFLICT;
    REQUIRE (s1 == want, "%s %s, comparing returned %s (%s)", what, equal ? "are equal" : "differ", ss (s1), r1.empty () ? "" : r1[0].c_str ());
    REQUIRE (s2 == want, "%s %s, comparing the other way round returned %s", what, equal ? "are equal" : "differ", ss (s2));
    REQUIRE (r1.empty () == equal && r2.empty () == equal, "%s: %zu differences reported one way, %zu the other", what, r1.size (), r2.size ());
}
// what is not part of the comparison
static void strip (std::vector<MoldNode>& k)
{
    std::sort (k.begin (), k.end (), [] (const MoldNode& a, const MoldNode& b) { return a.name < b.name; });
    for (auto& n : k) { n.depr = Ver (0, 0); n.sec_intro = Ver (1, 0); strip (n.kids); }
}
static std::string mold_key (MoldSpec m) { strip (m.kids); return dump (m); }
static std::string order_key (const std::vector<MoldNode>& kids)
{
    std::vector<MoldNode> k = kids; strip (k);
    std::string o;
    for (auto& n : k)
    {
        o += n.name + "{";
        for (auto& e : n.excs) o += fmt ("%d %s %.17g %.17g %s %s %s;", e.t, quote (e.s).c_str (), e.lo, e.hi, e.intro.str ().c_str (), e.depr.str ().c_str (), quote (e.doc).c_str ());
        o += order_key (n.kids) + "}";
    }
    return o;
}
static Ver other_ver (Src& s, Ver v) { return s.below (2) ? Ver (v.maj, v.min + 1 + s.below (3)) : Ver (v.maj + 1, v.min); }

static const char *mutate_mold (Ctx& c, MoldSpec& m, const GenOpt& o)
{
    Src& s = c.s;
    std::vector<MoldNode *> all;
    std::vector<std::vector<MoldNode> *> lists { &m.kids };
    std::function<void (std::vector<MoldNode>&)> rec = [&] (std::vector<MoldNode>& k) { for (auto& n : k) { all.push_back (&n); if (n.section) { lists.push_back (&n.kids); rec (n.kids); } } };
    rec (m.kids);
    int what = s.below (12);
    if (what == 0 || all.empty ()) { m.doc += "x"; return "mold documentation"; }
    MoldNode& n = *s.pick (all);
    switch (what)
    {
    case 1: n.doc += "x"; return "documentation";
    case 2: n.name += "x"; return "name";
    case 3: { auto& l = *s.pick (lists); if (l.empty ()) return "nothing"; l.erase (l.begin () + s.below (l.size ())); return "removed"; }
    case 4: { auto& l = *s.pick (lists); MoldSpec f = gen_mold (s, o); if (f.kids.empty ()) return "nothing";
              MoldNode x = s.pick (f.kids); x.name += "_new"; l.insert (l.begin () + s.below (l.size () + 1), x); return "added"; }
    case 5: if (n.section) { n.section = false; n.kids.clear (); n.type = VINT; n.defs.clear (); n.excs.clear (); DefSpec d; d.v = Val::integer (0); n.defs.push_back (d); return "kind"; }
            { VT t = n.type == VINT ? VBOOL : VINT; n.type = t; n.excs.clear (); for (auto& d : n.defs) { d.v = t == VINT ? Val::integer (3) : Val::boolean (true); } return "type"; }
    case 6: if (n.defs.empty ()) return "nothing"; { auto& d = n.defs[s.below (n.defs.size ())]; GenOpt p = o; d.v = gen_value (s, n.type, p); return "default value"; }
    case 7: if (n.defs.empty ()) return "nothing"; { auto& d = n.defs[s.below (n.defs.size ())]; Ver v = other_ver (s, d.intro);
              for (auto& e : n.defs) if (e.intro == v) return "nothing"; d.intro = v; return "default version"; }
    case 8: if (n.defs.empty ()) return "nothing"; { if (n.defs.size () > 1 && s.below (2)) { n.defs.erase (n.defs.begin () + s.below (n.defs.size ())); return "default removed"; }
              DefSpec d = n.defs[s.below (n.defs.size ())]; d.intro = Ver (77, s.below (3)); n.defs.push_back (d); return "default added"; }
    case 9: if (n.incs.empty ()) return "nothing"; { auto& i = n.incs[s.below (n.incs.size ())]; i.n += 1; return "entry restriction"; }
    case 10: if (n.excs.empty ()) return "nothing"; { auto& e = n.excs[s.below (n.excs.size ())];
              switch (s.below (4)) { case 0: if (e.t == X_ENUM) e.s += "x"; else e.hi += 1, e.lo += e.t == X_NUM; break;
                case 1: e.intro = other_ver (s, e.intro); break; case 2: e.depr = Ver (91, s.below (4)); break; default: e.doc += "x"; } return "value restriction"; }
    default: if (n.excs.empty ()) return "nothing"; { if (s.below (2)) { n.excs.erase (n.excs.begin () + s.below (n.excs.size ())); return "restriction removed"; }
              ExcSpec e = n.excs[s.below (n.excs.size ())]; if (s.below (2)) e.intro = other_ver (s, e.intro); n.excs.push_back (e); return "restriction added"; }
    }
}
static void shuffle_kids (Src& s, std::vector<MoldNode>& k)
{
    for (size_t i = k.size (); i > 1; i--) std::swap (k[i - 1], k[s.below (i)]);
    for (auto& n : k) shuffle_kids (s, n.kids);
}
static void molds (Ctx& c)
{
    GenOpt o; o.crowd = 40;
    o.max_depth = c.s.range (1, 3); o.strings = c.s.range (0, 2);
    o.nonempty_sections = false; o.valid_defaults = false;
    MoldSpec a = gen_mold (c.s, o), b = a;
    if (c.s.below (4) == 3) { shuffle_kids (c.s, b.kids); c.label ("mold: other order"); }
    int n = c.s.range (0, 2);
    for (int i = 0; i < n; i++) { const char *w = mutate_mold (c, b, o); c.log ("changed: %s\n", w); c.label (fmt ("mold: %s", w)); }
    bool equal = mold_key (a) == mold_key (b);
    c.log ("%s%s%s", dump (a).c_str (), equal ? "" : "other ", equal ? "" : dump (b).c_str ());
    if (equal && order_key (a.kids) != order_key (b.kids)) throw Discard ();    // the order of restrictions is not specified
    MoldH ma (build_mold (a)), mb (build_mold (b));
    std::string da = dump (observe_mold (ma.p)), db = dump (observe_mold (mb.p));
    CtxH ca (dc_mold_getcontext (ma.p)), cb (dc_mold_getcontext (mb.p));
    check (ca.p, cb.p, equal, "the molds");
    check (ca.p, ca.p, true, "a mold and itself");
    REQUIRE (dump (observe_mold (ma.p)) == da && dump (observe_mold (mb.p)) == db, "comparing changed a mold");
    if (!a.kids.empty () && n) c.nontrivial (equal ? "molds equal after all" : "molds differ");
}
static std::vector<CfgNode> by_name (const std::vector<CfgNode>& k) { return grouped (k, 2); }
static void shuffle_cfg (Src& s, std::vector<CfgNode>& k)
{
    // any interleaving that keeps the order within a name
    std::vector<CfgNode> out;
    while (!k.empty ())
    {
        size_t i = s.below (k.size ());
        for (size_t j = 0; j < i; j++) if (k[j].name == k[i].name) { i = j; break; }
        out.push_back (k[i]); k.erase (k.begin () + i);
    }
    k = out;
    for (auto& n : k) shuffle_cfg (s, n.kids);
}
static void configs (Ctx& c)
{
    GenOpt o; o.crowd = 40;
    o.max_depth = c.s.range (1, 4); o.strings = c.s.range (0, 2); o.nonempty_sections = c.s.below (2);
    MoldSpec ms = gen_mold (c.s, o);
    Ver v = gen_version_of (c.s, ms);
    CfgSpec a = gen_config (c.s, ms, v, o), b = a;
    if (c.s.below (4) == 3) { shuffle_cfg (c.s, b.kids); c.label ("config: other order"); }
    int n = c.s.range (0, 2);
    if (n) mutate_config (c.s, ms, b, n, o, false);
    auto key = [] (const CfgSpec& x) { return dump_nodes (by_name (x.kids), ""); };
    c.log ("%s%sother %s", dump (ms).c_str (), dump (a).c_str (), dump (b).c_str ());
    MoldH mold (build_mold (ms)), mold2 (build_mold (ms));
    enum disir_status st;
    ConfigH x (build_config_lax (mold.p, a, &st)), y (build_config_lax (c.s.below (2) ? mold2.p : mold.p, b, &st));
    // as the library holds them: what it could not take is in neither
    CfgSpec oa = observe_config_lax (x.p), ob = observe_config_lax (y.p);
    mask_unknown (ms, a); mask_unknown (ms, b);
    REQUIRE (dump (oa) == dump (a) && dump (ob) == dump (b), "built: %s%s", dump_diff (dump (a), dump (oa)).c_str (), dump_diff (dump (b), dump (ob)).c_str ());
    std::function<bool (const std::vector<CfgNode>&)> unknown = [&] (const std::vector<CfgNode>& k) { for (auto& e : k) if (e.section ? unknown (e.kids) : e.v == Val::str ("?")) return true; return false; };
    if (unknown (oa.kids) || unknown (ob.kids)) { c.label ("values the mold does not know"); return; }
    bool equal = key (oa) == key (ob);
    CtxH cx (dc_config_getcontext (x.p)), cy (dc_config_getcontext (y.p));
    check (cx.p, cy.p, equal, "the configurations");
    // section by section, of equal path
    for (auto& p : all_paths (a, false, true))
    {
        std::vector<CfgNode> ka = a.kids;
        std::string q = query_of (a, p);
        struct disir_context *other = nullptr;
        CtxH sa (ctx_at (x.p, a, p));
        if (dc_query_resolve_context (cy.p, "%s", &other, q.c_str ()) != DISIR_STATUS_OK) continue;
        CtxH sb (other);
        if (dc_context_type (other) != DISIR_CONTEXT_SECTION) continue;
        for (auto& pb : all_paths (b, false, true))
            if (query_of (b, pb) == q)
                check (sa.p, sb.p, dump_nodes (by_name (node_at (a, p).kids), "") == dump_nodes (by_name (node_at (b, pb).kids), ""), q.c_str ());
        break;
    }
    REQUIRE (dump (observe_config_lax (x.p)) == dump (oa) && dump (observe_config_lax (y.p)) == dump (ob), "comparing changed a configuration");
    if (a.kids.size () && (n || equal)) c.nontrivial (equal ? "configs equal" : "configs differ");
}
static void run (Ctx& c) { if (c.s.below (2)) molds (c); else configs (c); }
Property property = { "C12",
    "half: a random mold and itself changed in 0-2 places (texts, names, types, defaults, any restriction, elements added, removed, reordered); half: a random configuration and itself with 0-2 values or elements changed, repeated, removed, reordered, also sections; non-trivial: something was changed, or an equal non-empty configuration",
    run, 16000, 200000, {}, make_instance };
