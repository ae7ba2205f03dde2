// C06: the number of times an element may and must occur is enforced over every history of adding
// and removing elements: no element is ever added beyond the maximum of the configuration's
// version, a refused addition changes nothing, and the validity report is exact after every step.
#include "model.h"

static bool kids_valid (const MoldNode& mn, const std::vector<CfgNode>& kids, Ver v)
{
    MoldSpec m; m.kids = mn.kids;
    CfgSpec c; c.version = v; c.kids = kids;
    return invalid_model (m, c).empty ();
}
struct Pending { Path parent; CfgNode node; const MoldNode *mn; struct disir_context *ctx; };
struct Pendings : std::vector<Pending>
{
    ~Pendings () { for (auto& p : *this) if (p.ctx) dc_destroy (&p.ctx); }
};
static void run (Ctx& c)
{
    GenOpt o; o.crowd = 40;
    o.max_kids = 4;
    o.max_depth = c.s.range (1, 3);
    o.max_entries = c.s.range (2, 5);
    o.types = 0x3e; o.strings = 0; o.docs = false;
    o.nonempty_sections = c.s.below (2);
    MoldSpec ms = gen_mold (c.s, o);
    Ver v = gen_version_of (c.s, ms);
    CfgSpec cs; cs.version = v;
    if (c.s.below (3) != 2) cs = gen_config (c.s, ms, v, o);
    MoldH mold (build_mold (ms));
    enum disir_status st;
    ConfigH cfg (build_config_lax (mold.p, cs, &st));
    c.log ("%s%s", dump (ms).c_str (), dump (cs).c_str ());
    Pendings pend;
    int n = c.s.range (1, 16), added = 0, refused = 0, removed = 0;
    bool was_invalid = false;
    for (int k = 0; k < n; k++)
    {
        int what = (int) c.s.weighted ({ 6, 3, 2 });
        if (what == 1 && !pend.empty ()) what = 2;
        if (what == 2 && pend.empty ()) what = 0;
        if (k + 1 == n && !pend.empty ()) { what = 2; n = k + 2; }
        auto finish = [&] (size_t i)
        {
            Pending p = pend[i];
            pend.erase (pend.begin () + i);
            auto& kids = kids_at (cs, p.parent);
            int mx = max_entries (*p.mn, v), cnt = count_of (kids, p.node.name);
            bool ok = (mx == 0 || cnt < mx) && (!p.node.section || kids_valid (*p.mn, p.node.kids, v));
            c.log ("finish %s (%d present, maximum %d): %s\n", p.node.name.c_str (), cnt, mx, ok ? "ok" : "refused");
            enum disir_status st = dc_finalize (&p.ctx);
            REQUIRE ((st == DISIR_STATUS_OK) == ok, "finalizing %s (%d present, maximum %d) returned %s", p.node.name.c_str (), cnt, mx, ss (st));
            if (ok) { kids.push_back (p.node); added++; }
            else
            {
                refused++;
                REQUIRE (p.ctx, "the refused element was taken");
                OKAY (dc_destroy (&p.ctx));
            }
        };
        if (what == 0)
        {
            auto secs = all_paths (cs, false, true);
            Path at; if (!secs.empty () && c.s.below (2)) at = c.s.pick (secs);
            auto& mk = mold_kids_at (ms, cs, at);
            if (mk.empty ()) continue;
            const MoldNode& mn = c.s.pick (mk);
            int mx = max_entries (mn, v), cnt = count_of (kids_at (cs, at), mn.name);
            if (all_paths (cs, true, true).size () > 150) continue;
            CtxH parent (ctx_at (cfg.p, cs, at)), kid;
            OKAY (dc_begin (parent.p, mn.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &kid.p));
            c.log ("add %s to %s (%d present, maximum %d)\n", mn.name.c_str (), at.empty () ? "<root>" : query_of (cs, at).c_str (), cnt, mx);
            enum disir_status st = dc_set_name (kid.p, mn.name.c_str (), (int32_t) mn.name.size ());
            if (mx != 0 && cnt >= mx)
            {
                REQUIRE (st == DISIR_STATUS_RESTRICTION_VIOLATED, "%d of %s present, maximum %d, but one more is named: %s", cnt, mn.name.c_str (), mx, ss (st));
                OKAY (dc_destroy (&kid.p));
                refused++;
            }
            else
            {
                OKAY (st);
                Pending p; p.parent = at; p.mn = &mn; p.node.name = mn.name; p.node.section = mn.section;
                if (mn.section)
                {
                    p.node.kids = gen_config_kids (c.s, mn.kids, v, o);
                    if (c.s.below (3) == 2 && !p.node.kids.empty ())
                    {
                        int i = c.s.below (p.node.kids.size ());
                        if (c.s.below (2)) p.node.kids.erase (p.node.kids.begin () + i);
                        else { CfgNode x = p.node.kids[i]; p.node.kids.push_back (x); }
                    }
                    add_cfg_lax (kid.p, p.node.kids);
                }
                else
                {
                    p.node.v = gen_allowed (c.s, mn, v, o);
                    OKAY (set_value (kid.p, p.node.v));
                }
                p.ctx = kid.p; kid.p = nullptr;
                pend.push_back (p);
                if (c.s.below (4) != 3) finish (pend.size () - 1);
                else c.label ("several additions under way");
            }
        }
        else if (what == 1)
        {
            auto all = all_paths (cs, true, true);
            if (all.empty ()) continue;
            Path p = c.s.pick (all);
            c.log ("remove %s\n", query_of (cs, p).c_str ());
            struct disir_context *ctx = ctx_at (cfg.p, cs, p);
            enum disir_status st = dc_destroy (&ctx);
            REQUIRE (st == DISIR_STATUS_OK, "removing %s returned %s", query_of (cs, p).c_str (), ss (st));
            Path up (p.begin (), p.end () - 1);
            auto& kids = kids_at (cs, up);
            kids.erase (kids.begin () + p.back ());
            removed++;
        }
        else finish (c.s.below (pend.size ()));
        std::string w = dump (cs), g = dump (observe_config (cfg.p));
        REQUIRE (w == g, "after the step: %s", dump_diff (w, g).c_str ());
        auto wi = invalid_model (ms, cs);
        enum disir_status valid;
        auto gi = observe_invalid (cfg.p, &valid);
        REQUIRE (wi == gi, "validity report %s, expected %s", join (gi).c_str (), join (wi).c_str ());
        REQUIRE ((valid == DISIR_STATUS_OK) == wi.empty (), "%zu elements are invalid but the configuration is reported %s", wi.size (), ss (valid));
        was_invalid |= !wi.empty ();
    }
    if (was_invalid) c.label ("invalid on the way");
    if (refused && added && removed) c.nontrivial ();
}
Property property = { "C06",
    "random mold with minimum/maximum entries that change over versions, empty or valid configuration, 1-16 additions (also several under way at once, also sections with wrong contents) and removals of keyvals and sections at any level; non-trivial: something added, something removed and an addition refused",
    run, 9000, 150000, {}, make_instance };
