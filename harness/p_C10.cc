// C10: setting by query creates exactly what is missing (the sections on the way, filled with
// their defaults, and the keyval), refuses what the mold does not allow, and leaves the
// configuration exactly as it was whenever it refuses.
#include "model.h"

// Where a set by query leads: the model of the configuration afterwards, or refusal.
static bool set_model (const MoldSpec& ms, CfgSpec& cs, const std::vector<std::pair<std::string, int>>& steps, const Val& val, std::string& why)
{
    CfgSpec work = cs;
    std::vector<CfgNode> *kids = &work.kids;
    const std::vector<MoldNode> *mk = &ms.kids;
    for (size_t i = 0; i < steps.size (); i++)
    {
        bool last = i + 1 == steps.size ();
        const MoldNode *mn = nullptr;
        for (auto& m : *mk) if (m.name == steps[i].first) mn = &m;
        if (!mn) { why = "not in the mold"; return false; }
        if (mn->section == last) { why = last ? "a section" : "below a keyval"; return false; }
        int at = nth_of (*kids, steps[i].first, steps[i].second);
        if (at < 0)
        {
            int cnt = count_of (*kids, steps[i].first), mx = max_entries (*mn, work.version);
            if (steps[i].second != cnt) { why = "gap"; return false; }
            if (mx != 0 && cnt >= mx) { why = "maximum"; return false; }
            CfgNode nn; nn.name = mn->name; nn.section = mn->section;
            if (!last)
            {
                MoldSpec sub; sub.kids = mn->kids;
                nn.kids = generate_model (sub, work.version).kids;
                // generation refuses defaults the mold forbids at this version
                std::function<bool (const std::vector<MoldNode>&, const std::vector<CfgNode>&)> ok = [&] (const std::vector<MoldNode>& m, const std::vector<CfgNode>& k)
                {
                    for (auto& x : k)
                    {
                        const MoldNode *n = nullptr;
                        for (auto& y : m) if (y.name == x.name) n = &y;
                        if (x.section ? !ok (n->kids, x.kids) : !value_allowed (*n, x.v, work.version)) return false;
                    }
                    return true;
                };
                if (!ok (mn->kids, nn.kids)) { why = "a default is forbidden"; return false; }
            }
            else nn.v = val;
            kids->push_back (nn);
            at = (int) kids->size () - 1;
        }
        if (last)
        {
            if (val.t != mn->type) { why = "wrong type"; return false; }
            if (!value_allowed (*mn, val, work.version)) { why = "forbidden value"; return false; }
            (*kids)[at].v = val;
        }
        kids = &(*kids)[at].kids;
        mk = &mn->kids;
    }
    cs = work;
    return true;
}
static void run (Ctx& c)
{
    GenOpt o; o.crowd = 30;
    o.max_depth = c.s.range (2, 4);
    o.max_entries = 4;
    o.strings = c.s.range (0, 2);
    o.valid_defaults = c.s.below (6) != 5;
    MoldSpec ms = gen_mold (c.s, o);
    Ver v = gen_version_of (c.s, ms);
    CfgSpec cs;
    if (c.s.below (3) == 2) cs.version = v;     // empty: minimums are not met, which is allowed to be
    else if (o.valid_defaults) cs = gen_config (c.s, ms, v, o);
    else cs.version = v;
    MoldH mold (build_mold (ms));
    ConfigH cfg;
    if (cs.kids.empty ())
    {
        struct disir_context *root = nullptr; struct disir_version cv = v.c ();
        OKAY (dc_config_begin (mold.p, &root));
        OKAY (dc_set_version (root, &cv));
        enum disir_status st = dc_config_finalize (&root, &cfg.p);
        REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT, "finalizing an empty configuration returned %s", ss (st));
        if (!cfg.p) throw Discard ();
    }
    else cfg.p = build_config (mold.p, cs);
    c.log ("%s%s", dump (ms).c_str (), dump (cs).c_str ());
    int n = c.s.range (1, 12), created = 0, refused = 0, deep = 0;
    for (int k = 0; k < n; k++)
    {
        if (c.s.below (6) == 5)
        {
            // an element is removed
            auto paths = all_paths (cs, true, true);
            if (paths.empty ()) continue;
            Path p = c.s.pick (paths);
            c.log ("remove %s\n", query_of (cs, p).c_str ());
            struct disir_context *x = ctx_at (cfg.p, cs, p);
            OKAY (dc_destroy (&x));
            auto& from = kids_at (cs, Path (p.begin (), p.end () - 1));
            from.erase (from.begin () + p.back ());
            c.label ("removed");
            std::string w = dump (cs), g = dump (observe_config (cfg.p));
            REQUIRE (w == g, "after an element was removed: %s", dump_diff (w, g).c_str ());
            for (auto& q : all_paths (cs, true, true))
            {
                if (c.s.below (4) != 3) continue;
                CtxH got, direct (ctx_at (cfg.p, cs, q));
                CtxH root (dc_config_getcontext (cfg.p));
                enum disir_status st = dc_query_resolve_context (root.p, "%s", &got.p, query_of (cs, q).c_str ());
                REQUIRE (st == DISIR_STATUS_OK && got.p == direct.p, "after an element was removed, %s is not found: %s", query_of (cs, q).c_str (), ss (st));
            }
            continue;
        }
        // walk the mold to a target, choosing the occurrence at each level around the present count
        std::vector<std::pair<std::string, int>> steps;
        const std::vector<MoldNode> *mk = &ms.kids;
        std::vector<CfgNode> *kids = &cs.kids;
        std::vector<CfgNode> none;
        const MoldNode *mn = nullptr;
        int missing = 0;
        for (;;)
        {
            if (mk->empty ()) break;
            mn = &c.s.pick (*mk);
            int cnt = count_of (*kids, mn->name), idx;
            switch (c.s.below (5))
            {
            case 0: case 1: idx = cnt ? (int) c.s.below (cnt) : 0; break;
            case 2: case 3: idx = cnt; break;
            default: idx = cnt + c.s.range (1, 2);
            }
            std::string name = mn->name;
            if (c.s.below (25) == 24) name += "zz";
            steps.push_back ({ name, idx });
            int at = nth_of (*kids, mn->name, idx);
            if (at < 0) missing++;
            if (!mn->section || c.s.below (20) == 19) break;
            // below a section that does not exist yet: what its defaults will bring
            if (at < 0)
            {
                MoldSpec sub; sub.kids = mn->kids;
                none = generate_model (sub, v).kids;
                kids = &none;
            }
            else kids = &(*kids)[at].kids;
            mk = &mn->kids;
            if (kids == &none) { static thread_local std::vector<CfgNode> hold; hold = none; kids = &hold; }
        }
        if (steps.empty ()) break;
        if (!mn->section && c.s.below (30) == 29) steps.push_back ({ "below", 0 });
        Val val = mn->section ? gen_value (c.s, VINT, o) : gen_try (c.s, *mn, v, o);
        std::string q;
        for (auto& s : steps)
        {
            if (!q.empty ()) q += ".";
            q += s.first;
            if (s.second || c.s.below (2)) q += fmt ("@%d", s.second);
        }
        if (c.s.below (30) == 29) q += ".";
        std::string why;
        CfgSpec want = cs;
        bool ok = q.back () != '.' && set_model (ms, want, steps, val, why);
        c.log ("set %s = %s (%s)\n", q.c_str (), val.dump ().c_str (), ok ? "ok" : why.c_str ());
        enum disir_status st = set_by_query (cfg.p, val, q);
        REQUIRE ((st == DISIR_STATUS_OK) == ok, "set by query %s = %s returned %s, expected %s", q.c_str (), val.dump ().c_str (), ss (st), ok ? "success" : why.c_str ());
        if (!ok) { refused++; c.label (why); }
        else { cs = want; if (missing) created++; if (missing > 1) deep++; }
        std::string w = dump (cs), g = dump (observe_config (cfg.p));
        REQUIRE (w == g, "after %s set by query %s: %s", ok ? "a" : "the refused", q.c_str (), dump_diff (w, g).c_str ());
    }
    if (deep) c.label ("sections created on the way");
    if (created && refused) c.nontrivial ();
}
Property property = { "C10",
    "random mold (2-4 levels), empty or valid configuration, 1-12 sets by query along mold paths with present, next and absent occurrence numbers, unknown names, wrong types and forbidden values, elements removed in between; non-trivial: something created and something refused",
    run, 9000, 150000, {}, make_instance };
