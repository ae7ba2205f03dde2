// C04: generating a configuration from a mold at any version gives exactly the elements and
// defaults the mold prescribes for that version.
#include "model.h"

static bool all_allowed (const std::vector<MoldNode>& m, const std::vector<CfgNode>& kids, Ver v)
{
    for (auto& k : kids)
    {
        const MoldNode *n = nullptr;
        for (auto& x : m) if (x.name == k.name) n = &x;
        if (k.section ? !all_allowed (n->kids, k.kids, v) : !value_allowed (*n, k.v, v)) return false;
    }
    return true;
}
static void run (Ctx& c)
{
    GenOpt o; o.crowd = 40;
    o.max_kids = 6; o.max_depth = c.s.range (1, 4);
    o.strings = c.s.range (0, 2);
    o.big_versions = c.s.below (5) == 4;
    o.valid_defaults = c.s.below (4) != 3;
    o.nonempty_sections = false;
    MoldSpec ms = gen_mold (c.s, o);
    MoldH mold (build_mold (ms));
    std::string before = dump (observe_mold (mold.p));
    Ver top = ms.version ();
    struct disir_version mv;
    OKAY (dc_mold_get_version (mold.p, &mv));
    REQUIRE (Ver (mv.sv_major, mv.sv_minor) == top, "mold version is %u.%u, expected %s\n%s", mv.sv_major, mv.sv_minor, top.str ().c_str (), dump (ms).c_str ());
    int n = c.s.range (1, 4);
    c.log ("%s", dump (ms).c_str ());
    for (int k = 0; k < n; k++)
    {
        bool null = c.s.below (4) == 3;
        Ver v = null ? top : gen_version_of (c.s, ms, c.s.below (4) == 3);
        c.log ("generate at %s%s\n", v.str ().c_str (), null ? " (no version given)" : "");
        struct disir_version cv = v.c ();
        ConfigH cfg;
        enum disir_status st = disir_generate_config_from_mold (mold.p, null ? nullptr : &cv, &cfg.p);
        if (v > top)
        {
            c.label ("version above the mold");
            REQUIRE (st == DISIR_STATUS_CONFLICTING_SEMVER && !cfg.p, "generating above the mold version returned %s", ss (st));
            continue;
        }
        CfgSpec want = generate_model (ms, v);
        if (!all_allowed (ms.kids, want.kids, v))
        {
            c.label ("a default is not allowed");
            REQUIRE (st != DISIR_STATUS_OK && !cfg.p, "a default violates its own restrictions at %s, generation returned %s", v.str ().c_str (), ss (st));
            continue;
        }
        REQUIRE (st == DISIR_STATUS_OK && cfg.p, "generation at %s returned %s", v.str ().c_str (), ss (st));
        std::string got = dump (observe_config (cfg.p));
        REQUIRE (got == dump (want), "at %s: %s", v.str ().c_str (), dump_diff (dump (want), got).c_str ());
        struct disir_collection *col = nullptr;
        st = disir_config_valid (cfg.p, &col);
        if (col) dc_collection_finished (&col);
        REQUIRE (st == DISIR_STATUS_OK, "generated configuration is reported %s", ss (st));
        // the same through a configuration root under construction
        if (c.s.below (3) == 2)
        {
            c.label ("from a root under construction");
            CtxH root;
            OKAY (dc_config_begin (mold.p, &root.p));
            OKAY (dc_set_version (root.p, &cv));
            OKAY (dc_generate_from_config_root (root.p));
            std::string g2 = dump (observe_config_ctx (root.p));
            REQUIRE (g2 == dump (want), "from root at %s: %s", v.str ().c_str (), dump_diff (dump (want), g2).c_str ());
            OKAY (dc_destroy (&root.p));
        }
        bool partial = false;
        for (auto& x : ms.kids) if (min_entries (x, v) != 1) partial = true;
        if (v != top) c.label ("below the mold version");
        if (want.kids.size () && (partial || v != top)) c.nontrivial ();
    }
    REQUIRE (dump (observe_mold (mold.p)) == before, "generation changed the mold");
}
Property property = { "C04",
    "random mold (nesting <= 4, <= 6 elements a level, several defaults, entry limits, deprecations, optional unsatisfied defaults), generated at 1-4 versions (mentioned, between, above, none); non-trivial: a non-empty result at a version below the mold's, or with elements that do not occur exactly once",
    run, 9000, 150000, {}, make_instance };
