// C01: a configuration written as JSON and read back is the same configuration.
#include "model.h"
#include <disir/fslib/json.h>

static GenOpt opts (Src& s)
{
    GenOpt o; o.crowd = 40;
    o.max_kids = 5; o.max_depth = s.range (1, 4);
    o.strings = s.range (0, 2);
    o.big_versions = s.below (4) == 3;
    return o;
}
static void run (Ctx& c)
{
    GenOpt o = opts (c.s);
    MoldSpec ms = gen_mold (c.s, o);
    Ver v = gen_version_of (c.s, ms);
    CfgSpec cs = gen_config (c.s, ms, v, o);
    c.log ("%s%s", dump (ms).c_str (), dump (cs).c_str ());
    MoldH mold (build_mold (ms));
    ConfigH cfg (build_config (mold.p, cs));
    std::string before = dump (observe_config (cfg.p));
    REQUIRE (before == dump (cs), "built configuration differs from its specification: %s", dump_diff (dump (cs), before).c_str ());
    std::string js = with_output ([&] (FILE *f) { OKAY (dio_json_serialize_config (instance (), cfg.p, f)); });
    c.log ("json %s", js.c_str ());
    FILE *in = input_of (js);
    ConfigH back;
    enum disir_status st = dio_json_unserialize_config (instance (), in, mold.p, &back.p);
    fclose (in);
    REQUIRE (st == DISIR_STATUS_OK && back.p, "reading back returned %s (%s)\n%s", ss (st), disir_error (instance ()), js.c_str ());
    // The format keeps the order of elements by first appearance of their name, except inside
    // repeated sections, where it sorts names.
    CfgSpec got = observe_config (back.p);
    std::string want = dump (grouped (cs, 1)), after = dump (grouped (got, 1));
    REQUIRE (after == want, "configuration changed: %s\n%s", dump_diff (want, after).c_str (), js.c_str ());
    // serialising does not change the source, and writing again gives the same bytes
    REQUIRE (dump (observe_config (cfg.p)) == before, "serialising changed the configuration");
    std::string js2 = with_output ([&] (FILE *f) { OKAY (dio_json_serialize_config (instance (), back.p, f)); });
    REQUIRE (js2 == js, "second serialisation differs:\n%s\n%s", js.c_str (), js2.c_str ());
    bool nested = false, multi = false;
    std::function<void (const std::vector<CfgNode>&)> walk = [&] (const std::vector<CfgNode>& k)
    {
        std::map<std::string, int> cnt;
        for (auto& n : k) { if (++cnt[n.name] > 1) multi = true; if (n.section) { nested = true; walk (n.kids); }
                            else c.label (std::string ("value ") + vt_name (n.v.t)); }
    };
    walk (cs.kids);
    if (nested) c.label ("nested"); if (multi) c.label ("repeated element");
    if (cs.kids.size () >= 2 || nested) c.nontrivial ();
}
Property property = { "C01",
    "random mold (nesting <= 4, <= 5 elements a level, versions, restrictions, entry limits) and a random valid configuration of it at a random version; non-trivial: at least two elements or a section",
    run, 8000, 120000, {}, make_instance };
