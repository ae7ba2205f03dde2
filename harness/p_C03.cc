// C03: a mold written as JSON and read back is the same mold.
#include "model.h"
#include <disir/fslib/json.h>

static void run (Ctx& c)
{
    GenOpt o; o.crowd = 40;
    o.max_kids = 5; o.max_depth = c.s.range (1, 4);
    o.strings = c.s.range (0, 2);
    o.big_versions = c.s.below (4) == 3;
    o.valid_defaults = c.s.below (2) == 0;
    o.nonempty_sections = false;
    MoldSpec ms = gen_mold (c.s, o);
    c.log ("%s", dump (ms).c_str ());
    MoldH mold (build_mold (ms));
    std::string before = dump (observe_mold (mold.p));
    REQUIRE (before == dump (ms), "built mold differs from its specification: %s", dump_diff (dump (ms), before).c_str ());
    std::string js = with_output ([&] (FILE *f) { OKAY (dio_json_serialize_mold (instance (), mold.p, f)); });
    c.log ("json %s", js.c_str ());
    FILE *in = input_of (js);
    MoldH back;
    enum disir_status st = dio_json_unserialize_mold (instance (), in, &back.p);
    fclose (in);
    REQUIRE (st == DISIR_STATUS_OK && back.p, "reading back returned %s (%s)\n%s", ss (st), disir_error (instance ()), js.c_str ());
    std::string after = dump (observe_mold (back.p));
    REQUIRE (after == before, "mold changed: %s\n%s", dump_diff (before, after).c_str (), js.c_str ());
    REQUIRE (dump (observe_mold (mold.p)) == before, "serialising changed the mold");
    std::string js2 = with_output ([&] (FILE *f) { OKAY (dio_json_serialize_mold (instance (), back.p, f)); });
    REQUIRE (js2 == js, "second serialisation differs:\n%s\n%s", js.c_str (), js2.c_str ());
    bool nested = false; int restr = 0;
    std::function<void (const std::vector<MoldNode>&)> walk = [&] (const std::vector<MoldNode>& k)
    {
        for (auto& n : k)
        {
            if (n.section) { nested = true; walk (n.kids); if (n.kids.empty ()) c.label ("empty section"); }
            else { c.label (std::string ("type ") + vt_name (n.type)); if (n.defs.size () > 1) c.label ("several defaults"); }
            restr += n.excs.size () + n.incs.size ();
            if (!n.depr.zero ()) c.label ("deprecated");
            if (!n.doc.empty ()) c.label ("documented");
        }
    };
    walk (ms.kids);
    if (nested) c.label ("nested"); if (restr) c.label ("restrictions");
    if (nested || restr || ms.kids.size () >= 2) c.nontrivial ();
}
Property property = { "C03",
    "random mold (nesting <= 4, <= 5 elements a level, all types, several defaults, value and entry restrictions, deprecation, documentation); non-trivial: a section, a restriction or at least two elements",
    run, 8000, 120000, {}, make_instance };
