// C05: a configuration never comes to hold a value its mold forbids: setting a value is accepted
// exactly when the restrictions active at the configuration's version allow it, whichever way
// the value is set; a refused value changes nothing.
#include "model.h"
#include <cmath>

static void run (Ctx& c)
{
    GenOpt o;
    o.max_depth = c.s.range (1, 3);
    o.strings = c.s.range (0, 2);
    o.big_versions = c.s.below (6) == 5;
    MoldSpec ms = gen_mold (c.s, o);
    Ver v = gen_version_of (c.s, ms);
    CfgSpec cs = gen_config (c.s, ms, v, o);
    auto paths = all_paths (cs, true, false);
    if (paths.empty ()) throw Discard ();
    MoldH mold (build_mold (ms));
    ConfigH cfg (build_config (mold.p, cs));
    c.log ("%s%s", dump (ms).c_str (), dump (cs).c_str ());
    int steps = c.s.range (1, 12), refused = 0, accepted = 0;
    for (int k = 0; k < steps; k++)
    {
        const Path& p = c.s.pick (paths);
        const MoldNode& mn = *mold_at (ms, cs, p);
        Val val = gen_try (c.s, mn, v, o);
        std::string q = query_of (cs, p, &c.s);
        bool typed = val.t == mn.type;
        bool allowed = typed && value_allowed (mn, val, v);
        int how = c.s.below (4);
        enum disir_status st;
        const char *hows[] = { "context", "query", "text", "default" };
        Ver dv;
        bool newest = false;
        if (how == 3)
        {
            // the default of some version, which may not be allowed at this one
            newest = c.s.below (3) == 2;
            dv = gen_version_of (c.s, ms, true);
            val = newest ? highest_default (mn).v : active_default (mn, dv).v;
            typed = true; allowed = value_allowed (mn, val, v);
        }
        if (how == 2 && (!typed || (val.t == VFLT && !std::isfinite (val.f)))) how = 0;
        if (val.t == VENUM && val.s.empty () && how == 2) how = 0;
        c.log ("set %s to %s by %s (%s)\n", q.c_str (), val.dump ().c_str (), hows[how], allowed ? "allowed" : typed ? "forbidden" : "wrong type");
        std::string text = "x";
        if (how == 3)
        {
            CtxH ctx (ctx_at (cfg.p, cs, p));
            struct disir_version cv = dv.c ();
            st = dc_keyval_set_default (ctx.p, newest ? nullptr : &cv);
        }
        else if (how == 0)
        {
            CtxH ctx (ctx_at (cfg.p, cs, p));
            st = set_value (ctx.p, val);
        }
        else if (how == 1) st = set_by_query (cfg.p, val, q);
        else
        {
            bool garbage = val.t != VSTR && val.t != VENUM && c.s.below (6) == 5;
            switch (val.t)
            {
            case VSTR: case VENUM: text = val.s; break;
            case VINT: text = fmt ("%lld", (long long) val.i); break;
            case VFLT: text = fmt ("%.17g", val.f); break;
            default: text = val.b ? c.s.pick (std::vector<std::string> { "1", "t", "True", "TRUE" })
                                  : c.s.pick (std::vector<std::string> { "0", "f", "False", "FALSE" });
            }
            if (garbage) { text = c.s.pick (std::vector<std::string> { "", "x", "-", "zero" }); allowed = typed = false; c.log ("  as text %s\n", quote (text).c_str ()); }
            CtxH ctx (ctx_at (cfg.p, cs, p));
            // the text is not NUL terminated right after its length when it is a string
            std::string buf = text;
            if (val.t == VSTR || val.t == VENUM) buf += c.s.below (2) ? "_tail" : "";
            st = dc_set_value (ctx.p, buf.c_str (), (int32_t) text.size ());
            if (garbage)
                REQUIRE (st == DISIR_STATUS_INVALID_ARGUMENT, "text %s for %s returned %s", quote (text).c_str (), vt_name (mn.type), ss (st));
        }
        if (allowed)
        {
            REQUIRE (st == DISIR_STATUS_OK, "allowed value refused with %s", ss (st));
            node_at (cs, p).v = val;
            accepted++;
        }
        else if (typed)
        {
            REQUIRE (st == DISIR_STATUS_RESTRICTION_VIOLATED, "forbidden value returned %s", ss (st));
            refused++;
        }
        else REQUIRE (st == DISIR_STATUS_WRONG_VALUE_TYPE || st == DISIR_STATUS_INVALID_ARGUMENT, "value of the wrong type returned %s", ss (st));
        std::string want = dump (cs), got = dump (observe_config (cfg.p));
        REQUIRE (want == got, "after the step: %s", dump_diff (want, got).c_str ());
        enum disir_status valid;
        auto inv = observe_invalid (cfg.p, &valid);
        REQUIRE (valid == DISIR_STATUS_OK && inv.empty (), "the configuration is now reported %s (%s)", ss (valid), join (inv).c_str ());
    }
    if (refused) c.label ("a value was refused");
    if (refused && accepted) c.nontrivial ();
}
Property property = { "C05",
    "random mold with restrictions that come and go over versions, a valid configuration at one of its versions, then 1-12 sets by context, query or text of values at, next to and away from every restriction and of other types, or of the default of any version; non-trivial: at least one value refused by a restriction and one accepted",
    run, 9000, 150000, {}, make_instance };
