// C09: a query names exactly one element: the element with that name and occurrence number below
// each parent in turn. Every element is found by its own path and by the path the library resolves
// for it; absent elements, malformed queries and values of other types are reported as such; and
// nothing changes.
#include "model.h"

static std::string id_of (struct disir_context *ctx)
{
    const char *n = nullptr; int32_t sz = 0;
    OKAY (dc_get_name (ctx, &n, &sz));
    return n;
}
static void run (Ctx& c)
{
    GenOpt o; o.crowd = 30;
    o.max_depth = c.s.range (1, 4);
    o.max_entries = 5;
    o.strings = 2;
    bool deep = c.s.below (12) == 11;
    MoldSpec ms = gen_mold (c.s, o);
    Ver v = gen_version_of (c.s, ms);
    if (deep)
    {
        // a chain of sections far deeper than usual, with the keyval at its end
        int d = c.s.range (15, 60);
        MoldNode leaf; leaf.name = "leaf"; leaf.type = VINT; leaf.defs.push_back ({ Ver (1, 0), Val::integer (7) });
        MoldNode cur = leaf;
        int wide = 2;
        for (int i = 0; i < d; i++)
        {
            MoldNode up; up.section = true; up.name = fmt ("s%d", i); up.kids.push_back (cur);
            if (wide && c.s.below (8) == 7) { wide--; IncSpec inc; inc.max = true; inc.n = 3; up.incs.push_back (inc); }
            cur = up;
        }
        cur.name = "deepchain";
        bool clash = false;
        for (auto& k : ms.kids) clash |= k.name == cur.name;
        if (!clash) ms.kids.push_back (cur);
        c.label ("deep");
    }
    CfgSpec cs = gen_config (c.s, ms, v, o);
    auto paths = all_paths (cs, true, true);
    if (paths.empty ()) throw Discard ();
    MoldH mold (build_mold (ms));
    ConfigH cfg (build_config (mold.p, cs));
    c.log ("%s", dump (cs).c_str ());
    std::string before = dump (cs);
    bool nested = false, repeated = false;
    int n = c.s.range (1, 10);
    CtxH root (dc_config_getcontext (cfg.p));
    for (int k = 0; k < n; k++)
    {
        const Path& p = c.s.pick (paths);
        CfgNode& node = node_at (cs, p);
        std::string q = query_of (cs, p, &c.s), canon = query_of (cs, p);
        if (p.size () > 1) nested = true;
        if (canon.find ('@') != std::string::npos) repeated = true;
        switch (c.s.below (7))
        {
        case 0: case 1:                 // found by its own path
        {
            c.log ("resolve %s\n", q.c_str ());
            // from the root, or the rest of the path from an ancestor
            size_t cut = c.s.below (p.size ());
            Path up (p.begin (), p.begin () + cut);
            CtxH from (ctx_at (cfg.p, cs, up));
            std::string rest = q;
            for (size_t i = 0; i < cut; i++) rest = rest.substr (rest.find ('.') + 1);
            CtxH got;
            enum disir_status st = dc_query_resolve_context (from.p, "%s", &got.p, rest.c_str ());
            REQUIRE (st == DISIR_STATUS_OK && got.p, "query %s: %s", quote (rest).c_str (), ss (st));
            CtxH direct (ctx_at (cfg.p, cs, p));
            REQUIRE (got.p == direct.p, "query %s found another element", quote (rest).c_str ());
            REQUIRE (dc_context_type (got.p) == (node.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL) && id_of (got.p) == node.name,
                     "query %s found %s", quote (rest).c_str (), id_of (got.p).c_str ());
            if (!node.section) REQUIRE (get_value (got.p) == node.v, "query %s: value %s, expected %s", q.c_str (), get_value (got.p).dump ().c_str (), node.v.dump ().c_str ());
            char *name = nullptr;
            OKAY (dc_resolve_root_name (got.p, &name));
            std::string rn = name; free (name);
            REQUIRE (rn == canon, "the element at %s says its path is %s", canon.c_str (), rn.c_str ());
            break;
        }
        case 2:                         // typed read
        {
            if (node.section) break;
            VT t = c.s.below (3) == 2 ? (VT) c.s.range (VSTR, VENUM) : node.v.t;
            Val got;
            enum disir_status st;
            if (c.s.below (2)) st = get_by_query (cfg.p, t, q, got);
            else
            {
                // from the root, or the rest of the path from an ancestor
                size_t cut = c.s.below (p.size ());
                CtxH from (ctx_at (cfg.p, cs, Path (p.begin (), p.begin () + cut)));
                std::string rest = q;
                for (size_t i = 0; i < cut; i++) rest = rest.substr (rest.find ('.') + 1);
                st = get_below (from.p, t, rest, got);
            }
            c.log ("read %s as %s -> %s\n", q.c_str (), vt_name (t), ss (st));
            if (t == node.v.t) REQUIRE (st == DISIR_STATUS_OK && got == node.v, "reading %s: %s %s, expected %s", q.c_str (), ss (st), got.dump ().c_str (), node.v.dump ().c_str ());
            // enum and string reads both see a C string; only the documented distinction is claimed
            else if (!(t == VENUM && node.v.t == VSTR)) REQUIRE (st == DISIR_STATUS_WRONG_VALUE_TYPE, "reading a %s at %s as %s returned %s", vt_name (node.v.t), q.c_str (), vt_name (t), ss (st));
            break;
        }
        case 3:                         // an occurrence that does not exist
        {
            Path up (p.begin (), p.end () - 1);
            auto& kids = kids_at (cs, up);
            int cnt = count_of (kids, node.name);
            static const std::vector<std::string> far { "", "1", "10", "1000000", "2147483647" };
            std::string idx = c.s.pick (far);
            std::string uq = up.empty () ? "" : query_of (cs, up, &c.s) + ".";
            std::string qq = uq + node.name + "@" + (idx.empty () ? fmt ("%d", cnt) : fmt ("%lld", cnt + atoll (idx.c_str ())));
            if (idx == "2147483647") qq = uq + node.name + "@" + idx;
            if (c.s.below (3) == 2) qq = uq + node.name + "x9";
            c.log ("absent %s\n", qq.c_str ());
            CtxH got;
            enum disir_status st = dc_query_resolve_context (root.p, "%s", &got.p, qq.c_str ());
            REQUIRE (st == DISIR_STATUS_NOT_EXIST && !got.p, "query %s returned %s", qq.c_str (), ss (st));
            break;
        }
        case 4:                         // index too large to represent: never another element
        {
            static const std::vector<std::string> big { "4294967296", "4294967297", "2147483648", "9223372036854775807", "18446744073709551616", "99999999999999999999999", "-1", "-4294967296" };
            Path up (p.begin (), p.end () - 1);
            std::string qq = (up.empty () ? "" : query_of (cs, up) + ".") + node.name + "@" + c.s.pick (big);
            c.log ("far %s\n", qq.c_str ());
            CtxH got;
            enum disir_status st = dc_query_resolve_context (root.p, "%s", &got.p, qq.c_str ());
            REQUIRE (st != DISIR_STATUS_OK && !got.p, "query %s found an element", qq.c_str ());
            break;
        }
        case 5:                         // malformed
        {
            std::string bad;
            switch (c.s.below (6))
            {
            case 0: bad = "." + q; break;
            case 1: bad = "@" + q; break;
            case 2: bad = canon + (canon.rfind ('@') != std::string::npos && canon.rfind ('@') > (canon.rfind ('.') == std::string::npos ? 0 : canon.rfind ('.')) ? "x" : "@"); break;
            case 3: bad = query_of (cs, p) ; bad = bad.substr (0, bad.find_first_of ("@.")) + "@x"; break;
            case 4: bad = query_of (cs, p) ; bad = bad.substr (0, bad.find_first_of ("@.")) + "@0y"; break;
            default: { if (!node.section) bad = "@0"; else bad = canon + ".@1"; }
            }
            c.log ("malformed %s\n", bad.c_str ());
            CtxH got;
            enum disir_status st = dc_query_resolve_context (root.p, "%s", &got.p, bad.c_str ());
            REQUIRE (st == DISIR_STATUS_INVALID_ARGUMENT && !got.p, "malformed query %s returned %s", bad.c_str (), ss (st));
            break;
        }
        default:                        // below a keyval, or too long
        {
            CtxH got;
            if (c.s.below (2) == 0 && !node.section)
            {
                enum disir_status st = dc_query_resolve_context (root.p, "%s.%s", &got.p, q.c_str (), "below");
                REQUIRE (st == DISIR_STATUS_WRONG_CONTEXT && !got.p, "query below the keyval %s returned %s", q.c_str (), ss (st));
            }
            else
            {
                if (c.s.below (3) == 2)
                {
                    // an index written with leading zeros until the query is (almost) too long
                    size_t len = 2047 + c.s.range (0, 3) - 2 * c.s.below (2);
                    size_t at = canon.rfind ('@'), dot = canon.rfind ('.');
                    bool has = at != std::string::npos && (dot == std::string::npos || at > dot);
                    std::string head = has ? canon.substr (0, at + 1) : canon + "@", idx = has ? canon.substr (at + 1) : "0";
                    if (head.size () + idx.size () < len)
                    {
                        std::string lq = head + std::string (len - head.size () - idx.size (), '0') + idx;
                        enum disir_status st = dc_query_resolve_context (root.p, "%s", &got.p, lq.c_str ());
                        c.label ("long index");
                        CtxH direct (ctx_at (cfg.p, cs, p));
                        if (len >= 2048) REQUIRE (st == DISIR_STATUS_INSUFFICIENT_RESOURCES && !got.p, "query %s with its index padded to %zu bytes returned %s", canon.c_str (), len, ss (st));
                        else REQUIRE (st == DISIR_STATUS_OK && got.p == direct.p, "query %s with its index padded to %zu bytes returned %s", canon.c_str (), len, ss (st));
                        break;
                    }
                }
                // names in the query are limited to 2047 bytes, whatever they hold
                size_t len = 2047 + c.s.range (0, 3);
                std::string lq (len, "a."[c.s.below (2)]);
                if (lq[0] == '.') lq[0] = 'a';
                if (c.s.below (2)) for (size_t i = 1; i < len; i += 2) lq[i] = '.', lq[i - 1] = 'q';
                enum disir_status st = dc_query_resolve_context (root.p, "%s", &got.p, lq.c_str ());
                c.label ("long query");
                REQUIRE (!got.p && (len >= 2048 ? st == DISIR_STATUS_INSUFFICIENT_RESOURCES : st == DISIR_STATUS_NOT_EXIST || st == DISIR_STATUS_INVALID_ARGUMENT),
                         "query of %zu bytes returned %s", len, ss (st));
            }
        }
        }
    }
    root.reset ();
    std::string after = dump (observe_config (cfg.p));
    REQUIRE (after == before, "reading changed the configuration: %s", dump_diff (before, after).c_str ());
    if (nested || repeated) c.nontrivial ();
}
Property property = { "C09",
    "random valid configuration (nesting <= 4, sometimes 15-60, repeated elements), 1-10 queries: existing paths from the root or an ancestor, typed reads, absent occurrences, indices beyond int, malformed text, over-long text; non-trivial: nested or repeated elements queried",
    run, 9000, 150000, {}, make_instance };
