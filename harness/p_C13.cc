// C13: children are kept in the order they were added, whole and by name, and a walk over them
// stays right while elements are removed and added underneath it: it returns every remaining
// element exactly once, in order, and never a removed one.
#include "model.h"
#include <algorithm>
#include <memory>

// an element of the parent under test, known by its place in order of addition
struct El { std::string name; int64_t val; bool section, alive; struct disir_context *ref; };
struct Walk { std::vector<int> els; size_t pos = 0; struct disir_collection *p = nullptr; };

static void run (Ctx& c)
{
    bool is_mold = c.s.below (4) == 3;
    // wide: more names and more occurrences than fit the first size of the element table
    bool wide = c.s.below (12) == 11;
    int nn = wide ? c.s.range (1, 60) : c.s.range (1, 4);
    MoldSpec ms;
    GenOpt o;
    for (int i = 0; i < nn; i++)
    {
        MoldNode n; n.name = wide ? fmt ("%c%d", 'a' + c.s.below (26), i) : std::string (1, 'a' + i) + (c.s.below (3) == 2 ? gen_name (c.s) : "");
        n.section = c.s.below (4) == 3;
        if (!n.section) { DefSpec d; d.v = Val::integer (0); n.defs.push_back (d); }
        IncSpec mx; mx.max = true; mx.n = 0; IncSpec mn; mn.n = 0;
        n.incs = { mx, mn };
        ms.kids.push_back (n);
    }
    std::vector<MoldNode> tops = ms.kids;
    bool nested = !is_mold && c.s.below (2);
    if (nested)
    {
        MoldNode s; s.section = true; s.name = "outer"; s.kids = ms.kids; IncSpec mn; mn.n = 1; s.incs = { mn };
        ms.kids = { s };
    }
    struct disir_version one; one.sv_major = 1; one.sv_minor = 0;
    MoldH mold (build_mold (ms));
    CtxH root, parent;
    ConfigH cfg;
    bool constructing = is_mold || c.s.below (4) == 3;
    if (is_mold) OKAY (dc_mold_begin (&root.p));
    else if (constructing) { OKAY (dc_config_begin (mold.p, &root.p)); if (nested) OKAY (dc_generate_from_config_root (root.p)); }
    else { CfgSpec cs = generate_model (ms, Ver (1, 0)); cfg.p = build_config (mold.p, cs); root.p = dc_config_getcontext (cfg.p); }
    struct Release { CtxH& r; bool on; ~Release () { if (on && r.p) dc_destroy (&r.p); } } release { root, constructing };
    struct disir_context *par = root.p;
    if (nested) { OKAY (dc_find_element (root.p, "outer", 0, &parent.p)); par = parent.p; }

    std::vector<El> els;
    std::vector<Walk> walks;
    struct Clean { std::vector<El>& e; std::vector<Walk>& w; ~Clean () { for (auto& x : w) if (x.p) dc_collection_finished (&x.p); for (auto& x : e) if (x.ref) dc_putcontext (&x.ref); } } clean { els, walks };
    int64_t serial = 0;
    int ops = c.s.range (1, 40), removed = 0, walked = 0, under = 0;
    auto id_of = [&] (struct disir_context *x, const char *what) -> int
    {
        for (size_t i = 0; i < els.size (); i++)
            if (els[i].ref == x)
            {
                REQUIRE (els[i].alive, "%s returned the removed element %zu (%s)", what, i, els[i].name.c_str ());
                return (int) i;
            }
        fail ("%s returned an element that was never added", what);
    };
    for (int k = 0; k < ops; k++)
    {
        int op = (int) c.s.weighted ({ 6, 3, 2, 6, 1, 2, 1 });
        int many = wide && c.s.below (3) == 2 ? c.s.range (1, 30) : 1;
        std::vector<int> alive;
        for (size_t i = 0; i < els.size (); i++) if (els[i].alive) alive.push_back ((int) i);
        if (op == 0 || (op == 1 && alive.empty ()))
        {
            while (many--)
            {
                const MoldNode& n = c.s.pick (tops);
                // a mold knows every name once
                std::string name = is_mold ? fmt ("%s_%lld", n.name.c_str (), (long long) serial) : n.name;
                CtxH x;
                OKAY (dc_begin (par, n.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &x.p));
                if (is_mold && !n.section) OKAY (dc_set_value_type (x.p, DISIR_VALUE_TYPE_INTEGER));
                OKAY (dc_set_name (x.p, name.c_str (), (int32_t) name.size ()));
                if (!n.section) { if (is_mold) OKAY (dc_add_default_integer (x.p, serial, &one)); else OKAY (dc_set_value_integer (x.p, serial)); }
                OKAY (dc_finalize_keep_reference (x.p));
                c.log ("add %s #%zu\n", name.c_str (), els.size ());
                els.push_back (El { name, serial++, n.section, true, x.p });
                x.p = nullptr;
            }
        }
        else if (op == 1)
        {
            while (many--)
            {
                alive.clear ();
                for (size_t i = 0; i < els.size (); i++) if (els[i].alive) alive.push_back ((int) i);
                if (alive.empty ()) break;
                int i = c.s.below (3) == 2 ? alive.back () : c.s.pick (alive);
                c.log ("remove #%d\n", i);
                // keep one reference, so that addresses are not reused
                struct disir_context *x = nullptr;
                struct disir_collection *col = nullptr;
                OKAY (dc_find_elements (par, els[i].name.c_str (), &col));
                while (dc_collection_next (col, &x) == DISIR_STATUS_OK && x != els[i].ref) dc_putcontext (&x);
                dc_collection_finished (&col);
                REQUIRE (x == els[i].ref, "#%d is not found by its name", i);
                OKAY (dc_destroy (&x));
                els[i].alive = false;
                removed++;
                for (auto& w : walks) if (w.pos) under++;
            }
        }
        else if (op == 2)
        {
            if (walks.size () > 6) continue;
            Walk w;
            int how = c.s.below (3);
            if (how == 0) { w.els = alive; OKAY (dc_get_elements (par, &w.p)); }
            else if (how == 1)
            {
                std::string nm = els.empty () ? "none" : c.s.pick (els).name;
                for (int i : alive) if (els[i].name == nm) w.els.push_back (i);
                enum disir_status st = dc_find_elements (par, nm.c_str (), &w.p);
                REQUIRE (st == (w.els.empty () ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK), "%zu elements of name %s, finding them returned %s", w.els.size (), nm.c_str (), ss (st));
                if (w.els.empty ()) continue;
            }
            else w.p = dc_collection_create ();
            c.log ("walk %zu over %zu elements (%s)\n", walks.size (), w.els.size (), how == 0 ? "all" : how == 1 ? "of one name" : "own");
            walks.push_back (w);
        }
        else if (walks.empty ()) continue;
        else
        {
            int wi = c.s.below (walks.size ());
            Walk& w = walks[wi];
            auto left = [&] { size_t n = 0; for (int i : w.els) n += els[i].alive; return n; };
            if (op == 3)
            {
                int n = c.s.range (1, 3);
                while (n--)
                {
                    while (w.pos < w.els.size () && !els[w.els[w.pos]].alive) w.pos++;
                    struct disir_context *x = nullptr;
                    enum disir_status st = dc_collection_next (w.p, &x);
                    c.log ("next of %d: %s\n", wi, ss (st));
                    if (w.pos == w.els.size ()) { REQUIRE (st == DISIR_STATUS_EXHAUSTED && !x, "walk %d is through, next returned %s", wi, ss (st)); continue; }
                    REQUIRE (st == DISIR_STATUS_OK && x, "#%d is next of walk %d, but next returned %s", w.els[w.pos], wi, ss (st));
                    CtxH h (x);
                    int got = id_of (x, "next");
                    REQUIRE (got == w.els[w.pos], "#%d is next of walk %d, got #%d", w.els[w.pos], wi, got);
                    w.pos++; walked++;
                }
            }
            else if (op == 4) { c.log ("reset %d\n", wi); OKAY (dc_collection_reset (w.p)); w.pos = 0; }
            else if (op == 5)
            {
                int n = dc_collection_size (w.p);
                c.log ("size of %d: %d\n", wi, n);
                REQUIRE (n == (int) left (), "walk %d holds %zu elements, size is %d", wi, left (), n);
            }
            else if (alive.size ())
            {
                int i = c.s.pick (alive);
                c.log ("push #%d to %d\n", i, wi);
                while (w.pos < w.els.size () && !els[w.els[w.pos]].alive) w.pos++;
                OKAY (dc_collection_push_context (w.p, els[i].ref));
                w.els.push_back (i);
            }
        }
    }
    // the parent itself, whole and by name
    std::map<std::string, std::vector<int>> by;
    std::vector<int> all;
    for (size_t i = 0; i < els.size (); i++) { by[els[i].name]; if (els[i].alive) { all.push_back ((int) i); by[els[i].name].push_back ((int) i); } }
    auto walk = [&] (struct disir_collection *col, const std::vector<int>& want, const char *what)
    {
        struct disir_context *x = nullptr;
        std::vector<int> got;
        while (dc_collection_next (col, &x) == DISIR_STATUS_OK) { CtxH h (x); got.push_back (id_of (x, what)); }
        dc_collection_finished (&col);
        REQUIRE (got == want, "%s: %zu elements, expected %zu, or in another order", what, got.size (), want.size ());
    };
    struct disir_collection *col = nullptr;
    OKAY (dc_get_elements (par, &col));
    walk (col, all, "all elements");
    for (auto& b : by)
    {
        col = nullptr;
        enum disir_status st = dc_find_elements (par, b.first.c_str (), &col);
        if (b.second.empty ()) REQUIRE (st == DISIR_STATUS_NOT_EXIST && !col, "no %s is left, finding them returned %s", b.first.c_str (), ss (st));
        else { OKAY (st); walk (col, b.second, b.first.c_str ()); }
        for (size_t i = 0; i <= b.second.size (); i++)
        {
            CtxH x;
            st = dc_find_element (par, b.first.c_str (), (unsigned) i, &x.p);
            if (i == b.second.size ()) { REQUIRE (st == DISIR_STATUS_NOT_EXIST && !x.p, "element %zu of %zu returned %s", i, b.second.size (), ss (st)); break; }
            OKAY (st);
            REQUIRE (id_of (x.p, "find") == b.second[i], "element %zu of name %s is another", i, b.first.c_str ());
            if (!els[b.second[i]].section)
            {
                int64_t v = -1;
                if (is_mold) { char buf[64]; OKAY (dc_get_default (x.p, nullptr, sizeof buf, buf, nullptr)); v = atoll (buf); }
                else OKAY (dc_get_value_integer (x.p, &v));
                REQUIRE (v == els[b.second[i]].val, "value of another element");
            }
            if (!is_mold)
            {
                char *rn = nullptr;
                OKAY (dc_resolve_root_name (x.p, &rn));
                std::string g = rn, w = (nested ? "outer." : "") + b.first + (i ? fmt ("@%zu", i) : "");
                free (rn);
                REQUIRE (g == w, "root name %s, expected %s", g.c_str (), w.c_str ());
            }
        }
    }
    if (els.size () > 32) c.label ("more than 32 elements");
    for (auto& b : by) if (b.second.size () > 8) c.label ("more than 8 occurrences of a name");
    if (removed && walked && under) c.nontrivial ("removed under a walk");
}
Property property = { "C13",
    "up to 40 (one case in twelve: several hundred) additions, removals, walks (over all children, those of one name, own collections), steps, resets, sizes and pushes over a mold, configuration or section, finished or under construction; non-trivial: an element removed while a walk was under way, and walked on",
    run, 40000, 400000, {}, make_instance };
