// C14: whatever calls are made, in whatever order, on whatever handles: nothing is used after it
// is freed or freed twice, a handle on something destroyed says so, and everything is freed in the end.
#include "api.h"
#include "text.h"
#include <disir/fslib/json.h>
#include <disir/fslib/toml.h>
#include <algorithm>
#include <cstring>
#include <functional>

// Histories on molds and configurations of some size: what is made, compared, updated, queried,
// written, read (damaged or not), changed and destroyed.
namespace {
struct Rich
{
    Ctx& c;
    Src& s;
    GenOpt o;
    MoldSpec ms;
    std::vector<struct disir_mold *> molds;
    struct Cfg { struct disir_config *p; CfgSpec spec; };
    std::vector<Cfg> cfgs;
    struct Held { struct disir_context *p; struct disir_config *of; };
    std::vector<Held> held;
    int worked = 0, gone = 0;

    explicit Rich (Ctx& c) : c (c), s (c.s) {}
    ~Rich ()
    {
        for (auto& h : held) dc_putcontext (&h.p);
        for (auto& f : cfgs) disir_config_finished (&f.p);
        for (auto& m : molds) disir_mold_finished (&m);
    }
    struct disir_mold *mold () { return molds[s.below (molds.size ())]; }
    void keep (struct disir_config *f, const CfgSpec& spec) { if (f) { cfgs.push_back (Cfg { f, spec }); worked++; } }
    void keep (struct disir_context *x, struct disir_config *of)
    {
        if (!x) return;
        if (held.size () < 6 && s.below (3) == 2) held.push_back (Held { x, of });
        else dc_putcontext (&x);
    }
    // an element at or below the root of the i-th configuration, chosen by its way through the lists
    struct disir_context *pick (struct disir_config *f, const std::vector<uint32_t>& way)
    {
        struct disir_context *x = dc_config_getcontext (f);
        for (uint32_t w : way)
        {
            struct disir_collection *col = nullptr;
            struct disir_context *y = nullptr;
            if (dc_get_elements (x, &col) != DISIR_STATUS_OK) break;
            int n = dc_collection_size (col);
            if (n > 0) for (uint32_t k = w % n + 1; k > 0; k--)
            {
                if (y) dc_putcontext (&y);
                if (dc_collection_next (col, &y) != DISIR_STATUS_OK) break;
            }
            dc_collection_finished (&col);
            if (!y) break;
            dc_putcontext (&x);
            x = y;
            if (dc_context_type (x) != DISIR_CONTEXT_SECTION) break;
        }
        return x;
    }
    std::vector<uint32_t> way () { std::vector<uint32_t> w (s.below (3)); for (auto& x : w) x = s.below (6); return w; }
    std::string damaged (std::string t)
    {
        if (t.empty () || s.below (3) < 2) return t;
        uint32_t at = s.below (1 << 16) % t.size ();
        switch (s.below (4))
        {
        case 0: return t.substr (0, at);
        case 1: { size_t p = t.find_first_of ("0123456789\"", at); if (p == t.npos) p = at; t.replace (p, 1, "[]"); return t; }
        case 2: { size_t p = t.find (':', at); if (p == t.npos) p = at; return t.insert (p + (p < t.size ()), s.below (2) ? "null,\"k\":" : "{},\"x\":"); }
        default: t[at] = "{}[],:\"1ae."[s.below (11)]; return t;
        }
    }
    void step ()
    {
        Cfg *f = cfgs.empty () ? nullptr : &cfgs[s.below (cfgs.size ())];
        switch (f ? s.weighted ({ 4, 4, 2, 3, 3, 4, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2 }) : 0)
        {
        case 0:
        {
            struct disir_config *n = nullptr;
            CfgSpec spec;
            size_t how = s.weighted ({ 3, 2, 1 });
            if (how == 0) { spec = gen_config (s, ms, gen_version_of (s, ms), o); n = build_config (molds[0], spec); c.log ("build %s", dump (spec).c_str ()); }
            else if (how == 1)
            {
                spec = gen_config (s, ms, gen_version_of (s, ms), o);
                mutate_config (s, ms, spec, 1 + s.below (3), o, false);
                enum disir_status st;
                n = build_config_lax (molds[0], spec, &st);
                c.log ("build at will: %s\n%s", ss (st), dump (spec).c_str ());
            }
            else
            {
                struct disir_version v = gen_version_of (s, ms).c ();
                enum disir_status st = disir_generate_config_from_mold (mold (), s.below (3) == 2 ? nullptr : &v, &n);
                c.log ("generate: %s\n", ss (st));
                if (n) spec = observe_config_lax (n);
            }
            keep (n, spec);
            break;
        }
        case 1:
        {
            Cfg& g = cfgs[s.below (cfgs.size ())];
            auto w = way ();
            struct disir_context *x = pick (f->p, w), *y = pick (g.p, s.below (4) == 3 ? way () : w);
            struct disir_diff_report *rep = nullptr;
            enum disir_status st = dc_compare (x, y, s.below (3) == 2 ? nullptr : &rep);
            c.log ("compare two %s: %s\n", dc_context_type_string (x), ss (st));
            if (rep) api_free_report (&rep);
            keep (x, f->p); keep (y, g.p);
            worked++;
            break;
        }
        case 2:
        {
            struct disir_collection *col = nullptr;
            struct disir_context *x = nullptr;
            enum disir_status st = disir_config_valid (f->p, s.below (4) == 3 ? nullptr : &col);
            c.log ("valid: %s\n", ss (st));
            int stop = s.below (5);
            while (col && dc_collection_next (col, &x) == DISIR_STATUS_OK)
            {
                char *n = nullptr;
                dc_context_error (x);
                dc_resolve_root_name (x, &n);
                free (n);
                keep (x, f->p); x = nullptr;
                if (stop-- == 0) break;
            }
            if (col) dc_collection_finished (&col);
            break;
        }
        case 3: case 4:
        {
            auto paths = all_paths (f->spec, true, true);
            if (paths.empty ()) break;
            const Path& p = s.pick (paths);
            std::string q = query_of (f->spec, p, &s);
            const MoldNode *mn = mold_at (ms, f->spec, p);
            size_t k = s.below (4);
            if (s.below (5) == 4) q += s.below (2) ? "x" : ".y@2.z";
            enum disir_status st;
            if (k == 0 && mn && !mn->section) { Val v = gen_try (s, *mn, f->spec.version, o); if (s.below (5) == 4) v = gen_value (s, VSTR, o); st = set_by_query (f->p, v, q); c.log ("set %s to %s: %s\n", q.c_str (), v.text ().c_str (), ss (st)); }
            else if (k == 1 && mn && !mn->section) { Val v; st = get_by_query (f->p, mn->type, q, v); c.log ("get %s: %s\n", q.c_str (), ss (st)); }
            else
            {
                struct disir_context *r = dc_config_getcontext (f->p), *x = nullptr;
                st = dc_query_resolve_context (r, "%s", &x, q.c_str ());
                c.log ("query %s: %s\n", q.c_str (), ss (st));
                dc_putcontext (&r);
                if (x && k == 3)
                {
                    struct disir_collection *col = nullptr;
                    enum disir_status s2 = s.below (2) ? dc_get_default_contexts (x, &col) : dc_restriction_collection (x, &col);
                    if (s2 == DISIR_STATUS_OK) dc_collection_finished (&col);
                }
                keep (x, f->p);
            }
            worked += st == DISIR_STATUS_OK;
            break;
        }
        case 5:
        {
            struct disir_version v = gen_version_of (s, ms).c ();
            struct disir_update *u = nullptr;
            struct disir_config *n = nullptr;
            enum disir_status st = disir_update_config (f->p, s.below (3) ? nullptr : &v, &u);
            c.log ("update: %s", ss (st));
            for (int i = s.below (5); u && i > 0 && st == DISIR_STATUS_CONFLICT; i--)
            {
                const char *name, *own, *theirs;
                if (disir_update_conflict (u, &name, &own, &theirs) != DISIR_STATUS_CONFLICT && !name) break;
                std::string a = s.below (2) ? own : s.below (3) ? theirs : "none";
                enum disir_status r = disir_update_resolve (u, a.c_str ());
                st = disir_update_continue (u);
                c.log (", %s: %s", ss (r), ss (st));
            }
            if (u) st = disir_update_finished (&u, s.below (4) == 3 ? nullptr : &n);
            c.log (", finished: %s\n", ss (st));
            if (n) keep (n, observe_config_lax (n));
            break;
        }
        case 6: case 7:
        {
            bool json = s.below (2);
            std::string t = with_output ([&] (FILE *w) { if (json) dio_json_serialize_config (instance (), f->p, w); else dio_toml_serialize_config (instance (), f->p, w); });
            t = damaged (t);
            FILE *in = input_of (t);
            struct disir_config *n = nullptr;
            enum disir_status st = json ? dio_json_unserialize_config (instance (), in, mold (), &n) : dio_toml_unserialize_config (instance (), in, mold (), &n);
            fclose (in);
            c.log ("read %s: %s\n", quote (t).c_str (), ss (st));
            if (n) keep (n, observe_config_lax (n));
            break;
        }
        case 8:
        {
            std::string t = with_output ([&] (FILE *w) { dio_json_serialize_mold (instance (), mold (), w); });
            t = damaged (t);
            FILE *in = input_of (t);
            struct disir_mold *n = nullptr;
            enum disir_status st = dio_json_unserialize_mold (instance (), in, &n);
            fclose (in);
            c.log ("read mold %s: %s\n", quote (t).c_str (), ss (st));
            if (!n) break;
            struct disir_collection *col = nullptr;
            disir_mold_valid (n, s.below (2) ? &col : nullptr);
            if (col) dc_collection_finished (&col);
            if (st == DISIR_STATUS_OK) { molds.push_back (n); worked++; } else disir_mold_finished (&n);
            break;
        }
        case 9:
        {
            auto w = way (); w.push_back (s.below (4));
            struct disir_context *x = pick (f->p, w), *r = dc_config_getcontext (f->p);
            if (x != r) { c.log ("destroy a %s\n", dc_context_type_string (x)); enum disir_status st = dc_destroy (&x); c.log ("%s\n", ss (st)); worked++; f->spec = observe_config_lax (f->p); }
            if (x) dc_putcontext (&x);
            dc_putcontext (&r);
            // what is held of it, or below it, is gone: only putting it back remains
            break;
        }
        case 10:
        {
            struct disir_context *p = pick (f->p, way ()), *x = nullptr;
            std::string n = s.below (4) == 3 ? "z" : "";
            if (n.empty ())
            {
                auto paths = all_paths (f->spec, true, true);
                n = paths.empty () ? "z" : node_at (f->spec, s.pick (paths)).name;
            }
            enum disir_status st = dc_begin (p, s.below (3) ? DISIR_CONTEXT_KEYVAL : DISIR_CONTEXT_SECTION, &x);
            c.log ("begin %s below a %s: %s", n.c_str (), dc_context_type_string (p), ss (st));
            if (x)
            {
                if (s.below (6) < 5) st = dc_set_name (x, n.c_str (), (int32_t) n.size ());
                if (s.below (6) < 5 && dc_context_type (x) == DISIR_CONTEXT_KEYVAL) { std::string v = s.below (2) ? "1" : "text"; st = dc_set_value (x, v.c_str (), (int32_t) v.size ()); }
                size_t k = s.below (5);
                if (k == 4) { dc_destroy (&x); x = nullptr; }
                else if (k == 3) { st = dc_finalize_keep_reference (x); if (st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT) { dc_destroy (&x); x = nullptr; } else keep (x, f->p), x = nullptr; }
                else { st = dc_finalize (&x); if (st != DISIR_STATUS_OK && st != DISIR_STATUS_INVALID_CONTEXT) dc_destroy (&x); else if (x) dc_putcontext (&x); }
                f->spec = observe_config_lax (f->p);
            }
            c.log (", %s\n", ss (st));
            dc_putcontext (&p);
            break;
        }
        case 11:
        {
            auto paths = all_paths (f->spec, true, true);
            if (paths.empty ()) break;
            const Path& p = s.pick (paths);
            std::string n = node_at (f->spec, p).name;
            struct disir_context *r = p.size () > 1 ? ctx_at (f->p, f->spec, Path (p.begin (), p.end () - 1)) : dc_config_getcontext (f->p), *x = nullptr;
            struct disir_collection *col = nullptr;
            enum disir_status st = dc_find_elements (r, n.c_str (), &col);
            c.log ("find %s: %s\n", n.c_str (), ss (st));
            for (int i = s.below (4); col && i > 0 && dc_collection_next (col, &x) == DISIR_STATUS_OK; i--) { keep (x, f->p); x = nullptr; }
            if (col) dc_collection_finished (&col);
            dc_putcontext (&r);
            break;
        }
        case 12:
        {
            size_t i = f - &cfgs[0];
            struct disir_config *was = f->p;
            c.log ("finish a configuration\n");
            enum disir_status st = disir_config_finished (&cfgs[i].p);
            REQUIRE (st == DISIR_STATUS_OK, "disir_config_finished returned %s", ss (st));
            cfgs.erase (cfgs.begin () + i);
            for (size_t k = 0; k < held.size (); k++) if (held[k].of == was)
            {
                enum disir_status v = dc_context_valid (held[k].p);
                REQUIRE (v == DISIR_STATUS_DESTROYED_CONTEXT, "an element of a configuration that is gone: dc_context_valid says %s", ss (v));
                gone++;
                held[k].of = nullptr;
            }
            break;
        }
        case 13:
        {
            struct disir_mold *m = nullptr;
            OKAY (disir_config_get_mold (f->p, &m));
            c.log ("its mold\n");
            if (s.below (2)) molds.push_back (m); else disir_mold_finished (&m);
            break;
        }
        case 14:
        {
            if (molds.size () < 2) break;
            c.log ("finish a mold\n");
            disir_mold_finished (&molds.back ());
            molds.pop_back ();
            break;
        }
        default:
        {
            if (held.empty ()) break;
            size_t k = s.below (held.size ());
            dc_putcontext (&held[k].p);
            held.erase (held.begin () + k);
            c.log ("give one back\n");
        }
        }
    }
};
void rich_case (Ctx& c)
{
    Rich r (c);
    r.o.max_kids = c.s.range (1, 4); r.o.max_depth = c.s.range (1, 3); r.o.max_entries = 3; r.o.strings = c.s.range (0, 1);
    r.o.nonempty_sections = c.s.below (3) != 0;
    r.o.crowd = 60;
    r.ms = gen_mold (c.s, r.o);
    r.molds.push_back (build_mold (r.ms));
    c.log ("%s", dump (r.ms).c_str ());
    for (int i = c.s.range (1, 14); i > 0; i--) r.step ();
    c.label (r.gone ? "an element outlives its configuration" : "nothing outlives its configuration");
    if (r.worked > 4) c.nontrivial ();
}
}

static void run (Ctx& c)
{
    bool rich = c.s.below (3) == 2;
    auto once = [&] (Ctx& x) { if (rich) rich_case (x); else api_case (x, false); };
    size_t from = c.s.rec->size ();
    once (c);
    // what the harness itself keeps (log, labels) is not the library's: run again without
    std::vector<uint32_t> choices (c.s.rec->begin () + from, c.s.rec->end ()), sink;
    auto again = [&] { Src s; sink.clear (); sink.reserve (choices.size () + 8); s.rec = &sink; s.feed = &choices; Ctx q (s); once (q); };
    again ();
    size_t b1 = heap_bytes ();
    again ();
    size_t b2 = heap_bytes ();
    if (b2 <= b1) return;
    again ();
    size_t b3 = heap_bytes ();
    REQUIRE (b3 <= b2, "%zu bytes are never freed", b3 - b2);
}
Property property = { "C14",
    "up to 60 calls drawn from the whole public context interface over a pool of handles on molds, configurations, their parts and what is under construction, released in either order; or up to 14 operations (build, generate, compare, validate, query, set, update, write, read back damaged or not, add, destroy) on generated molds and configurations; each case is repeated and the memory in use compared; non-trivial: a call on something destroyed among at least seven successful ones, or five operations that worked",
    run, 24000, 360000, {}, make_instance };
