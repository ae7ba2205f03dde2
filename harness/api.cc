#include "api.h"
#include <algorithm>

static const std::vector<std::string> NAMES = { "a", "b", "c", "", "A b", "a.b" };
static const std::vector<std::string> TEXTS = { "x", "", "true", "12", "-3.5", "some longer text", "a%s%n" };
static const std::vector<Ver> VERS = { Ver (1, 0), Ver (2, 0), Ver (1, 5), Ver (0, 0), Ver (7, 7) };
static const enum disir_context_type TYPES[] = { DISIR_CONTEXT_KEYVAL, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_DEFAULT,
    DISIR_CONTEXT_RESTRICTION, DISIR_CONTEXT_DOCUMENTATION, DISIR_CONTEXT_MOLD, DISIR_CONTEXT_CONFIG, DISIR_CONTEXT_UNKNOWN };
static const enum disir_value_type VTS[] = { DISIR_VALUE_TYPE_INTEGER, DISIR_VALUE_TYPE_STRING, DISIR_VALUE_TYPE_FLOAT, DISIR_VALUE_TYPE_BOOLEAN,
    DISIR_VALUE_TYPE_ENUM, DISIR_VALUE_TYPE_UNKNOWN };

void Api::release ()
{
    for (auto& k : cols) dc_collection_finished (&k.p);
    cols.clear ();
    // children before parents or the other way round: either must do
    if (c.s.below (2)) std::reverse (hs.begin (), hs.end ());
    for (auto& h : hs) if (h.p) { if (h.owner) dc_destroy (&h.p); else dc_putcontext (&h.p); }
    hs.clear ();
    if (c.s.below (2))
    {
        for (auto& m : molds) disir_mold_finished (&m.p);
        for (auto& f : cfgs) disir_config_finished (&f.p);
    }
    else
    {
        for (auto& f : cfgs) disir_config_finished (&f.p);
        for (auto& m : molds) disir_mold_finished (&m.p);
    }
    cfgs.clear (); molds.clear ();
}

void Api::step ()
{
    Src& s = c.s;
    struct disir_version vv = s.pick (VERS).c ();
    struct disir_version *vp = s.below (6) == 5 ? nullptr : &vv;
    auto name = [&] { return s.below (8) == 7 ? s.pick (NAMES) : NAMES[s.below (3)]; };

    // calls that need no handle
    size_t what = s.weighted ({ 14, 1, 1 });
    if (hs.empty () && what == 0) what = 1;
    if (what == 1)
    {
        int k = (int) s.below (5);
        if (k == 1 && !molds.empty ())
        {
            MoldRef& m = molds[s.below (molds.size ())];
            struct disir_context *x = nullptr;
            enum disir_status st = dc_config_begin (m.p, &x);
            c.log ("config_begin on mold %d: %s", m.o, ss (st));
            REQUIRE (st == DISIR_STATUS_OK && x, "a configuration of a mold cannot be begun: %s", ss (st));
            int o = add_obj (x, -1, false);
            objs[o].mold = m.o;
            hold (x, o, true);
        }
        else if (k == 2 && !molds.empty ())
        {
            MoldRef& m = molds[s.below (molds.size ())];
            struct disir_config *f = nullptr;
            enum disir_status st = disir_generate_config_from_mold (m.p, vp, &f);
            c.log ("generate from mold %d: %s", m.o, ss (st));
            if (f)
            {
                struct disir_context *x = dc_config_getcontext (f);
                int o = add_obj (x, -1, true);
                objs[o].mold = m.o;
                dc_putcontext (&x);
                cfgs.push_back (CfgRef { f, o });
            }
        }
        else if (k == 3 && !molds.empty ())
        {
            MoldRef& m = molds[s.below (molds.size ())];
            struct disir_context *x = dc_mold_getcontext (m.p);
            c.log ("getcontext of mold %d", m.o);
            hold (x, m.o, false);
        }
        else if (k == 4 && !cfgs.empty ())
        {
            CfgRef& f = cfgs[s.below (cfgs.size ())];
            struct disir_context *x = dc_config_getcontext (f.p);
            c.log ("getcontext of config %d", f.o);
            hold (x, f.o, false);
        }
        else
        {
            struct disir_context *x = nullptr;
            OKAY (dc_mold_begin (&x));
            int o = add_obj (x, -1, false);
            c.log ("mold_begin %d", o);
            hold (x, o, true);
        }
        return;
    }
    if (what == 2)
    {
        int k = (int) s.below (6);
        if (k == 0 && !cfgs.empty ())
        {
            size_t i = s.below (cfgs.size ());
            c.log ("config %d finished", cfgs[i].o);
            enum disir_status st = disir_config_finished (&cfgs[i].p);
            REQUIRE (st == DISIR_STATUS_OK, "disir_config_finished returned %s", ss (st));
            int o = cfgs[i].o;
            cfgs.erase (cfgs.begin () + i);
            kill (o);
        }
        else if (k == 1 && !molds.empty ())
        {
            size_t i = s.below (molds.size ());
            c.log ("mold %d finished", molds[i].o);
            enum disir_status st = disir_mold_finished (&molds[i].p);
            REQUIRE (st == DISIR_STATUS_OK, "disir_mold_finished returned %s", ss (st));
            int o = molds[i].o;
            molds.erase (molds.begin () + i);
            mold_put (o);
        }
        else if (k == 2 && !cfgs.empty ())
        {
            CfgRef& f = cfgs[s.below (cfgs.size ())];
            struct disir_mold *m = nullptr;
            OKAY (disir_config_get_mold (f.p, &m));
            c.log ("get mold of config %d", f.o);
            molds.push_back (MoldRef { m, objs[f.o].mold });
        }
        else if (k == 3 && !cfgs.empty ())
        {
            CfgRef& f = cfgs[s.below (cfgs.size ())];
            struct disir_collection *col = nullptr;
            bool want = s.below (2) == 1;
            enum disir_status st = disir_config_valid (f.p, want ? &col : nullptr);
            c.log ("valid of config %d: %s", f.o, ss (st));
            REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT || st == DISIR_STATUS_ELEMENTS_INVALID, "disir_config_valid returned %s", ss (st));
            if (col) dc_collection_finished (&col);
        }
        else if (k == 4 && !cols.empty ())
        {
            size_t i = s.below (cols.size ());
            c.log ("collection finished");
            OKAY (dc_collection_finished (&cols[i].p));
            cols.erase (cols.begin () + i);
        }
        else if (!cols.empty ())
        {
            ColRef& k2 = cols[s.below (cols.size ())];
            struct disir_context *x = nullptr;
            if (s.below (4) == 3) { OKAY (dc_collection_reset (k2.p)); c.log ("collection reset"); }
            dc_collection_size (k2.p);
            enum disir_status st = dc_collection_next (k2.p, &x);
            c.log ("collection next: %s", ss (st));
            REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_EXHAUSTED, "dc_collection_next returned %s", ss (st));
            REQUIRE ((st == DISIR_STATUS_OK) == (x != nullptr), "dc_collection_next returned %s, context %s", ss (st), x ? "set" : "NULL");
            if (x)
            {
                if ((k2.own || objs[k2.parent].dead) && !by_ptr.count (x))
                {
                    // below something that was under construction when what it was for went away
                    enum disir_status v = dc_context_valid (x);
                    REQUIRE (v == DISIR_STATUS_DESTROYED_CONTEXT, "a collection returned an element of what was destroyed, of which dc_context_valid says %s", ss (v));
                    dc_putcontext (&x);
                }
                else hold (x, obj_of (x, k2.parent), false);
            }
        }
        return;
    }

    // calls on a handle
    size_t hi = s.below (3) == 2 ? s.below (hs.size ()) : hs.size () - 1 - s.below ((uint32_t) std::min<size_t> (hs.size (), 4));
    Hnd h = hs[hi];
    Obj ob = objs[h.o];
    bool null = s.below (40) == 39;
    struct disir_context *x = null ? nullptr : h.p;
    std::map<int, std::string> before;
    if (atomic) before = look ();
    bool was_invalid = x && !objs[h.o].dead && dc_context_valid (x) == DISIR_STATUS_INVALID_CONTEXT;
    enum disir_status st = DISIR_STATUS_OK;
    bool query = false;         // the status is an answer rather than a refusal
    bool plain = true;          // the status tells of a destroyed or missing context
    std::string call;
    const char *cs = nullptr; int32_t n = 0; char buf[64];
    std::string nm = name (), tx = s.below (3) ? TEXTS[s.below (4)] : s.pick (TEXTS);
    double d = s.below (4) == 3 ? gen_double (s) : (double) (int) s.below (30);
    int64_t iv = s.below (4) == 3 ? gen_int (s) : (int64_t) s.below (30);
    std::string where = fmt ("%s %d%s%s", dc_context_type_string (h.p), h.o, ob.dead ? " (gone)" : ob.fin ? "" : " (building)", null ? " NULL" : "");

    switch (s.weighted ({ 10, 6, 8, 2, 4, 4, 8, 4, 4, 3, 3, 3, 3, 2, 2, 2, 3, 3, 2, 3, 2, 1, 2, 2, 2 }))
    {
    case 0:
    {
        static const int W[] = { 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7 };
        enum disir_context_type t = TYPES[W[s.below (13)]];
        struct disir_context *y = nullptr;
        st = dc_begin (x, t, &y);
        call = fmt ("begin type %d", (int) t);
        REQUIRE ((st == DISIR_STATUS_OK) == (y != nullptr), "dc_begin returned %s, context %s", ss (st), y ? "set" : "NULL");
        if (y)
        {
            REQUIRE (!ob.dead && !null, "a child was begun on a context that is not there");
            hold (y, add_obj (y, h.o, false), true);
        }
        break;
    }
    case 1:
    {
        // finalize
        bool root = ob.parent < 0;
        if (null) { struct disir_context *z = nullptr; st = dc_finalize (s.below (2) ? &z : nullptr); call = "finalize"; break; }
        bool keep = !root && s.below (3) == 2;
        if (root && s.below (6) < 5)
        {
            if (!h.owner)
            {
                // finished already; only what is under construction can be finalized
                call = "root finalize again"; st = DISIR_STATUS_OK; plain = false; break;
            }
            struct disir_context *z = x;
            if (dc_context_type (x) == DISIR_CONTEXT_MOLD)
            {
                struct disir_mold *m = nullptr;
                st = dc_mold_finalize (&z, &m);
                call = "mold_finalize";
                if (m) molds.push_back (MoldRef { m, h.o });
                REQUIRE ((m != nullptr) == (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT), "dc_mold_finalize returned %s, mold %s", ss (st), m ? "set" : "NULL");
            }
            else
            {
                struct disir_config *f = nullptr;
                st = dc_config_finalize (&z, &f);
                call = "config_finalize";
                if (f) cfgs.push_back (CfgRef { f, h.o });
                REQUIRE ((f != nullptr) == (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT), "dc_config_finalize returned %s, config %s", ss (st), f ? "set" : "NULL");
            }
            if (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT) { objs[h.o].fin = true; drop (hi); query = true; }
            break;
        }
        struct disir_context *z = x;
        if (keep) { st = dc_finalize_keep_reference (x); call = "finalize_keep_reference"; }
        else { st = dc_finalize (&z); call = "finalize"; }
        if (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT)
        {
            REQUIRE (!ob.dead && !ob.fin, "%s of %s succeeded", call.c_str (), where.c_str ());
            objs[h.o].fin = true;
            if (st == DISIR_STATUS_OK && !keep) { REQUIRE (!z, "dc_finalize did not take the reference"); drop (hi); }
            // taken also where only what is below is invalid, and it was added to something finished
            else if (!z) { REQUIRE (ob.type == DISIR_CONTEXT_SECTION && objs[ob.parent].fin, "dc_finalize took the reference though it returned %s", ss (st)); drop (hi); }
            else hs[hi].owner = false;
            query = true;
        }
        else if (!ob.dead && ob.fin && ob.parent >= 0) REQUIRE (st == DISIR_STATUS_CONTEXT_IN_WRONG_STATE, "finalizing %s again returned %s", where.c_str (), ss (st));
        break;
    }
    case 2:
    {
        // give the handle back
        if (null) { struct disir_context *z = nullptr; bool p = s.below (2); st = s.below (2) ? dc_putcontext (p ? &z : nullptr) : dc_destroy (p ? &z : nullptr); call = "putcontext"; break; }
        query = true; plain = false;
        bool root = ob.parent < 0;
        bool live_cfg = false;
        for (auto& o : objs) live_cfg |= !o.dead && o.mold == ob.root;
        bool destroy = h.owner || (s.below (3) == 2 && !root && !ob.dead && !live_cfg);
        bool put = !h.owner && !destroy;
        if (ob.dead && !h.owner) { destroy = s.below (2); put = !destroy; }
        drop (hi);
        if (destroy) { st = dc_destroy (&h.p); call = "destroy"; }
        else if (put) { st = dc_putcontext (&h.p); call = "putcontext"; }
        REQUIRE (st == DISIR_STATUS_OK && !h.p, "%s of %s returned %s, pointer %s", call.c_str (), where.c_str (), ss (st), h.p ? "kept" : "cleared");
        if (destroy && !ob.dead) kill (h.o);
        break;
    }
    case 3:
    {
        query = true; plain = false;
        REQUIRE (dc_context_type (x) == (x ? ob.type : DISIR_CONTEXT_UNKNOWN), "the type of %s changed", where.c_str ());
        dc_context_type_string (x); if (x) dc_context_error (x);
        dc_value_type (x); dc_value_type_string (x);
        dc_restriction_context_string (x);
        call = "types";
        break;
    }
    case 4:
    {
        struct disir_collection *col = nullptr;
        int k = (int) s.below (4);
        if (k == 0) { st = dc_get_elements (x, &col); call = "get_elements"; }
        else if (k == 1) { st = dc_find_elements (x, nm.c_str (), &col); call = "find_elements " + nm; }
        else if (k == 2) { st = dc_get_default_contexts (x, &col); call = "get_default_contexts"; }
        else { st = dc_restriction_collection (x, &col); call = "restriction_collection"; }
        if (col) { REQUIRE (st == DISIR_STATUS_OK, "%s returned %s and a collection", call.c_str (), ss (st)); cols.push_back (ColRef { col, h.o, false }); }
        else REQUIRE (st != DISIR_STATUS_OK, "%s returned OK and no collection", call.c_str ());
        if (cols.size () > 6) { dc_collection_finished (&cols[0].p); cols.erase (cols.begin ()); }
        // restrictions of a configuration's element are those of its mold: do not keep them as its children
        if (st == DISIR_STATUS_OK && k == 3 && objs[ob.root].type == DISIR_CONTEXT_CONFIG) { dc_collection_finished (&cols.back ().p); cols.pop_back (); }
        else if (st == DISIR_STATUS_OK && k == 2 && objs[ob.root].type == DISIR_CONTEXT_CONFIG) { dc_collection_finished (&cols.back ().p); cols.pop_back (); }
        break;
    }
    case 5:
    {
        struct disir_context *y = nullptr;
        if (s.below (3) < 2) { unsigned k = s.below (3); st = dc_find_element (x, nm.c_str (), k, &y); call = fmt ("find_element %s %u", nm.c_str (), k); }
        else { unsigned k = s.below (3); st = dc_query_resolve_context (x, "%s@%u", &y, nm.c_str (), k); call = fmt ("query %s@%u", nm.c_str (), k); }
        REQUIRE ((st == DISIR_STATUS_OK) == (y != nullptr), "%s returned %s, context %s", call.c_str (), ss (st), y ? "set" : "NULL");
        if (y && nm.find ('.') == std::string::npos) hold (y, obj_of (y, h.o), false);
        else if (y) dc_putcontext (&y);
        break;
    }
    case 6: st = dc_set_name (x, nm.c_str (), (int32_t) nm.size ()); call = "set_name " + nm; break;
    case 7: { enum disir_value_type t = VTS[s.below (6)]; st = dc_set_value_type (x, t); call = fmt ("set_value_type %d", (int) t); break; }
    case 8:
    {
        int k = (int) s.below (6);
        switch (k)
        {
        case 0: st = dc_set_value_integer (x, iv); break;
        case 1: st = dc_set_value_string (x, tx.c_str (), (int32_t) tx.size ()); break;
        case 2: st = dc_set_value_enum (x, tx.c_str (), (int32_t) tx.size ()); break;
        case 3: st = dc_set_value_float (x, d); break;
        case 4: st = dc_set_value_boolean (x, (uint8_t) (iv & 1)); break;
        default: st = dc_set_value (x, tx.c_str (), (int32_t) tx.size ()); break;
        }
        call = fmt ("set_value kind %d", k);
        break;
    }
    case 9:
    {
        int k = (int) s.below (5);
        switch (k)
        {
        case 0: st = dc_add_default_integer (x, iv, vp); break;
        case 1: st = dc_add_default_string (x, tx.c_str (), (int32_t) tx.size (), vp); break;
        case 2: st = dc_add_default_float (x, d, vp); break;
        case 3: st = dc_add_default_boolean (x, (uint8_t) (iv & 1), vp); break;
        default: st = dc_add_default (x, tx.c_str (), (int32_t) tx.size (), vp); break;
        }
        call = fmt ("add_default kind %d", k);
        break;
    }
    case 10: st = dc_add_documentation (x, tx.c_str (), (int32_t) tx.size ()); call = "add_documentation"; if (tx.empty ()) plain = false; break;
    case 11: st = dc_add_introduced (x, vp); call = "add_introduced"; if (!vp) plain = false; break;
    case 12: st = dc_add_deprecated (x, vp); call = "add_deprecated"; if (!vp) plain = false; break;
    case 13: st = dc_set_version (x, vp); call = "set_version"; if (!vp) plain = false; break;
    case 14: { int t = (int) s.below (7); st = dc_set_restriction_type (x, (enum disir_restriction_type) t); call = fmt ("set_restriction_type %d", t); break; }
    case 15:
    {
        int k = (int) s.below (3);
        if (k == 0) st = dc_restriction_set_string (x, tx.c_str ());
        else if (k == 1) st = dc_restriction_set_range (x, d, d + 3);
        else st = dc_restriction_set_numeric (x, d);
        call = fmt ("restriction_set kind %d", k);
        break;
    }
    case 16:
    {
        int k = (int) s.below (5);
        struct disir_context *y = nullptr, **yp = s.below (2) ? &y : nullptr;
        const char *doc = s.below (2) ? "doc" : nullptr;
        if (k == 0) st = dc_add_restriction_value_numeric (x, d, doc, vp, yp);
        else if (k == 1) st = dc_add_restriction_value_range (x, d, d + 3, doc, vp, yp);
        else if (k == 2) st = dc_add_restriction_value_enum (x, tx.c_str (), doc, vp, yp);
        else if (k == 3) st = dc_add_restriction_entries_min (x, (int64_t) s.below (3), vp);
        else st = dc_add_restriction_entries_max (x, (int64_t) s.below (4), vp);
        call = fmt ("add_restriction kind %d", k);
        if (y) { REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT, "%s returned %s and a context", call.c_str (), ss (st)); hold (y, obj_of (y, h.o), false); }
        break;
    }
    case 17:
    {
        int k = (int) s.below (5);
        struct disir_context *y = nullptr, **yp = s.below (2) ? &y : nullptr;
        switch (k)
        {
        case 0: st = dc_add_keyval_integer (x, nm.c_str (), iv, "doc", vp, yp); break;
        case 1: st = dc_add_keyval_string (x, nm.c_str (), tx.c_str (), "doc", vp, yp); break;
        case 2: st = dc_add_keyval_enum (x, nm.c_str (), tx.c_str (), "doc", vp, yp); break;
        case 3: st = dc_add_keyval_float (x, nm.c_str (), d, "doc", vp, yp); break;
        default: st = dc_add_keyval_boolean (x, nm.c_str (), (uint8_t) (iv & 1), "doc", vp, yp); break;
        }
        call = fmt ("add_keyval %s kind %d", nm.c_str (), k);
        if (y) { REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT, "%s returned %s and a context", call.c_str (), ss (st)); hold (y, obj_of (y, h.o), false); }
        break;
    }
    case 18: st = dc_generate_from_config_root (x); call = "generate_from_config_root"; break;
    case 19: st = dc_keyval_set_default (x, vp); call = "keyval_set_default"; break;
    case 20:
    {
        const Hnd& o = hs[s.below (hs.size ())];
        struct disir_diff_report *rep = nullptr;
        st = dc_compare (x, o.p, s.below (2) ? &rep : nullptr);
        call = fmt ("compare with %d", o.o);
        if (rep) api_free_report (&rep);
        if (objs[o.o].dead) plain = false;
        query = st == DISIR_STATUS_CONFLICT;
        break;
    }
    case 21: st = dc_fatal_error (x, "%s", "fatal"); call = "fatal_error"; break;
    case 22:
    {
        int k = (int) s.below (5);
        const char *q = nm.c_str ();
        switch (k)
        {
        case 0: st = dc_config_set_keyval_integer (x, iv, "%s", q); break;
        case 1: st = dc_config_set_keyval_string (x, tx.c_str (), "%s", q); break;
        case 2: st = dc_config_set_keyval_enum (x, tx.c_str (), "%s", q); break;
        case 3: st = dc_config_set_keyval_float (x, d, "%s", q); break;
        default: st = dc_config_set_keyval_boolean (x, (uint8_t) (iv & 1), "%s", q); break;
        }
        call = fmt ("config_set_keyval %s kind %d", q, k);
        break;
    }
    case 23:
    {
        query = true;
        char *rn = nullptr;
        double a, b; int64_t i; uint8_t u; int mi; enum disir_restriction_type rt; enum disir_value_type vt; struct disir_version v;
        int k = (int) s.below (20);
        switch (k)
        {
        case 0: st = dc_resolve_root_name (x, &rn); if (rn) free (rn); break;
        case 1: st = dc_get_name (x, &cs, &n); break;
        case 2: st = dc_get_value (x, sizeof buf, buf, &n); break;
        case 3: st = dc_get_value_string (x, &cs, &n); break;
        case 4: st = dc_get_value_enum (x, &cs, &n); break;
        case 5: st = dc_get_value_integer (x, &i); break;
        case 6: st = dc_get_value_float (x, &a); break;
        case 7: st = dc_get_value_boolean (x, &u); break;
        case 8: st = dc_get_default (x, vp, sizeof buf, buf, &n); break;
        case 9: st = dc_get_documentation (x, vp, &cs, &n); break;
        case 10: st = dc_get_version (x, &v); break;
        case 11: st = dc_get_introduced (x, &v); break;
        case 12: st = dc_get_deprecated (x, &v); break;
        case 13: st = dc_get_restriction_type (x, &rt); break;
        case 14: st = dc_restriction_get_string (x, &cs); break;
        case 15: st = dc_restriction_get_range (x, &a, &b); break;
        case 16: st = dc_restriction_get_numeric (x, &a); break;
        case 17: st = s.below (2) ? dc_restriction_entries_minimum (x, &mi) : dc_restriction_entries_maximum (x, &mi); break;
        case 18: st = dc_get_value_type (x, &vt); break;
        default: st = dc_context_valid (x); break;
        }
        call = fmt ("get kind %d", k);
        break;
    }
    default:
    {
        struct disir_collection *col = cols.empty () || s.below (2) ? dc_collection_create () : nullptr;
        call = "push";
        if (col) cols.push_back (ColRef { col, -1, true });
        // only a collection of one's own takes elements of anything
        for (auto& k : cols) if (k.own && !ob.dead && x) { st = dc_collection_push_context (k.p, x); break; }
        plain = false; query = true;
    }
    }
    c.log ("%s on %s: %s", call.c_str (), where.c_str (), ss (st));
    if (st == DISIR_STATUS_OK) accepted++; else refused++;
    if (plain)
    {
        if (null) REQUIRE (st == DISIR_STATUS_INVALID_ARGUMENT, "%s without a context returned %s", call.c_str (), ss (st));
        else if (ob.dead) { on_dead++; REQUIRE (st == DISIR_STATUS_DESTROYED_CONTEXT, "%s on a destroyed context returned %s", call.c_str (), ss (st)); }
        else REQUIRE (st != DISIR_STATUS_DESTROYED_CONTEXT, "%s on %s returned %s", call.c_str (), where.c_str (), ss (st));
    }
    // what is invalid takes a value, and says that it still is
    if (was_invalid && st == DISIR_STATUS_INVALID_CONTEXT) return;
    if (atomic && st != DISIR_STATUS_OK && !(query && call.compare (0, 3, "get") != 0))
    {
        std::map<int, std::string> after = look ();
        // something under construction takes what is wrong with it and is told so
        bool lax = !ob.dead && !ob.fin && !null && (st == DISIR_STATUS_INVALID_CONTEXT || st == DISIR_STATUS_MOLD_MISSING || st == DISIR_STATUS_NOT_EXIST
            || st == DISIR_STATUS_WRONG_VALUE_TYPE || st == DISIR_STATUS_RESTRICTION_VIOLATED || call.compare (0, 8, "finalize") == 0);
        for (auto& b : before)
        {
            // so does what it is built into (a mold knows the highest version below it), and that shows elsewhere below it
            bool own = b.first == h.o;
            for (int a = h.o; a >= 0 && !objs[a].fin && !own; a = objs[a].parent) own = a == b.first || (objs[a].parent < 0 && objs[b.first].root == a);
            if (lax && own) continue;
            // generating stops where it fails
            if (b.first == h.o && call.compare (0, 8, "generate") == 0) continue;
            auto f = after.find (b.first);
            std::string now = f == after.end () ? "(gone)" : f->second;
            REQUIRE (now == b.second, "%s on %s returned %s, but changed %d\n%s", call.c_str (), where.c_str (), ss (st), b.first, dump_diff (b.second, now).c_str ());
        }
        for (auto& a : after) REQUIRE (before.count (a.first), "%s returned %s, but left %d behind", call.c_str (), ss (st), a.first);
    }
}

void api_free_report (struct disir_diff_report **r)
{
    for (int i = 0; i < (*r)->dr_entries; i++) free ((*r)->dr_diff_string[i]);
    free ((*r)->dr_diff_string);
    free (*r);
    *r = nullptr;
}

void api_case (Ctx& c, bool atomic)
{
    int n = c.s.range (1, atomic ? 25 : 60);
    Api a (c, atomic);
    // something to work on: a mold, a configuration of it
    if (c.s.below (3))
    {
        GenOpt o;
        o.max_kids = 3; o.max_depth = 2; o.max_entries = 2; o.strings = 0;
        MoldSpec ms = gen_mold (c.s, o);
        struct disir_mold *m = build_mold (ms);
        struct disir_context *x = dc_mold_getcontext (m);
        int mo = a.add_obj (x, -1, true);
        a.molds.push_back (Api::MoldRef { m, mo });
        dc_putcontext (&x);
        c.log ("mold %d:\n%s", mo, dump (ms).c_str ());
        if (c.s.below (2))
        {
            struct disir_context *y = nullptr;
            OKAY (dc_config_begin (m, &y));
            int o2 = a.add_obj (y, -1, false);
            a.objs[o2].mold = mo;
            a.hold (y, o2, true);
        }
    }
    for (int i = 0; i < n; i++) { a.step (); if (a.hs.size () > 40) break; }
    a.release ();
    if (atomic ? a.refused > 2 && a.accepted > 4 : a.on_dead > 0 && a.accepted > 6) c.nontrivial (atomic ? "calls refused between accepted ones" : "calls on destroyed objects");
}
