// Histories of calls on the public context interface over a pool of handles, shared by C08 (what a
// refused call may change) and C14 (references, lifetimes, memory). The calls are drawn without
// regard for whether they make sense; what the documentation rules out is never made: destroying
// the root behind a finished configuration or mold, destroying parts of a mold that configurations
// are built on, using a handle after it was given back, and giving back (rather than destroying or
// finalizing) what is still under construction.
#pragma once
#include "model.h"

struct Api
{
    // what is known of an object: its place, and whether it is gone
    struct Obj { enum disir_context_type type; int parent, root; bool fin, dead; void *ptr; std::vector<int> kids; int mold; };
    struct Hnd { struct disir_context *p; int o; bool owner; };
    struct MoldRef { struct disir_mold *p; int o; };
    struct CfgRef { struct disir_config *p; int o; };
    struct ColRef { struct disir_collection *p; int parent; bool own; };

    Ctx& c;
    bool atomic;        // C08: compare the trees around every call that is refused
    std::vector<Obj> objs;
    std::map<void *, int> by_ptr;
    std::vector<Hnd> hs;
    std::vector<MoldRef> molds;
    std::vector<CfgRef> cfgs;
    std::vector<ColRef> cols;
    int refused = 0, on_dead = 0, accepted = 0, killed = 0;

    Api (Ctx& ctx, bool a) : c (ctx), atomic (a) {}
    // after a failure the books may not be right
    ~Api () { if (!std::uncaught_exception ()) release (); }

    // ------------------------------------------------------------ bookkeeping
    int add_obj (struct disir_context *p, int parent, bool fin)
    {
        Obj o { dc_context_type (p), parent, parent < 0 ? (int) objs.size () : objs[parent].root, fin, false, p, {}, -1 };
        objs.push_back (o);
        int id = (int) objs.size () - 1;
        if (parent >= 0) objs[parent].kids.push_back (id);
        by_ptr[p] = id;
        return id;
    }
    int obj_of (struct disir_context *p, int parent)
    {
        auto f = by_ptr.find (p);
        return f != by_ptr.end () ? f->second : add_obj (p, parent, true);
    }
    void kill (int o)
    {
        if (objs[o].dead) return;
        objs[o].dead = true;
        killed++;
        by_ptr.erase (objs[o].ptr);
        std::vector<int> k = objs[o].kids;
        for (int x : k) kill (x);
        if (objs[o].mold >= 0) { int m = objs[o].mold; objs[o].mold = -1; mold_put (m); }
    }
    int mold_refs (int m)
    {
        int n = 0;
        for (auto& r : molds) n += r.o == m;
        for (auto& o : objs) n += !o.dead && o.mold == m;
        return n;
    }
    void mold_put (int m) { if (mold_refs (m) == 0) kill (m); }
    int hold (struct disir_context *p, int o, bool owner) { hs.push_back (Hnd { p, o, owner }); return (int) hs.size () - 1; }
    void drop (size_t i) { hs.erase (hs.begin () + i); }

    // ------------------------------------------------------------ what can be seen of an object
    static std::string ver (enum disir_status st, struct disir_version& v) { return st == DISIR_STATUS_OK ? fmt ("%u.%u", v.sv_major, v.sv_minor) : "-"; }
    static void see (struct disir_context *x, std::string& out, const std::string& ind, int depth)
    {
        struct disir_version v = { 0, 0 };
        out += ind + dc_context_type_string (x);
        const char *s = nullptr; int32_t n = 0;
        if (dc_get_name (x, &s, &n) == DISIR_STATUS_OK && s) out += " " + quote (std::string (s, n));
        enum disir_context_type t = dc_context_type (x);
        out += fmt (" type=%s %s", dc_value_type_string (x), dc_context_valid (x) == DISIR_STATUS_OK ? "valid" : "invalid");
        out += " v=" + ver (dc_get_version (x, &v), v) + " i=" + ver (dc_get_introduced (x, &v), v) + " d=" + ver (dc_get_deprecated (x, &v), v);
        std::vector<char> buf (4096);
        enum disir_status st = dc_get_value (x, (int32_t) buf.size (), buf.data (), &n);
        if (st == DISIR_STATUS_OK) out += fmt (" value(%d)=", n) + quote (buf.data ());
        if (t == DISIR_CONTEXT_KEYVAL || t == DISIR_CONTEXT_SECTION)
        {
            int mi = 0, ma = 0;
            enum disir_status a = dc_restriction_entries_minimum (x, &mi), b = dc_restriction_entries_maximum (x, &ma);
            out += fmt (" %s:%d..%s:%d", ss (a), mi, ss (b), ma);
        }
        if (t == DISIR_CONTEXT_RESTRICTION)
        {
            double lo = 0, hi = 0;
            out += std::string (" ") + dc_restriction_context_string (x);
            s = nullptr;
            if (dc_restriction_get_string (x, &s) == DISIR_STATUS_OK && s) out += " " + quote (s);
            if (dc_restriction_get_range (x, &lo, &hi) == DISIR_STATUS_OK) out += fmt (" [%a,%a]", lo, hi);
            if (dc_restriction_get_numeric (x, &lo) == DISIR_STATUS_OK) out += fmt (" %a", lo);
        }
        s = nullptr;
        if (dc_get_documentation (x, nullptr, &s, &n) == DISIR_STATUS_OK && s) out += " doc=" + quote (std::string (s, n));
        out += "\n";
        struct disir_collection *col = nullptr;
        struct disir_context *y = nullptr;
        for (int k = 0; k < 3; k++)
        {
            col = nullptr;
            if (k == 0) { if (t == DISIR_CONTEXT_KEYVAL) dc_get_default_contexts (x, &col); }
            else if (k == 1) { if (t == DISIR_CONTEXT_KEYVAL || t == DISIR_CONTEXT_SECTION) dc_restriction_collection (x, &col); }
            else if (t == DISIR_CONTEXT_CONFIG || t == DISIR_CONTEXT_MOLD || t == DISIR_CONTEXT_SECTION) dc_get_elements (x, &col);
            if (!col) continue;
            while (dc_collection_next (col, &y) == DISIR_STATUS_OK) { see (y, out, ind + "  ", depth + 1); dc_putcontext (&y); }
            dc_collection_finished (&col);
        }
    }
    // every tree, and everything under construction that is not part of one yet
    std::map<int, std::string> look ()
    {
        std::map<int, std::string> r;
        for (auto& m : molds) if (!objs[m.o].dead && !r.count (m.o)) { CtxH x (dc_mold_getcontext (m.p)); see (x.p, r[m.o], "", 0); }
        for (auto& f : cfgs) { CtxH x (dc_config_getcontext (f.p)); see (x.p, r[f.o], "", 0); }
        for (auto& h : hs) if (h.owner && !objs[h.o].dead) see (h.p, r[h.o], "", 0);
        return r;
    }

    // ------------------------------------------------------------ one call
    void run_op (int nops);
    void step ();
    void release ();
    void settle ();
};

void api_case (Ctx& c, bool atomic);
void api_free_report (struct disir_diff_report **r);
