// C16: a mold holds what was put into it, however it was built; what is ill-formed is refused or named.
#include <cstring>
#include "model.h"
#include <algorithm>

namespace {
enum Fault { FINE, NAME, NOTYPE, NODEFAULT, TWICE_DEFAULT, TWICE_ENTRIES, KINDLESS, NFAULTS };
const char *FN[] = { "fine", "a name that is none", "no type", "no default", "two defaults of a version", "two limits of a version", "a restriction of no kind" };
struct Builder
{
    Ctx& c; std::multiset<std::string> bad; int refused = 0, faults = 0, ways = 0, odd_names = 0;
    Builder (Ctx& x) : c (x) {}

    void no (enum disir_status st, std::initializer_list<enum disir_status> want, const char *what)
    {
        refused++;
        for (auto w : want) if (st == w) return;
        fail ("%s gives %s, not %s", what, ss (st), ss (*want.begin ()));
    }
    static struct disir_version ver (Ver v) { return v.c (); }
    enum disir_status add_default (struct disir_context *kv, const Val& v, struct disir_version *d)
    {
        switch (v.t)
        {
        case VSTR: case VENUM: return dc_add_default_string (kv, v.s.c_str (), (int32_t) v.s.size (), d);
        case VINT: return dc_add_default_integer (kv, v.i, d);
        case VFLT: return dc_add_default_float (kv, v.f, d);
        default: return dc_add_default_boolean (kv, v.b, d);
        }
    }
    enum disir_status set_default (struct disir_context *d, const Val& v)
    {
        switch (v.t)
        {
        case VSTR: return dc_set_value_string (d, v.s.c_str (), (int32_t) v.s.size ());
        case VENUM: return dc_set_value_enum (d, v.s.c_str (), (int32_t) v.s.size ());
        case VINT: return dc_set_value_integer (d, v.i);
        case VFLT: return dc_set_value_float (d, v.f);
        default: return dc_set_value_boolean (d, v.b);
        }
    }
    void doc (struct disir_context *x, const std::string& d)
    {
        if (d.empty ()) return;
        if (c.s.below (2))
        {
            CtxH h;
            OKAY (dc_begin (x, DISIR_CONTEXT_DOCUMENTATION, &h.p));
            OKAY (dc_set_value_string (h.p, d.c_str (), (int32_t) d.size ()));
            OKAY (dc_finalize (&h.p));
            ways++;
        }
        else OKAY (dc_add_documentation (x, d.c_str (), (int32_t) d.size ()));
        if (c.s.below (4) == 3)
        {
            no (dc_add_documentation (x, "another", 7), { DISIR_STATUS_EXISTS }, "a second documentation");
            struct disir_context *h = nullptr;
            no (dc_begin (x, DISIR_CONTEXT_DOCUMENTATION, &h), { DISIR_STATUS_EXISTS }, "a second documentation");
        }
    }
    void one_default (struct disir_context *x, const DefSpec& d)
    {
        struct disir_version v = ver (d.intro);
        bool first = d.intro == Ver (1, 0) && c.s.below (2);
        if (c.s.below (3) != 2)
        {
            if (d.v.t != VBOOL && d.v.t != VENUM && c.s.below (3) == 2)
            {
                // as text
                std::string t = d.v.t == VSTR ? d.v.s : d.v.t == VINT ? fmt ("%lld", (long long) d.v.i) : fmt ("%.17g", d.v.f);
                OKAY (dc_add_default (x, t.c_str (), (int32_t) t.size (), first ? nullptr : &v));
                ways++;
                return;
            }
            OKAY (add_default (x, d.v, first ? nullptr : &v));
            return;
        }
        CtxH h;
        OKAY (dc_begin (x, DISIR_CONTEXT_DEFAULT, &h.p));
        bool later = c.s.below (2);
        if (!later && !first) OKAY (dc_add_introduced (h.p, &v));
        if (c.s.below (4) == 3) no (dc_add_documentation (h.p, "d", 1), { DISIR_STATUS_NO_CAN_DO, DISIR_STATUS_WRONG_CONTEXT }, "documenting a default");
        Val w; w.t = d.v.t == VINT ? VBOOL : VINT;
        if (c.s.below (4) == 3) no (set_default (h.p, w), { DISIR_STATUS_WRONG_VALUE_TYPE }, "a default of another type");
        OKAY (set_default (h.p, d.v));
        if (later && !first) OKAY (dc_add_introduced (h.p, &v));
        OKAY (dc_finalize (&h.p));
        ways++;
    }
    void restriction (struct disir_context *x, const ExcSpec& e)
    {
        struct disir_version v = ver (e.intro);
        bool first = e.intro == Ver (1, 0) && c.s.below (2);
        const char *d = e.doc.empty () ? nullptr : e.doc.c_str ();
        if (e.depr.zero () && strlen (e.doc.c_str ()) == e.doc.size () && c.s.below (2))
        {
            CtxH out;
            struct disir_context **o = c.s.below (2) ? &out.p : nullptr;
            if (e.t == X_ENUM) OKAY (dc_add_restriction_value_enum (x, e.s.c_str (), d, first ? nullptr : &v, o));
            else if (e.t == X_RANGE) OKAY (dc_add_restriction_value_range (x, e.lo, e.hi, d, first ? nullptr : &v, o));
            else OKAY (dc_add_restriction_value_numeric (x, e.lo, d, first ? nullptr : &v, o));
            if (out.p && c.s.below (2)) no (dc_set_restriction_type (out.p, DISIR_RESTRICTION_INC_ENTRY_MAX), { DISIR_STATUS_CONTEXT_IN_WRONG_STATE }, "another kind for a finished restriction");
            ways++;
            return;
        }
        CtxH r;
        OKAY (dc_begin (x, DISIR_CONTEXT_RESTRICTION, &r.p));
        if (c.s.below (4) == 3) no (dc_set_restriction_type (r.p, DISIR_RESTRICTION_UNKNOWN), { DISIR_STATUS_INVALID_ARGUMENT }, "no kind of restriction");
        OKAY (dc_set_restriction_type (r.p, (enum disir_restriction_type) e.t));
        const char *told = dc_restriction_context_string (r.p);
        REQUIRE (!strcmp (told, dc_restriction_enum_string ((enum disir_restriction_type) e.t)) && dc_restriction_string_to_enum (told) == (int) e.t && !strcmp (dc_restriction_group_type (dc_restriction_string_to_enum (told)), "EXCLUSIVE"), "a restriction of kind %d is said to be %s", e.t, told);
        bool early = c.s.below (2);
        struct disir_version w = ver (e.depr);
        if (early) { OKAY (dc_add_introduced (r.p, &v)); if (!e.depr.zero ()) OKAY (dc_add_deprecated (r.p, &w)); doc (r.p, e.doc); }
        if (e.t == X_ENUM)
        {
            if (c.s.below (4) == 3) no (dc_restriction_set_range (r.p, 0, 1), { DISIR_STATUS_WRONG_VALUE_TYPE }, "a range for an enumerator");
            OKAY (dc_restriction_set_string (r.p, e.s.c_str ()));
        }
        else
        {
            if (c.s.below (4) == 3) no (dc_restriction_set_string (r.p, "s"), { DISIR_STATUS_WRONG_VALUE_TYPE }, "an enumerator for a number");
            if (e.t == X_RANGE) OKAY (dc_restriction_set_range (r.p, e.lo, e.hi));
            else OKAY (dc_restriction_set_numeric (r.p, e.lo));
        }
        if (!early) { doc (r.p, e.doc); if (!e.depr.zero ()) OKAY (dc_add_deprecated (r.p, &w)); OKAY (dc_add_introduced (r.p, &v)); }
        OKAY (dc_finalize (&r.p));
    }
    void limit (struct disir_context *x, const IncSpec& i)
    {
        struct disir_version v = ver (i.intro);
        if (c.s.below (2)) { OKAY (i.max ? dc_add_restriction_entries_max (x, i.n, &v) : dc_add_restriction_entries_min (x, i.n, &v)); return; }
        CtxH r;
        OKAY (dc_begin (x, DISIR_CONTEXT_RESTRICTION, &r.p));
        OKAY (dc_set_restriction_type (r.p, i.max ? DISIR_RESTRICTION_INC_ENTRY_MAX : DISIR_RESTRICTION_INC_ENTRY_MIN));
        OKAY (dc_restriction_set_numeric (r.p, (double) i.n));
        OKAY (dc_add_introduced (r.p, &v));
        const char *told = dc_restriction_context_string (r.p);
        REQUIRE (dc_restriction_string_to_enum (told) == (i.max ? DISIR_RESTRICTION_INC_ENTRY_MAX : DISIR_RESTRICTION_INC_ENTRY_MIN) && !strcmp (dc_restriction_group_type (dc_restriction_string_to_enum (told)), "INCLUSIVE"), "a limit is said to be %s", told);
        OKAY (dc_finalize (&r.p));
        ways++;
    }
    // what makes no sense for x; nothing may come of it
    void mistakes (struct disir_context *x, const MoldNode *n, bool typed, bool finished)
    {
        struct disir_context *h = nullptr;
        int k = c.s.range (0, 2);
        for (int i = 0; i < k; i++)
        {
            struct disir_version one = { 1, 0 };
            switch (c.s.below (10))
            {
            case 0: no (dc_begin (x, DISIR_CONTEXT_MOLD, &h), { DISIR_STATUS_WRONG_CONTEXT }, "a mold within a mold"); break;
            case 1: no (dc_begin (x, DISIR_CONTEXT_CONFIG, &h), { DISIR_STATUS_WRONG_CONTEXT }, "a configuration within a mold"); break;
            case 2: no (dc_begin (x, (enum disir_context_type) 0, &h), { DISIR_STATUS_INVALID_ARGUMENT, DISIR_STATUS_WRONG_CONTEXT }, "an element of no kind"); break;
            case 3: no (dc_add_documentation (x, nullptr, 4), { DISIR_STATUS_INVALID_ARGUMENT }, "documentation without text"); break;
            case 4:
                if (!n) { no (dc_begin (x, DISIR_CONTEXT_RESTRICTION, &h), { DISIR_STATUS_WRONG_CONTEXT }, "a restriction of a mold"); no (dc_add_restriction_entries_max (x, 1, &one), { DISIR_STATUS_WRONG_CONTEXT }, "a limit of a mold"); }
                else if (n->section) no (dc_add_restriction_value_range (x, 0, 1, nullptr, &one, nullptr), { DISIR_STATUS_WRONG_CONTEXT }, "a range of a section");
                else if (typed && (n->type == VSTR || n->type == VBOOL || n->type == VENUM)) no (dc_add_restriction_value_range (x, 0, 1, nullptr, &one, nullptr), { DISIR_STATUS_WRONG_VALUE_TYPE }, "a range of what is no number");
                else if (typed) no (dc_add_restriction_value_enum (x, "e", nullptr, &one, nullptr), { DISIR_STATUS_WRONG_VALUE_TYPE }, "an enumerator of a number");
                break;
            case 5:
                if (!n || n->section) { no (dc_begin (x, DISIR_CONTEXT_DEFAULT, &h), { DISIR_STATUS_WRONG_CONTEXT }, "a default of what is no keyval"); no (dc_add_default_integer (x, 1, &one), { DISIR_STATUS_WRONG_CONTEXT }, "a default of what is no keyval"); }
                else no (dc_begin (x, DISIR_CONTEXT_KEYVAL, &h), { DISIR_STATUS_WRONG_CONTEXT }, "a keyval of a keyval");
                break;
            case 6:
                if (!n || n->section) no (dc_set_value_type (x, DISIR_VALUE_TYPE_INTEGER), { DISIR_STATUS_WRONG_CONTEXT }, "the type of what is no keyval");
                else { no (dc_set_value_type (x, DISIR_VALUE_TYPE_UNKNOWN), { DISIR_STATUS_INVALID_ARGUMENT }, "no type"); no (dc_begin (x, DISIR_CONTEXT_SECTION, &h), { DISIR_STATUS_WRONG_CONTEXT }, "a section of a keyval"); }
                break;
            case 7:
                if (!n) no (dc_set_name (x, "n", 1), { DISIR_STATUS_WRONG_CONTEXT }, "a name for a mold");
                else if (finished) no (dc_set_name (x, "n", 1), { DISIR_STATUS_CONTEXT_IN_WRONG_STATE }, "another name for a finished element");
                break;
            case 8:
                if (n && !n->section && typed)
                {
                    Val w; w.t = n->type == VINT ? VSTR : n->type == VSTR || n->type == VENUM ? VFLT : VINT; w.s = "w";
                    struct disir_version v = { 77, 7 };
                    no (add_default (x, w, &v), { DISIR_STATUS_WRONG_VALUE_TYPE }, "a default of another type");
                }
                else if (n && !n->section) no (dc_add_default_integer (x, 1, &one), { DISIR_STATUS_INVALID_CONTEXT }, "a default before the type");
                break;
            default:
                if (!n) { no (dc_add_introduced (x, &one), { DISIR_STATUS_WRONG_CONTEXT }, "the introduction of a mold"); no (dc_add_deprecated (x, &one), { DISIR_STATUS_WRONG_CONTEXT }, "the deprecation of a mold"); no (dc_finalize (&x), { DISIR_STATUS_WRONG_CONTEXT }, "finishing a mold as an element"); }
                else if (finished) { struct disir_context *t = x; no (dc_finalize (&t), { DISIR_STATUS_CONTEXT_IN_WRONG_STATE }, "finishing twice"); if (t != x) fail ("finishing twice took the context"); }
                else no (dc_add_introduced (x, nullptr), { DISIR_STATUS_INVALID_ARGUMENT }, "no version");
            }
            if (h) fail ("a refused part was begun");
        }
        // what is already there at its version
        if (n && finished && c.s.below (4) == 3)
        {
            if (!n->defs.empty ()) { auto& d = c.s.pick (n->defs); struct disir_version v = ver (d.intro); no (add_default (x, d.v, &v), { DISIR_STATUS_CONFLICTING_SEMVER }, "a second default of a version"); }
            if (!n->incs.empty ()) { auto& l = c.s.pick (n->incs); struct disir_version v = ver (l.intro); no (l.max ? dc_add_restriction_entries_max (x, 3, &v) : dc_add_restriction_entries_min (x, 3, &v), { DISIR_STATUS_CONFLICTING_SEMVER, DISIR_STATUS_WRONG_VALUE_TYPE }, "a second limit of a version"); }
        }
    }
    // Builds n below parent; false if it was refused. What it is then is left in n
    bool node (struct disir_context *parent, MoldNode& n, const std::string& above, bool open, bool may_fail)
    {
        Fault f = FINE;
        if (may_fail && c.s.below (8) == 7) f = (Fault) c.s.range (1, NFAULTS - 1);
        if (n.section && (f == NOTYPE || f == NODEFAULT || f == TWICE_DEFAULT)) f = NAME;
        if (f == TWICE_ENTRIES && n.incs.empty ()) f = NAME;
        if (!n.section && f == FINE && n.defs.size () == 1 && n.excs.empty () && n.incs.empty () && n.depr.zero () && !n.doc.empty () && strlen (n.doc.c_str ()) == n.doc.size () && n.type != VENUM && strlen (n.defs[0].v.s.c_str ()) == n.defs[0].v.s.size () && c.s.below (2))
        {
            struct disir_version v = ver (n.defs[0].intro);
            CtxH out;
            struct disir_context **o = c.s.below (2) ? &out.p : nullptr;
            const char *nm = n.name.c_str (), *d = n.doc.c_str ();
            auto& w = n.defs[0].v;
            switch (n.type)
            {
            case VSTR: OKAY (dc_add_keyval_string (parent, nm, w.s.c_str (), d, &v, o)); break;
            case VINT: OKAY (dc_add_keyval_integer (parent, nm, w.i, d, &v, o)); break;
            case VFLT: OKAY (dc_add_keyval_float (parent, nm, w.f, d, &v, o)); break;
            default: OKAY (dc_add_keyval_boolean (parent, nm, w.b, d, &v, o)); break;
            }
            if (out.p) mistakes (out.p, &n, true, true);
            ways++;
            return true;
        }
        CtxH x;
        OKAY (dc_begin (parent, n.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &x.p));
        if (f == NAME)
        {
            // anywhere in the name, beside any other letter
            static const std::vector<std::string> odd { "A", "Z", " ", ".", "@", "-", "\xc3\xa6", "\n", "`", "{", "/", ":", "\x7f", "+" }, near { "", "_", "a", "z", "0", "9", "__" };
            std::string o = c.s.pick (near) + c.s.pick (odd);
            o += c.s.pick (near);
            size_t at = c.s.below (3);
            n.name.insert (at == 0 ? 0 : at == 1 ? n.name.size () : n.name.size () / 2, o);
            n.name += fmt ("_%02d", odd_names++ % 100);         // no two alike
        }
        if (f == TWICE_DEFAULT) { DefSpec d = c.s.pick (n.defs); n.defs.push_back (d); }
        if (f == NOTYPE || f == NODEFAULT) n.defs.clear ();
        if (f == NOTYPE) { n.excs.clear (); n.type = (decltype (n.type)) 0; }
        if (c.s.below (6) == 5)
        {
            struct disir_context *t = x.p;
            no (dc_finalize (&t), { DISIR_STATUS_CONTEXT_IN_WRONG_STATE }, "finishing without a name");
            if (t != x.p) fail ("finishing without a name took the context");
        }
        // the parts, in any order but for what needs the type
        std::vector<int> order { 0, 2, 3, 5, 6 };
        order.push_back (n.section ? 7 : 4);
        for (size_t i = order.size (); i > 1; i--) std::swap (order[i - 1], order[i - 1 - c.s.below (i)]);
        bool typed = false, named = false;
        int finished_defaults = 0;
        auto need_type = [&] { if (!typed && !n.section && f != NOTYPE) { mistakes (x.p, &n, false, false); OKAY (dc_set_value_type (x.p, (enum disir_value_type) n.type)); typed = true; } };
        for (int o : order)
        {
            struct disir_version v;
            switch (o)
            {
            case 0:
                if (c.s.below (6) == 5) OKAY (dc_set_name (x.p, "other", 5));
                OKAY (dc_set_name (x.p, n.name.c_str (), (int32_t) n.name.size ())); named = true;
                break;
            case 2:
                need_type ();
                if (n.section) { v = ver (n.sec_intro); OKAY (dc_add_introduced (x.p, &v)); }
                if (!n.depr.zero ()) { v = ver (n.depr); OKAY (dc_add_deprecated (x.p, &v)); }
                break;
            case 3: doc (x.p, n.doc); break;
            case 4:
                need_type ();
                for (auto& d : n.defs)
                {
                    bool again = f == TWICE_DEFAULT && &d == &n.defs.back ();
                    if (again) { v = ver (d.intro); no (add_default (x.p, d.v, &v), { DISIR_STATUS_INVALID_CONTEXT }, "a second default of a version"); }
                    else { one_default (x.p, d); finished_defaults++; }
                }
                if (finished_defaults && c.s.below (4) == 3) no (dc_set_value_type (x.p, (enum disir_value_type) (n.type == VINT ? VFLT : VINT)), { DISIR_STATUS_CONTEXT_IN_WRONG_STATE }, "another type for a keyval with defaults");
                break;
            case 5:
                need_type ();
                for (auto& e : n.excs) restriction (x.p, e);
                break;
            case 6:
                need_type ();
                for (auto& i : n.incs) limit (x.p, i);
                if (f == TWICE_ENTRIES)
                {
                    IncSpec i = c.s.pick (n.incs); i.n = i.n + 1;
                    v = ver (i.intro);
                    CtxH r;
                    OKAY (dc_begin (x.p, DISIR_CONTEXT_RESTRICTION, &r.p));
                    OKAY (dc_set_restriction_type (r.p, i.max ? DISIR_RESTRICTION_INC_ENTRY_MAX : DISIR_RESTRICTION_INC_ENTRY_MIN));
                    OKAY (dc_restriction_set_numeric (r.p, (double) i.n));
                    OKAY (dc_add_introduced (r.p, &v));
                    no (dc_finalize (&r.p), { DISIR_STATUS_INVALID_CONTEXT }, "a second limit of a version");
                    n.incs.push_back (i);
                }
                else if (!n.incs.empty () && c.s.below (4) == 3)
                {
                    auto& i = c.s.pick (n.incs); v = ver (i.intro);
                    no (i.max ? dc_add_restriction_entries_max (x.p, 5, &v) : dc_add_restriction_entries_min (x.p, 5, &v), { DISIR_STATUS_INVALID_CONTEXT, DISIR_STATUS_CONFLICTING_SEMVER }, "a second limit of a version");
                }
                if (f == KINDLESS)
                {
                    struct disir_context *r = nullptr;
                    OKAY (dc_begin (x.p, DISIR_CONTEXT_RESTRICTION, &r));
                    enum disir_status st = dc_finalize (&r);
                    no (st, { DISIR_STATUS_INVALID_CONTEXT, DISIR_STATUS_WRONG_VALUE_TYPE }, "a restriction of no kind");
                    if (r) dc_destroy (&r);
                }
                break;
            default: break;
            }
            if (c.s.below (3) == 2) mistakes (x.p, &n, typed, false);
        }
        (void) named;
        std::string path = above + n.name;
        bool below = false;
        if (n.section)
        {
            std::vector<MoldNode> made;
            size_t before = bad.size ();
            for (auto& k : n.kids) if (node (x.p, k, path + ".", true, may_fail && (open || f == NAME))) made.push_back (k);
            n.kids = made;
            below = bad.size () != before;
        }
        if (f == KINDLESS) f = FINE;        // it was given up
        // a limit given up by its owner is none
        bool ill = f != FINE;
        if (ill) { faults++; c.label (FN[f]); }
        struct disir_context *held = x.p;
        enum disir_status st = dc_finalize (&x.p);
        if (!ill && !below)
        {
            REQUIRE (st == DISIR_STATUS_OK && !x.p, "finishing %s gives %s", quote (path).c_str (), ss (st));
            if (c.s.below (4) == 3)
            {
                CtxH again;
                OKAY (dc_find_element (parent, n.name.c_str (), 0, &again.p));
                mistakes (again.p, &n, true, true);
            }
            return true;
        }
        refused++;
        if (open)
        {
            REQUIRE (st == DISIR_STATUS_INVALID_CONTEXT, "finishing %s, which has %s, gives %s", quote (path).c_str (), ill ? FN[f] : "such a part", ss (st));
            if (ill) bad.insert (path);
            if (x.p) { REQUIRE (dc_context_valid (x.p) == DISIR_STATUS_INVALID_CONTEXT, "%s is said to be valid", quote (path).c_str ()); dc_putcontext (&x.p); }
            return true;
        }
        // below what is finished already
        static const enum disir_status why[] = { DISIR_STATUS_OK, DISIR_STATUS_RESTRICTION_VIOLATED, DISIR_STATUS_WRONG_VALUE_TYPE, DISIR_STATUS_DEFAULT_MISSING, DISIR_STATUS_CONFLICTING_SEMVER, DISIR_STATUS_CONFLICTING_SEMVER };
        REQUIRE (st == why[f], "finishing %s, which has %s, gives %s, not %s", quote (path).c_str (), FN[f], ss (st), ss (why[f]));
        REQUIRE (x.p == held, "what was refused is taken");
        if (n.section) { auto p = path + "."; for (auto i = bad.begin (); i != bad.end ();) if (i->compare (0, p.size (), p) == 0) i = bad.erase (i); else ++i; }
        dc_destroy (&x.p);
        return false;
    }
};

std::multiset<std::string> named (struct disir_mold *m, enum disir_status *st)
{
    struct disir_collection *col = nullptr;
    std::multiset<std::string> r;
    *st = disir_mold_valid (m, &col);
    if (!col) return r;
    CtxH x;
    while (dc_collection_next (col, &x.p) == DISIR_STATUS_OK)
    {
        char *n = nullptr;
        if (dc_context_type (x.p) == DISIR_CONTEXT_MOLD) r.insert ("(the mold)");
        else { OKAY (dc_resolve_root_name (x.p, &n)); r.insert (n); free (n); }
        dc_putcontext (&x.p);
    }
    dc_collection_finished (&col);
    return r;
}
std::string join (const std::multiset<std::string>& s) { std::string r; for (auto& x : s) r += (r.empty () ? "" : ", ") + quote (x); return r; }

void run (Ctx& c)
{
    GenOpt o;
    o.max_depth = 3; o.max_kids = 4; o.strings = c.s.range (0, 2); o.big_versions = c.s.below (4) == 3;
    MoldSpec ms = gen_mold (c.s, o), later;
    if (c.s.below (2)) { later = gen_mold (c.s, o); if (later.kids.size () > 2) later.kids.resize (2); }
    std::set<std::string> names;
    for (auto& k : ms.kids) names.insert (k.name);
    for (auto& k : later.kids) while (names.count (k.name)) k.name += "z";
    if (c.verbose) c.log ("%s\nlater:\n%s", dump (ms).c_str (), dump (later).c_str ());
    bool clean = c.s.below (3) == 0;
    Builder b (c);
    CtxH root;
    OKAY (dc_mold_begin (&root.p));
    b.mistakes (root.p, nullptr, false, false);
    MoldSpec want; want.doc = ms.doc;
    bool late = c.s.below (2);
    if (!late) b.doc (root.p, ms.doc);
    for (auto& k : ms.kids) if (b.node (root.p, k, "", true, !clean)) want.kids.push_back (k);
    if (late) b.doc (root.p, ms.doc);
    b.mistakes (root.p, nullptr, false, false);
    MoldH m;
    enum disir_status st = dc_mold_finalize (&root.p, &m.p);
    root.p = nullptr;
    REQUIRE (m.p, "no mold is made: %s", ss (st));
    auto check = [&] (const char *when)
    {
        enum disir_status v;
        auto got = named (m.p, &v);
        if (got != b.bad) fail ("%s, invalid are [%s], told are [%s]", when, join (b.bad).c_str (), join (got).c_str ());
        REQUIRE (v == (b.bad.empty () ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT), "%s, the mold with %zu invalid elements is %s", when, b.bad.size (), ss (v));
        MoldSpec seen = observe_mold (m.p);
        // keyvals without a type hold nothing of it
        std::string w = dump (want), g = dump (seen);
        REQUIRE (w == g, "%s, the mold is\n%s", when, dump_diff (w, g).c_str ());
        struct disir_version ver;
        OKAY (dc_mold_get_version (m.p, &ver));
        if (b.bad.empty ()) REQUIRE (Ver (ver.sv_major, ver.sv_minor) == want.version (), "%s, the version of the mold is %u.%u, not %s", when, ver.sv_major, ver.sv_minor, want.version ().str ().c_str ());
    };
    REQUIRE (st == (b.bad.empty () ? DISIR_STATUS_OK : DISIR_STATUS_INVALID_CONTEXT), "a mold with %zu invalid elements is made: %s", b.bad.size (), ss (st));
    check ("once made");
    if (!later.kids.empty ())
    {
        CtxH x (dc_mold_getcontext (m.p));
        for (auto& k : later.kids) if (b.node (x.p, k, "", false, !clean)) { want.kids.push_back (k); c.label ("extended"); }
        check ("extended");
    }
    // taking invalid elements away makes it valid
    if (!b.bad.empty () && c.s.below (2))
    {
        std::vector<MoldNode> *level = &want.kids;
        CtxH x (dc_mold_getcontext (m.p));
        for (size_t i = 0; i < level->size ();)
        {
            auto& k = (*level)[i];
            std::string p = k.name + ".";
            bool any = b.bad.count (k.name);
            for (auto& n : b.bad) any = any || n.compare (0, p.size (), p) == 0;
            if (!any) { i++; continue; }
            CtxH e;
            OKAY (dc_find_element (x.p, k.name.c_str (), 0, &e.p));
            OKAY (dc_destroy (&e.p));
            level->erase (level->begin () + i);
        }
        b.bad.clear ();
        enum disir_status v;
        auto got = named (m.p, &v);
        REQUIRE (got.empty () && v == DISIR_STATUS_OK, "without its invalid elements, the mold is %s for [%s]", ss (v), join (got).c_str ());
        MoldSpec seen = observe_mold (m.p);
        std::string w = dump (want), g = dump (seen);
        REQUIRE (w == g, "without its invalid elements, the mold is\n%s", dump_diff (w, g).c_str ());
        c.label ("cleaned");
    }
    if (b.faults) c.nontrivial ("ill-formed elements were built");
    else if (b.refused >= 2) c.nontrivial ("mistakes were refused");
    else if (b.ways >= 2) c.nontrivial ("parts were built step by step");
}
}
Property property = { "C16",
    "molds of up to 3 levels built part by part in any order and by every call that adds a part, with mistaken calls between them and elements that have no type, no default, no proper name, or two defaults or limits of one version; then extended, or cleaned of what is invalid; non-trivial: ill-formed elements were built, or at least two calls refused, or two parts built step by step",
    run, 16000, 250000, {}, make_instance };
