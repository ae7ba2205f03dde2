#include "model.h"
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>

const char *ss (enum disir_status s) { return disir_status_string (s); }
const char *vt_name (VT t)
{
    switch (t) { case VSTR: return "STRING"; case VINT: return "INTEGER"; case VFLT: return "FLOAT";
                 case VBOOL: return "BOOLEAN"; case VENUM: return "ENUM"; }
    return "?";
}
std::string Val::dump () const
{
    switch (t)
    {
    case VSTR: return "str:" + s;
    case VENUM: return "enum:" + s;
    case VINT: return fmt ("int:%lld", (long long) i);
    case VFLT: return f == 0 ? std::string ("flt:0") : fmt ("flt:%.17g", f);
    case VBOOL: return std::string ("bool:") + (b ? "1" : "0");
    }
    return "?";
}
std::string Val::text () const
{
    switch (t)
    {
    case VSTR: case VENUM: return s;
    case VINT: return fmt ("%lld", (long long) i);
    case VFLT: return fmt ("%f", f);
    case VBOOL: return b ? "True" : "False";
    }
    return "?";
}

// ---------------------------------------------------------------- spec accessors
Ver MoldNode::intro () const
{
    if (section) return sec_intro;
    Ver lo (UINT32_MAX, UINT32_MAX);
    for (auto& d : defs) lo = std::min (lo, d.intro);
    return lo;
}
static const MoldNode *kid_of (const std::vector<MoldNode>& k, const std::string& n)
{
    for (auto& c : k) if (c.name == n) return &c;
    return nullptr;
}
const MoldNode *MoldNode::kid (const std::string& n) const { return kid_of (kids, n); }
const MoldNode *MoldSpec::kid (const std::string& n) const { return kid_of (kids, n); }
static void collect_versions (const MoldNode& n, std::set<Ver>& out)
{
    auto add = [&] (Ver v) { if (!v.zero ()) out.insert (v); };
    if (n.section) add (n.sec_intro);
    add (n.depr);
    for (auto& d : n.defs) add (d.intro);
    for (auto& e : n.excs) { add (e.intro); add (e.depr); }
    for (auto& i : n.incs) { add (i.intro); add (i.depr); }
    for (auto& k : n.kids) collect_versions (k, out);
}
std::vector<Ver> MoldSpec::versions () const
{
    std::set<Ver> s; s.insert (Ver (1, 0));
    for (auto& k : kids) collect_versions (k, s);
    return std::vector<Ver> (s.begin (), s.end ());
}
Ver MoldSpec::version () const { return versions ().back (); }

// ---------------------------------------------------------------- reference semantics
bool active_at (const MoldNode& n, Ver v)
{
    return n.intro () <= v && (n.depr.zero () || v < n.depr);
}
const DefSpec& active_default (const MoldNode& n, Ver v)
{
    const DefSpec *best = nullptr, *lowest = nullptr;
    for (auto& d : n.defs)
    {
        if (!lowest || d.intro < lowest->intro) lowest = &d;
        if (d.intro <= v && (!best || best->intro < d.intro)) best = &d;
    }
    return best ? *best : *lowest;
}
const DefSpec& highest_default (const MoldNode& n)
{
    const DefSpec *best = nullptr;
    for (auto& d : n.defs) if (!best || best->intro < d.intro) best = &d;
    return *best;
}
static bool inc_value (const MoldNode& n, bool max, Ver v, int64_t& out)
{
    const IncSpec *best = nullptr;
    for (auto& i : n.incs)
        if (i.max == max && i.intro <= v && (!best || best->intro < i.intro)) best = &i;
    if (best) out = best->n;
    return best != nullptr;
}
int min_entries (const MoldNode& n, Ver v)
{
    if (!active_at (n, v)) return 0;
    int64_t r = 1; inc_value (n, false, v, r);
    return (int) r;
}
int max_entries (const MoldNode& n, Ver v)
{
    if (!active_at (n, v)) return -1;
    int64_t r = 1; inc_value (n, true, v, r);
    int mn = min_entries (n, v);
    if (r != 0 && r < mn) r = mn;
    return (int) r;
}
bool exc_active (const ExcSpec& e, Ver v) { return e.intro <= v && (e.depr.zero () || v < e.depr); }
bool value_allowed (const MoldNode& n, const Val& val, Ver v)
{
    if (n.type == VSTR || n.type == VBOOL) return true;
    bool any = false, ok = false;
    for (auto& e : n.excs)
    {
        if (!exc_active (e, v)) continue;
        if (n.type == VENUM)
        {
            if (e.t != X_ENUM) continue;
            any = true; ok |= e.s == val.s;
        }
        else
        {
            double d = n.type == VINT ? (double) val.i : val.f;
            any = true;
            if (e.t == X_RANGE) ok |= e.lo <= d && d <= e.hi;
            else if (e.t == X_NUM) ok |= e.lo == d;
        }
    }
    if (n.type == VENUM) return ok;
    return !any || ok;
}
static void gen_model_nodes (const std::vector<MoldNode>& m, Ver v, std::vector<CfgNode>& out)
{
    for (auto& n : m)
        for (int k = 0; k < min_entries (n, v); k++)
        {
            CfgNode c; c.section = n.section; c.name = n.name;
            if (n.section) gen_model_nodes (n.kids, v, c.kids);
            else c.v = active_default (n, v).v;
            out.push_back (c);
        }
}
CfgSpec generate_model (const MoldSpec& m, Ver v)
{
    CfgSpec c; c.version = v;
    gen_model_nodes (m.kids, v, c.kids);
    return c;
}
static bool kids_violate (const std::vector<MoldNode> *mold, const std::vector<CfgNode>& kids, Ver v)
{
    if (!mold) return false;
    for (auto& n : *mold)
    {
        int cnt = 0;
        for (auto& k : kids) if (k.name == n.name) cnt++;
        int mn = min_entries (n, v), mx = max_entries (n, v);
        if (cnt < mn) return true;
        if (mx == -1 ? cnt > 0 : (mx != 0 && cnt > mx)) return true;
    }
    return false;
}
static void invalid_nodes (const std::vector<MoldNode> *mold, const std::vector<CfgNode>& kids,
                           const std::string& prefix, Ver v, std::multiset<std::string>& out)
{
    std::map<std::string, int> idx;
    for (auto& k : kids)
    {
        int i = idx[k.name]++;
        std::string path = prefix + k.name + (i ? fmt ("@%d", i) : "");
        const MoldNode *n = mold ? kid_of (*mold, k.name) : nullptr;
        bool bad;
        if (!n || n->section != k.section) { bad = true; n = nullptr; }
        else if (k.section) bad = kids_violate (&n->kids, k.kids, v);
        else bad = n->type != k.v.t || !value_allowed (*n, k.v, v);
        if (bad) out.insert (path);
        if (k.section) invalid_nodes (n ? &n->kids : nullptr, k.kids, path + ".", v, out);
    }
}
static void mask_nodes (const std::vector<MoldNode> *mk, std::vector<CfgNode>& kids)
{
    for (auto& k : kids)
    {
        const MoldNode *n = mk ? kid_of (*mk, k.name) : nullptr;
        if (n && n->section != k.section) n = nullptr;
        if (k.section) mask_nodes (n ? &n->kids : nullptr, k.kids);
        else if (!n && k.v.t != VSTR) k.v = Val::str ("?");
    }
}
void mask_unknown (const MoldSpec& m, CfgSpec& c) { mask_nodes (&m.kids, c.kids); }
std::multiset<std::string> invalid_model (const MoldSpec& m, const CfgSpec& c)
{
    std::multiset<std::string> out;
    if (kids_violate (&m.kids, c.kids, c.version)) out.insert ("");
    invalid_nodes (&m.kids, c.kids, "", c.version, out);
    return out;
}

// ---------------------------------------------------------------- dumps
static void dump_mold_nodes (const std::vector<MoldNode>& k, const std::string& ind, std::string& o)
{
    for (auto& n : k)
    {
        o += ind + (n.section ? "section " : "keyval ") + n.name;
        if (n.section) o += " introduced=" + n.sec_intro.str ();
        else o += std::string (" type=") + vt_name (n.type);
        if (!n.depr.zero ()) o += " deprecated=" + n.depr.str ();
        if (!n.doc.empty ()) o += " doc=" + quote (n.doc);
        o += "\n";
        auto defs = n.defs;
        std::stable_sort (defs.begin (), defs.end (), [] (const DefSpec& a, const DefSpec& b) { return a.intro < b.intro; });
        for (auto& d : defs) o += ind + "  default " + d.intro.str () + " = " + quote (d.v.dump ()) + "\n";
        std::vector<std::string> r;
        for (auto& e : n.excs)
        {
            std::string x = ind + "  restriction ";
            if (e.t == X_ENUM) x += "enum " + quote (e.s);
            else if (e.t == X_RANGE) x += fmt ("range %.17g..%.17g", e.lo + 0.0, e.hi + 0.0);
            else x += fmt ("numeric %.17g", e.lo + 0.0);
            x += " introduced=" + e.intro.str ();
            if (!e.depr.zero ()) x += " deprecated=" + e.depr.str ();
            if (!e.doc.empty ()) x += " doc=" + quote (e.doc);
            r.push_back (x);
        }
        for (auto& i : n.incs)
        {
            std::string x = ind + "  restriction " + (i.max ? "max " : "min ") + fmt ("%lld", (long long) i.n)
                + " introduced=" + i.intro.str ();
            if (!i.depr.zero ()) x += " deprecated=" + i.depr.str ();
            r.push_back (x);
        }
        std::sort (r.begin (), r.end ());
        for (auto& x : r) o += x + "\n";
        dump_mold_nodes (n.kids, ind + "    ", o);
    }
}
std::string dump (const MoldSpec& m)
{
    std::string o = "mold";
    if (!m.doc.empty ()) o += " doc=" + quote (m.doc);
    o += "\n";
    dump_mold_nodes (m.kids, "  ", o);
    return o;
}
std::string dump_nodes (const std::vector<CfgNode>& k, const std::string& ind)
{
    std::string o;
    for (auto& n : k)
    {
        if (n.section) o += ind + "[" + n.name + "]\n" + dump_nodes (n.kids, ind + "    ");
        else o += ind + n.name + " = " + quote (n.v.dump ()) + "\n";
    }
    return o;
}
std::string dump (const CfgSpec& c, bool with_version)
{
    return (with_version ? "config " + c.version.str () : std::string ("config")) + "\n" + dump_nodes (c.kids, "  ");
}
std::string dump_diff (const std::string& e, const std::string& g)
{
    // first differing line with context
    std::istringstream a (e), b (g); std::string la, lb; int n = 0;
    std::string prev;
    while (true)
    {
        bool ha = (bool) std::getline (a, la), hb = (bool) std::getline (b, lb);
        n++;
        if (!ha && !hb) return "(equal)";
        if (!ha || !hb || la != lb)
            return fmt ("line %d after %s:\n  expected: %s\n  observed: %s", n, quote (prev).c_str (),
                        ha ? la.c_str () : "(end)", hb ? lb.c_str () : "(end)");
        prev = la;
    }
}
std::string join (const std::multiset<std::string>& s)
{
    std::string o = "{";
    for (auto& x : s) o += (o.size () > 1 ? ", " : "") + (x.empty () ? std::string ("<root>") : x);
    return o + "}";
}

// ---------------------------------------------------------------- generators
std::string gen_name (Src& s)
{
    static const std::vector<std::string> pool { "a", "b", "c", "key", "sec", "k_1", "0", "_x", "name", "value",
        "a1", "b_", "plugin", "mold", "config", "x9", "9x", "long_name_for_an_element", "version", "z" };
    if (s.below (5) != 4) return s.pick (pool);
    std::string n; int len = s.range (1, s.below (10) == 9 ? 60 : 6);
    static const char cs[] = "abcdefghijklmnopqrstuvwxyz0123456789_";
    for (int i = 0; i < len; i++) n += cs[s.below (37)];
    return n;
}
static void put_utf8 (std::string& o, uint32_t c)
{
    if (c < 0x80) o += (char) c;
    else if (c < 0x800) { o += (char) (0xc0 | c >> 6); o += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char) (0xe0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    else { o += (char) (0xf0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
}
std::string gen_text (Src& s, int level)
{
    static const std::vector<std::string> pool { "", "a", "b", "value", "hello world", "True", "0", "3.14", "null" };
    static const std::vector<std::string> pool2 { "\"", "\\", "a\"b\\c", "%s%n%d", "'", "#comment", "a = b", "[x]", "/path/to/", " lead", "trail ", "a@1.b", "{}", "\\n", "\\u0041", "$HOME" };
    static const std::vector<std::string> pool3 { "\n", "\t", "line1\nline2", "\r\n", "\x01\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\b\f", "\xef\xbb\xbf", "\xc2\x80", "\xef\xbf\xbf", "\"\"\"" };
    switch (s.below (level == 0 ? 3 : level == 1 ? 6 : 9))
    {
    case 0: case 1: return s.pick (pool);
    case 2: case 5:
    {
        std::string r; int n = s.range (0, s.below (12) == 11 ? 600 : 12);
        for (int i = 0; i < n; i++) r += (char) (level == 0 ? 'a' + s.below (26) : 32 + s.below (95));
        return r;
    }
    case 3: case 4: return s.pick (pool2);
    case 6: return s.pick (pool3);
    default:
    {
        std::string r; int n = s.range (0, 10);
        for (int i = 0; i < n; i++)
        {
            uint32_t c;
            switch (s.below (5))
            {
            case 0: c = 1 + s.below (0x7f); break;
            case 1: c = 0x80 + s.below (0x780); break;
            case 2: c = 0x800 + s.below (0xd000 - 0x800); break;
            case 3: c = 0xe000 + s.below (0x1ffe); break;
            default: c = 0x10000 + s.below (0x100000); break;
            }
            put_utf8 (r, c);
        }
        return r;
    }
    }
}
Ver gen_version (Src& s, bool big)
{
    static const std::vector<Ver> pool { {1,0}, {1,1}, {1,2}, {2,0}, {1,5}, {2,1}, {3,0}, {1,10}, {2,7}, {10,0}, {4,2}, {3,9} };
    if (big && s.below (4) == 3)
    {
        static const std::vector<uint32_t> b { 0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 65536, 1000000, 0xfffffffeu };
        Ver v (s.pick (b), s.pick (b));
        if (v.zero ()) v.min = 1;
        return v;
    }
    return s.pick (pool);
}
int64_t gen_int (Src& s)
{
    static const std::vector<int64_t> pool { 0, 1, -1, 2, 42, 100, -100, INT32_MAX, INT32_MIN, (int64_t) INT32_MAX + 1,
        (int64_t) INT32_MIN - 1, (int64_t) UINT32_MAX, (int64_t) UINT32_MAX + 1, INT64_MAX, INT64_MIN, 4294967303ll,
        (1ll << 53), (1ll << 53) + 1, -(1ll << 53) - 1, 1ll << 62, INT64_MAX - 1 };
    switch (s.below (4))
    {
    case 0: return s.range (-20, 20);
    case 1: return s.pick (pool);
    case 2: return (int64_t) s.below (100000) - 50000;
    default: return (int64_t) (s.u64 () >> s.below (60)) * (s.below (2) ? -1 : 1);
    }
}
double gen_double (Src& s, bool exact6)
{
    if (exact6)
        switch (s.below (3))
        {
        case 0: return (double) s.range (-50, 50);
        case 1: return s.range (-4000, 4000) / 8.0;
        default: return s.range (-400000, 400000) / 64.0;
        }
    static const std::vector<double> pool { 0, 1, -1, 0.5, 3.14, 1e-7, 1e10, 1e300, -1e300, 1e-300, 0.1, 1.0 / 3, 123456789.123456789,
        9007199254740993.0, 1e22, 5e-324, 1.7976931348623157e308, 2.5, 100, 1e15, 1e16, 1e17, 123456.7 };
    switch (s.below (4))
    {
    case 0: return s.range (-40, 40) / 4.0;
    case 1: return s.pick (pool);
    case 2: return s.range (-1000000, 1000000) / 1000.0;
    default:
    {
        uint64_t u = s.u64 (); double d; memcpy (&d, &u, 8);
        if (!std::isfinite (d) || d == 0) d = 1.5;
        return d;
    }
    }
}
Val gen_value (Src& s, VT t, const GenOpt& o)
{
    switch (t)
    {
    case VSTR: return Val::str (gen_text (s, o.strings));
    case VENUM: return Val::en (gen_text (s, std::min (o.strings, 1)));
    case VINT: return Val::integer (gen_int (s));
    case VFLT: return Val::flt (gen_double (s, o.floats_exact6));
    case VBOOL: return Val::boolean (s.below (2));
    }
    return Val::integer (0);
}
static VT gen_type (Src& s, const GenOpt& o)
{
    std::vector<VT> ok;
    for (VT t : { VINT, VSTR, VFLT, VBOOL, VENUM }) if (o.types & (1 << t)) ok.push_back (t);
    return s.pick (ok);
}
// Restriction numbers are stored as double, and truncated to an integer on integer keyvals
static double gen_num (Src& s, VT t)
{
    if (t == VINT) return (double) (s.below (6) == 5 ? (int64_t) s.below (2000000000) * 4 - 4000000000ll : s.range (-20, 120));
    return s.below (4) == 3 ? gen_double (s, false) : s.range (-80, 400) / 4.0;
}
static void gen_keyval (Src& s, const GenOpt& o, MoldNode& n)
{
    n.type = gen_type (s, o);
    int nd = o.multi_version ? 1 + (int) s.weighted ({ 5, 3, 2, 1 }) : 1;
    std::set<Ver> seen;
    for (int i = 0; i < nd; i++)
    {
        DefSpec d;
        d.intro = o.multi_version ? gen_version (s, o.big_versions) : Ver (1, 0);
        d.v = gen_value (s, n.type, o);
        if (seen.insert (d.intro).second) n.defs.push_back (d);
    }
    if (n.type == VENUM)
    {
        int ne = s.range (1, 4);
        for (int i = 0; i < ne; i++)
        {
            ExcSpec e; e.t = X_ENUM; e.s = gen_text (s, std::min (o.strings, 1));
            if (o.multi_version && s.below (2)) e.intro = gen_version (s, o.big_versions);
            if (o.deprecations && o.multi_version && s.below (3) == 2)
            { e.depr = gen_version (s, o.big_versions); if (e.depr <= e.intro) e.depr = Ver (0, 0); }
            if (o.docs && s.below (5) == 4) e.doc = gen_text (s, std::min (o.strings, 1));
            n.excs.push_back (e);
        }
    }
    else if ((n.type == VINT || n.type == VFLT) && o.restrictions && s.below (2))
    {
        int ne = s.range (1, 3);
        for (int i = 0; i < ne; i++)
        {
            ExcSpec e; e.t = s.below (2) ? X_NUM : X_RANGE;
            e.lo = gen_num (s, n.type);
            if (e.t == X_RANGE) { e.hi = gen_num (s, n.type); if (e.hi < e.lo) std::swap (e.lo, e.hi); }
            if (o.multi_version && s.below (2)) e.intro = gen_version (s, o.big_versions);
            if (o.deprecations && o.multi_version && s.below (3) == 2)
            { e.depr = gen_version (s, o.big_versions); if (e.depr <= e.intro) e.depr = Ver (0, 0); }
            if (o.docs && s.below (5) == 4) e.doc = gen_text (s, std::min (o.strings, 1));
            n.excs.push_back (e);
        }
    }
    if (o.valid_defaults && !n.excs.empty ())
    {
        // cover every default that some version would reject, for as long as it is active
        MoldSpec tmp; tmp.kids.push_back (n);
        auto vs = tmp.versions ();
        vs.push_back (Ver (UINT32_MAX, UINT32_MAX));
        // adding one may turn an unrestricted version into a restricted one: until nothing changes
        for (bool again = true; again; )
        for (size_t vi = (again = false, 0); vi < vs.size (); vi++)
        {
            Ver v = vs[vi];
            if (v < n.intro ()) continue;
            const Val& d = active_default (n, v).v;
            if (value_allowed (n, d, v)) continue;
            ExcSpec e;
            if (n.type == VENUM) { e.t = X_ENUM; e.s = d.s; }
            else
            {
                double x = n.type == VINT ? (double) d.i : d.f;
                if (n.type == VINT && (x >= 9223372036854775807.0 || x < -9223372036854775808.0))
                    { n.excs.clear (); again = false; break; }
                e.t = X_NUM; e.lo = x;
            }
            if (v < e.intro) e.intro = v;
            n.excs.push_back (e);
            again = true;
        }
    }
}
static void gen_nodes (Src& s, const GenOpt& o, int depth, int minkids, std::vector<MoldNode>& out)
{
    int nk = s.range (minkids, std::max (minkids, o.max_kids));
    std::set<std::string> names;
    for (int i = 0; i < nk; i++)
    {
        MoldNode n;
        n.name = gen_name (s);
        if (!names.insert (n.name).second) { n.name += fmt ("_%d", i); if (!names.insert (n.name).second) continue; }
        n.section = depth < o.max_depth && s.below (3) == 2;
        if (n.section)
        {
            if (o.multi_version && s.below (3) == 2) n.sec_intro = gen_version (s, o.big_versions);
            gen_nodes (s, o, depth + 1, o.nonempty_sections ? 1 : 0, n.kids);
        }
        else gen_keyval (s, o, n);
        if (o.docs && s.below (4) == 3) n.doc = gen_text (s, o.strings);
        if (o.deprecations && o.multi_version && s.below (6) == 5)
        {
            n.depr = gen_version (s, o.big_versions);
            if (n.depr <= n.intro ()) n.depr = Ver (0, 0);
        }
        if (o.entries && s.below (3) == 2)
        {
            int ni = s.range (1, o.multi_version ? 4 : 2);
            std::set<std::pair<bool, Ver>> seen;
            for (int k = 0; k < ni; k++)
            {
                IncSpec e; e.max = s.below (2);
                e.n = e.max ? (int64_t) s.below (o.max_entries + 1) : (int64_t) s.below (std::min (o.max_entries, 3) + 1);
                if (o.multi_version && s.below (2)) e.intro = gen_version (s, o.big_versions);
                if (!seen.insert ({ e.max, e.intro }).second) continue;
                n.incs.push_back (e);
            }
        }
        out.push_back (n);
    }
}
MoldSpec gen_mold (Src& s, const GenOpt& o)
{
    MoldSpec m;
    if (o.docs && s.below (3) == 2) m.doc = gen_text (s, o.strings);
    gen_nodes (s, o, 0, 1, m.kids);
    if (o.crowd && (int) s.below (o.crowd) == o.crowd - 1)
    {
        std::vector<MoldNode> *to = &m.kids;
        for (auto& k : m.kids) if (k.section && s.below (3) == 2) { to = &k.kids; break; }
        std::set<std::string> names;
        for (auto& k : *to) names.insert (k.name);
        int n = s.range (20, 80), often = (int) s.below (n);
        for (int i = 0; i < n; i++)
        {
            MoldNode k; k.type = VINT;
            // names that often fall together in a small hash table
            k.name = fmt ("x%c%c", 'a' + i % 9, 'a' + (i / 9 + 3 * i) % 26);
            if (!names.insert (k.name).second) continue;
            k.defs.push_back ({ Ver (1, 0), Val::integer (i) });
            if (i == often) { IncSpec e; e.max = true; e.n = s.range (9, 30); k.incs.push_back (e); }
            if (s.below (2)) { IncSpec e; e.n = 0; k.incs.push_back (e); }
            to->push_back (k);
        }
    }
    return m;
}
Ver gen_version_of (Src& s, const MoldSpec& m, bool allow_above)
{
    auto vs = m.versions ();
    Ver top = vs.back ();
    Ver v = vs[s.below (vs.size ())];
    switch (s.below (6))
    {
    case 0: return top;
    case 4: if (v.min < UINT32_MAX) v.min++; break;
    case 5:
        if (v.min > 0) v.min--;
        else if (v.maj > 0) { v.maj--; v.min = 3; }
        break;
    default: break;
    }
    if (!allow_above && v > top) v = top;
    if (v.zero ()) v = Ver (1, 0);
    return v;
}
Val gen_allowed (Src& s, const MoldNode& n, Ver v, const GenOpt& o)
{
    Val d = active_default (n, v).v;
    for (int k = 0; k < 4; k++)
    {
        Val x;
        std::vector<const ExcSpec *> act;
        for (auto& e : n.excs) if (exc_active (e, v)) act.push_back (&e);
        if (act.empty () || n.type == VSTR || n.type == VBOOL) x = gen_value (s, n.type, o);
        else
        {
            const ExcSpec& e = *act[s.below (act.size ())];
            if (n.type == VENUM) x = Val::en (e.s);
            else
            {
                double y = e.lo;
                if (e.t == X_RANGE)
                    switch (s.below (3)) { case 0: y = e.lo; break; case 1: y = e.hi; break;
                                           default: y = e.lo + (e.hi - e.lo) * (s.below (9) / 8.0); }
                if (n.type == VINT)
                {
                    if (!(std::fabs (y) < 9e18)) continue;
                    x = Val::integer ((int64_t) std::ceil (y));
                }
                else x = Val::flt (y);
            }
        }
        if (x.t == VFLT && !std::isfinite (x.f)) continue;
        if (value_allowed (n, x, v)) return x;
    }
    return d;
}
static void gen_cfg_nodes (Src& s, const std::vector<MoldNode>& mold, Ver v, const GenOpt& o, std::vector<CfgNode>& out)
{
    for (auto& n : mold)
    {
        int mn = min_entries (n, v), mx = max_entries (n, v);
        if (mx == -1) continue;
        int cnt = mn;
        if (mx == 0) cnt = mn + (o.crowd && !n.section && s.below (30) == 29 ? s.range (3, 40) : (int) s.below (3));
        else if (mx > mn) cnt = mn + (int) s.below (mx - mn + 1);
        for (int k = 0; k < cnt; k++)
        {
            CfgNode c; c.section = n.section; c.name = n.name;
            if (n.section) gen_cfg_nodes (s, n.kids, v, o, c.kids);
            else c.v = s.below (4) == 0 ? active_default (n, v).v : gen_allowed (s, n, v, o);
            out.push_back (c);
        }
    }
    if (o.shuffle && out.size () > 1 && s.below (3) == 2)
        for (size_t i = out.size () - 1; i > 0; i--) std::swap (out[i], out[i - s.below (i + 1)]);
}
CfgSpec gen_config (Src& s, const MoldSpec& m, Ver v, const GenOpt& o)
{
    CfgSpec c; c.version = v;
    gen_cfg_nodes (s, m.kids, v, o, c.kids);
    return c;
}

std::vector<CfgNode> gen_config_kids (Src& s, const std::vector<MoldNode>& mold, Ver v, const GenOpt& o)
{
    std::vector<CfgNode> out;
    gen_cfg_nodes (s, mold, v, o, out);
    return out;
}
static int count_nodes (const std::vector<CfgNode>& k)
{
    int n = 0;
    for (auto& x : k) n += 1 + count_nodes (x.kids);
    return n;
}
static void drop_kinds (const std::vector<MoldNode>& mk, std::vector<CfgNode>& k)
{
    for (auto it = k.begin (); it != k.end (); )
    {
        const MoldNode *n = kid_of (mk, it->name);
        if (n && n->section != it->section) { it = k.erase (it); continue; }
        if (n && n->section) drop_kinds (n->kids, it->kids);
        ++it;
    }
}
void mutate_config (Src& s, const MoldSpec& m, CfgSpec& c, int n, const GenOpt& o, bool kinds)
{
    for (int i = 0; i < n; i++)
    {
        auto paths = all_paths (c, true, true);
        Path p; if (!paths.empty ()) p = s.pick (paths);
        int how = (int) s.below (8);
        if (p.empty ()) how = 3;
        Path up (p.begin (), p.empty () ? p.end () : p.end () - 1);
        switch (how)
        {
        case 0: { auto& k = kids_at (c, up); k.erase (k.begin () + p.back ()); break; }
        case 1:
        {
            if (count_nodes (c.kids) > 150) break;
            auto& k = kids_at (c, up); CfgNode x = k[p.back ()];
            k.insert (k.begin () + s.below (k.size () + 1), x); break;
        }
        case 2: node_at (c, p).name += s.below (2) ? "x" : "_"; break;
        case 3: case 4:
        {
            // something new: any mold name or an unknown one, anywhere
            Path at = p;
            if (p.empty () || !node_at (c, p).section) at = up;
            CfgNode x;
            std::vector<const MoldNode *> all;
            std::function<void (const std::vector<MoldNode>&)> walk = [&] (const std::vector<MoldNode>& k) { for (auto& y : k) { all.push_back (&y); walk (y.kids); } };
            walk (m.kids);
            const MoldNode *mn = s.below (4) == 3 ? nullptr : all[s.below (all.size ())];
            x.name = mn ? mn->name : gen_name (s);
            x.section = mn ? mn->section : s.below (2);
            if (!x.section) x.v = mn ? gen_try (s, *mn, c.version, o) : gen_value (s, (VT) s.range (VSTR, VBOOL), o);
            else if (mn && count_nodes (c.kids) < 80) x.kids = gen_config_kids (s, mn->kids, c.version, o);
            auto& k = kids_at (c, at);
            k.insert (k.begin () + s.below (k.size () + 1), x);
            break;
        }
        default:
        {
            CfgNode& x = node_at (c, p);
            if (kinds && s.below (6) == 5)
            {
                x.section = !x.section;
                x.kids.clear (); x.v = gen_value (s, VINT, o);
                break;
            }
            if (x.section) { x.name += "s"; break; }
            const std::vector<MoldNode> *mk = &m.kids; const MoldNode *mn = nullptr;
            std::vector<CfgNode> *k = &c.kids;
            for (int q : p)
            {
                mn = mk ? kid_of (*mk, (*k)[q].name) : nullptr;
                mk = mn && mn->section ? &mn->kids : nullptr;
                k = &(*k)[q].kids;
            }
            x.v = mn && !mn->section ? gen_try (s, *mn, c.version, o) : gen_value (s, (VT) s.range (VSTR, VBOOL), o);
        }
        }
    }
    if (!kinds) drop_kinds (m.kids, c.kids);
}

std::vector<CfgNode> grouped (const std::vector<CfgNode>& kids, int how)
{
    std::vector<CfgNode> out;
    std::vector<std::string> names;
    for (auto& k : kids) if (std::find (names.begin (), names.end (), k.name) == names.end ()) names.push_back (k.name);
    if (how == 2) std::sort (names.begin (), names.end ());
    for (auto& n : names)
    {
        size_t first = out.size ();
        for (auto& k : kids) if (k.name == n) out.push_back (k);
        int inner = how == 1 && out.size () - first > 1 ? 2 : how;
        for (size_t i = first; i < out.size (); i++) out[i].kids = grouped (out[i].kids, inner);
    }
    return out;
}
CfgSpec grouped (CfgSpec c, int how) { c.kids = grouped (c.kids, how); return c; }

// ---------------------------------------------------------------- builders
// ---------------------------------------------------------------- paths
static void collect_paths (const std::vector<CfgNode>& k, Path& cur, bool kv, bool sec, std::vector<Path>& out)
{
    for (size_t i = 0; i < k.size (); i++)
    {
        cur.push_back ((int) i);
        if (k[i].section ? sec : kv) out.push_back (cur);
        if (k[i].section) collect_paths (k[i].kids, cur, kv, sec, out);
        cur.pop_back ();
    }
}
std::vector<Path> all_paths (const CfgSpec& c, bool keyvals, bool sections)
{
    std::vector<Path> out; Path cur;
    collect_paths (c.kids, cur, keyvals, sections, out);
    return out;
}
std::vector<CfgNode>& kids_at (CfgSpec& c, const Path& p)
{
    std::vector<CfgNode> *k = &c.kids;
    for (int i : p) k = &(*k)[i].kids;
    return *k;
}
CfgNode& node_at (CfgSpec& c, const Path& p)
{
    Path up (p.begin (), p.end () - 1);
    return kids_at (c, up)[p.back ()];
}
const std::vector<MoldNode>& mold_kids_at (const MoldSpec& m, CfgSpec& c, const Path& p)
{
    const std::vector<MoldNode> *mk = &m.kids;
    std::vector<CfgNode> *k = &c.kids;
    for (int i : p)
    {
        static const std::vector<MoldNode> nothing;     // below an element the mold does not know
        const MoldNode *n = kid_of (*mk, (*k)[i].name);
        mk = n ? &n->kids : &nothing; k = &(*k)[i].kids;
    }
    return *mk;
}
const MoldNode *mold_at (const MoldSpec& m, CfgSpec& c, const Path& p)
{
    Path up (p.begin (), p.end () - 1);
    return kid_of (mold_kids_at (m, c, up), node_at (c, p).name);
}
int count_of (const std::vector<CfgNode>& kids, const std::string& name)
{
    int n = 0;
    for (auto& k : kids) n += k.name == name;
    return n;
}
int nth_of (const std::vector<CfgNode>& kids, const std::string& name, int n)
{
    for (size_t i = 0; i < kids.size (); i++) if (kids[i].name == name && n-- == 0) return (int) i;
    return -1;
}
std::pair<std::string, int> element_id (const std::vector<CfgNode>& kids, int idx)
{
    int n = 0;
    for (int i = 0; i < idx; i++) n += kids[i].name == kids[idx].name;
    return { kids[idx].name, n };
}
std::string query_of (CfgSpec& c, const Path& p, Src *s)
{
    std::string q;
    std::vector<CfgNode> *k = &c.kids;
    for (int i : p)
    {
        auto id = element_id (*k, i);
        if (!q.empty ()) q += ".";
        q += id.first;
        if (id.second || (s && s->below (2))) q += fmt ("@%d", id.second);
        k = &(*k)[i].kids;
    }
    return q;
}
static Val finite_flt (double d) { return Val::flt (std::isfinite (d) ? d : 0); }
Val gen_try (Src& s, const MoldNode& n, Ver v, const GenOpt& o)
{
    switch (s.below (5))
    {
    case 0: return gen_allowed (s, n, v, o);
    case 1: case 2: break;              // near a restriction, below
    case 3: return gen_value (s, n.type, o);
    default: return gen_value (s, (VT) s.range (VSTR, VENUM), o);
    }
    if (n.excs.empty () || n.type == VSTR || n.type == VBOOL) return gen_value (s, n.type, o);
    const ExcSpec& e = n.excs[s.below (n.excs.size ())];    // active or not
    if (n.type == VENUM)
        switch (s.below (4))
        {
        case 0: return Val::en (e.s);
        case 1: return Val::en (e.s + "x");
        case 2: return Val::en (e.s.substr (0, e.s.size () / 2));
        default: return Val::en (e.s.empty () ? "A" : std::string (1, (char) toupper (e.s[0])) + e.s.substr (1));
        }
    double y = s.below (2) ? e.hi : e.lo;
    if (e.t == X_NUM) y = e.lo;
    if (n.type == VINT)
    {
        if (!(std::fabs (y) < 4e15)) return Val::integer (0);
        return Val::integer ((int64_t) y + s.range (-1, 1));
    }
    switch (s.below (5))
    {
    case 0: return Val::flt (y);
    case 1: return finite_flt (std::nextafter (y, HUGE_VAL));
    case 2: return finite_flt (std::nextafter (y, -HUGE_VAL));
    case 3: return Val::flt (y + 0.5);
    default: return Val::flt (y - 0.5);
    }
}

static void ver (struct disir_version& d, Ver v) { d = v.c (); }
static void add_doc (struct disir_context *c, const std::string& d)
{
    if (!d.empty ()) OKAY (dc_add_documentation (c, d.c_str (), (int32_t) d.size ()));
}
static void add_default (struct disir_context *kv, const DefSpec& d)
{
    struct disir_version v; ver (v, d.intro);
    switch (d.v.t)
    {
    case VSTR: case VENUM:
        OKAY (dc_add_default_string (kv, d.v.s.c_str (), (int32_t) d.v.s.size (), &v));
        break;
    case VINT: OKAY (dc_add_default_integer (kv, d.v.i, &v)); break;
    case VFLT: OKAY (dc_add_default_float (kv, d.v.f, &v)); break;
    case VBOOL: OKAY (dc_add_default_boolean (kv, d.v.b, &v)); break;
    }
}
void add_mold_node (struct disir_context *parent, const MoldNode& n)
{
    CtxH c;
    OKAY (dc_begin (parent, n.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &c.p));
    OKAY (dc_set_name (c.p, n.name.c_str (), (int32_t) n.name.size ()));
    struct disir_version v;
    if (!n.section) OKAY (dc_set_value_type (c.p, (enum disir_value_type) n.type));
    else { ver (v, n.sec_intro); OKAY (dc_add_introduced (c.p, &v)); }
    if (!n.depr.zero ()) { ver (v, n.depr); OKAY (dc_add_deprecated (c.p, &v)); }
    add_doc (c.p, n.doc);
    for (auto& d : n.defs) add_default (c.p, d);
    for (auto& e : n.excs)
    {
        CtxH r;
        OKAY (dc_begin (c.p, DISIR_CONTEXT_RESTRICTION, &r.p));
        OKAY (dc_set_restriction_type (r.p, (enum disir_restriction_type) e.t));
        if (e.t == X_ENUM) OKAY (dc_restriction_set_string (r.p, e.s.c_str ()));
        else if (e.t == X_RANGE) OKAY (dc_restriction_set_range (r.p, e.lo, e.hi));
        else OKAY (dc_restriction_set_numeric (r.p, e.lo));
        ver (v, e.intro); OKAY (dc_add_introduced (r.p, &v));
        if (!e.depr.zero ()) { ver (v, e.depr); OKAY (dc_add_deprecated (r.p, &v)); }
        add_doc (r.p, e.doc);
        OKAY (dc_finalize (&r.p));
    }
    for (auto& i : n.incs)
    {
        ver (v, i.intro);
        if (i.max) OKAY (dc_add_restriction_entries_max (c.p, i.n, &v));
        else OKAY (dc_add_restriction_entries_min (c.p, i.n, &v));
    }
    for (auto& k : n.kids) add_mold_node (c.p, k);
    OKAY (dc_finalize (&c.p));
}
struct disir_mold *build_mold (const MoldSpec& m)
{
    struct disir_context *c = nullptr;
    struct disir_mold *mold = nullptr;
    OKAY (dc_mold_begin (&c));
    add_doc (c, m.doc);
    for (auto& k : m.kids) add_mold_node (c, k);
    OKAY (dc_mold_finalize (&c, &mold));
    return mold;
}
enum disir_status set_value (struct disir_context *kv, const Val& v)
{
    switch (v.t)
    {
    case VSTR: return dc_set_value_string (kv, v.s.c_str (), (int32_t) v.s.size ());
    case VENUM: return dc_set_value_enum (kv, v.s.c_str (), (int32_t) v.s.size ());
    case VINT: return dc_set_value_integer (kv, v.i);
    case VFLT: return dc_set_value_float (kv, v.f);
    case VBOOL: return dc_set_value_boolean (kv, v.b);
    }
    return DISIR_STATUS_INTERNAL_ERROR;
}
void add_cfg_nodes (struct disir_context *parent, const std::vector<CfgNode>& kids)
{
    for (auto& k : kids)
    {
        CtxH c;
        OKAY (dc_begin (parent, k.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &c.p));
        OKAY (dc_set_name (c.p, k.name.c_str (), (int32_t) k.name.size ()));
        if (k.section) add_cfg_nodes (c.p, k.kids);
        else OKAY (set_value (c.p, k.v));
        OKAY (dc_finalize (&c.p));
    }
}
void add_cfg_lax (struct disir_context *parent, const std::vector<CfgNode>& kids)
{
    enum disir_status st;
    for (auto& k : kids)
    {
        CtxH c;
        OKAY (dc_begin (parent, k.section ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &c.p));
        st = dc_set_name (c.p, k.name.c_str (), (int32_t) k.name.size ());
        REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_NOT_EXIST, "naming %s returned %s", k.name.c_str (), ss (st));
        if (k.section) add_cfg_lax (c.p, k.kids);
        else
        {
            st = set_value (c.p, k.v);
            REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT, "setting %s to %s returned %s", k.name.c_str (), k.v.dump ().c_str (), ss (st));
        }
        st = dc_finalize (&c.p);
        REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT, "finalizing %s returned %s", k.name.c_str (), ss (st));
    }
}
struct disir_config *build_config_lax (struct disir_mold *mold, const CfgSpec& spec, enum disir_status *status)
{
    struct disir_context *c = nullptr;
    struct disir_config *cfg = nullptr;
    OKAY (dc_config_begin (mold, &c));
    struct disir_version v = spec.version.c ();
    OKAY (dc_set_version (c, &v));
    add_cfg_lax (c, spec.kids);
    *status = dc_config_finalize (&c, &cfg);
    REQUIRE (*status == DISIR_STATUS_OK || *status == DISIR_STATUS_INVALID_CONTEXT, "finalizing the configuration returned %s", ss (*status));
    REQUIRE (cfg, "no configuration after finalize returned %s", ss (*status));
    return cfg;
}
struct disir_config *build_config (struct disir_mold *mold, const CfgSpec& spec)
{
    struct disir_context *c = nullptr;
    struct disir_config *cfg = nullptr;
    OKAY (dc_config_begin (mold, &c));
    struct disir_version v = spec.version.c ();
    OKAY (dc_set_version (c, &v));
    add_cfg_nodes (c, spec.kids);
    OKAY (dc_config_finalize (&c, &cfg));
    return cfg;
}

// ---------------------------------------------------------------- observers
Val get_value (struct disir_context *kv)
{
    Val r; const char *p = nullptr; int32_t n = 0; uint8_t b = 0;
    r.t = (VT) dc_value_type (kv);
    switch (r.t)
    {
    case VSTR: OKAY (dc_get_value_string (kv, &p, &n)); r.s = p ? std::string (p, n) : std::string (); break;
    case VENUM: OKAY (dc_get_value_enum (kv, &p, &n)); r.s = p ? std::string (p, n) : std::string (); break;
    case VINT: OKAY (dc_get_value_integer (kv, &r.i)); break;
    case VFLT: OKAY (dc_get_value_float (kv, &r.f)); break;
    case VBOOL: OKAY (dc_get_value_boolean (kv, &b)); r.b = b; break;
    default: fail ("keyval has no value type (%d)", (int) r.t);
    }
    return r;
}
enum disir_status set_by_query (struct disir_config *cfg, const Val& v, const std::string& q)
{
    switch (v.t)
    {
    case VSTR: return disir_config_set_keyval_string (cfg, v.s.c_str (), "%s", q.c_str ());
    case VENUM: return disir_config_set_keyval_enum (cfg, v.s.c_str (), "%s", q.c_str ());
    case VINT: return disir_config_set_keyval_integer (cfg, v.i, "%s", q.c_str ());
    case VFLT: return disir_config_set_keyval_float (cfg, v.f, "%s", q.c_str ());
    default: return disir_config_set_keyval_boolean (cfg, v.b, "%s", q.c_str ());
    }
}
enum disir_status get_by_query (struct disir_config *cfg, VT t, const std::string& q, Val& out)
{
    enum disir_status st;
    const char *p = nullptr; int64_t i = 0; double f = 0; uint8_t b = 0;
    switch (t)
    {
    case VSTR: st = disir_config_get_keyval_string (cfg, &p, "%s", q.c_str ());
        if (st == DISIR_STATUS_OK) out = Val::str (p ? p : ""); break;
    case VENUM: st = disir_config_get_keyval_enum (cfg, &p, "%s", q.c_str ());
        if (st == DISIR_STATUS_OK) out = Val::en (p ? p : ""); break;
    case VINT: st = disir_config_get_keyval_integer (cfg, &i, "%s", q.c_str ()); out = Val::integer (i); break;
    case VFLT: st = disir_config_get_keyval_float (cfg, &f, "%s", q.c_str ()); out = Val::flt (f); break;
    default: st = disir_config_get_keyval_boolean (cfg, &b, "%s", q.c_str ()); out = Val::boolean (b); break;
    }
    return st;
}
enum disir_status get_below (struct disir_context *from, VT t, const std::string& q, Val& out)
{
    enum disir_status st;
    const char *p = nullptr; int64_t i = 0; double f = 0; uint8_t b = 0;
    switch (t)
    {
    case VSTR: st = dc_config_get_keyval_string (from, &p, "%s", q.c_str ());
        if (st == DISIR_STATUS_OK) out = Val::str (p ? p : ""); break;
    case VENUM: st = dc_config_get_keyval_enum (from, &p, "%s", q.c_str ());
        if (st == DISIR_STATUS_OK) out = Val::en (p ? p : ""); break;
    case VINT: st = dc_config_get_keyval_integer (from, &i, "%s", q.c_str ()); out = Val::integer (i); break;
    case VFLT: st = dc_config_get_keyval_float (from, &f, "%s", q.c_str ()); out = Val::flt (f); break;
    default: st = dc_config_get_keyval_boolean (from, &b, "%s", q.c_str ()); out = Val::boolean (b); break;
    }
    return st;
}
struct disir_context *ctx_at (struct disir_config *cfg, CfgSpec& c, const Path& p)
{
    struct disir_context *cur = dc_config_getcontext (cfg);
    std::vector<CfgNode> *k = &c.kids;
    for (int i : p)
    {
        auto id = element_id (*k, i);
        struct disir_context *next = nullptr;
        enum disir_status st = dc_find_element (cur, id.first.c_str (), id.second, &next);
        dc_putcontext (&cur);
        if (st != DISIR_STATUS_OK) fail ("element %s (number %d) not found: %s", id.first.c_str (), id.second, ss (st));
        cur = next;
        k = &(*k)[i].kids;
    }
    return cur;
}
static Ver ver_of (const struct disir_version& v) { return Ver (v.sv_major, v.sv_minor); }
static std::string doc_of (struct disir_context *c)
{
    const char *d = nullptr; int32_t n = 0;
    enum disir_status st = dc_get_documentation (c, nullptr, &d, &n);
    if (st == DISIR_STATUS_NOT_EXIST || d == nullptr) return "";
    OKAY (st);
    return std::string (d, n);
}
static std::string name_of (struct disir_context *c)
{
    const char *p = nullptr; int32_t n = 0;
    OKAY (dc_get_name (c, &p, &n));
    return p ? std::string (p, n) : std::string ();
}
struct Coll
{
    struct disir_collection *p = nullptr;
    ~Coll () { if (p) dc_collection_finished (&p); }
};
static void observe_mold_nodes (struct disir_context *parent, std::vector<MoldNode>& out)
{
    Coll col;
    OKAY (dc_get_elements (parent, &col.p));
    for (;;)
    {
        CtxH c;
        enum disir_status st = dc_collection_next (col.p, &c.p);
        if (st == DISIR_STATUS_EXHAUSTED) break;
        OKAY (st);
        MoldNode n;
        n.section = dc_context_type (c.p) == DISIR_CONTEXT_SECTION;
        n.name = name_of (c.p);
        n.doc = doc_of (c.p);
        struct disir_version v;
        OKAY (dc_get_deprecated (c.p, &v)); n.depr = ver_of (v);
        if (n.section)
        {
            OKAY (dc_get_introduced (c.p, &v)); n.sec_intro = ver_of (v);
        }
        else
        {
            n.type = (VT) dc_value_type (c.p);
            Coll dc;
            OKAY (dc_get_default_contexts (c.p, &dc.p));
            for (;;)
            {
                CtxH d;
                st = dc_collection_next (dc.p, &d.p);
                if (st == DISIR_STATUS_EXHAUSTED) break;
                OKAY (st);
                DefSpec ds;
                OKAY (dc_get_introduced (d.p, &v)); ds.intro = ver_of (v);
                ds.v = get_value (d.p);
                n.defs.push_back (ds);
            }
        }
        Coll rc;
        st = dc_restriction_collection (c.p, &rc.p);
        if (st != DISIR_STATUS_NOT_EXIST)
        {
            OKAY (st);
            for (;;)
            {
                CtxH r;
                st = dc_collection_next (rc.p, &r.p);
                if (st == DISIR_STATUS_EXHAUSTED) break;
                OKAY (st);
                enum disir_restriction_type t;
                OKAY (dc_get_restriction_type (r.p, &t));
                Ver intro, depr;
                OKAY (dc_get_introduced (r.p, &v)); intro = ver_of (v);
                OKAY (dc_get_deprecated (r.p, &v)); depr = ver_of (v);
                if (t == DISIR_RESTRICTION_INC_ENTRY_MIN || t == DISIR_RESTRICTION_INC_ENTRY_MAX)
                {
                    IncSpec i; i.max = t == DISIR_RESTRICTION_INC_ENTRY_MAX; i.intro = intro; i.depr = depr;
                    double d; OKAY (dc_restriction_get_numeric (r.p, &d)); i.n = (int64_t) d;
                    n.incs.push_back (i);
                }
                else
                {
                    ExcSpec e; e.t = (ET) t; e.intro = intro; e.depr = depr;
                    if (t == DISIR_RESTRICTION_EXC_VALUE_ENUM)
                    { const char *p = nullptr; OKAY (dc_restriction_get_string (r.p, &p)); e.s = p ? p : ""; }
                    else if (t == DISIR_RESTRICTION_EXC_VALUE_RANGE) OKAY (dc_restriction_get_range (r.p, &e.lo, &e.hi));
                    else OKAY (dc_restriction_get_numeric (r.p, &e.lo));
                    e.doc = doc_of (r.p);
                    n.excs.push_back (e);
                }
            }
        }
        if (n.section) observe_mold_nodes (c.p, n.kids);
        out.push_back (n);
    }
}
MoldSpec observe_mold (struct disir_mold *mold)
{
    MoldSpec m;
    CtxH c (dc_mold_getcontext (mold));
    REQUIRE (c.p, "mold has no context");
    m.doc = doc_of (c.p);
    observe_mold_nodes (c.p, m.kids);
    return m;
}
static bool has_mold_equiv (struct disir_context *kv)
{
    struct disir_context *m = nullptr;
    int64_t i; double f; uint8_t b;
    (void) m;
    enum disir_status st = DISIR_STATUS_OK;
    switch (dc_value_type (kv))
    {
    case DISIR_VALUE_TYPE_INTEGER: st = dc_get_value_integer (kv, &i); break;
    case DISIR_VALUE_TYPE_FLOAT: st = dc_get_value_float (kv, &f); break;
    case DISIR_VALUE_TYPE_BOOLEAN: st = dc_get_value_boolean (kv, &b); break;
    case DISIR_VALUE_TYPE_ENUM: st = dc_get_value_enum (kv, nullptr, nullptr); break;
    default: break;
    }
    return st != DISIR_STATUS_MOLD_MISSING;
}
static void observe_cfg_nodes (struct disir_context *parent, std::vector<CfgNode>& out, bool lax)
{
    Coll col;
    OKAY (dc_get_elements (parent, &col.p));
    for (;;)
    {
        CtxH c;
        enum disir_status st = dc_collection_next (col.p, &c.p);
        if (st == DISIR_STATUS_EXHAUSTED) break;
        OKAY (st);
        CfgNode n;
        n.section = dc_context_type (c.p) == DISIR_CONTEXT_SECTION;
        n.name = name_of (c.p);
        if (n.section) observe_cfg_nodes (c.p, n.kids, lax);
        else if (lax && !has_mold_equiv (c.p)) n.v = Val::str ("?");
        else n.v = get_value (c.p);
        out.push_back (n);
    }
}
CfgSpec observe_config_ctx (struct disir_context *root)
{
    CfgSpec s;
    struct disir_version v;
    OKAY (dc_get_version (root, &v));
    s.version = ver_of (v);
    observe_cfg_nodes (root, s.kids, false);
    return s;
}
CfgSpec observe_config (struct disir_config *cfg)
{
    CtxH c (dc_config_getcontext (cfg));
    REQUIRE (c.p, "config has no context");
    return observe_config_ctx (c.p);
}
CfgSpec observe_config_lax (struct disir_config *cfg)
{
    CtxH c (dc_config_getcontext (cfg));
    REQUIRE (c.p, "config has no context");
    CfgSpec s;
    struct disir_version v;
    OKAY (dc_get_version (c.p, &v));
    s.version = ver_of (v);
    observe_cfg_nodes (c.p, s.kids, true);
    return s;
}
std::multiset<std::string> observe_invalid (struct disir_config *cfg, enum disir_status *status)
{
    std::multiset<std::string> out;
    Coll col;
    enum disir_status st = disir_config_valid (cfg, &col.p);
    if (status) *status = st;
    if (st == DISIR_STATUS_OK || !col.p) return out;
    for (;;)
    {
        CtxH c;
        enum disir_status s2 = dc_collection_next (col.p, &c.p);
        if (s2 == DISIR_STATUS_EXHAUSTED) break;
        OKAY (s2);
        REQUIRE (dc_context_valid (c.p) != DISIR_STATUS_OK, "an element of the validity report is itself valid");
        if (dc_context_type (c.p) == DISIR_CONTEXT_CONFIG) { out.insert (""); continue; }
        char *p = nullptr;
        OKAY (dc_resolve_root_name (c.p, &p));
        out.insert (p);
        free (p);
    }
    return out;
}

// ---------------------------------------------------------------- instance and FILE helpers
static struct disir_instance *g_instance;
void make_instance ()
{
    if (disir_instance_create (nullptr, nullptr, &g_instance) != DISIR_STATUS_OK)
    {
        fprintf (stderr, "HARNESS: cannot create an instance\n");
        _exit (3);
    }
}
struct disir_instance *instance () { return g_instance; }

std::string with_output (std::function<void (FILE *)> f)
{
    FILE *t = tmpfile ();
    if (!t) fail ("HARNESS: tmpfile failed");
    try { f (t); } catch (...) { fclose (t); throw; }
    fflush (t);
    std::string out; char buf[4096]; size_t n;
    rewind (t);
    while ((n = fread (buf, 1, sizeof buf, t)) > 0) out.append (buf, n);
    fclose (t);
    return out;
}
FILE *input_of (const std::string& data)
{
    FILE *t = tmpfile ();
    if (!t) fail ("HARNESS: tmpfile failed");
    fwrite (data.data (), 1, data.size (), t);
    rewind (t);
    return t;
}

// The library appends every log line to /var/log/disir.log; keep that out of the sandbox's files
// (the formatting itself still runs).
extern "C" FILE *__real_fopen (const char *, const char *);
extern "C" FILE *__wrap_fopen (const char *p, const char *m)
{
    if (p && strcmp (p, "/var/log/disir.log") == 0) p = "/dev/null";
    return __real_fopen (p, m);
}
