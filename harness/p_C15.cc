// C15: versions are totally ordered by major, then minor, and their text form denotes exactly one
// version; text that is no version is refused.
#include "model.h"
#include <algorithm>
#include <cstring>

static uint32_t component (Src& s)
{
    switch (s.below (6))
    {
    case 0: return s.below (4);
    case 1: return s.below (1000);
    case 2: return (1u << s.below (32)) + s.below (3) - 1;
    case 3: return 0x7fffffffu + s.below (3) - 1;
    case 4: return 0xffffffffu - s.below (3);
    default: return (uint32_t) s.u64 ();
    }
}
static int sgn (int x) { return (x > 0) - (x < 0); }

static void text_of_version (Ctx& c, Ver v)
{
    struct disir_version cv = v.c (), back;
    std::string want = v.str ();
    int32_t size = c.s.below (3) ? (int32_t) c.s.below (26) : 64;
    std::vector<char> buf (size + 1, '#');
    char *r = dc_version_string (size ? buf.data () : buf.data () + 0, size, &cv);
    if (size > (int32_t) want.size ())
    {
        REQUIRE (r == buf.data () && want == r, "%s is written as %s", want.c_str (), r ? r : "NULL");
        back.sv_major = back.sv_minor = 0xdeadbeef;
        enum disir_status st = dc_version_convert (r, &back);
        REQUIRE (st == DISIR_STATUS_OK, "%s is refused with %s", want.c_str (), ss (st));
        REQUIRE (back.sv_major == v.maj && back.sv_minor == v.min, "%s reads as %u.%u", want.c_str (), back.sv_major, back.sv_minor);
        if (v.maj > 9 && v.min > 9) c.nontrivial ("round trip");
    }
    else
    {
        REQUIRE (r == nullptr, "%s does not fit %d bytes, but was returned", want.c_str (), size);
        c.label ("buffer too small");
    }
    REQUIRE (buf[size] == '#', "wrote past a buffer of %d bytes", size);
}
static void order (Ctx& c)
{
    std::vector<Ver> v;
    for (int i = 0; i < 3; i++)
    {
        Ver x (component (c.s), component (c.s));
        if (i && c.s.below (2)) x.maj = v[0].maj;
        if (i && c.s.below (3) == 2) x.min = v[0].min;
        v.push_back (x);
    }
    for (auto& a : v)
        for (auto& b : v)
        {
            struct disir_version x = a.c (), y = b.c ();
            int want = a < b ? -1 : a == b ? 0 : 1, got = sgn (dc_version_compare (&x, &y));
            REQUIRE (want == got, "%s against %s compares as %d", a.str ().c_str (), b.str ().c_str (), got);
        }
    struct disir_version x = v[0].c (), y = v[1].c ();
    dc_version_set (&x, &y);
    REQUIRE (x.sv_major == v[1].maj && x.sv_minor == v[1].min, "setting %s gave %u.%u", v[1].str ().c_str (), x.sv_major, x.sv_minor);
    if (v[0].maj == v[1].maj || v[1].maj == v[2].maj) c.nontrivial ("same major");
}
static std::string number (Src& s, bool& ok)
{
    switch (s.below (7))
    {
    case 0: case 1: case 2: { uint32_t n = component (s); return std::string (s.below (4) == 3 ? s.below (5) : 0, '0') + fmt ("%u", n); }
    case 3: ok = false; return fmt ("%llu", 0x100000000ull + (s.below (2) ? s.below (3) : s.u64 () >> 1));
    case 4: ok = false; return fmt ("-%u", 1 + component (s) % 100);
    case 5: ok = false; return std::string (20 + s.below (30), '9');
    default: ok = false; return s.pick (std::vector<std::string> { "", "x", ".", " ", "-", "+", "a1", "\xc3\xa9" });
    }
}
static void texts (Ctx& c)
{
    bool ok = true;
    std::string a = number (c.s, ok), sep = ".", b;
    switch (c.s.below (8)) { case 5: sep = ""; ok = false; break; case 6: sep = ","; ok = false; break; case 7: sep = ".."; ok = false; break; }
    b = number (c.s, ok);
    std::string tail = c.s.below (5) == 4 ? c.s.pick (std::vector<std::string> { "", ".", ".3", " ", "x", "-1" }) : "";
    std::string t = a + sep + b + tail;
    // what the text says, digit by digit
    uint64_t n[2] = { 0, 0 };
    size_t at = 0;
    bool over = false;
    ok = true;
    for (int i = 0; i < 2; i++)
    {
        size_t start = at;
        for (; at < t.size () && t[at] >= '0' && t[at] <= '9'; at++)
        {
            n[i] = n[i] * 10 + (t[at] - '0');
            if (n[i] > 0xffffffffull) { over = true; n[i] = 0x100000000ull; }
        }
        if (at == start) ok = false;
        if (i == 0 && ok) { if (at < t.size () && t[at] == '.') at++; else ok = false; }
        if (!ok) break;
    }
    if (over) ok = false;
    bool rest = ok && at < t.size ();
    // blanks and signs before the digits are neither promised nor ruled out
    bool open = !ok && !over && t.find_first_of ("+ ") != std::string::npos;
    c.log ("text %s: %s\n", quote (t).c_str (), ok ? "a version" : "no version");
    struct disir_version v { 0xdeadbeef, 0xdeadbeef };
    std::vector<char> exact (t.begin (), t.end ()); exact.push_back (0);    // over-reads are seen
    enum disir_status st = dc_version_convert (exact.data (), &v);
    if (!ok)
    {
        if (open && st == DISIR_STATUS_OK) throw Discard ();
        REQUIRE (st == DISIR_STATUS_INVALID_ARGUMENT, "%s is no version, but was read as %u.%u (%s)", quote (t).c_str (), v.sv_major, v.sv_minor, ss (st));
        c.nontrivial ("refused");
        return;
    }
    // what follows a version is not specified to be refused
    if (!rest || st == DISIR_STATUS_OK)
    {
        REQUIRE (st == DISIR_STATUS_OK, "%s is refused with %s", quote (t).c_str (), ss (st));
        REQUIRE (v.sv_major == n[0] && v.sv_minor == n[1], "%s reads as %u.%u", quote (t).c_str (), v.sv_major, v.sv_minor);
    }
    else REQUIRE (st == DISIR_STATUS_INVALID_ARGUMENT, "%s returned %s", quote (t).c_str (), ss (st));
}
// the versions an object is given are the ones it returns and is ordered by
static void objects (Ctx& c)
{
    Ver hi (1, 0);
    CtxH root;
    OKAY (dc_mold_begin (&root.p));
    struct Done { CtxH& r; ~Done () { if (r.p) dc_destroy (&r.p); } } done { root };
    std::vector<Ver> given;
    int n = c.s.range (1, 6);
    CtxH kv;
    OKAY (dc_begin (root.p, DISIR_CONTEXT_KEYVAL, &kv.p));
    OKAY (dc_set_name (kv.p, "k", 1));
    OKAY (dc_set_value_type (kv.p, DISIR_VALUE_TYPE_INTEGER));
    for (int i = 0; i < n; i++)
    {
        Ver v (component (c.s), component (c.s));
        if (i && c.s.below (2)) v.maj = given[0].maj;
        if (v.maj == 0) v.maj = 1;
        bool dup = false;
        for (auto& g : given) dup |= g == v;
        if (dup) continue;
        given.push_back (v);
        struct disir_version cv = v.c ();
        OKAY (dc_add_default_integer (kv.p, i, &cv));
    }
    OKAY (dc_finalize (&kv.p));
    struct disir_mold *m = nullptr;
    OKAY (dc_mold_finalize (&root.p, &m));
    MoldH mold (m);
    CtxH mr (dc_mold_getcontext (m)), k;
    OKAY (dc_find_element (mr.p, "k", 0, &k.p));
    for (auto& g : given) if (hi < g) hi = g;
    struct disir_version got;
    OKAY (dc_get_version (mr.p, &got));
    REQUIRE (got.sv_major == hi.maj && got.sv_minor == hi.min, "the mold has version %u.%u, its highest default is %s", got.sv_major, got.sv_minor, hi.str ().c_str ());
    struct disir_collection *col = nullptr;
    OKAY (dc_get_default_contexts (k.p, &col));
    std::vector<Ver> sorted = given;
    std::sort (sorted.begin (), sorted.end ());
    size_t i = 0;
    CtxH d;
    std::string bad;
    while (dc_collection_next (col, &d.p) == DISIR_STATUS_OK)
    {
        OKAY (dc_get_introduced (d.p, &got));
        if (i >= sorted.size () || got.sv_major != sorted[i].maj || got.sv_minor != sorted[i].min) bad = fmt ("default %zu is introduced at %u.%u", i, got.sv_major, got.sv_minor);
        i++;
        dc_putcontext (&d.p);
    }
    dc_collection_finished (&col);
    REQUIRE (bad.empty () && i == sorted.size (), "%zu of %zu defaults in order (%s)", i, sorted.size (), bad.c_str ());
    if (sorted.size () > 2) c.nontrivial ("ordered defaults");
}
static void run (Ctx& c)
{
    switch (c.s.below (4))
    {
    case 0: text_of_version (c, Ver (component (c.s), component (c.s))); break;
    case 1: order (c); break;
    case 2: texts (c); break;
    default: objects (c);
    }
}
Property property = { "C15",
    "version components at 0, powers of two, the limits of int and unsigned and anything, written into buffers of every size and read back, compared in triples, well-formed and malformed texts, and versions given to defaults of a mold; non-trivial: two-digit components, equal majors, refused texts, or three defaults",
    run, 400000, 4000000, {}, make_instance };
