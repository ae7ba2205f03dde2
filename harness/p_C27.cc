// C27: every function that writes text into a caller's buffer stays within it, terminates it,
// writes the longest prefix that fits and tells the full length; messages come back whole.
#include "model.h"
#include <cmath>
#include <cstring>
#include <memory>

// a buffer of exactly `size` bytes on the heap
struct Buf
{
    int32_t size;
    std::unique_ptr<char[]> p;
    explicit Buf (int32_t n) : size (n), p (new char[n > 0 ? n : 1]) { memset (p.get (), '#', n > 0 ? n : 1); }
};
static int32_t size_near (Src& s, size_t len)
{
    switch (s.below (4))
    {
    case 0: return (int32_t) len + 1;
    case 1: return std::max<int32_t> (1, (int32_t) len - 1 + s.below (4));
    case 2: return 1 + s.below ((uint32_t) len + 8);
    default: return 1 + s.below (8);
    }
}
static void expect (const Buf& b, const std::string& want, int32_t told, enum disir_status st, const char *what)
{
    REQUIRE (st == DISIR_STATUS_OK, "%s with %d bytes returned %s", what, b.size, ss (st));
    size_t fit = std::min ((size_t) b.size - 1, want.size ());
    REQUIRE (memchr (b.p.get (), 0, b.size) != nullptr || want.find ('\0') != std::string::npos, "%s: not terminated within %d bytes", what, b.size);
    REQUIRE (memcmp (b.p.get (), want.data (), fit) == 0 && b.p[fit] == 0, "%s with %d bytes wrote %s, expected the first %zu bytes of %s", what, b.size,
             quote (std::string (b.p.get (), b.size)).c_str (), fit, quote (want).c_str ());
    REQUIRE (told == (int32_t) want.size (), "%s tells %d bytes, the text has %zu", what, told, want.size ());
}
static void values (Ctx& c)
{
    GenOpt o;
    o.max_depth = c.s.range (1, 2); o.strings = 2; o.entries = false;
    MoldSpec ms = gen_mold (c.s, o);
    Ver v = gen_version_of (c.s, ms);
    CfgSpec cs = gen_config (c.s, ms, v, o);
    auto paths = all_paths (cs, true, false);
    if (paths.empty ()) throw Discard ();
    MoldH mold (build_mold (ms));
    ConfigH cfg (build_config (mold.p, cs));
    c.log ("%s%s", dump (ms).c_str (), dump (cs).c_str ());
    bool cut = false, whole = false;
    for (int i = c.s.range (1, 6); i > 0; i--)
    {
        const Path& p = c.s.pick (paths);
        const MoldNode& mn = *mold_at (ms, cs, p);
        CtxH kv (ctx_at (cfg.p, cs, p));
        std::string want;
        int32_t told = -7;
        enum disir_status st;
        int what = c.s.below (3);
        if (what == 0)
        {
            want = node_at (cs, p).v.text ();
            Buf b (size_near (c.s, want.size ()));
            c.log ("value of %s into %d bytes\n", mn.name.c_str (), b.size);
            bool tell = c.s.below (4) != 3;
            st = dc_get_value (kv.p, b.size, b.p.get (), tell ? &told : nullptr);
            expect (b, want, tell ? told : (int32_t) want.size (), st, "the value");
            (b.size > (int32_t) want.size () ? whole : cut) = true;
        }
        else
        {
            Ver dv = gen_version_of (c.s, ms, true);
            bool newest = c.s.below (3) == 2;
            struct disir_version cv = dv.c ();
            want = (newest ? highest_default (mn) : active_default (mn, dv)).v.text ();
            Buf b (size_near (c.s, want.size ()));
            c.log ("default of %s at %s into %d bytes\n", mn.name.c_str (), newest ? "any" : dv.str ().c_str (), b.size);
            // through the configuration's element, or the mold's
            CtxH mk;
            if (what == 2)
            {
                CtxH at (dc_mold_getcontext (mold.p));
                std::vector<std::string> names;
                for (Path q; q.size () < p.size ();) { q.push_back (p[q.size ()]); names.push_back (node_at (cs, q).name); }
                for (auto& n : names) { CtxH next; OKAY (dc_find_element (at.p, n.c_str (), 0, &next.p)); std::swap (at.p, next.p); }
                std::swap (mk.p, at.p);
            }
            st = dc_get_default (mk.p ? mk.p : kv.p, newest ? nullptr : &cv, b.size, b.p.get (), &told);
            expect (b, want, told, st, "the default");
            (b.size > (int32_t) want.size () ? whole : cut) = true;
        }
    }
    // what cannot be written is refused
    CtxH kv (ctx_at (cfg.p, cs, paths[0]));
    char one[1] = { '#' };
    int32_t n = 0;
    REQUIRE (dc_get_default (kv.p, nullptr, -(int) c.s.below (3), one, &n) == DISIR_STATUS_INVALID_ARGUMENT && one[0] == '#', "a buffer of no bytes was accepted");
    REQUIRE (dc_get_value (kv.p, 8, nullptr, &n) == DISIR_STATUS_INVALID_ARGUMENT, "a NULL buffer was accepted");
    if (cut && whole) c.nontrivial ("cut and whole");
}
static std::string message (Src& s)
{
    switch (s.below (5))
    {
    case 0: return gen_text (s, 1);
    case 1: return std::string (s.below (12), 'm');
    case 2: return std::string (s.below (2000), 'l');
    case 3: return s.pick (std::vector<std::string> { "%s", "100%", "%n%n", "%d %s", "a%%b" });
    default: return gen_text (s, 2) + " " + gen_text (s, 1);
    }
}
static void errors (Ctx& c)
{
    struct disir_instance *in = nullptr;
    OKAY (disir_instance_create (nullptr, nullptr, &in));
    struct Done { struct disir_instance *i; ~Done () { disir_instance_destroy (&i); } } done { in };
    disir_error_clear (in);
    std::string now;
    bool cut = false, whole = false, shorter = false;
    for (int i = c.s.range (1, 8); i > 0; i--)
    {
        int op = c.s.below (4);
        if (op == 0)
        {
            std::string m = message (c.s);
            if (m.empty ()) m = "x";        // an empty message is not kept
            shorter |= m.size () < now.size ();
            now = m;
            c.log ("set %s\n", quote (m).c_str ());
            disir_error_set (in, "%s", m.c_str ());
        }
        else if (op == 1 && c.s.below (4) == 3) { now.clear (); disir_error_clear (in); c.log ("clear\n"); REQUIRE (disir_error (in) == nullptr, "a message after clearing"); }
        else
        {
            Buf b (size_near (c.s, now.size ()));
            int32_t told = -7;
            c.log ("copy into %d bytes\n", b.size);
            enum disir_status st = disir_error_copy (in, b.p.get (), b.size, c.s.below (4) == 3 ? nullptr : &told);
            if (b.size < 4) REQUIRE (st == DISIR_STATUS_INSUFFICIENT_RESOURCES, "%d bytes returned %s", b.size, ss (st));
            else if (b.size > (int32_t) now.size ())
            {
                REQUIRE (st == DISIR_STATUS_OK, "%d bytes for %zu returned %s", b.size, now.size (), ss (st));
                REQUIRE (now == b.p.get (), "copied %s of %s", quote (b.p.get ()).c_str (), quote (now).c_str ());
                whole = true;
            }
            else
            {
                REQUIRE (st == DISIR_STATUS_INSUFFICIENT_RESOURCES, "%d bytes for %zu returned %s", b.size, now.size (), ss (st));
                REQUIRE (memchr (b.p.get (), 0, b.size) != nullptr, "not terminated within %d bytes", b.size);
                size_t n = strlen (b.p.get ());
                REQUIRE (n >= 3 && strcmp (b.p.get () + n - 3, "...") == 0 && now.compare (0, n - 3, b.p.get (), n - 3) == 0, "cut to %s of %s", quote (b.p.get ()).c_str (), quote (now).c_str ());
                cut = true;
            }
            if (told != -7) REQUIRE (told == (int32_t) now.size (), "told %d bytes of %zu", told, now.size ());
        }
        const char *e = disir_error (in);
        REQUIRE ((e ? e : "") == now, "the message is %s, set was %s", e ? quote (e).c_str () : "NULL", quote (now).c_str ());
    }
    if (cut || shorter) c.nontrivial ("cut messages");
    if (whole) c.label ("whole messages");
}
static void fatal (Ctx& c)
{
    CtxH root;
    OKAY (dc_mold_begin (&root.p));
    struct Done { CtxH& r; ~Done () { if (r.p) dc_destroy (&r.p); } } done { root };
    CtxH x;
    OKAY (dc_begin (root.p, c.s.below (2) ? DISIR_CONTEXT_SECTION : DISIR_CONTEXT_KEYVAL, &x.p));
    struct DoneX { CtxH& r; ~DoneX () { if (r.p) dc_destroy (&r.p); } } donex { x };
    int n = c.s.range (1, 4);
    size_t before = 0;
    for (int i = 0; i < n; i++)
    {
        std::string m = message (c.s);
        if (m.empty ()) m = "y";
        int num = (int) c.s.below (1000);
        OKAY (dc_fatal_error (x.p, "%d:%s", num, m.c_str ()));
        std::string want = fmt ("%d:%s", num, m.c_str ());
        const char *e = dc_context_error (x.p);
        REQUIRE (e && want == e, "the message is %s, expected %s", e ? quote (e).c_str () : "NULL", quote (want).c_str ());
        if (want.size () < before) c.nontrivial ("a shorter message");
        before = want.size ();
    }
}
// A version is written in full or NULL is returned; never a byte outside the buffer.
static void versions (Ctx& c)
{
    bool whole = false, refused = false;
    for (int i = c.s.range (1, 6); i > 0; i--)
    {
        auto num = [&] () -> uint32_t { switch (c.s.below (4)) { case 0: return c.s.below (12); case 1: return c.s.below (100000); case 2: return 4294967295u - c.s.below (3); default: { uint32_t x = 1; for (int k = c.s.below (10); k > 0; k--) x *= 10; return x - c.s.below (2); } } };
        struct disir_version v;
        v.sv_major = num (); v.sv_minor = num ();
        std::string want = std::to_string (v.sv_major) + "." + std::to_string (v.sv_minor);
        Buf b (size_near (c.s, want.size ()));
        c.log ("version %s into %d bytes\n", want.c_str (), b.size);
        char *r = dc_version_string (b.p.get (), b.size, &v);
        if (b.size > (int32_t) want.size ()) { REQUIRE (r == b.p.get () && want == r, "%s into %d bytes returned %s", want.c_str (), b.size, r ? quote (r).c_str () : "NULL"); whole = true; }
        else { REQUIRE (r == nullptr, "%s into %d bytes returned %s", want.c_str (), b.size, r == b.p.get () ? "the buffer" : "something else"); refused = true; }
        REQUIRE (dc_version_string (nullptr, b.size, &v) == nullptr && dc_version_string (b.p.get (), b.size, nullptr) == nullptr, "NULL was accepted");
    }
    if (whole && refused) c.nontrivial ("versions");
}
static void run (Ctx& c)
{
    switch (c.s.below (6)) { case 5: versions (c); return; case 0: case 1: case 2: values (c); break; case 3: errors (c); break; default: fatal (c); }
}
Property property = { "C27",
    "values and defaults of random molds and configurations (any text, any number) and messages of any length and content, written into heap buffers of every size around the text's length; non-trivial: one text cut and one whole, or a message cut or replaced by a shorter one",
    run, 30000, 400000, {}, make_instance };
