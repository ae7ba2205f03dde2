// C30: an instance is made from its configuration: exactly the plugins it names, or none and a reason.
#include "model.h"
#include "text.h"
#include <algorithm>
#include <cstring>
#include <disir/libdisir.h>
#include <disir/plugin.h>
#include <dlfcn.h>
#include <link.h>
#include <sys/stat.h>

namespace {
// What a plugin section names: nothing, or one of these
enum Kind { STUB, JSON, TOML, TEST, BADREG, NOSYM, MISSING, DIRECTORY, TEXT, EMPTY, NKINDS };
const char *KN[] = { "stub", "json", "toml", "test", "refusing", "without a symbol", "missing", "a directory", "a text file", "empty" };
const char *KEYS[] = { "plugin_filepath", "group_id", "io_id", "config_base_id", "mold_base_id" };
struct Plug
{
    Kind kind = STUB;
    bool has[5] = { true, true, true, true, true };
    bool twice[5] = { false, false, false, false, false };
    std::string group, io, base[2];
    int slashes = 0;                 // how much longer its path is spelled
    int refuse = 0;                  // the status it refuses with
};
enum Source { FILE_, OBJECT, NOTHING };
enum Defect { NONE, NOFILE, GARBAGE, UNKNOWN_KEY, NEWER, NUMBER, NULLINST, NDEFECTS };
const char *DN[] = { "", "the file is not there", "garbage at the end", "an unknown key", "of a newer version", "a number for a group", "no place for the instance" };
struct Plan { Source source = FILE_; Defect defect = NONE; bool both = false, written = false; std::vector<Plug> plugs; };

struct Seen { int finished; struct disir_instance *inst; bool c, m; std::string cb, mb; };
std::vector<Seen> seen;
std::vector<int> refusals;          // what the stubs answer, in order
size_t answered;
std::string lib;                    // where the plugins are built

int loaded_from (const std::string& dir)
{
    struct D { const char *p; size_t n; int k; } d { dir.c_str (), dir.size (), 0 };
    dl_iterate_phdr ([] (struct dl_phdr_info *i, size_t, void *x) { D *d = (D *) x; if (i->dlpi_name && !strncmp (i->dlpi_name, d->p, d->n)) d->k++; return 0; }, &d);
    return d.k;
}
std::string file_of (const Plug& p, size_t i, const std::string& dir)
{
    std::string n;
    switch (p.kind)
    {
    case STUB: n = "stub.so"; break;
    case BADREG: n = "stub.so"; break;
    case NOSYM: n = "nosym.so"; break;
    case JSON: n = "dplugin_json.so"; break;
    case TOML: n = "dplugin_toml.so"; break;
    case TEST: n = "dplugin_test.so"; break;
    case MISSING: n = "missing.so"; break;
    case DIRECTORY: n = "directory"; break;
    case TEXT: n = "text.so"; break;
    default: return "";
    }
    std::string r = dir + "/lib/";
    for (int k = 0; k < p.slashes; k++) r += "./";
    return r + n;
}
std::string value_of (const Plug& p, size_t i, int key, const std::string& dir)
{
    if (key == 0) return file_of (p, i, dir);
    if (key == 1) return p.group;
    if (key == 2) return p.io;
    return p.base[key - 3].empty () ? "" : dir + "/" + p.base[key - 3];
}
std::string toml_string (const std::string& s)
{
    std::string r = "\"";
    for (char ch : s) { if (ch == '"' || ch == '\\') r += '\\'; r += ch; }
    return r + "\"";
}
std::string text_of (const Plan& p, const std::string& dir)
{
    std::string r;
    if (p.defect == NEWER) r += "disir_config_version = \"2.0\"\n";
    for (size_t i = 0; i < p.plugs.size (); i++)
    {
        r += "[[plugin]]\n";
        for (int k = 0; k < 5; k++) if (p.plugs[i].has[k])
        {
            bool number = p.defect == NUMBER && k == 1 && i + 1 == p.plugs.size ();
            r += std::string (KEYS[k]) + " = " + (number ? "7" : toml_string (value_of (p.plugs[i], i, k, dir))) + "\n";
        }
        if (p.defect == UNKNOWN_KEY && i + 1 == p.plugs.size ()) r += "plugin_path = \"x\"\n";
    }
    if (p.defect == GARBAGE) r += "[[plugin\n";
    return r;
}
struct disir_config *object_of (struct disir_mold *mold, const Plan& p, const std::string& dir)
{
    struct disir_context *root = nullptr, *s = nullptr;
    OKAY (dc_config_begin (mold, &root));
    for (size_t i = 0; i < p.plugs.size (); i++)
    {
        OKAY (dc_begin (root, DISIR_CONTEXT_SECTION, &s));
        OKAY (dc_set_name (s, "plugin", 6));
        for (int k = 0; k < 5; k++) for (int n = 0; n < 1 + p.plugs[i].twice[k]; n++) if (p.plugs[i].has[k])
        {
            struct disir_context *kv = nullptr;
            std::string v = n ? "second" : value_of (p.plugs[i], i, k, dir);
            OKAY (dc_begin (s, DISIR_CONTEXT_KEYVAL, &kv));
            OKAY (dc_set_name (kv, KEYS[k], strlen (KEYS[k])));
            OKAY (dc_set_value_string (kv, v.c_str (), v.size ()));
            OKAY (dc_finalize (&kv));
        }
        enum disir_status st = dc_finalize (&s);
        if (st == DISIR_STATUS_INVALID_CONTEXT) { if (s) dc_putcontext (&s); }
        else REQUIRE (st == DISIR_STATUS_OK, "a section of the configuration could not be finalized: %s", ss (st));
    }
    struct disir_config *cfg = nullptr;
    enum disir_status st = dc_config_finalize (&root, &cfg);
    REQUIRE (cfg, "the configuration could not be finalized: %s", ss (st));
    return cfg;
}
// a configuration m.json below `mold`, of which c.json below `config` holds the value
void put_entries (size_t i, const std::string& c, const std::string& m)
{
    auto put = [] (const std::string& f, const std::string& t) { for (size_t k = 1; k < f.size (); k++) if (f[k] == '/') mkdir (f.substr (0, k).c_str (), 0700); write_file (f, t); };
    put (m + fmt ("/e%zu.json", i), "{\"mold\":{\"k\":{\"type\":\"INTEGER\",\"documentation\":\"d\",\"defaults\":[{\"value\":1,\"introduced\":\"1.0\"}]}}}");
    put (c + fmt ("/e%zu.json", i), fmt ("{\"version\":\"1.0\",\"config\":{\"k\":%zu}}", 100 + i));
}
const char *DIRS[] = { "c0", "c1", "m0", "m1" };

void play (Plan& plan, Ctx& c)
{
    std::string dir = fresh_dir ();
    struct Clean { std::string d; ~Clean () { remove_tree (d); } } clean { dir };
    mkdir ((dir + "/lib").c_str (), 0700); mkdir ((dir + "/lib/directory").c_str (), 0700);
    auto copy = [&] (const std::string& from, const char *to) { std::string t; if (!read_file (from, t)) fail ("HARNESS: no %s", from.c_str ()); write_file (dir + "/lib/" + to, t); };
    bool used[NKINDS] = {};
    for (auto& p : plan.plugs) used[p.kind] = true;
    if (used[STUB] || used[BADREG]) copy (lib + "/../plug_C30.so", "stub.so");
    if (used[NOSYM]) copy (lib + "/../plug_C30_none.so", "nosym.so");
    if (used[JSON]) copy (lib + "/plugins/dplugin_json.so", "dplugin_json.so");
    if (used[TOML]) copy (lib + "/plugins/dplugin_toml.so", "dplugin_toml.so");
    if (used[TEST]) copy (lib + "/plugins/dplugin_test.so", "dplugin_test.so");
    write_file (dir + "/lib/text.so", "no library\n");
    for (size_t i = 0; i < plan.plugs.size (); i++)
        if (plan.plugs[i].kind == JSON) put_entries (i, value_of (plan.plugs[i], i, 3, dir), value_of (plan.plugs[i], i, 4, dir));

    // what must come of it
    bool complete = !plan.plugs.empty (), unclear = false;
    enum disir_status want = DISIR_STATUS_OK;
    std::vector<size_t> loads;                    // of the stubs, in order: registrations
    size_t kept = 0;
    refusals.clear (); answered = 0; seen.clear ();
    for (auto& p : plan.plugs) for (int k = 0; k < 5; k++) if (!p.has[k] || p.twice[k]) complete = false;
    bool readable = plan.source == OBJECT || (plan.source == FILE_ && plan.defect == NONE && complete);
    if (plan.source == OBJECT) unclear = !complete;
    if (plan.defect == NULLINST) want = DISIR_STATUS_INVALID_ARGUMENT;
    else if (readable)
        for (size_t i = 0; i < plan.plugs.size () && want == DISIR_STATUS_OK; i++)
        {
            auto& p = plan.plugs[i];
            for (int k = 0; k < 3; k++) if (!p.has[k] || value_of (p, i, k, dir).empty ()) want = DISIR_STATUS_CONFIG_INVALID;
            if (want != DISIR_STATUS_OK) break;
            if (p.kind == MISSING || p.kind == DIRECTORY || p.kind == TEXT) want = DISIR_STATUS_LOAD_ERROR;
            else if (p.kind == NOSYM) want = DISIR_STATUS_PLUGIN_ERROR;
            else if (p.kind == BADREG) { want = DISIR_STATUS_PLUGIN_ERROR; loads.push_back (i); refusals.push_back (p.refuse); }
            else { kept = i + 1; if (p.kind == STUB) { loads.push_back (i); refusals.push_back (DISIR_STATUS_OK); } }
        }

    MoldH mold; ConfigH object;
    struct disir_instance *inst = nullptr;
    struct disir_instance **place = plan.defect == NULLINST ? nullptr : &inst;
    std::string path = dir + "/libdisir.toml", spec;
    bool file = plan.source == FILE_ || plan.both;
    if (plan.source == OBJECT || plan.written)
    {
        OKAY (disir_libdisir_mold (&mold.p));
        object.p = object_of (mold.p, plan, dir);
        spec = dump (observe_config_lax (object.p));
    }
    if (plan.source == FILE_ && plan.written)
    {
        enum disir_status st = disir_libdisir_config_to_disk (NULL, object.p, path.c_str ());
        REQUIRE (st == DISIR_STATUS_OK, "the configuration could not be written to disk: %s", ss (st));
        object.reset ();
    }
    else if (file && plan.defect != NOFILE) write_file (path, plan.source == OBJECT ? "[[plugin\n" : text_of (plan, dir));
    mold.reset ();
    int fds = open_fds ();
    enum disir_status st = disir_instance_create (file ? path.c_str () : NULL, plan.source == OBJECT ? object.p : NULL, place);
    REQUIRE (open_fds () == fds || (st == DISIR_STATUS_OK), "creating an instance left a file open");
    if (plan.source == FILE_ && !readable && plan.defect != NULLINST) REQUIRE (st != DISIR_STATUS_OK, "an instance was created from a configuration that is not valid");
    else if (unclear && want == DISIR_STATUS_OK && st != DISIR_STATUS_OK) { want = st; REQUIRE (seen.empty (), "a configuration was refused after its plugins were loaded: %s", ss (st)); }
    else REQUIRE (st == want, "creating the instance returned %s, not %s", ss (st), ss (want));
    bool ok = st == DISIR_STATUS_OK;
    if (!ok)
    {
        REQUIRE (!inst, "an instance was refused and is there: %s", ss (st));
        if (plan.source == OBJECT)
        {
            std::string after = dump (observe_config_lax (object.p));
            REQUIRE (after == spec, "the configuration of the user has changed: %s", dump_diff (spec, after).c_str ());
        }
    }
    else REQUIRE (inst, "no instance is there");
    struct Guard { struct disir_instance *& i; ~Guard () { if (i) disir_instance_destroy (&i); } } guard { inst };
    if (ok) object.p = nullptr;       // taken over

    // what the plugins were told
    auto told = [&] (size_t n, size_t i, bool finished)
    {
        auto& p = plan.plugs[i]; auto& s = seen[n];
        REQUIRE (s.finished == finished, "plugin %zu was not %s in its turn", i, finished ? "finished" : "registered");
        for (int k = 3; k < 5; k++)
        {
            bool has = k == 3 ? s.c : s.m; const std::string& got = k == 3 ? s.cb : s.mb; std::string v = value_of (p, i, k, dir);
            REQUIRE (has ? p.has[k] && got == v : !p.has[k] || v.empty (), "plugin %zu was given %s as %s, not %s", i, has ? quote (got).c_str () : "nothing", KEYS[k], p.has[k] ? quote (v).c_str () : "nothing");
        }
        if (ok || finished) REQUIRE (!ok || s.inst == inst, "plugin %zu was told about another instance", i);
    };
    bool tried = readable && plan.defect != NULLINST && !(unclear && seen.empty () && !ok && want != DISIR_STATUS_CONFIG_INVALID && want != DISIR_STATUS_LOAD_ERROR && want != DISIR_STATUS_PLUGIN_ERROR);
    size_t stubs = 0, finished = 0;
    if (!tried || (unclear && !ok && seen.empty ())) REQUIRE (seen.empty (), "a plugin was registered although the configuration was refused");
    else
    {
        for (auto& s : seen) if (!s.finished) stubs++; else finished++;
        REQUIRE (stubs == loads.size (), "%zu plugins were registered, not %zu", stubs, loads.size ());
        for (size_t n = 0; n < loads.size (); n++) told (n, loads[n], false);
        std::vector<size_t> kept_stubs;
        for (auto i : loads) if (plan.plugs[i].kind == STUB) kept_stubs.push_back (i);
        if (ok)
        {
            REQUIRE (!finished, "a plugin was finished before the instance was");
            struct disir_plugin *l = nullptr;
            OKAY (disir_plugin_registered (inst, &l));
            std::vector<std::string> got, groups;
            while (l) { struct disir_plugin *x = l->next; got.push_back (l->pl_group_id); disir_plugin_finished (&l); l = x; }
            for (auto& p : plan.plugs) groups.push_back (p.group);
            REQUIRE (got == groups, "%zu plugins are registered, not the %zu configured, in their order and groups", got.size (), groups.size ());
            for (size_t i = 0; i < plan.plugs.size (); i++)
            {
                auto& p = plan.plugs[i];
                if (p.kind != JSON || !p.has[3] || !p.has[4]) continue;
                struct disir_config *cfg = nullptr;
                std::string e = fmt ("e%zu", i);
                enum disir_status s = disir_config_read (inst, p.group.c_str (), e.c_str (), NULL, &cfg);
                REQUIRE (s == DISIR_STATUS_OK && cfg, "an entry of plugin %zu cannot be read: %s", i, ss (s));
                ConfigH h (cfg);
                int64_t v = 0;
                OKAY (disir_config_get_keyval_integer (cfg, &v, "k"));
                REQUIRE (v == (int64_t) (100 + i), "the entry of plugin %zu reads as %ld", i, (long) v);
            }
            if (plan.plugs.size () > 1) c.nontrivial ("several plugins");
            enum disir_status d = disir_instance_destroy (&inst);
            REQUIRE (d == DISIR_STATUS_OK && !inst, "the instance could not be destroyed: %s", ss (d));
        }
        else if (kept) c.nontrivial ("refused after some were loaded");
        size_t base = loads.size ();
        REQUIRE (seen.size () == base + kept_stubs.size (), "%zu plugins were told to finish, not %zu", seen.size () - base, kept_stubs.size ());
        std::vector<std::string> a, b;
        for (size_t n = 0; n < kept_stubs.size (); n++)
        {
            REQUIRE (seen[base + n].finished, "a plugin was registered late");
            auto& s = seen[base + n]; auto& p = plan.plugs[kept_stubs[n]];
            a.push_back (fmt ("%d%d", s.c && !s.cb.empty (), s.m && !s.mb.empty ()) + s.cb + "|" + s.mb);
            std::string v = p.has[3] ? value_of (p, 0, 3, dir) : "", w = p.has[4] ? value_of (p, 0, 4, dir) : "";
            b.push_back (fmt ("%d%d", !v.empty (), !w.empty ()) + v + "|" + w);
        }
        std::sort (a.begin (), a.end ()); std::sort (b.begin (), b.end ());
        REQUIRE (a == b, "the plugins that were told to finish are not those that were registered");
    }
    if (!inst)
    {
        int k = loaded_from (dir);
        REQUIRE (k == 0, "%d plugins stay loaded", k);
    }
    else { enum disir_status d = disir_instance_destroy (&inst); REQUIRE (d == DISIR_STATUS_OK, "the instance could not be destroyed: %s", ss (d)); }
    if (c.verbose) c.log ("-> %s", ss (st));
    c.label (ok ? "created" : fmt ("refused: %s", ss (st)).c_str ());
}

void run (Ctx& c)
{
    if (lib.empty ())
    {
        lib = getenv ("DISIR_LIBBUILD");
        // stays loaded, so that what it keeps for itself is not what a case loses
        if (!dlopen ((lib + "/plugins/dplugin_json.so").c_str (), RTLD_NOW | RTLD_LOCAL)) fail ("HARNESS: %s", dlerror ());
    }
    Plan p;
    p.source = (Source) c.s.weighted ({ 6, 5, 1 });
    p.defect = (Defect) c.s.weighted ({ 20, 1, 1, 1, 1, 1, 1 });
    if (p.defect != NONE && p.defect != NULLINST && p.source != FILE_) p.defect = NONE;
    p.both = p.source == OBJECT && c.s.below (3) == 2;
    p.written = c.s.below (3) == 2;
    int n = p.source == NOTHING ? 0 : c.s.weighted ({ 1, 4, 6, 4, 2, 1 });
    bool failing = c.s.below (3) == 2;
    for (int i = 0; i < n; i++)
    {
        Plug q;
        q.kind = (Kind) c.s.weighted ({ 8, 4, 2, 1 });
        bool odd = failing && c.s.below (3) == 2;
        if (odd) q.kind = (Kind) c.s.range (BADREG, NKINDS - 1);
        static const std::vector<std::string> groups { "g", "h", "with space", "G", "a/b", "\xc3\xa5" };
        q.group = failing && c.s.below (12) == 11 ? "" : groups[c.s.weighted ({ 6, 3, 1, 1, 1, 1 })];
        q.io = failing && c.s.below (12) == 11 ? "" : c.s.below (2) ? "io" : fmt ("io \\ \"%d\" = # [x]", i);
        for (int k = 0; k < 2; k++)
        {
            q.base[k] = fmt ("%c%d", k ? 'm' : 'c', i);
            size_t longer = c.s.weighted ({ 5, 2, 2, 1 });
            for (int r = longer * c.s.range (1, 150); r > 0; r--) q.base[k] += "/.";
            if (c.s.below (12) == 11 && q.kind == STUB) q.base[k] = "";
        }
        q.slashes = c.s.weighted ({ 4, 1 }) * c.s.range (0, 400);
        if (q.kind == BADREG) { static const std::vector<int> with { DISIR_STATUS_INTERNAL_ERROR, DISIR_STATUS_NO_MEMORY, DISIR_STATUS_NOT_EXIST, DISIR_STATUS_INVALID_CONTEXT, DISIR_STATUS_EXISTS }; q.refuse = c.s.pick (with); }
        for (int k = 0; k < 5; k++)
        {
            int w = c.s.below (failing || k >= 3 ? 24 : 48);
            if (w == 23 && failing) q.has[k] = false;
            if (w == 23 && k >= 3 && q.kind == STUB) q.has[k] = false;
            if (w == 22 && p.source == OBJECT) q.twice[k] = true;
        }
        p.plugs.push_back (q);
    }
    if (p.defect == NUMBER || p.defect == UNKNOWN_KEY) { if (p.plugs.empty ()) p.defect = GARBAGE; else if (p.defect == NUMBER && !p.plugs.back ().has[1]) p.defect = UNKNOWN_KEY; }
    if (p.defect != NONE && p.defect != NULLINST) p.written = false;
    if (p.source != FILE_) p.written = false;
    if (p.written) for (auto& q : p.plugs) for (auto& t : q.twice) t = false;
    c.log ("from %s%s%s%s", p.source == FILE_ ? "a file" : p.source == OBJECT ? "a configuration" : "nothing", p.both ? ", with a file to be ignored" : "", p.written ? " the library wrote" : "", p.defect ? fmt (", %s", DN[p.defect]).c_str () : "");
    for (auto& q : p.plugs)
        c.log ("plugin (%s) in %s as %s, bases %s%s", KN[q.kind], quote (q.group).c_str (), quote (q.io).c_str (), fmt ("%s (%zu), %s (%zu); %d", q.base[0].substr (0, 4).c_str (), q.base[0].size (), q.base[1].substr (0, 4).c_str (), q.base[1].size (), q.slashes).c_str (),
               [&] { std::string r; for (int k = 0; k < 5; k++) { if (!q.has[k]) r += fmt (", no %s", KEYS[k]); if (q.twice[k]) r += fmt (", %s twice", KEYS[k]); } return r; } ().c_str ());
    play (p, c);
    bool v = c.verbose;
    c.verbose = false;
    auto again = [&] { play (p, c); };
    again ();
    size_t b0 = heap_bytes ();
    again ();
    size_t b1 = heap_bytes ();
    if (b1 > b0) { again (); size_t b2 = heap_bytes (); REQUIRE (b2 <= b1, "%zu bytes are lost", b2 - b1); }
    c.verbose = v;
}
}
extern "C" enum disir_status c30_called (int finished, struct disir_instance *instance, struct disir_register_plugin *p)
{
    seen.push_back ({ finished, instance, p->dp_config_base_id != nullptr, p->dp_mold_base_id != nullptr, p->dp_config_base_id ? p->dp_config_base_id : "", p->dp_mold_base_id ? p->dp_mold_base_id : "" });
    if (finished) return DISIR_STATUS_OK;
    return answered < refusals.size () ? (enum disir_status) refusals[answered++] : DISIR_STATUS_OK;
}
Property property = { "C30",
    "instances made from a file, from a configuration or from nothing, naming 0-5 plugins: four that load, seven that do not; keys missing, empty, twice or up to a thousand characters long; files that are missing or invalid; non-trivial: several plugins were loaded, or the instance was refused after some were",
    run, 8000, 80000, {} };
