// C25: importing an archive: what each entry is told to be, what resolving it does, and that exactly
// what was resolved reaches the system.
#include "systems.h"
#include <disir/version.h>

namespace {
enum Kind { GOOD, GARBAGE, INVALID, NEWER, NKINDS };
enum Now { NONE, SAME, VALUES, VERSION, BROKEN, WRONG, NNOWS };
struct Entry { int group; std::string gname, id, backend, text, version; Kind kind = GOOD; Now now = NONE; bool mold = true; CfgSpec cfg, old; };
struct Step { int entry; int opt; };
enum End { DO, DO_QUIET, GIVE_UP, BAD_FIRST, NENDS };
struct Plan
{
    std::vector<Group> groups; std::vector<Entry> entries; std::vector<Step> steps; End end = DO; bool locked = false, xz = false; int order = 0;
};
struct State { enum disir_status st; bool conflict = false, import = false; CfgSpec cfg; bool either = false; };

std::string quoted (const std::string& s) { return "\"" + s + "\""; }      // names here need no escapes
std::string archive_of (const Plan& p, const std::string& path)
{
    std::map<std::string, std::map<std::string, std::vector<const Entry *>>> by;
    for (auto& e : p.entries) by[e.backend][e.gname].push_back (&e);
    std::vector<Member> m;
    std::string meta = "implementation = \"" + std::string (libdisir_version_string) + "\"\ndisir_org_version = \"0/1-draft\"\n", list;
    for (auto& b : by)
    {
        std::string gs, index;
        for (auto& g : b.second)
        {
            gs += (gs.empty () ? "" : ", ") + quoted (g.first);
            index += "[" + quoted (g.first) + "]\n";
            for (auto e : g.second)
            {
                index += quoted (e->id) + " = \"" + e->version + "\"\n";
                Member x; x.name = b.first + "/" + g.first + "/" + e->id; x.data = e->text; m.push_back (x);
            }
        }
        list += "[[backend]]\nid = " + quoted (b.first) + "\ngroups = [" + gs + "]\n";
        Member x; x.name = b.first + "/entries.toml"; x.data = index; m.push_back (x);
    }
    Member x; x.name = "metadata.toml"; x.data = meta + list;
    m.insert (p.order == 1 ? m.end () : m.begin (), x);
    if (p.order == 2) std::reverse (m.begin (), m.end ());
    write_archive (path, m, p.xz);
    return path;
}
// What UPDATE makes of it, through the interface for updates
enum disir_status updated (const MoldSpec& ms, CfgSpec& cf, bool discard)
{
    MoldH mold (build_mold (ms));
    ConfigH cfg (build_config (mold.p, grouped (cf, 1)));
    struct disir_update *u = nullptr;
    struct disir_version to = ms.version ().c ();
    enum disir_status st = disir_update_config (cfg.p, &to, &u);
    while (st == DISIR_STATUS_CONFLICT)
    {
        const char *n, *own, *theirs;
        OKAY (disir_update_conflict (u, &n, &own, &theirs));
        std::string o = own, t = theirs;
        st = disir_update_resolve (u, o.c_str ());
        if (st == DISIR_STATUS_RESTRICTION_VIOLATED && discard) st = disir_update_resolve (u, t.c_str ());
        if (st != DISIR_STATUS_OK) break;
        st = disir_update_continue (u);
    }
    if (st != DISIR_STATUS_OK) { if (u) disir_update_finished (&u, nullptr); return st; }
    ConfigH res;
    OKAY (disir_update_finished (&u, &res.p));
    cf = observe_config (res.p);
    return DISIR_STATUS_OK;
}
const char *OPTS[] = { "bad 0", "UPDATE", "FORCE", "DO", "DISCARD", "UPDATE_WITH_DISCARD", "bad 6" };
const char *KINDS[] = { "good", "garbage", "invalid", "newer" }, *NOWS[] = { "not on the system", "identical", "other values", "other version", "unparsable on the system", "invalid on the system" };

struct Run
{
    Ctx& c; const Plan& plan; std::string dir; System sys; std::vector<State> state; std::vector<int> at;     // entry of the plan by index
    std::set<std::string> locked;
    Run (Ctx& x, const Plan& p) : c (x), plan (p) {}
    ~Run () { unlock (); }
    void lock (const std::string& d)
    {
        DIR *h = opendir (d.c_str ());
        while (struct dirent *e = h ? readdir (h) : nullptr) if (e->d_type == DT_DIR && e->d_name[0] != '.') lock (d + "/" + e->d_name);
        if (h) closedir (h);
        chmod (d.c_str (), 0500); locked.insert (d);
    }
    void unlock () { for (auto& d : locked) chmod (d.c_str (), 0700); locked.clear (); }

    State expected (const Entry& e)
    {
        State s; s.cfg = e.cfg;
        if (e.group < 0 || e.backend != sys.groups[e.group].backend || !e.mold) { s.st = DISIR_STATUS_NO_CAN_DO; return s; }
        if (e.kind == NEWER) { s.st = DISIR_STATUS_NO_CAN_DO; return s; }
        if (e.kind != GOOD) { s.st = DISIR_STATUS_CONFIG_INVALID; return s; }
        if (e.now == NONE) { s.st = e.cfg.version == sys.groups[e.group].molds[e.id].version () ? DISIR_STATUS_OK : DISIR_STATUS_CONFLICTING_SEMVER; return s; }
        if (e.now == BROKEN || e.now == WRONG) { s.st = DISIR_STATUS_NO_CAN_DO; s.either = true; return s; }
        s.conflict = true;
        bool same = dump (grouped (e.cfg, 2), false) == dump (grouped (e.old, 2), false);
        s.st = !same ? DISIR_STATUS_CONFLICT : e.cfg.version == e.old.version ? DISIR_STATUS_OK : DISIR_STATUS_CONFLICTING_SEMVER;
        return s;
    }
    void statuses (struct disir_import *imp, const char *when)
    {
        for (size_t i = 0; i < at.size (); i++)
        {
            const char *id, *g, *v, *info;
            enum disir_status st = disir_import_entry_status (imp, i, &id, &g, &v, i % 2 ? &info : nullptr);
            const Entry& e = plan.entries[at[i]]; State& s = state[at[i]];
            enum disir_status want = s.st == DISIR_STATUS_OK && s.conflict ? DISIR_STATUS_CONFLICT : s.st;
            REQUIRE (e.id == id && e.gname == g, "%s: entry %zu is %s of %s now", when, i, id, quote (g).c_str ());
            REQUIRE (e.version == v, "%s: %s has version %s, not %s", when, id, v, e.version.c_str ());
            REQUIRE (st == want || (s.either && st == DISIR_STATUS_CONFIG_INVALID), "%s: %s (%s, %s) is %s, not %s", when, id, KINDS[e.kind], NOWS[e.now], ss (st), ss (want));
            if (i % 2 && want != DISIR_STATUS_OK) REQUIRE (info && *info, "%s: nothing tells why %s is %s", when, id, ss (want));
        }
    }
    void play ();
};
void Run::play ()
{
    dir = fresh_dir (); clear_temporaries ();
    sys.dir = dir + "/sys"; sys.groups = plan.groups;
    for (size_t g = 0; g < plan.groups.size (); g++) for (auto& m : plan.groups[g].molds) sys.put_mold (g, m.first, m.second);
    sys.open ();
    for (auto& e : plan.entries)
    {
        if (e.group < 0) continue;
        std::string f = sys.config_file (e.group, e.id);
        if (e.now == BROKEN) System::put (f, "{");
        else if (e.now == WRONG) System::put (f, "{ \"version\": \"1.0\", \"config\": { \"no_such_keyval\": 1 } }");
        else if (e.now != NONE) System::put (f, json_of (grouped (e.old, 1)));
        if (!e.mold) unlink ((sys.dir + fmt ("/m%d/", e.group) + e.id + ".json").c_str ());
    }
    std::string a = archive_of (plan, dir + "/a.disir");
    auto before = snapshot_tree (dir);
    int fds = open_fds ();
    {
        struct disir_import *x = nullptr; int n = 7;
        enum disir_status st = disir_archive_import (sys.p, (dir + "/none.disir").c_str (), &x, &n);
        REQUIRE (st == DISIR_STATUS_NOT_EXIST && !x, "importing an archive that is not there returned %s", ss (st));
    }
    ImportH own (sys.p); int n = -1;
    enum disir_status st = disir_archive_import (sys.p, a.c_str (), &own.p, &n);
    REQUIRE (st == DISIR_STATUS_OK && own.p, "importing returned %s", ss (st));
    REQUIRE (n == (int) plan.entries.size (), "%d entries are imported of %zu", n, plan.entries.size ());
    REQUIRE (snapshot_tree (dir) == before, "importing changed files before anything was resolved");
    auto left = temporaries (); clear_temporaries ();
    REQUIRE (left.empty (), "/tmp/%s is left behind", left[0].c_str ());
    for (auto& e : plan.entries) state.push_back (expected (e));
    std::set<int> seen;
    for (int i = 0; i < n; i++)
    {
        const char *id, *g, *v;
        disir_import_entry_status (own.p, i, &id, &g, &v, nullptr);
        int k = -1;
        for (size_t j = 0; j < plan.entries.size (); j++) if (plan.entries[j].id == id && plan.entries[j].gname == g) k = j;
        REQUIRE (k >= 0 && seen.insert (k).second, "%s of %s is not in the archive, or twice", id, quote (g).c_str ());
        at.push_back (k);
    }
    statuses (own.p, "after import");
    for (auto& s : plan.steps)
    {
        int i = s.entry < 0 || s.entry >= n ? s.entry : (int) (std::find (at.begin (), at.end (), s.entry) - at.begin ());
        std::string w = fmt ("%s %s", OPTS[s.opt], s.entry < 0 || s.entry >= n ? "no entry" : plan.entries[s.entry].id.c_str ());
        st = disir_import_resolve_entry (own.p, i, (enum disir_import_option) s.opt);
        if (c.verbose) c.log ("%s: %s", w.c_str (), ss (st));
        enum disir_status want = DISIR_STATUS_OK;
        if (i < 0 || i >= n) want = DISIR_STATUS_INVALID_ARGUMENT;
        else
        {
            State& t = state[s.entry]; const Entry& e = plan.entries[s.entry];
            bool bad = t.st == DISIR_STATUS_NO_CAN_DO || t.st == DISIR_STATUS_CONFIG_INVALID;
            if (bad || (t.st == DISIR_STATUS_OK && t.import && s.opt != DISIR_IMPORT_DISCARD))
            {
                want = DISIR_STATUS_NO_CAN_DO;
                if ((s.opt == 0 || s.opt == 6) && st == DISIR_STATUS_INVALID_ARGUMENT) want = st;       // both hold
            }
            else switch (s.opt)
            {
            case DISIR_IMPORT_DISCARD: t.import = false; break;
            case DISIR_IMPORT_UPDATE: case DISIR_IMPORT_UPDATE_WITH_DISCARD:
                if (t.st == DISIR_STATUS_OK) { want = DISIR_STATUS_NO_CAN_DO; break; }
                want = updated (plan.groups[e.group].molds.at (e.id), t.cfg, s.opt == DISIR_IMPORT_UPDATE_WITH_DISCARD);
                if (want == DISIR_STATUS_OK) { t.import = true; t.st = DISIR_STATUS_OK; c.label (s.opt == DISIR_IMPORT_UPDATE ? "updated" : "updated with discard"); }
                else if (want == DISIR_STATUS_RESTRICTION_VIOLATED) c.label ("update violates");
                break;
            case DISIR_IMPORT_FORCE: t.import = true; t.st = DISIR_STATUS_OK; if (t.conflict) c.label ("forced"); break;
            case DISIR_IMPORT_DO:
                if (t.conflict) want = DISIR_STATUS_NO_CAN_DO;
                else { t.import = true; t.st = DISIR_STATUS_OK; }
                break;
            default: want = DISIR_STATUS_INVALID_ARGUMENT;
            }
        }
        REQUIRE (st == want, "%s returned %s, not %s", w.c_str (), ss (st), ss (want));
        statuses (own.p, w.c_str ());
    }
    REQUIRE (snapshot_tree (dir) == before, "resolving changed files");
    struct import_report *rep = nullptr;
    if (plan.end == BAD_FIRST)
    {
        st = disir_import_finalize (sys.p, DISIR_IMPORT_FORCE, &own.p, &rep);
        REQUIRE (st == DISIR_STATUS_INVALID_ARGUMENT && own.p && !rep, "finalizing by force returned %s", ss (st));
        statuses (own.p, "after a refused finalize");
    }
    if (plan.end == GIVE_UP)
    {
        st = disir_import_finalize (sys.p, DISIR_IMPORT_DISCARD, &own.p, &rep);
        REQUIRE (st == DISIR_STATUS_OK && !own.p, "discarding the import returned %s", ss (st));
        REQUIRE (snapshot_tree (dir) == before, "discarding the import changed files");
    }
    else
    {
        if (plan.locked) lock (sys.config_base (0));
        st = disir_import_finalize (sys.p, DISIR_IMPORT_DO, &own.p, plan.end == DO_QUIET ? nullptr : &rep);
        unlock ();
        bool error = disir_error (sys.p) != nullptr;
        REQUIRE (st == DISIR_STATUS_OK && !own.p, "finalizing returned %s", ss (st));
        int failed = 0, done = 0;
        std::vector<std::string> lines;
        if (rep) { for (int i = 0; i < rep->ir_entries; i++) lines.push_back (rep->ir_entry[i] ? rep->ir_entry[i] : "nothing"); disir_import_report_destroy (&rep); REQUIRE (!rep, "the report is still there"); }
        REQUIRE (plan.end == DO_QUIET || (int) lines.size () == n, "%zu entries are reported of %d", lines.size (), n);
        auto after = snapshot_tree (dir);
        for (int i = 0; i < n; i++)
        {
            const Entry& e = plan.entries[at[i]]; State& s = state[at[i]];
            bool imported = s.st == DISIR_STATUS_OK && s.import, fails = imported && plan.locked && e.group == 0;
            std::string want;
            if (fails) want = "Failed:         " + e.id, failed++;
            else if (imported) want = "Imported:       " + e.id + " (" + s.cfg.version.str () + ")", done++;
            else if (s.st == DISIR_STATUS_NO_CAN_DO || s.st == DISIR_STATUS_CONFIG_INVALID) want = "Not importable: " + e.id;
            else want = "Discarded:      " + e.id;
            if (plan.end != DO_QUIET) REQUIRE (lines[i] == want, "reported as %s, not %s", quote (lines[i]).c_str (), quote (want).c_str ());
            if (e.group < 0) continue;
            std::string f = sys.config_file (e.group, e.id).substr (dir.size () + 1);
            if (!imported || fails) { REQUIRE (before.count (f) == after.count (f) && (!before.count (f) || before[f] == after[f]), "%s was not to be imported and has changed", e.id.c_str ()); continue; }
            ConfigH cf;
            st = disir_config_read (sys.p, e.gname.c_str (), e.id.c_str (), NULL, &cf.p);
            REQUIRE (st == DISIR_STATUS_OK, "%s, which was imported, cannot be read: %s", e.id.c_str (), ss (st));
            std::string got = dump_json (observe_config (cf.p)), w2 = dump_json (s.cfg);
            REQUIRE (got == w2, "%s (%s) was imported as\n%s", e.id.c_str (), NOWS[e.now], dump_diff (w2, got).c_str ());
            after.erase (f); before.erase (f);
        }
        REQUIRE (!failed || error, "%d entries failed and no error is set", failed);
        for (auto it = after.begin (); it != after.end ();) if (it->first.back () == '/') it = after.erase (it); else ++it;
        for (auto it = before.begin (); it != before.end ();) if (it->first.back () == '/') it = before.erase (it); else ++it;
        for (auto& x : after) REQUIRE (before.count (x.first) && before[x.first] == x.second, "the import changed %s", x.first.c_str ());
        for (auto& x : before) REQUIRE (after.count (x.first), "the import removed %s", x.first.c_str ());
        if (failed) c.label ("failed");
        if (done > 1) c.label ("several imported");
        if (done) c.nontrivial ();
    }
    auto l2 = temporaries (); clear_temporaries ();
    REQUIRE (l2.empty (), "/tmp/%s is left behind", l2[0].c_str ());
    REQUIRE (open_fds () == fds, "%d descriptors are left open", open_fds () - fds);
}

void run (Ctx& c)
{
    Plan p;
    GenOpt o; o.crowd = 60;
    o.max_depth = 2; o.max_kids = 3; o.max_entries = 3; o.strings = c.s.range (0, 2);
    int ng = c.s.range (1, 2);
    static const char *names[] = { "g", "my group" }, *ids[] = { "a", "b", "a/n", "m_1" };
    for (int g = 0; g < ng; g++) { Group x; x.name = names[g]; x.backend = c.s.below (3) == 2 ? "JSON Config" : "JSON"; p.groups.push_back (x); }
    int ne = c.s.range (1, 5);
    std::set<std::pair<int, int>> used;
    for (int i = 0; i < ne; i++)
    {
        Entry e; int y = c.s.below (4);
        e.group = c.s.below (ng);
        if (c.s.below (16) == 15) e.group = -1;
        while (used.count ({ e.group, y })) { y = (y + 1) % 4; if (used.count ({ e.group, y }) && y == 0) e.group = e.group + 1 < ng ? e.group + 1 : -1; }
        used.insert ({ e.group, y });
        e.id = ids[y];
        e.gname = e.group < 0 ? "none" : p.groups[e.group].name;
        e.backend = e.group < 0 ? "JSON" : p.groups[e.group].backend;
        if (c.s.below (16) == 15) e.backend = "Other";
        MoldSpec m = gen_mold (c.s, o);
        e.mold = c.s.below (16) != 15;
        if (e.group >= 0) p.groups[e.group].molds[e.id] = m;
        e.kind = (Kind) c.s.weighted ({ 12, 1, 1, 1 });
        e.now = (Now) c.s.weighted ({ 4, 2, 4, 3, 1, 1 });
        e.cfg = grouped (gen_config (c.s, m, c.s.below (2) ? m.versions ().front () : gen_version_of (c.s, m), o), 1);
        e.old = e.cfg;
        if (e.now == VALUES) e.old = grouped (gen_config (c.s, m, c.s.below (2) ? e.cfg.version : gen_version_of (c.s, m), o), 1);
        if (e.now == VERSION) { CfgSpec x = e.cfg; x.version = gen_version_of (c.s, m); if (invalid_model (m, x).empty ()) e.old = x; }
        if (e.kind == NEWER) { Ver v = m.version (); e.cfg.version = c.s.below (2) ? Ver (v.maj, v.min + 1) : Ver (v.maj + 1, 0); }
        e.version = e.cfg.version.str ();
        e.text = e.kind == GARBAGE ? "{ \"version\"" : e.kind == INVALID ? "{ \"version\": \"1.0\", \"config\": { \"no_such_keyval\": 1 } }" : json_of (e.cfg);
        c.log ("%s of %s, %s, %s%s: %s, %s", e.id.c_str (), quote (e.gname).c_str (), e.backend.c_str (), e.mold ? "" : ", no mold", KINDS[e.kind], NOWS[e.now], "");
        if (c.verbose) c.log ("mold %s\n%s\nthere: %s", dump (m).c_str (), dump (e.cfg).c_str (), dump (e.old).c_str ());
        p.entries.push_back (e);
    }
    int n = c.s.range (0, 2 * ne + 2);
    for (int i = 0; i < n; i++)
    {
        Step s; s.entry = c.s.below (20) == 19 ? (c.s.below (2) ? -1 : ne) : (int) c.s.below (ne);
        static const int opts[] = { DISIR_IMPORT_FORCE, DISIR_IMPORT_DO, DISIR_IMPORT_UPDATE, DISIR_IMPORT_UPDATE_WITH_DISCARD, DISIR_IMPORT_DISCARD, 0, 6 };
        s.opt = opts[c.s.weighted ({ 6, 6, 6, 5, 3, 1, 1 })];
        c.log ("%s %d", OPTS[s.opt], s.entry);
        p.steps.push_back (s);
    }
    p.end = (End) c.s.weighted ({ 8, 1, 1, 1 });
    p.locked = c.s.below (10) == 9; p.xz = c.s.below (8) == 7; p.order = c.s.below (3);
    c.log ("end %d%s", p.end, p.locked ? ", locked" : "");
    { Run r (c, p); r.play (); }
    bool v = c.verbose; c.verbose = false;
    auto again = [&] { Run r (c, p); r.play (); };
    if (c.s.below (4) == 3)
    {
        again ();
        size_t b0 = heap_bytes (); again (); size_t b1 = heap_bytes ();
        if (b1 > b0) { again (); size_t b2 = heap_bytes (); if (b2 > b1) { again (); size_t b3 = heap_bytes (); REQUIRE (b3 <= b2, "%zu bytes are lost", b3 - b2); } }
        c.label ("leaks");
    }
    c.verbose = v;
}
}
Property property = { "C25",
    "archives of 1-5 entries of 1-2 groups: valid, unparsable, invalid or newer configurations, of unknown groups, of other backends, without mold, against a system that has none, the same, another or a broken configuration; up to 12 resolutions with every option; non-trivial: something was imported",
    run, 4000, 40000, {}, make_instance, true };
