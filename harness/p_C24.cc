// C24: an archive holds what was appended to it, as it was when it was appended; an archive on disk
// is replaced completely or not at all.
#include "systems.h"
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/wait.h>

// A failing or crashing environment: the n-th call that changes a file fails, or the process ends just before it.
static long g_fail_at = -1, g_crash_at = -1;
static bool strike ()
{
    if (g_crash_at >= 0 && g_crash_at-- == 0) _exit (7);
    return g_fail_at >= 0 && g_fail_at-- == 0;
}
extern "C" {
ssize_t write (int fd, const void *p, size_t n) { if (strike ()) { errno = ENOSPC; return -1; } return syscall (SYS_write, fd, p, n); }
int __real_rename (const char *, const char *);
int __wrap_rename (const char *a, const char *b) { if (strike ()) { errno = EIO; return -1; } return __real_rename (a, b); }
int __real_remove (const char *);
int __wrap_remove (const char *p) { if (strike ()) { errno = EIO; return -1; } return __real_remove (p); }
int __real_fclose (FILE *);
int __wrap_fclose (FILE *f) { bool s = strike (); int r = __real_fclose (f); if (s) { errno = ENOSPC; return EOF; } return r; }
}

namespace {
enum { ABSENT = -1, GARBAGE = -2, INVALID = -3 };
struct Entry { std::string id; std::vector<CfgSpec> cfg; int state = ABSENT; };
enum Op { BEGIN, OPEN, ENTRY, GROUP, CHANGE, FINISH, NOPS };
struct Step { Op op; int slot, group, entry, kind, variant; long at; };
struct Plan { std::vector<Group> groups; std::vector<std::vector<Entry>> entries; std::vector<Step> steps; bool backup_dir = false; };
typedef std::tuple<std::string, std::string, std::string> Key;      // backend, group, entry
typedef std::map<Key, std::pair<std::string, std::string>> Content; // version, configuration
struct Slot { struct disir_archive *a = nullptr; Content have, maybe; std::string from; bool hurt = false; };

const char *FILES[] = { "one", "two.disir", "sub/three", "a.b" };
enum Bad { NODIR = 4, LOCKED, SLASH, EMPTY, LONGDIR, LONGNAME, NOTHING, NKINDS };
std::string final_name (int kind) { std::string f = FILES[kind]; return f.size () > 6 && f.substr (f.size () - 6) == ".disir" ? f : f + ".disir"; }

struct Run
{
    Ctx& c; Plan& plan;
    std::string dir;
    System src, dst;
    std::vector<std::vector<int>> state;
    std::map<std::string, Content> files;
    Slot slot[2];
    bool faulted = false;       // temporary files may be left behind
    Run (Ctx& x, Plan& p) : c (x), plan (p) {}
    ~Run ()
    {
        g_fail_at = g_crash_at = -1;
        for (auto& s : slot) if (s.a) disir_archive_finalize (src.p, NULL, &s.a);
        chmod ((dir + "/locked").c_str (), 0700);
    }
    void put (int g, int e, int st)
    {
        Entry& x = plan.entries[g][e];
        std::string f = src.config_file (g, x.id);
        if (st == ABSENT) unlink (f.c_str ());
        else if (st == GARBAGE) System::put (f, "{ \"version\": ");
        else if (st == INVALID) System::put (f, "{ \"version\": \"1.0\", \"config\": { \"no_such_keyval\": 1 } }");
        else System::put (f, json_of (grouped (x.cfg[st], 1)));
        state[g][e] = st;
    }
    Key key (int g, int e) { return Key (plan.groups[g].backend, plan.groups[g].name, plan.entries[g][e].id); }
    std::pair<std::string, std::string> value (int g, int e)
    {
        auto& cf = plan.entries[g][e].cfg[state[g][e]];
        return { cf.version.str (), dump_json (cf) };
    }
    std::string path (int kind, int variant)
    {
        std::string f = FILES[kind];
        if (variant == 1) return dir + "/out/./" + f;
        if (variant == 2) return "out/" + f;
        if (variant == 3) return dir + "/out//" + f;
        if (variant == 4) return "./out/../out/" + f;
        return dir + "/out/" + f;
    }
    // The content of an archive as its reader gets it; false if it is none.
    bool content (const std::string& file, Content& out, bool deep)
    {
        std::vector<std::pair<std::string, std::string>> raw;
        if (!read_archive (file, raw)) return false;
        struct disir_import *imp = nullptr; int n = -1;
        enum disir_status st = disir_archive_import (dst.p, file.c_str (), &imp, &n);
        REQUIRE (st == DISIR_STATUS_OK || !deep, "importing the archive %s returned %s", file.c_str () + dir.size (), ss (st));
        if (st != DISIR_STATUS_OK) return false;
        ImportH own (dst.p); own.p = imp;
        std::vector<Key> keys;
        size_t members = 1;
        std::set<std::string> backends, names;
        for (auto& m : raw) REQUIRE (names.insert (m.first).second, "the archive has two members %s", quote (m.first).c_str ());
        for (int i = 0; i < n; i++)
        {
            const char *id, *g, *v, *info;
            st = disir_import_entry_status (own.p, i, &id, &g, &v, &info);
            int gi = dst.group (g);
            REQUIRE (gi >= 0, "the archive has entries of the group %s", quote (g).c_str ());
            Key k (plan.groups[gi].backend, g, id);
            REQUIRE (dst.groups[gi].molds.count (id), "the archive has the entry %s", quote (id).c_str ());
            bool current = dst.groups[gi].molds[id].version ().str () == v;
            REQUIRE (st == (current ? DISIR_STATUS_OK : DISIR_STATUS_CONFLICTING_SEMVER), "%s of version %s, mold %s, which is not on the system, is %s (%s)", id, v, dst.groups[gi].molds[id].version ().str ().c_str (), ss (st), info ? info : "");
            REQUIRE (out.insert ({ k, { v, "" } }).second, "%s is twice in the archive", id);
            keys.push_back (k);
            backends.insert (plan.groups[gi].backend);
            REQUIRE (names.count (plan.groups[gi].backend + "/" + g + "/" + id), "%s is no member of the archive", id);
            st = disir_import_resolve_entry (own.p, i, DISIR_IMPORT_DO);
            REQUIRE (st == DISIR_STATUS_OK, "%s, which is not on the system, cannot be imported: %s", id, ss (st));
        }
        members += backends.size () + keys.size ();
        for (auto& b : backends) REQUIRE (names.count (b + "/entries.toml"), "the archive has no index of %s", quote (b).c_str ());
        REQUIRE (names.count ("metadata.toml") && names.size () == members, "the archive has %zu members, not %zu", names.size (), members);
        struct import_report *rep = nullptr;
        st = disir_import_finalize (dst.p, DISIR_IMPORT_DO, &own.p, &rep);
        REQUIRE (st == DISIR_STATUS_OK && rep && !own.p, "the import of %zu entries returned %s", keys.size (), ss (st));
        std::vector<std::string> lines;
        for (int i = 0; i < rep->ir_entries; i++) lines.push_back (rep->ir_entry[i]);
        disir_import_report_destroy (&rep);
        REQUIRE (lines.size () == keys.size (), "%zu entries are reported of %zu", lines.size (), keys.size ());
        for (size_t i = 0; i < keys.size (); i++)
        {
            auto& k = keys[i];
            std::string want = "Imported:       " + std::get<2> (k) + " (" + out[k].first + ")";
            REQUIRE (lines[i] == want, "reported as %s, not %s", quote (lines[i]).c_str (), quote (want).c_str ());
            ConfigH cf;
            st = disir_config_read (dst.p, std::get<1> (k).c_str (), std::get<2> (k).c_str (), NULL, &cf.p);
            REQUIRE (st == DISIR_STATUS_OK, "%s cannot be read after it was imported: %s", std::get<2> (k).c_str (), ss (st));
            out[k].second = dump_json (observe_config (cf.p));
            REQUIRE (disir_config_remove (dst.p, std::get<1> (k).c_str (), std::get<2> (k).c_str ()) == DISIR_STATUS_OK, "%s cannot be removed", std::get<2> (k).c_str ());
        }
        return true;
    }
    std::string differ (const Content& got, const Content& want, const Content& maybe)
    {
        for (auto& w : want)
        {
            auto it = got.find (w.first);
            if (it == got.end ()) return "misses " + std::get<2> (w.first) + " of " + quote (std::get<1> (w.first));
            if (it->second.first != w.second.first) return "holds version " + it->second.first + " of " + std::get<2> (w.first) + ", not " + w.second.first;
            if (it->second.second != w.second.second) return "holds another " + std::get<2> (w.first) + ":\n" + dump_diff (w.second.second, it->second.second);
        }
        for (auto& g : got) if (!want.count (g.first))
        {
            auto it = maybe.find (g.first);
            if (it == maybe.end () || it->second != g.second) return "holds " + std::get<2> (g.first) + " of " + quote (std::get<1> (g.first));
        }
        return "";
    }
    // Every file below out/ is one of the archives, unchanged
    std::map<std::string, std::string> bytes;
    void tree (const char *what)
    {
        auto now = snapshot_tree (dir + "/out");
        for (auto& f : files) REQUIRE (now.count (f.first), "%s: the archive %s is gone", what, f.first.c_str ());
        for (auto& f : now)
        {
            REQUIRE (files.count (f.first), "%s: %s was made", what, f.first.c_str ());
            if (bytes.count (f.first) && bytes[f.first] == f.second) continue;
            REQUIRE (!bytes.count (f.first), "%s: %s was changed", what, f.first.c_str ());
            bytes[f.first] = f.second;
        }
        for (auto it = bytes.begin (); it != bytes.end ();) if (!now.count (it->first)) it = bytes.erase (it); else ++it;
    }
    void checked (const char *what, const std::string& f, const Content& maybe)
    {
        Content got;
        REQUIRE (content (dir + "/out/" + f, got, true), "%s: %s is no archive", what, f.c_str ());
        std::string d = differ (got, files[f], maybe);
        REQUIRE (d.empty (), "%s: the archive %s", what, d.c_str ());
        files[f] = got;
        if (got.size () > 1) c.nontrivial ("several entries");
        std::set<std::string> gs; for (auto& g : got) gs.insert (std::get<1> (g.first));
        if (gs.size () > 1) c.label ("several groups");
    }
    void finish (Step& s, Slot& t);
    void play ();
};
std::string step_text (Plan& p, const Step& s)
{
    switch (s.op)
    {
    case BEGIN: return fmt ("%d: a new archive", s.slot);
    case OPEN: return fmt ("%d: open %s, spelling %d", s.slot, final_name (s.kind).c_str (), s.variant);
    case ENTRY: return fmt ("%d: append %s of %s%s", s.slot, p.entries[s.group][s.entry].id.c_str (), quote (p.groups[s.group].name).c_str (), s.at >= 0 ? fmt (", call %ld fails", s.at).c_str () : "");
    case GROUP: return fmt ("%d: append group %s%s", s.slot, s.kind ? "\"unknown\"" : quote (p.groups[s.group].name).c_str (), s.at >= 0 ? fmt (", call %ld fails", s.at).c_str () : "");
    case CHANGE: return fmt ("%s of %s becomes %d", p.entries[s.group][s.entry].id.c_str (), quote (p.groups[s.group].name).c_str (), s.kind);
    case FINISH:
    {
        static const char *bad[] = { "a missing directory", "a directory that cannot be written", "x/", "\"\"", "a long directory", "a long name", "nowhere" };
        return fmt ("%d: write to %s%s", s.slot, s.kind < NODIR ? fmt ("%s, spelling %d", FILES[s.kind], s.variant).c_str () : bad[s.kind - NODIR], s.at < 0 ? "" : fmt (", %s at call %ld", s.at >= 1000 ? "crash" : "failure", s.at % 1000).c_str ());
    }
    default: return "";
    }
}
void Run::finish (Step& s, Slot& t)
{
    std::string w = step_text (plan, s); const char *what = w.c_str ();
    std::string p, f;
    if (s.kind < NODIR) { p = path (s.kind, s.variant); f = final_name (s.kind); }
    else if (s.kind == NODIR) p = dir + "/out/none/x";
    else if (s.kind == LOCKED) p = dir + "/locked/x";
    else if (s.kind == SLASH) p = dir + "/out/";
    else if (s.kind == LONGDIR) p = dir + "/" + std::string (5000, 'd') + "/x";
    else if (s.kind == LONGNAME) p = dir + "/out/" + std::string (300, 'n');
    if (t.from.size () && !files.count (t.from)) { p = ""; s.kind = NOTHING; }      // its origin is gone: unspecified
    if (s.kind == NOTHING)
    {
        enum disir_status st = disir_archive_finalize (src.p, NULL, &t.a);
        REQUIRE (st == DISIR_STATUS_OK && !t.a, "%s returned %s", what, ss (st));
        t = Slot (); tree (what);
        return;
    }
    Content fresh = t.have, maybe = t.maybe, old;
    bool had = files.count (f), moves = t.from.size () && t.from != f;
    if (had) old = files[f];
    if (s.at >= 1000 && s.kind < NODIR && !t.hurt)
    {
        pid_t pid = fork ();
        if (pid == 0) { g_crash_at = s.at - 1000; enum disir_status st = disir_archive_finalize (src.p, p.c_str (), &t.a); _exit (st == DISIR_STATUS_OK ? 0 : 9); }
        int ws = 0; waitpid (pid, &ws, 0);
        int ec = WIFEXITED (ws) ? WEXITSTATUS (ws) : -1;
        REQUIRE (ec == 0 || ec == 7 || ec == 9, "%s: ended with %d", what, ec);
        disir_archive_finalize (src.p, NULL, &t.a);
        faulted = true;
        c.label (ec == 7 ? "crash" : "crash: too late");
        if (ec == 7 && !fresh.empty ()) c.nontrivial ();
        std::string out = dir + "/out/";
        std::vector<std::string> names { f };
        if (moves) names.push_back (t.from);
        int complete = 0; bool new_there = false;
        for (auto& n : names)
        {
            Content got;
            Content& o = n == f ? old : files[t.from];
            bool existed = files.count (n);
            bool there = access ((out + n).c_str (), F_OK) == 0;
            if (!there && existed)
            {
                // it may be on its way: as the backup, or already moved
                if (n != f && new_there) { files.erase (n); continue; }
                REQUIRE (rename ((out + n + ".backup").c_str (), (out + n).c_str ()) == 0, "%s: the archive %s is gone", what, n.c_str ());
                there = true; c.label ("crash: backup");
            }
            else unlink ((out + n + ".backup").c_str ());
            unlink ((out + n + ".part").c_str ());
            if (!there) continue;
            REQUIRE (content (out + n, got, false), "%s: left %s, which is no archive", what, n.c_str ());
            if (n == f && differ (got, fresh, maybe).empty ()) { new_there = true; c.label ("crash: new"); }
            else if (existed && differ (got, o, Content ()).empty ()) c.label ("crash: old");
            else fail ("%s: left %s as neither the old nor the new archive", what, n.c_str ());
            files[n] = got; complete++;
            bytes.erase (n);
        }
        if (ec == 0) REQUIRE (new_there || (had && differ (old, fresh, maybe).empty ()) || fresh.empty (), "%s: is not there", what);
        t = Slot (); tree (what);
        return;
    }
    bool fault = s.at >= 0 && s.at < 1000 && s.kind < NODIR;
    if (fault) g_fail_at = s.at;
    enum disir_status st = disir_archive_finalize (src.p, p.c_str (), &t.a);
    bool struck = fault && g_fail_at < 0;
    g_fail_at = -1;
    if (c.verbose) c.log ("%s: %s", what, ss (st));
    if (s.kind == NODIR || s.kind == LONGDIR || s.kind == LOCKED || s.kind == SLASH || s.kind == EMPTY)
    {
        enum disir_status want = s.kind == LOCKED ? DISIR_STATUS_PERMISSION_ERROR : s.kind == NODIR || s.kind == LONGDIR ? DISIR_STATUS_NOT_EXIST : DISIR_STATUS_INVALID_ARGUMENT;
        REQUIRE (st == want && t.a, "%s returned %s%s", what, ss (st), t.a ? "" : " and the archive is lost");
        tree (what); c.label ("refused place");
        return;
    }
    REQUIRE (!t.a, "%s returned %s, the archive is still there", what, ss (st));
    if (struck || t.hurt)
    {
        c.label (struck ? "fault" : "hurt");
        faulted = true;
        std::string out = dir + "/out/";
        if (st == DISIR_STATUS_OK)
        {
            REQUIRE (!f.empty (), "%s returned %s", what, ss (st));
            bytes.erase (f); files[f] = fresh;
            if (moves) { files.erase (t.from); bytes.erase (t.from); }
            checked (what, f, maybe);
        }
        else
        {
            // nothing may be lost: each of the archives is there, as the old or the new one, or as the backup
            std::vector<std::string> names;
            if (!f.empty ()) names.push_back (f);
            if (moves) names.push_back (t.from);
            for (auto& n : names)
            {
                if (access ((out + n + ".part").c_str (), F_OK) == 0) unlink ((out + n + ".part").c_str ());    // removing it was what failed, or it is a finding of the tree below
                if (access ((out + n).c_str (), F_OK) != 0)
                {
                    if (!files.count (n)) continue;
                    if (n != f && files.count (f) && differ (files[f], fresh, maybe).empty ()) { files.erase (n); bytes.erase (n); continue; }
                    REQUIRE (rename ((out + n + ".backup").c_str (), (out + n).c_str ()) == 0, "%s returned %s, the archive %s is gone", what, ss (st), n.c_str ());
                }
                else unlink ((out + n + ".backup").c_str ());
                Content got;
                REQUIRE (content (out + n, got, false), "%s returned %s and left %s, which is no archive", what, ss (st), n.c_str ());
                bool is_old = files.count (n) && differ (got, files[n], Content ()).empty (), is_new = n == f && differ (got, fresh, maybe).empty ();
                REQUIRE (is_old || is_new, "%s returned %s and left %s as neither the old nor the new archive", what, ss (st), n.c_str ());
                files[n] = got; bytes.erase (n);
            }
        }
        t = Slot (); tree (what);
        return;
    }
    if (s.kind == LONGNAME) REQUIRE (st == (fresh.empty () && maybe.empty () ? DISIR_STATUS_NO_CAN_DO : DISIR_STATUS_FS_ERROR) || (fresh.empty () && st == DISIR_STATUS_NO_CAN_DO), "%s returned %s", what, ss (st));
    else if (fresh.empty () && st == DISIR_STATUS_NO_CAN_DO) c.label ("empty");
    else
    {
        REQUIRE (st == DISIR_STATUS_OK && !(fresh.empty () && maybe.empty ()), "%s, of %zu entries, returned %s", what, fresh.size (), ss (st));
        if (moves) { files.erase (t.from); bytes.erase (t.from); c.label ("moved"); }
        else if (t.from.size ()) c.label ("extended");
        files[f] = fresh; bytes.erase (f);
        checked (what, f, maybe);
    }
    t = Slot ();
    tree (what);
}
void Run::play ()
{
    dir = fresh_dir ();
    clear_temporaries ();
    src.dir = dir + "/src"; dst.dir = dir + "/dst";
    mkdir ((dir + "/out").c_str (), 0700); mkdir ((dir + "/out/sub").c_str (), 0700); mkdir ((dir + "/locked").c_str (), 0500);
    if (chdir (dir.c_str ()) != 0) fail ("HARNESS: chdir");
    src.groups = dst.groups = plan.groups;
    for (size_t g = 0; g < plan.groups.size (); g++) for (auto& m : plan.groups[g].molds) { src.put_mold (g, m.first, m.second); dst.put_mold (g, m.first, m.second); }
    src.open (); dst.open ();
    state.resize (plan.groups.size ());
    for (size_t g = 0; g < plan.groups.size (); g++) { state[g].resize (plan.entries[g].size ()); for (size_t e = 0; e < plan.entries[g].size (); e++) put (g, e, plan.entries[g][e].state); }
    int fds = open_fds ();
    for (auto s : plan.steps)
    {
        std::string w = step_text (plan, s); const char *what = w.c_str ();
        Slot& t = slot[s.slot];
        enum disir_status st;
        switch (s.op)
        {
        case BEGIN:
        case OPEN:
        {
            if (t.a) break;
            if (s.op == BEGIN) { OKAY (disir_archive_export_begin (src.p, NULL, &t.a)); REQUIRE (t.a, "no archive"); break; }
            std::string f = final_name (s.kind), p = path (s.kind, s.variant);
            bool ext = p.size () > 6 && p.substr (p.size () - 6) == ".disir";
            if (!ext && s.entry) { p += ".disir"; ext = true; }
            st = disir_archive_export_begin (src.p, p.c_str (), &t.a);
            if (c.verbose) c.log ("%s: %s", what, ss (st));
            if (!ext) { REQUIRE (st == DISIR_STATUS_NO_CAN_DO && !t.a, "%s: a file that is not called .disir is opened: %s", what, ss (st)); break; }
            if (!files.count (f)) { REQUIRE (st == DISIR_STATUS_NOT_EXIST && !t.a, "%s: a missing archive: %s", what, ss (st)); break; }
            REQUIRE (st == DISIR_STATUS_OK && t.a, "%s returned %s", what, ss (st));
            t.have = files[f]; t.from = f; c.label ("opened");
            break;
        }
        case ENTRY:
        {
            if (!t.a) break;
            if (s.at >= 0 && s.at < 1000) g_fail_at = s.at;
            st = disir_archive_append_entry (src.p, t.a, plan.groups[s.group].name.c_str (), plan.entries[s.group][s.entry].id.c_str ());
            bool struck = s.at >= 0 && g_fail_at < 0; g_fail_at = -1;
            if (c.verbose) c.log ("%s: %s", what, ss (st));
            Key k = key (s.group, s.entry);
            int now = state[s.group][s.entry];
            if (t.have.count (k)) { REQUIRE (st == DISIR_STATUS_EXISTS, "%s, which is in the archive, returned %s", what, ss (st)); break; }
            if (t.maybe.count (k) && st == DISIR_STATUS_EXISTS) break;
            if (struck) { if (st == DISIR_STATUS_OK) t.have[k] = value (s.group, s.entry); else { t.hurt = true; if (now >= 0) t.maybe[k] = value (s.group, s.entry); } c.label ("fault in append"); faulted = true; break; }
            if (t.hurt) { if (st == DISIR_STATUS_OK) t.have[k] = value (s.group, s.entry); else if (now >= 0) t.maybe[k] = value (s.group, s.entry); break; }
            if (now >= 0)
            {
                REQUIRE (st == DISIR_STATUS_OK, "%s returned %s", what, ss (st));
                t.have[k] = value (s.group, s.entry);
            }
            else REQUIRE (now == ABSENT ? st == DISIR_STATUS_NOT_EXIST : st != DISIR_STATUS_OK && st != DISIR_STATUS_EXISTS, "%s, which is %s, returned %s", what, now == ABSENT ? "not there" : "no valid configuration", ss (st));
            break;
        }
        case GROUP:
        {
            if (!t.a) break;
            if (s.kind) { st = disir_archive_append_group (src.p, t.a, "unknown"); REQUIRE (st == DISIR_STATUS_GROUP_MISSING, "%s returned %s", what, ss (st)); break; }
            if (s.at >= 0 && s.at < 1000) g_fail_at = s.at;
            st = disir_archive_append_group (src.p, t.a, plan.groups[s.group].name.c_str ());
            bool struck = s.at >= 0 && g_fail_at < 0; g_fail_at = -1;
            if (c.verbose) c.log ("%s: %s", what, ss (st));
            bool has = false, may = false, bad = false; int n = 0;
            for (auto& h : t.have) has |= std::get<1> (h.first) == plan.groups[s.group].name;
            for (auto& h : t.maybe) may |= std::get<1> (h.first) == plan.groups[s.group].name;
            for (int x : state[s.group]) { n += x != ABSENT; bad |= x < ABSENT; }
            if (has) { REQUIRE (st == DISIR_STATUS_EXISTS, "%s, which is in the archive, returned %s", what, ss (st)); break; }
            if (may && st == DISIR_STATUS_EXISTS) break;
            faulted |= struck;
            if (!struck && !t.hurt)
            {
                if (!n) { REQUIRE (st == DISIR_STATUS_NOT_EXIST, "%s, without entries, returned %s", what, ss (st)); break; }
                REQUIRE (bad ? st != DISIR_STATUS_OK && st != DISIR_STATUS_EXISTS : st == DISIR_STATUS_OK, "%s, of %d entries%s, returned %s", what, n, bad ? ", some invalid," : "", ss (st));
            }
            else { c.label ("fault in append"); if (st != DISIR_STATUS_OK) t.hurt = true; }
            for (size_t e = 0; e < state[s.group].size (); e++)
                if (state[s.group][e] >= 0) (st == DISIR_STATUS_OK ? t.have : t.maybe)[key (s.group, e)] = value (s.group, e);
            break;
        }
        case CHANGE: put (s.group, s.entry, s.kind); break;
        case FINISH: if (t.a) finish (s, t); break;
        default: break;
        }
        tree (what);
    }
    for (auto& t : slot) if (t.a) { enum disir_status st = disir_archive_finalize (src.p, NULL, &t.a); REQUIRE (st == DISIR_STATUS_OK && !t.a, "discarding returned %s", ss (st)); }
    tree ("at the end");
    auto left = temporaries ();
    clear_temporaries ();
    REQUIRE (left.empty () || faulted, "/tmp/%s and %zu more are left behind", left[0].c_str (), left.size () - 1);
    REQUIRE (open_fds () == fds, "%d descriptors are left open", open_fds () - fds);
    for (size_t g = 0; g < plan.groups.size (); g++)
        for (size_t e = 0; e < plan.entries[g].size (); e++)
            REQUIRE ((access (src.config_file (g, plan.entries[g][e].id).c_str (), F_OK) == 0) == (state[g][e] != ABSENT), "the exporting system has changed");
}

void run (Ctx& c)
{
    Plan p;
    GenOpt o;
    o.max_depth = 2; o.max_kids = 3; o.max_entries = 3; o.strings = c.s.range (0, 2);
    std::vector<std::string> names { "g", "json", "my group", "a.b", "gr\xc3\xbc\xc3\x9f" , "entries.toml_", "\"q\"" }, backends { "JSON", "JSON Config Test", "b.c" };
    std::vector<std::string> ids { "a", "b", "n/a", "n/m/c", "a_1", "m", "n", "a/b", std::string (90, 'x') + "/" + std::string (120, 'y') };
    int ng = c.s.range (1, 3);
    for (int g = 0; g < ng; g++)
    {
        Group gr; int x = c.s.below (names.size ());
        gr.name = names[x]; names.erase (names.begin () + x);
        gr.backend = backends[c.s.weighted ({ 4, 2, 1 })];
        std::vector<Entry> es; std::vector<std::string> pool = ids;
        int ne = c.s.range (1, 4);
        for (int i = 0; i < ne; i++)
        {
            Entry e; int y = c.s.below (pool.size ());
            e.id = pool[y]; pool.erase (pool.begin () + y);
            MoldSpec m = gen_mold (c.s, o);
            bool big = c.s.below (6) == 5;      // of more than one block of an archive
            if (big)
            {
                MoldNode n; n.name = "big_text"; n.type = VSTR;
                n.defs.push_back (DefSpec { Ver { 1, 0 }, Val::str ("") });
                m.kids.push_back (n);
            }
            int nc = c.s.range (1, 2);
            for (int k = 0; k < nc; k++) e.cfg.push_back (gen_config (c.s, m, gen_version_of (c.s, m), o));
            if (big) for (auto& cf : e.cfg)
            {
                size_t len = c.s.weighted ({ 2, 1, 1 }) ? 8192 * c.s.range (1, 3) - c.s.below (300) : c.s.range (0, 40000);
                std::string t;
                while (t.size () < len) t += fmt ("%zu ", t.size ());
                t.resize (len);
                for (auto& k : cf.kids) if (k.name == "big_text") k.v = Val::str (t);      // it is there unless its version is below 1.0
                if (c.verbose) c.log ("%s holds a text of %zu bytes", e.id.c_str (), len);
                c.label ("big entry");
            }
            size_t w = c.s.weighted ({ 8, 2, 1, 1 });
            e.state = w == 0 ? (int) c.s.below (nc) : w == 1 ? ABSENT : w == 2 ? GARBAGE : INVALID;
            gr.molds[e.id] = m;
            c.log ("%s/%s: %d", quote (gr.name).c_str (), e.id.c_str (), e.state);
            for (auto& cf : e.cfg) if (c.verbose) c.log ("%s", dump (cf).c_str ());
            es.push_back (e);
        }
        p.groups.push_back (gr); p.entries.push_back (es);
    }
    // What is open and written is followed here, so that most of the steps find something to work on
    int n = c.s.range (3, 14), slot = 0, filled[2] = { 0, 0 };
    bool open[2] = { false, false };
    std::vector<int> written;
    for (int i = 0; i < n; i++)
    {
        Step s = {}; s.at = -1;
        slot = c.s.below (8) == 7;
        s.slot = slot;
        if (!open[slot])
        {
            static const Op ops[] = { BEGIN, OPEN, CHANGE };
            s.op = ops[written.empty () ? c.s.weighted ({ 12, 1, 1 }) : c.s.weighted ({ 3, 8, 1 })];
        }
        else
        {
            static const Op ops[] = { ENTRY, GROUP, FINISH, CHANGE };
            s.op = ops[!filled[slot] ? c.s.weighted ({ 10, 3, 1, 1 }) : c.s.weighted ({ 4, 2, 5, 2 })];
        }
        s.group = c.s.below (ng); s.entry = c.s.below (p.entries[s.group].size ());
        switch (s.op)
        {
        case BEGIN: open[slot] = true; filled[slot] = 0; break;
        case OPEN:
            s.kind = !written.empty () && c.s.below (12) != 11 ? c.s.pick (written) : (int) c.s.weighted ({ 4, 2, 1, 1 });
            s.variant = c.s.below (5); s.entry = c.s.below (8) != 7;
            if (std::count (written.begin (), written.end (), s.kind) && (s.entry || s.kind == 1)) { open[slot] = true; filled[slot] = 1; }
            break;
        case ENTRY:
            if (c.s.below (16) == 15) s.at = c.s.below (6);
            filled[slot] += p.entries[s.group][s.entry].state >= 0;
            break;
        case GROUP: s.kind = c.s.below (12) == 11; if (c.s.below (12) == 11) s.at = c.s.below (12); filled[slot] += !s.kind; break;
        case CHANGE: s.kind = (int) c.s.below (p.entries[s.group][s.entry].cfg.size ()) - (c.s.below (4) == 3 ? c.s.range (1, 3) : 0); if (s.kind < INVALID) s.kind = INVALID; break;
        case FINISH:
            s.kind = c.s.weighted ({ 8, 5, 3, 3, 1, 1, 1, 1, 1, 1, 1 }); s.variant = c.s.below (5);
            switch (c.s.weighted ({ 5, 1, 1 })) { case 1: s.at = c.s.below (14); break; case 2: s.at = 1000 + c.s.below (14); break; default: break; }
            if (s.kind < NODIR || s.kind >= LONGNAME) open[slot] = false;
            if (s.kind < NODIR && filled[slot]) written.push_back (s.kind);
            break;
        default: break;
        }
        p.steps.push_back (s);
        c.log ("%s", step_text (p, s).c_str ());
    }
    { Run r (c, p); r.play (); }
    bool v = c.verbose; c.verbose = false;
    auto again = [&] { Run r (c, p); r.play (); };
    if (c.s.below (4) == 3)
    {
        again ();
        size_t b0 = heap_bytes (); again (); size_t b1 = heap_bytes ();
        c.label ("leaks");
    }
    c.verbose = v;
}
}
Property property = { "C24",
    "1-3 groups of 1-4 entries, molds and configurations as in C01, some entries missing or invalid; 2-12 steps on two archives: begin, open, append entries and groups, change the system, write to good and bad places, with failing and crashing writes; every archive is imported elsewhere and compared; non-trivial: an archive of several entries, or a crash",
    run, 1600, 12000, {}, make_instance, true };
