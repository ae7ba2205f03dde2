// C29: what the commands of the program do to a store, what they say, and whether they claim to have done it.
#include "systems.h"
#include <disir/version.h>
#include <csignal>
#include <fcntl.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/wait.h>

namespace {
enum Cmd { LIST, VERIFY, VMOLDS, DUMP, GENERATE, GENALL, GENNONE, REMOVE, EXPORT, APPEND, INSPECT, IMPORT, INTERACTIVE, BADCMD, EDIT, NCMDS };
const char *CN[] = { "list", "verify", "verify --mold", "dump", "generate", "generate --all", "generate (nothing)", "remove", "export", "export --append", "import --inspect", "import", "import --interactive", "", "edit" };
enum How { FORCE, SOFT, SYSTEM_ };
const char *HN[] = { "--force", "--soft", "--system" };
enum End { ACCEPT, DRY, ASK, NENDS };
struct Step
{
    Cmd cmd = LIST; int group = -1; std::vector<std::string> ids; bool force = false, verbose = false, equals = false; int dest = 0, from = 0; How how = FORCE; End end = ACCEPT;
    std::vector<std::string> answers; int variant = 0; CfgSpec cfg;
};
enum There { NONE, GOOD, BROKEN, WRONG };
struct Cfg { There there = NONE; CfgSpec cfg; };
struct Plan { std::vector<Group> groups; std::vector<std::map<std::string, Cfg>> there; std::vector<Step> steps; };
const char *DEST[] = { ".", "out", "none", "locked" }, *FROM[] = { ".", "out", "(no archive)", "(an empty archive)" };
typedef std::pair<int, std::string> Key;
struct Arch { bool there = false; std::map<Key, CfgSpec> e; };
struct State { enum disir_status st, shown; bool conflict = false, import = false; CfgSpec cfg; };

// the mold of an entry: its own, or that of its namespace
const MoldSpec *mold_of (const Group& g, const std::string& id)
{
    auto i = g.molds.find (id);
    if (i != g.molds.end ()) return &i->second;
    size_t s = id.rfind ('/');
    i = g.molds.find (s == std::string::npos ? "/" : id.substr (0, s + 1));
    return i != g.molds.end () ? &i->second : nullptr;
}
std::string mold_file (const std::string& id) { return id == "/" ? "__namespace.json" : id.back () == '/' ? id + "__namespace.json" : id + ".json"; }
bool well_formed (const std::string& id)
{
    if (id.empty () || id.back () == '/' || id[0] == '/') return false;
    for (char ch : id) if (!(islower ((unsigned char) ch) || isdigit ((unsigned char) ch) || ch == '_' || ch == '/')) return false;
    return id.find ("//") == std::string::npos;
}
enum disir_status updated (const MoldSpec& ms, CfgSpec& cf, bool discard)
{
    MoldH mold (build_mold (ms));
    ConfigH cfg (build_config (mold.p, grouped (cf, 1)));
    struct disir_update *u = nullptr;
    struct disir_version to = ms.version ().c ();
    enum disir_status st = disir_update_config (cfg.p, &to, &u);
    while (st == DISIR_STATUS_CONFLICT)
    {
        const char *n, *own, *theirs;
        OKAY (disir_update_conflict (u, &n, &own, &theirs));
        std::string o = own, t = theirs;
        st = disir_update_resolve (u, o.c_str ());
        if (st == DISIR_STATUS_RESTRICTION_VIOLATED && discard) st = disir_update_resolve (u, t.c_str ());
        if (st != DISIR_STATUS_OK) break;
        st = disir_update_continue (u);
    }
    if (st != DISIR_STATUS_OK) { if (u) disir_update_finished (&u, nullptr); return st; }
    ConfigH res;
    OKAY (disir_update_finished (&u, &res.p));
    cf = observe_config (res.p);
    return DISIR_STATUS_OK;
}
std::string text_of (const Val& v)
{
    switch (v.t)
    {
    case VINT: return fmt ("%ld", (long) v.i);
    case VFLT: return fmt ("%lf", v.f);
    case VBOOL: return v.b ? "True" : "False";
    default: return v.s;
    }
}
std::string dump_text (const std::vector<CfgNode>& k, int indent)
{
    std::string r;
    for (auto& n : k)
    {
        r += std::string (indent, ' ') + n.name + ": " + (n.section ? "" : text_of (n.v)) + "\n";
        if (n.section) r += dump_text (n.kids, indent + 2);
    }
    return r;
}
std::vector<std::string> lines_of (const std::string& s)
{
    std::vector<std::string> r; std::string l;
    for (char ch : s) if (ch == '\n') { r.push_back (l); l.clear (); } else l += ch;
    if (!l.empty ()) r.push_back (l);
    return r;
}
std::vector<std::string> tree_diff (const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b)
{
    std::vector<std::string> r;
    for (auto& x : a) if (x.first.back () != '/' && (!b.count (x.first) || b.at (x.first) != x.second)) r.push_back (x.first);
    for (auto& x : b) if (x.first.back () != '/' && !a.count (x.first)) r.push_back (x.first);
    return r;
}

struct Run
{
    Ctx& c; Plan& plan; std::string dir, lib; System sys; std::vector<std::map<std::string, Cfg>> there; Arch arch[4];
    std::string out, err; int code = 0;
    Run (Ctx& x, Plan& p) : c (x), plan (p), lib (getenv ("DISIR_LIBBUILD")) {}
    ~Run () { chmod ((dir + "/work/locked").c_str (), 0700); }

    std::string arch_file (int d) { return dir + "/work/" + (d ? "out/" : "") + "archive.disir"; }
    void put (int g, const std::string& id, const Cfg& x)
    {
        std::string f = sys.config_file (g, id);
        there[g][id] = x;
        if (x.there == NONE) unlink (f.c_str ());
        else if (x.there == BROKEN) System::put (f, "{");
        else System::put (f, json_of (grouped (x.cfg, 1)));
    }
    // Runs the program below dir/work; its environment and limits are ours
    void program (std::vector<std::string> args, const std::string& input)
    {
        std::string exe = lib + "/cli/disir";
        write_file (dir + "/in", input);
        std::vector<std::string> all { exe, "-c", dir + "/libdisir.toml" };
        all.insert (all.end (), args.begin (), args.end ());
        std::vector<char *> argv;
        for (auto& a : all) argv.push_back (&a[0]);
        argv.push_back (nullptr);
        posix_spawn_file_actions_t fa;
        posix_spawn_file_actions_init (&fa);
        posix_spawn_file_actions_addchdir_np (&fa, (dir + "/work").c_str ());
        posix_spawn_file_actions_addopen (&fa, 0, (dir + "/in").c_str (), O_RDONLY, 0);
        posix_spawn_file_actions_addopen (&fa, 1, (dir + "/out").c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        posix_spawn_file_actions_addopen (&fa, 2, (dir + "/err").c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        pid_t pid = 0;
        int r = posix_spawn (&pid, exe.c_str (), &fa, nullptr, argv.data (), environ);
        posix_spawn_file_actions_destroy (&fa);
        if (r) fail ("HARNESS: the program cannot be run: %s", strerror (r));
        struct rlimit lim { 8, 8 };
        prlimit (pid, RLIMIT_CPU, &lim, nullptr);
        int st = 0;
        waitpid (pid, &st, 0);
        read_file (dir + "/out", out); read_file (dir + "/err", err);
        for (auto f : { "/in", "/out", "/err" }) unlink ((dir + f).c_str ());
        REQUIRE (!(WIFSIGNALED (st) && (WTERMSIG (st) == SIGXCPU || WTERMSIG (st) == SIGKILL)), "the program does not end; it says %s", quote (out, 200).c_str ());
        REQUIRE (WIFEXITED (st), "the program was ended by signal %d; it says %s", WTERMSIG (st), quote (err, 200).c_str ());
        code = WEXITSTATUS (st);
        REQUIRE (code != 77 && code != 78, "the program broke: %s", err.substr (0, 3000).c_str ());
    }
    bool listed (int g, const std::string& id) { return there[g].count (id) && there[g][id].there != NONE && mold_of (plan.groups[g], id); }
    std::vector<std::string> configs (int g) { std::vector<std::string> r; for (auto& x : there[g]) if (listed (g, x.first)) r.push_back (x.first); return r; }
    State expected (const Key& k, const CfgSpec& cfg)
    {
        State s; s.cfg = cfg;
        const MoldSpec *m = mold_of (plan.groups[k.first], k.second);
        Cfg now = there[k.first].count (k.second) ? there[k.first][k.second] : Cfg ();
        s.st = DISIR_STATUS_NO_CAN_DO;
        if (!m) ;
        else if (now.there == NONE) s.st = cfg.version == m->version () ? DISIR_STATUS_OK : DISIR_STATUS_CONFLICTING_SEMVER;
        else if (now.there == GOOD)
        {
            s.conflict = true;
            bool same = dump (grouped (cfg, 2), false) == dump (grouped (now.cfg, 2), false);
            s.st = !same ? DISIR_STATUS_CONFLICT : cfg.version == now.cfg.version ? DISIR_STATUS_OK : DISIR_STATUS_CONFLICTING_SEMVER;
        }
        s.shown = s.st == DISIR_STATUS_OK && s.conflict ? DISIR_STATUS_CONFLICT : s.st;
        return s;
    }
    enum disir_status resolve (const Key& k, State& s, int opt)
    {
        if (s.st == DISIR_STATUS_NO_CAN_DO) return s.st;
        switch (opt)
        {
        case DISIR_IMPORT_DISCARD: return DISIR_STATUS_OK;
        case DISIR_IMPORT_FORCE: s.import = true; return DISIR_STATUS_OK;
        case DISIR_IMPORT_DO: if (s.conflict) return DISIR_STATUS_NO_CAN_DO; s.import = true; return DISIR_STATUS_OK;
        default:
            if (s.st == DISIR_STATUS_OK) return DISIR_STATUS_NO_CAN_DO;
            enum disir_status st = updated (*mold_of (plan.groups[k.first], k.second), s.cfg, opt == DISIR_IMPORT_UPDATE_WITH_DISCARD);
            if (st == DISIR_STATUS_OK) { s.import = true; s.st = DISIR_STATUS_OK; }
            return st;
        }
    }
    void expect_failure (const char *what) { REQUIRE (code != 0, "%s claims to have worked; it says %s", what, quote (out + err).c_str ()); }
    void expect_success (const char *what) { REQUIRE (code == 0, "%s ends with %d; it says %s", what, code, quote (out + err).c_str ()); }
    void step (Step& s);
    void play ();
};
std::string step_text (const Step& s)
{
    std::string r = s.cmd == IMPORT ? fmt ("import %s%s", HN[s.how], s.end == ACCEPT ? " --accept" : s.end == DRY ? " --dry-run" : "") : CN[s.cmd];
    if (s.group >= 0) r += fmt (" in group %d", s.group);
    for (auto& i : s.ids) r += " " + quote (i);
    if (s.force) r += " --force";
    if (s.cmd >= EXPORT && s.cmd <= INTERACTIVE) r += fmt (" %s", s.cmd == EXPORT ? DEST[s.dest] : FROM[s.from]);
    for (auto& a : s.answers) r += " <" + quote (a) + ">";
    if (s.cmd == BADCMD) r += fmt ("bad command %d", s.variant);
    return r;
}
void Run::step (Step& s)
{
    std::string text = step_text (s);
    const char *what = text.c_str ();
    int g = s.group < 0 ? 0 : s.group;
    const std::string& gn = plan.groups[g].name;
    std::string header = "In group " + gn + "\n";
    std::vector<std::string> a;
    std::string input;
    if (s.verbose) a.push_back ("-V");
    auto group = [&] { if (s.group >= 0) { if (s.equals) a.push_back ("--group=" + gn); else { a.push_back ("--group"); a.push_back (gn); } } };
    for (auto& x : s.answers) input += x + "\n";
    std::set<std::string> ids (s.ids.begin (), s.ids.end ());
    if (s.cmd == DUMP || s.cmd == REMOVE) { ids.clear (); ids.insert (s.ids[0]); }
    if (s.cmd == EDIT) { Cfg x; x.there = GOOD; x.cfg = s.cfg; put (g, s.ids[0], x); return; }
    auto before = snapshot_tree (dir);
    Arch& ar = arch[s.from];
    std::string apath = s.from == 2 ? dir + "/work/nothing.disir" : s.from == 3 ? dir + "/work/empty.disir" : arch_file (s.from);
    bool have = ar.there;
    switch (s.cmd)
    {
    case LIST: a.push_back ("list"); group (); break;
    case VERIFY: case VMOLDS: a.push_back ("verify"); group (); if (s.cmd == VMOLDS) a.push_back ("--mold"); for (auto& i : s.ids) a.push_back (i); break;
    case DUMP: a.push_back ("dump"); group (); a.push_back (s.ids[0]); break;
    case GENERATE: case GENALL: case GENNONE: a.push_back ("generate"); group (); if (s.force) a.push_back ("--force"); if (s.cmd == GENALL) a.push_back ("--all"); if (s.cmd == GENERATE) for (auto& i : s.ids) a.push_back (i); break;
    case REMOVE: a.push_back ("remove"); group (); a.push_back (s.ids[0]); break;
    case EXPORT: a.push_back ("export"); group (); if (s.dest) { a.push_back (s.variant % 2 ? "-d" : "--dest"); a.push_back (s.variant / 2 ? dir + "/work/" + DEST[s.dest] : DEST[s.dest]); } for (auto& i : s.ids) a.push_back (i); break;
    case APPEND: a.push_back ("export"); group (); a.push_back ("--append"); a.push_back ("--source"); a.push_back (apath); for (auto& i : s.ids) a.push_back (i); break;
    case INSPECT: a = { "import", "--archive", apath, "--inspect" }; break;
    case IMPORT: a.insert (a.end (), { "import", "--archive", apath, HN[s.how] }); if (s.end != ASK) a.push_back (s.end == DRY ? "--dry-run" : "--accept"); break;
    case INTERACTIVE: a.insert (a.end (), { "import", "--archive", apath, s.variant % 2 ? "-i" : "--interactive" }); if (s.end != ASK) a.push_back (s.end == DRY ? "--dry-run" : "--accept"); break;
    case BADCMD:
        switch (s.variant)
        {
        case 0: a = { "lisst" }; break;
        case 1: a = { "list", "--group", "nogroup" }; break;
        case 2: a = { "generate", "--all", "a" }; break;
        case 3: a = { "import", "--archive", arch_file (0), "--force", "--soft", "--accept" }; break;
        case 4: a = { "import", "--archive", arch_file (0), "--force", "--accept", "--dry-run" }; break;
        case 5: a = { "import", "--archive", arch_file (0) }; break;
        case 6: a = { "export", "--append" }; break;
        case 7: a = { "remove" }; break;
        case 8: a = { "dump" }; break;
        case 9: a = { "verify", "--nothing" }; break;
        case 10: a = { "remove", "--group", "nogroup", "a" }; break;
        default: a = { "generate", "--group", "nogroup", "--all" }; break;
        }
        break;
    default: break;
    }
    program (a, input);
    if (c.verbose) c.log ("%s: %d\n%s%s", what, code, out.c_str (), err.c_str ());
    auto after = snapshot_tree (dir);
    auto changed = tree_diff (before, after);
    auto unchanged = [&] { REQUIRE (changed.empty (), "%s changed %s", what, changed[0].c_str ()); };
    auto say = [&] (const std::string& want) { if (!s.verbose) REQUIRE (out == want, "%s says %s, not %s", what, quote (out, 2000).c_str (), quote (want, 2000).c_str ()); };
    auto left = temporaries (); clear_temporaries ();
    REQUIRE (left.empty (), "%s leaves /tmp/%s behind", what, left[0].c_str ());
    auto lines = lines_of (out);
    std::string prefix = fmt ("sys/c%d/", g);
    // a configuration that was written must be what is said
    auto written = [&] (int gr, const std::string& id, const CfgSpec& want)
    {
        std::string f = sys.config_file (gr, id).substr (dir.size () + 1);
        REQUIRE (after.count (f), "%s: %s is not there", what, f.c_str ());
        sys.open ();
        ConfigH cf;
        enum disir_status st = disir_config_read (sys.p, plan.groups[gr].name.c_str (), id.c_str (), NULL, &cf.p);
        REQUIRE (st == DISIR_STATUS_OK, "%s: %s, which was written, cannot be read: %s", what, id.c_str (), ss (st));
        std::string got = dump_json (observe_config (cf.p)), w = dump_json (want);
        REQUIRE (got == w, "%s: %s was written as\n%s", what, id.c_str (), dump_diff (w, got).c_str ());
        cf.reset (); sys.close ();
        Cfg x; x.there = GOOD; x.cfg = grouped (want, 1); there[gr][id] = x;
        for (size_t i = 0; i < changed.size (); i++) if (changed[i] == f) { changed.erase (changed.begin () + i); break; }
    };
    switch (s.cmd)
    {
    case LIST:
    {
        unchanged (); expect_success (what);
        auto l = configs (g);
        std::string want = header + (l.empty () ? "  There are no available configs.\n" : fmt ("  There are %zu available config(s).\n\n", l.size ()));
        for (auto& i : l) want += "    " + i + "\n";
        say (want + (l.empty () ? "" : "\n"));
        if (l.size () > 1) c.nontrivial ("listed");
        break;
    }
    case VERIFY:
    case VMOLDS:
    {
        unchanged (); expect_success (what);
        if (s.ids.empty ())
        {
            if (s.cmd == VERIFY) for (auto& i : configs (g)) ids.insert (i);
            else for (auto& m : plan.groups[g].molds) ids.insert (m.first);
        }
        if (s.verbose) break;
        if (ids.empty ()) { say (header + "  There are no available entries.\n"); break; }
        REQUIRE (lines.size () >= 2 && lines[0] + "\n" == header && lines[1].empty () && lines.back ().empty (), "%s says %s", what, quote (out, 2000).c_str ());
        size_t n = 2;
        sys.open ();
        for (auto& i : ids)
        {
            ConfigH cf; MoldH mo;
            enum disir_status st = s.cmd == VERIFY ? disir_config_read (sys.p, gn.c_str (), i.c_str (), NULL, &cf.p) : disir_mold_read (sys.p, gn.c_str (), i.c_str (), &mo.p);
            Cfg x = there[g].count (i) ? there[g][i] : Cfg ();
            // what is known without asking the library
            if (s.cmd == VERIFY && x.there == GOOD && mold_of (plan.groups[g], i)) REQUIRE (st == DISIR_STATUS_OK, "HARNESS: %s: %s", i.c_str (), ss (st));
            REQUIRE (n < lines.size (), "%s does not tell about %s", what, i.c_str ());
            std::string want = st == DISIR_STATUS_OK ? "    OK:      " : st == DISIR_STATUS_INVALID_CONTEXT ? "    INVALID: " : "    ERROR:   ";
            REQUIRE (lines[n] == want + i, "%s says %s, not %s", what, quote (lines[n]).c_str (), quote (want + i).c_str ());
            n++;
            if (st == DISIR_STATUS_OK) continue;
            std::multiset<std::string> names, all;
            std::vector<std::string> more;
            auto marked = [&] (size_t k) { return lines[k].compare (0, 13, "    OK:      ") == 0 || lines[k].compare (0, 13, "    INVALID: ") == 0 || lines[k].compare (0, 13, "    ERROR:   ") == 0; };
            for (; n + 1 < lines.size () && !marked (n); n++) more.push_back (lines[n]);
            if (st != DISIR_STATUS_INVALID_CONTEXT) { REQUIRE (!more.empty () && more[0] == std::string (15, ' ') + ss (st), "%s: %s is said to fail for %s, not %s", what, i.c_str (), quote (more.empty () ? "" : more[0]).c_str (), ss (st)); continue; }
            c.nontrivial ("verified as invalid");
            if (!cf.p) continue;
            enum disir_status v;
            all = observe_invalid (cf.p, &v);
            for (auto& l : more) { size_t k = l.find (": "); REQUIRE (k != std::string::npos, "%s says %s", what, quote (l).c_str ()); names.insert (l.substr (15, k - 15)); }
            for (auto& nm : names) REQUIRE (all.count (nm) >= names.count (nm) || nm == "UNRESOLVED", "%s: %s is said to be wrong in %s", what, quote (nm).c_str (), i.c_str ());
            CfgSpec spec = observe_config_lax (cf.p);
            for (auto& p : all_paths (spec, true, false)) { std::string q = query_of (spec, p); REQUIRE (all.count (q) == names.count (q), "%s: %s of %s is wrong and not said to be", what, quote (q).c_str (), i.c_str ()); }
        }
        sys.close ();
        REQUIRE (n + 1 == lines.size (), "%s says too much: %s", what, quote (lines[n]).c_str ());
        break;
    }
    case DUMP:
    {
        unchanged ();
        const std::string& i = s.ids[0];
        if (!listed (g, i) || there[g][i].there != GOOD || !well_formed (i)) { expect_failure (what); say (header + "\n"); break; }
        expect_success (what);
        say (header + "\n" + dump_text (there[g][i].cfg.kids, 2));
        c.nontrivial ("dumped");
        break;
    }
    case GENERATE:
    case GENALL:
    case GENNONE:
    {
        std::set<std::string> avail;
        for (auto& m : plan.groups[g].molds) if (m.first.back () != '/' && (!there[g].count (m.first) || there[g][m.first].there == NONE)) avail.insert (m.first);
        if (s.cmd == GENNONE)
        {
            unchanged (); expect_success (what);
            std::vector<std::string> ns;
            for (auto& m : plan.groups[g].molds) if (m.first.back () == '/') ns.push_back (m.first);
            std::string want = header;
            if (!ns.empty ()) { want += fmt ("  There are %zu namespaces available.\n\n", ns.size ()); for (auto& x : ns) want += "    " + x + "\n"; want += "\n"; }
            if (avail.empty ()) want += "  There are no available entries to generate.\n";
            else { want += fmt ("  There are %zu available entries to generate.\n\n", avail.size ()); for (auto& x : avail) want += "    " + x + "\n"; want += "\n"; }
            say (want);
            break;
        }
        bool refused = false;
        if (s.cmd == GENALL) ids = avail;
        else for (auto& i : s.ids)
        {
            // a configuration that is there is only replaced by force
            size_t k = i.rfind ('/');
            std::string ns = k == std::string::npos ? "/" : i.substr (0, k + 1);
            bool may = avail.count (i) || (plan.groups[g].molds.count (ns) && !(there[g].count (i) && there[g][i].there != NONE));
            if (i.empty () || i.back () == '/' || (!may && !s.force)) refused = true;
        }
        if (refused) { unchanged (); expect_failure (what); c.label ("generation refused"); break; }
        if (ids.empty ()) { unchanged (); break; }
        bool failed = false;
        std::vector<std::string> want;
        for (auto& i : ids)
        {
            const MoldSpec *m = mold_of (plan.groups[g], i);
            if (!m || !well_formed (i)) { failed = true; break; }
            CfgSpec made = generate_model (*m, m->version ());
            if (!invalid_model (*m, made).empty ()) { failed = true; c.label ("generation fails"); break; }
            if (there[g].count (i) && there[g][i].there != NONE) c.nontrivial ("generated by force");
            written (g, i, made);
            want.push_back (i);
        }
        if (failed) expect_failure (what); else expect_success (what);
        unchanged ();
        size_t n = 0;
        for (auto& l : lines) if (l.compare (0, 12, "  Generated ") == 0) { REQUIRE (n < want.size () && l.substr (12) == want[n], "%s says %s", what, quote (l).c_str ()); n++; }
        REQUIRE (n == want.size (), "%s says to have generated %zu entries, not %zu", what, n, want.size ());
        if (n) c.nontrivial ("generated");
        break;
    }
    case REMOVE:
    {
        const std::string& i = s.ids[0];
        if (!listed (g, i) || !well_formed (i)) { unchanged (); expect_failure (what); say (header + "\n"); break; }
        expect_success (what);
        std::string f = prefix + i + ".json";
        REQUIRE (!after.count (f), "%s: %s is there", what, f.c_str ());
        REQUIRE (changed.size () == 1, "%s changed %s", what, changed[0] == f ? changed[1].c_str () : changed[0].c_str ());
        there[g][i].there = NONE;
        say (header + "\nRemoved: " + i + "\n");
        c.nontrivial ("removed");
        break;
    }
    case EXPORT:
    case APPEND:
    {
        if (s.ids.empty ()) for (auto& i : configs (g)) ids.insert (i);
        bool good = !ids.empty () && (s.cmd == EXPORT ? s.dest < 2 : have);
        for (auto& i : ids) if (!listed (g, i) || !well_formed (i) || there[g][i].there != GOOD) good = false;
        if (s.cmd == APPEND) for (auto& i : ids) if (arch[s.from].e.count (Key (g, i))) good = false;
        // appending nothing to an archive leaves its content
        if (s.cmd == APPEND && ids.empty () && have) { REQUIRE (code == 0 || changed.empty (), "%s failed and changed %s", what, changed[0].c_str ()); if (changed.empty ()) break; good = true; }
        if (!good) { unchanged (); expect_failure (what); c.label ("not exported"); break; }
        expect_success (what);
        int d = s.cmd == EXPORT ? s.dest : s.from;
        std::string f = arch_file (d).substr (dir.size () + 1);
        REQUIRE (after.count (f), "%s: %s is not there", what, f.c_str ());
        for (auto& x : changed) REQUIRE (x == f, "%s changed %s", what, x.c_str ());
        if (s.cmd == EXPORT) arch[d].e.clear ();
        arch[d].there = true;
        for (auto& i : ids) arch[d].e[Key (g, i)] = there[g][i].cfg;
        std::string want = "Config entries successfully filed:\n";
        for (auto& i : ids) want += "    " + i + "\n";
        say (want);
        std::vector<std::pair<std::string, std::string>> m;
        REQUIRE (read_archive (arch_file (d), m), "%s: the archive cannot be read", what);
        std::multiset<std::string> got, names { "metadata.toml", "JSON/entries.toml" };
        for (auto& x : m) got.insert (x.first);
        for (auto& e : arch[d].e) names.insert ("JSON/" + plan.groups[e.first.first].name + "/" + e.first.second);
        REQUIRE (got == names, "%s: the archive holds %zu files, not the %zu it should", what, got.size (), names.size ());
        c.nontrivial (s.cmd == EXPORT ? "exported" : "appended");
        break;
    }
    case INSPECT:
    {
        unchanged ();
        if (!have) { expect_failure (what); break; }
        expect_success (what);
        size_t li = 8, lg = 8;
        for (auto& e : ar.e) { li = std::max (li, e.first.second.size ()); lg = std::max (lg, plan.groups[e.first.first].name.size ()); }
        std::multiset<std::string> want, got;
        for (auto& e : ar.e) want.insert (fmt ("%-*s  %-*s    %-9s", (int) li, e.first.second.c_str (), (int) lg, plan.groups[e.first.first].name.c_str (), e.second.version.str ().c_str ()));
        REQUIRE (lines.size () == ar.e.size () + 3 && lines[0] == fmt ("There are %zu entries in the archive:", ar.e.size ()), "%s says %s", what, quote (out, 2000).c_str ());
        for (size_t i = 3; i < lines.size (); i++) got.insert (lines[i]);
        for (auto& l : got) REQUIRE (want.count (l), "%s says %s", what, quote (l).c_str ());
        c.nontrivial ("inspected");
        break;
    }
    case IMPORT:
    case INTERACTIVE:
    {
        if (!have) { unchanged (); expect_failure (what); break; }
        expect_success (what);
        std::map<Key, State> st;
        for (auto& e : ar.e) st[e.first] = expected (e.first, e.second);
        std::map<Key, std::string> effect;
        auto tell = [&] (const Key& k, const State& was, const State& now, int opt)
        {
            std::string own = was.cfg.version.str (), theirs = there[k.first].count (k.second) && there[k.first][k.second].there == GOOD ? there[k.first][k.second].cfg.version.str () : "", m = mold_of (plan.groups[k.first], k.second) ? mold_of (plan.groups[k.first], k.second)->version ().str () : "";
            std::string t;
            if (opt == DISIR_IMPORT_FORCE) t = "archive entry (" + own + ") will overwrite system entry (" + theirs + ")";
            else if (opt == DISIR_IMPORT_DO) t = "archive entry (" + own + ") will be imported without conflicts";
            else if (opt == DISIR_IMPORT_DISCARD) t = "archive entry (" + own + ") will be discarded";
            else if (was.shown == DISIR_STATUS_CONFLICT) t = "archive entry (" + own + ") will overwrite system entry (" + theirs + ") and be updated to (" + m + ")";
            else t = "archive entry will be updated from (" + own + ") to (" + m + ")";
            effect[k] = t;
        };
        size_t next = 0;
        bool aborted = false;
        if (s.cmd == IMPORT) for (auto& x : st)
        {
            State& t = x.second; State was = t;
            int opt = DISIR_IMPORT_DISCARD;
            if (t.shown == DISIR_STATUS_OK) opt = DISIR_IMPORT_DO;
            else if (t.shown == DISIR_STATUS_CONFLICT || t.shown == DISIR_STATUS_CONFLICTING_SEMVER) opt = s.how == FORCE ? DISIR_IMPORT_FORCE : s.how == SOFT ? DISIR_IMPORT_UPDATE : DISIR_IMPORT_DISCARD;
            if (resolve (x.first, t, opt) != DISIR_STATUS_OK) opt = DISIR_IMPORT_DISCARD;
            tell (x.first, was, t, opt);
        }
        else
        {
            // in the order the program asks
            std::vector<Key> order;
            for (size_t i = 0; i + 1 < lines.size (); i++)
                for (auto& x : st) if (lines[i + 1] == "    group: '" + plan.groups[x.first.first].name + "'" && lines[i] == x.first.second + " (" + ar.e[x.first].version.str () + ")")
                    if (order.empty () || order.back () != x.first) order.push_back (x.first);
            std::set<Key> asked;
            for (auto& k : order)
            {
                State& t = st[k]; State was = t;
                REQUIRE (asked.insert (k).second, "%s asks about %s twice", what, k.second.c_str ());
                for (;;)
                {
                    if (next >= s.answers.size ()) { aborted = true; break; }
                    std::string w = s.answers[next++];
                    int opt = -1;
                    if (w == "a") { aborted = true; break; }
                    if (w == "u") opt = DISIR_IMPORT_UPDATE;
                    if (w == "s") opt = DISIR_IMPORT_UPDATE_WITH_DISCARD;
                    if (w == "i") opt = DISIR_IMPORT_DO;
                    if (w == "f") opt = DISIR_IMPORT_FORCE;
                    if (w == "d") opt = DISIR_IMPORT_DISCARD;
                    if (opt < 0) continue;
                    if (t.shown == DISIR_STATUS_NO_CAN_DO) { if (opt != DISIR_IMPORT_DISCARD) continue; tell (k, was, t, opt); break; }
                    if (resolve (k, t, opt) != DISIR_STATUS_OK) continue;
                    tell (k, was, t, opt);
                    break;
                }
                if (aborted) break;
            }
            REQUIRE (aborted || order.size () == ar.e.size (), "%s asks about %zu entries, not %zu", what, order.size (), ar.e.size ());
        }
        bool commit = s.end == ACCEPT && !aborted;
        if (s.end == ASK && !aborted)
            for (; next < s.answers.size () && !commit; next++)
            {
                if (s.answers[next].size () > 3) continue;
                if (s.answers[next][0] == 'y') commit = true;
                if (s.answers[next][0] == 'n') break;
            }
        if (s.end != ACCEPT && !aborted && !s.verbose)
            for (auto& x : effect)
            {
                bool said = false;
                for (auto& l : lines) said |= l.size () > x.first.second.size () && l.compare (0, x.first.second.size (), x.first.second) == 0 && l.find_first_not_of (' ', x.first.second.size ()) == l.size () - x.second.size () && l.compare (l.size () - x.second.size (), std::string::npos, x.second) == 0;
                REQUIRE (said, "%s does not say that of %s, the %s", what, x.first.second.c_str (), x.second.c_str ());
            }
        std::multiset<std::string> summary, said;
        if (commit)
            for (auto& x : st)
            {
                if (x.second.import) { written (x.first.first, x.first.second, x.second.cfg); summary.insert ("      Imported:       " + x.first.second + " (" + x.second.cfg.version.str () + ")"); c.nontrivial ("imported"); }
                else if (x.second.st == DISIR_STATUS_NO_CAN_DO) summary.insert ("      Not importable: " + x.first.second);
                else { summary.insert ("      Discarded:      " + x.first.second); c.label ("discarded"); }
            }
        unchanged ();
        for (auto& l : lines) for (auto p : { "      Imported: ", "      Not importable: ", "      Discarded: ", "      Failed: " }) if (l.compare (0, strlen (p), p) == 0) said.insert (l);
        if (said != summary)
        {
            for (auto& l : summary) REQUIRE (said.count (l) == summary.count (l), "%s does not report %s", what, quote (l).c_str ());
            for (auto& l : said) REQUIRE (summary.count (l), "%s reports %s", what, quote (l).c_str ());
        }
        c.label (commit ? "committed" : aborted ? "aborted" : "not committed");
        break;
    }
    case BADCMD:
        unchanged ();
        if (s.variant != 5 || have) expect_failure (what);
        break;
    default: break;
    }
}
void Run::play ()
{
    dir = fresh_dir (); clear_temporaries ();
    struct Clean { std::string d; ~Clean () { remove_tree (d); } } clean { dir };
    sys.dir = dir + "/sys"; sys.groups = plan.groups;
    there.resize (plan.groups.size ());
    System::mkdirs (dir + "/work/out/"); mkdir ((dir + "/work/locked").c_str (), 0500);
    std::string conf;
    for (size_t g = 0; g < plan.groups.size (); g++)
    {
        System::mkdirs (sys.config_base (g) + "/"); System::mkdirs (dir + fmt ("/sys/m%zu/", g));
        for (auto& m : plan.groups[g].molds) System::put (sys.dir + fmt ("/m%zu/", g) + mold_file (m.first), json_of_mold (m.second));
        for (auto& x : plan.there[g]) put (g, x.first, x.second);
        conf += "[[plugin]]\nplugin_filepath = \"" + lib + "/plugins/dplugin_json.so\"\nio_id = \"json\"\ngroup_id = \"" + plan.groups[g].name + "\"\nconfig_base_id = \"" + sys.config_base (g) + "\"\nmold_base_id = \"" + sys.dir + fmt ("/m%zu", g) + "\"\n";
    }
    write_file (dir + "/libdisir.toml", conf);
    // an archive that says to hold a group, and nothing of it
    Member meta, list;
    meta.name = "metadata.toml"; meta.data = "implementation = \"0.1.0\"\ndisir_org_version = \"0/1-draft\"\n\n[[backend]]\nid = \"JSON\"\ngroups = [\"g\"]\n";
    list.name = "JSON/entries.toml"; list.data = "[g]\n";
    write_archive (dir + "/work/empty.disir", { meta, list }, true);
    arch[3].there = true;
    for (auto& s : plan.steps) step (s);
}

void lengthen (Src& s, std::vector<CfgNode>& k)
{
    if (s.below (8) != 7) return;
    for (auto& n : k) if (n.section) lengthen (s, n.kids); else if (n.v.t == VSTR) n.v.s += std::string (s.range (900, 3000), 'l');
}
void run (Ctx& c)
{
    Plan p;
    GenOpt o;
    o.max_depth = 2; o.max_kids = 3; o.max_entries = 3; o.strings = c.s.range (0, 2);
    int ng = c.s.range (1, 2);
    static const char *names[] = { "g", "my group" };
    static const std::vector<std::string> IDS { "a", "b", "n/c", "n/d", "m_1", "n/x/e" };
    p.there.resize (ng);
    bool nice[2] = {};
    for (int g = 0; g < ng; g++)
    {
        Group x; x.name = names[g]; x.backend = "JSON";
        int n = c.s.range (g ? 0 : 1, 3);
        for (int i = 0; i < n; i++)
        {
            static const std::vector<std::string> where { "a", "b", "n/c", "n/", "n/d", "m_1", "/", "n/x/" };
            std::string id = c.s.pick (where);
            if (x.molds.count (id)) continue;
            o.valid_defaults = c.s.below (8) != 7;
            x.molds[id] = gen_mold (c.s, o);
        }
        o.valid_defaults = true;
        p.groups.push_back (x);
        for (auto& id : IDS)
        {
            nice[g] = g ? nice[0] : c.s.below (3) != 2;
            const MoldSpec *m = mold_of (x, id);
            Cfg k;
            size_t w = c.s.weighted ({ 3, 3, 1, 1 });
            if (nice[g] && w > 1) w = GOOD;
            if (!m) w = w == 3 ? 3 : 0;
            k.there = (There) w;
            if (m && w == GOOD) { k.cfg = grouped (gen_config (c.s, *m, c.s.below (2) ? m->version () : gen_version_of (c.s, *m), o), 1); lengthen (c.s, k.cfg.kids); if (!invalid_model (*m, k.cfg).empty ()) k.there = NONE; }
            if (m && w == WRONG)
            {
                k.cfg = grouped (gen_config (c.s, *m, m->version (), o), 1);
                mutate_config (c.s, *m, k.cfg, c.s.range (1, 3), o, false);
                k.cfg = grouped (k.cfg, 1);
                if (invalid_model (*m, k.cfg).empty ()) { CfgNode u; u.name = "no_such_keyval"; u.v = Val::integer (1); k.cfg.kids.push_back (u); }
            }
            if (!m && w == WRONG) { k.cfg.version = Ver (1, 0); }
            p.there[g][id] = k;
            if (k.there != NONE) c.log ("group %d: %s is %s", g, id.c_str (), k.there == GOOD ? "valid" : k.there == BROKEN ? "no configuration" : m ? "invalid" : "without a mold");
        }
        for (auto& m : x.molds) { c.log ("group %d: a mold for %s", g, m.first.c_str ()); if (c.verbose) c.log ("%s", dump (m.second).c_str ()); }
        if (c.verbose) for (auto& k : p.there[g]) if (k.second.there == GOOD || k.second.there == WRONG) c.log ("%d %s:\n%s", g, k.first.c_str (), dump (k.second.cfg).c_str ());
    }
    int n = c.s.range (1, 5);
    // histories that lead to an import
    std::vector<int> story;
    if (c.s.below (2))
    {
        story = { EXPORT };
        if (c.s.below (3) == 2) story.push_back (APPEND);
        int k = c.s.range (0, 3);
        static const std::vector<int> between { EDIT, REMOVE, GENALL, GENERATE };
        for (int i = 0; i < k; i++) story.push_back (c.s.pick (between));
        story.push_back (c.s.below (3) == 2 ? INTERACTIVE : IMPORT);
    }
    n = std::max (n, (int) story.size ());
    for (int i = 0; i < n; i++)
    {
        Step s;
        s.cmd = (Cmd) c.s.weighted ({ 2, 2, 1, 3, 3, 2, 1, 2, 4, 2, 1, 4, 2, 1 });
        bool told = i < (int) story.size ();
        if (told) s.cmd = (Cmd) story[i];
        s.group = ng > 1 || c.s.below (4) == 3 ? (int) c.s.below (ng + 1) - 1 : -1;
        int k = c.s.weighted ({ 3, 4, 2, 1 });
        auto& G = p.groups[std::max (s.group, 0)];
        std::vector<std::string> known;
        for (auto& id : IDS) if (mold_of (G, id) && (s.cmd == GENERATE || s.cmd == EDIT || p.there[std::max (s.group, 0)][id].there == GOOD)) known.push_back (id);
        if (known.empty ()) known = IDS;
        if (told && (s.cmd == EXPORT || s.cmd == APPEND) && c.s.below (4)) k = 0;
        if (s.cmd == EDIT) k = 1;
        if ((s.cmd == GENERATE || s.cmd == DUMP || s.cmd == REMOVE) && !k) k = 1;
        for (int j = 0; j < k; j++)
        {
            static const std::vector<std::string> odd { "n/", "A", "zz", "q/r", "", "../c1/a", "a.b", "n/c/d" };
            s.ids.push_back (s.cmd != EDIT && c.s.below (12) == 11 ? c.s.pick (odd) : c.s.below (6) == 5 && s.cmd != EDIT ? c.s.pick (IDS) : c.s.pick (known));
        }
        if (s.cmd == EDIT)
        {
            const MoldSpec *m = mold_of (G, s.ids[0]);
            if (!m) continue;
            s.cfg = grouped (gen_config (c.s, *m, c.s.below (2) ? m->version () : gen_version_of (c.s, *m), o), 1);
            if (!invalid_model (*m, s.cfg).empty ()) continue;
        }
        s.force = c.s.below (3) == 2; s.verbose = c.s.below (10) == 9; s.equals = c.s.below (2);
        s.dest = c.s.weighted ({ 6, 4, 1, 1 }); s.from = c.s.weighted ({ 6, 4, 1, 1 });
        if (s.cmd == APPEND && s.from == 3) s.from = 0; s.how = (How) c.s.below (3); s.end = (End) c.s.weighted ({ 3, 1, 2 }); s.variant = s.cmd == BADCMD ? c.s.below (12) : c.s.below (4);
        if (s.cmd == INTERACTIVE || (s.cmd == IMPORT && s.end == ASK))
        {
            int m = c.s.range (0, s.cmd == IMPORT ? 3 : 8);
            static const std::vector<std::string> iw { "f", "i", "u", "d", "s", "a", "?", "x", "", "ff", "yes or no" }, aw { "y", "n", "yes", "no", "", "maybe", "x" };
            if (s.cmd == INTERACTIVE) for (int j = 0; j < m; j++) s.answers.push_back (iw[c.s.weighted ({ 8, 4, 4, 4, 3, 1, 1, 1, 1, 1, 1 })]);
            if (s.end == ASK) { int q = c.s.range (0, 2); for (int j = 0; j < q; j++) s.answers.push_back (aw[c.s.weighted ({ 8, 3, 2, 1, 1, 1, 1 })]); }
        }
        if (told && (s.cmd == EXPORT || s.cmd == APPEND)) s.dest = s.from = 0;
        if (told && (s.cmd == IMPORT || s.cmd == INTERACTIVE)) s.from = 0;
        c.log ("%s", step_text (s).c_str ());
        if (c.verbose && s.cmd == EDIT) c.log ("%s", dump (s.cfg).c_str ());
        p.steps.push_back (s);
    }
    Run r (c, p);
    r.play ();
}
}
Property property = { "C29",
    "stores of 1-2 groups with up to 3 molds, also of namespaces, and valid, invalid, unparsable or absent configurations of 6 entries; 1-5 commands of the program (list, verify, dump, generate, remove, export, import) with their options, answers and mistakes; non-trivial: a command found, wrote, removed or reported something",
    run, 1500, 20000, {}, make_instance, true };
