#include "core.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <grp.h>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" size_t __sanitizer_get_current_allocated_bytes (void);

// ---------------------------------------------------------------- small helpers
std::string fmt (const char *f, ...)
{
    va_list a, b; va_start (a, f); va_copy (b, a);
    int n = vsnprintf (nullptr, 0, f, a); va_end (a);
    std::string r (n > 0 ? n : 0, '\0');
    if (n > 0) vsnprintf (&r[0], n + 1, f, b);
    va_end (b);
    return r;
}
void fail (const char *f, ...)
{
    va_list a, b; va_start (a, f); va_copy (b, a);
    int n = vsnprintf (nullptr, 0, f, a); va_end (a);
    std::string r (n > 0 ? n : 0, '\0');
    if (n > 0) vsnprintf (&r[0], n + 1, f, b);
    va_end (b);
    throw Failure (r);
}
static void note_desc (const std::string& r);
void Ctx::log (const char *f, ...)
{
    if (!verbose) return;
    va_list a, b; va_start (a, f); va_copy (b, a);
    int n = vsnprintf (nullptr, 0, f, a); va_end (a);
    std::string r (n > 0 ? n : 0, '\0');
    if (n > 0) vsnprintf (&r[0], n + 1, f, b);
    va_end (b);
    if (desc.size () < 60000) { desc += r; desc += '\n'; }
    note_desc (r);
}
std::string quote (const std::string& s, size_t max)
{
    std::string r = "\"";
    size_t n = 0;
    for (unsigned char c : s)
    {
        if (++n > max) { r += fmt ("...(%zu bytes)", s.size ()); break; }
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c >= 32 && c < 127) r += c;
        else r += fmt ("\\x%02x", c);
    }
    return r + "\"";
}
size_t heap_bytes () { return __sanitizer_get_current_allocated_bytes (); }
int open_fds ()
{
    DIR *d = opendir ("/proc/self/fd");
    int n = 0;
    if (!d) return -1;
    while (readdir (d)) n++;
    closedir (d);
    return n - 3;       // ".", "..", and d itself
}
void remove_tree (const std::string& path)
{
    struct stat st;
    if (lstat (path.c_str (), &st) != 0) return;
    if (S_ISDIR (st.st_mode))
    {
        chmod (path.c_str (), 0700);
        if (DIR *d = opendir (path.c_str ()))
        {
            while (struct dirent *e = readdir (d))
            {
                std::string n = e->d_name;
                if (n != "." && n != "..") remove_tree (path + "/" + n);
            }
            closedir (d);
        }
        rmdir (path.c_str ());
    }
    else unlink (path.c_str ());
}
bool write_file (const std::string& path, const std::string& data)
{
    std::ofstream o (path, std::ios::binary | std::ios::trunc);
    o.write (data.data (), data.size ());
    o.close ();
    return !o.fail ();
}
bool read_file (const std::string& path, std::string& out)
{
    std::ifstream i (path, std::ios::binary);
    if (!i) return false;
    std::stringstream ss; ss << i.rdbuf ();
    out = ss.str ();
    return true;
}
static void snap (const std::string& base, const std::string& rel, std::map<std::string, std::string>& out)
{
    DIR *d = opendir ((base + "/" + rel).c_str ());
    if (!d) return;
    std::vector<std::string> names;
    while (struct dirent *e = readdir (d))
    {
        std::string n = e->d_name;
        if (n != "." && n != "..") names.push_back (n);
    }
    closedir (d);
    for (auto& n : names)
    {
        std::string r = rel.empty () ? n : rel + "/" + n;
        struct stat st;
        if (lstat ((base + "/" + r).c_str (), &st) != 0) continue;
        if (S_ISDIR (st.st_mode)) snap (base, r, out);
        else { std::string c; if (S_ISREG (st.st_mode)) read_file (base + "/" + r, c); out[r] = c; }
    }
}
std::map<std::string, std::string> snapshot_tree (const std::string& path)
{
    std::map<std::string, std::string> m;
    snap (path, "", m);
    return m;
}

static void note_choice (size_t i, uint32_t v);
// ---------------------------------------------------------------- choice source
static uint64_t splitmix (uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint32_t Src::raw (uint32_t bound)
{
    uint32_t v;
    if (feed)
    {
        v = pos < feed->size () ? (*feed)[pos] : 0;
        if (bound && v >= bound) v = v % bound;
    }
    else
    {
        v = (uint32_t)(splitmix (state) >> 32);
        v = bound ? (uint32_t)(((uint64_t) v * bound) >> 32) : v;
    }
    pos++;
    if (rec->size () > 200000) throw Discard ();
    rec->push_back (v);
    note_choice (rec->size () - 1, v);
    return v;
}
size_t Src::weighted (std::initializer_list<int> w)
{
    int t = 0; for (int x : w) t += x;
    int v = (int) below (t);
    size_t i = 0;
    for (int x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}

// ---------------------------------------------------------------- known findings
static std::set<std::string> g_known;
static std::set<std::string> g_known_hit;
bool Ctx::known (const std::string& tag)
{
    if (!g_known.count (tag)) return false;
    labels.insert ("known:" + tag);
    return true;
}

// ---------------------------------------------------------------- worker shared state
static const size_t MAXC = 1 << 18;
static const size_t MAXMSG = 1 << 16;
struct Shared
{
    volatile uint64_t case_index;
    volatile uint32_t nchoices;
    volatile uint32_t failed;           // 1 = oracle failure, 2 = crash
    uint32_t choices[MAXC];
    char msg[MAXMSG];
    volatile uint32_t ndesc;
    char desc[64000];                   // what the case logged, kept across a crash
};
static std::string g_scratch;
static bool g_drop = true;
static int g_cpu_limit = 20;
std::string scratch_dir () { return g_scratch; }
std::string fresh_dir ()
{
    remove_tree (g_scratch);
    mkdir (g_scratch.c_str (), 0700);
    return g_scratch;
}

enum Outcome { PASS, FAIL, DISCARD };
struct Result { Outcome o; std::string msg; };

static Shared *g_sh;

// Choices are mirrored in shared memory as they are drawn, so that a crash keeps them.
static void note_choice (size_t i, uint32_t v)
{
    if (g_sh && i < MAXC) { g_sh->choices[i] = v; g_sh->nchoices = i + 1; }
}
static void note_desc (const std::string& r)
{
    if (!g_sh) return;
    size_t n = g_sh->ndesc, k = std::min (r.size (), sizeof g_sh->desc - 2 - n);
    if (n + 2 >= sizeof g_sh->desc) return;
    memcpy (g_sh->desc + n, r.data (), k);
    g_sh->desc[n + k] = '\n';
    g_sh->ndesc = n + k + 1;
}
static void on_signal (int sig)
{
    if (g_sh && sig == SIGPROF) snprintf (g_sh->msg, MAXMSG, "case did not end within %d s of CPU time", g_cpu_limit);
    _exit (86);
}

static Result run_case (std::function<void (Ctx&)> fn, Ctx& c)
{
    struct itimerval tv = {};
    tv.it_value.tv_sec = g_cpu_limit;
    setitimer (ITIMER_PROF, &tv, nullptr);
    Result r { PASS, "" };
    try { fn (c); }
    catch (Failure& f) { r = { FAIL, f.what () }; }
    catch (Discard&) { r = { DISCARD, "" }; }
    catch (std::exception& e) { r = { FAIL, std::string ("C++ exception escaped the library: ") + e.what () }; }
    catch (...) { r = { FAIL, "unknown C++ exception escaped the library" }; }
    memset (&tv, 0, sizeof tv);
    setitimer (ITIMER_PROF, &tv, nullptr);
    return r;
}

static void child_setup (const std::string& scratch, const std::string& logpath, Shared *sh)
{
    g_scratch = scratch;
    g_sh = sh;
    if (!logpath.empty ())
    {
        int fd = open (logpath.c_str (), O_CREAT | O_WRONLY | O_TRUNC, 0666);
        if (fd >= 0) { dup2 (fd, 2); close (fd); }
        int nul = open ("/dev/null", O_WRONLY);
        if (nul >= 0) { dup2 (nul, 1); close (nul); }
    }
    mkdir (scratch.c_str (), 0700);
    if (g_drop && geteuid () == 0)
    {
        uid_t id = property.own_user ? 20000 + getpid () % 40000 : 65534;
        if (chown (scratch.c_str (), id, id) != 0) {}
        if (setgroups (0, nullptr) != 0) {}
        if (setgid (id) != 0 || setuid (id) != 0)
        {
            fprintf (stderr, "HARNESS: cannot drop privileges\n");
            _exit (3);
        }
    }
    if (chdir (scratch.c_str ()) != 0) {}
    umask (022);
    for (int sig : { SIGPROF, SIGABRT, SIGALRM }) signal (sig, on_signal);
    struct rlimit rl = { 0, 0 };
    setrlimit (RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 256u << 20;
    setrlimit (RLIMIT_FSIZE, &rl);
    signal (SIGXFSZ, SIG_IGN);
    if (property.worker_init) property.worker_init ();
}

static std::string g_tmp;       // root-owned directory of this run
static std::string read_log (const std::string& p)
{
    std::string s; read_file (p, s);
    if (s.size () > 6000) s = s.substr (0, 6000);
    return s;
}

// Runs one case in a forked child. fixed >= 0 selects a fixed regression case.
struct Iso { Outcome o; bool crash; std::string msg, desc; std::vector<uint32_t> used; std::set<std::string> labels; };
static int g_isoseq = 0;
// With states, the process runs the cases of those generator states one after another; the last one counts.
static Iso run_isolated (const std::vector<uint32_t>& choices, int fixed, bool verbose,
                         const std::vector<uint64_t> *states = nullptr)
{
    Shared *sh = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string scratch = g_tmp + fmt ("/iso%d", g_isoseq), log = g_tmp + fmt ("/iso%d.log", g_isoseq);
    g_isoseq++;
    int p[2];
    if (pipe (p) != 0) { perror ("pipe"); exit (3); }
    pid_t pid = fork ();
    if (pid == 0)
    {
        close (p[0]);
        child_setup (scratch, log, sh);
        std::vector<uint32_t> rec;
        rec.reserve (4096);
        for (size_t k = 0; states && k + 1 < states->size (); k++)
        {
            rec.clear (); sh->nchoices = 0; sh->ndesc = 0;
            Src b; b.rec = &rec; b.state = (*states)[k];
            Ctx bc (b);
            run_case (property.run, bc);
        }
        rec.clear (); sh->nchoices = 0; sh->ndesc = 0;
        Src s; s.rec = &rec;
        if (states) s.state = states->back (); else s.feed = &choices;
        Ctx c (s);
        c.verbose = verbose;
        Result r;
        if (fixed >= 0) r = run_case (property.fixed[fixed].second, c);
        else r = run_case (property.run, c);
        sh->failed = r.o == FAIL ? 1 : 0;
        snprintf (sh->msg, MAXMSG, "%s", r.msg.c_str ());
        std::string out;
        for (auto& l : c.labels) out += l + "\n";
        out += "\n" + c.desc;
        size_t off = 0;
        while (off < out.size ())
        {
            ssize_t n = write (p[1], out.data () + off, out.size () - off);
            if (n <= 0) break;
            off += n;
        }
        _exit (r.o == FAIL ? 10 : r.o == DISCARD ? 11 : 0);
    }
    close (p[1]);
    std::string out; char buf[4096]; ssize_t n;
    while ((n = read (p[0], buf, sizeof buf)) > 0) out.append (buf, n);
    close (p[0]);
    int st = 0;
    waitpid (pid, &st, 0);
    Iso r;
    r.crash = false;
    int ec = WIFEXITED (st) ? WEXITSTATUS (st) : 1000 + WTERMSIG (st);
    if (ec == 3) { std::cerr << read_log (log); exit (3); }
    r.o = ec == 0 ? PASS : ec == 11 ? DISCARD : FAIL;
    r.msg = sh->msg;
    if (r.o == FAIL && ec != 10)
    {
        r.crash = true;
        r.msg = std::string (sh->msg[0] ? sh->msg : "crash or sanitizer report")
                + fmt (" (exit %d)\n", ec) + read_log (log);
    }
    r.used.assign (sh->choices, sh->choices + sh->nchoices);
    size_t sep = out.rfind ("\n\n");
    (void) sep;
    // labels come first, one per line, up to the first empty line
    size_t i = 0;
    while (i < out.size ())
    {
        size_t e = out.find ('\n', i);
        if (e == std::string::npos) break;
        if (e == i) { i++; break; }
        r.labels.insert (out.substr (i, e - i));
        i = e + 1;
    }
    r.desc = out.substr (std::min (i, out.size ()));
    if (r.crash) r.desc.assign (sh->desc, sh->ndesc);
    munmap (sh, sizeof (Shared));
    remove_tree (scratch);
    unlink (log.c_str ());
    return r;
}

// ---------------------------------------------------------------- shrinking
static std::vector<uint32_t> shrink (std::vector<uint32_t> best, double budget_s, unsigned& attempts)
{
    auto t0 = std::chrono::steady_clock::now ();
    attempts = 0;
    auto over = [&] { return attempts > 4000 || std::chrono::duration<double>
        (std::chrono::steady_clock::now () - t0).count () > budget_s; };
    auto try_ = [&] (const std::vector<uint32_t>& cand) -> bool
    {
        if (over ()) return false;
        attempts++;
        Iso r = run_isolated (cand, -1, false);
        if (r.o == FAIL)
        {
            std::vector<uint32_t> u = r.used.empty () || r.used.size () > cand.size () ? cand : r.used;
            if (u.size () < best.size () || (u.size () == best.size () && u < best)) { best = u; return true; }
            if (cand.size () < best.size () || (cand.size () == best.size () && cand < best)) { best = cand; return true; }
        }
        return false;
    };
    bool progress = true;
    while (progress && !over ())
    {
        progress = false;
        // delete chunks
        for (size_t len = std::max<size_t> (1, best.size () / 2); len >= 1 && !over (); len /= 2)
        {
            for (size_t i = 0; i + len <= best.size () && !over ();)
            {
                auto c = best; c.erase (c.begin () + i, c.begin () + i + len);
                if (try_ (c)) progress = true; else i += len;
            }
            if (len == 1) break;
        }
        // zero chunks
        for (size_t len = std::max<size_t> (1, best.size () / 4); len >= 1 && !over (); len /= 2)
        {
            for (size_t i = 0; i + len <= best.size () && !over (); i += len)
            {
                auto c = best; bool any = false;
                for (size_t k = i; k < i + len; k++) { any |= c[k] != 0; c[k] = 0; }
                if (any && try_ (c)) progress = true;
            }
            if (len == 1) break;
        }
        // lower single values
        for (size_t i = 0; i < best.size () && !over (); i++)
        {
            uint32_t v = best[i];
            while (v > 0 && i < best.size () && !over ())
            {
                auto c = best; c[i] = v / 2;
                if (try_ (c)) { progress = true; v = i < best.size () ? best[i] : 0; continue; }
                c = best; if (i >= c.size () || c[i] == 0) break;
                c[i] = c[i] - 1;
                if (try_ (c)) { progress = true; v = i < best.size () ? best[i] : 0; continue; }
                break;
            }
        }
    }
    return best;
}

// ---------------------------------------------------------------- JSON out
static std::string jstr (const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) r += fmt ("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}

static void usage () { fprintf (stderr, "usage: check [--seed N] [--tier quick|thorough] [--jobs N] [--cases N] [--out F] [--replay-dir D] [--known TAG]... [--replay F] [--start N]\n"); exit (3); }

static int g_argc_guard;
int main (int argc, char **argv)
{
    (void) g_argc_guard;
    uint64_t seed = 1; std::string tier = "quick", out, replaydir = ".", replay;
    int jobs = 8; long cases = -1; double maxtime = 400; long start = 0; bool nofixed = false;
    long show = -1;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&] () -> std::string { if (i + 1 >= argc) usage (); return argv[++i]; };
        if (a == "--seed") seed = strtoull (next ().c_str (), nullptr, 10);
        else if (a == "--tier") tier = next ();
        else if (a == "--jobs") jobs = atoi (next ().c_str ());
        else if (a == "--cases") cases = atol (next ().c_str ());
        else if (a == "--start") start = atol (next ().c_str ());
        else if (a == "--maxtime") maxtime = atof (next ().c_str ());
        else if (a == "--out") out = next ();
        else if (a == "--replay-dir") replaydir = next ();
        else if (a == "--known") g_known.insert (next ());
        else if (a == "--replay") replay = next ();
        else if (a == "--no-drop") g_drop = false;
        else if (a == "--no-fixed") nofixed = true;
        else if (a == "--show") show = atol (next ().c_str ());
        else usage ();
    }
    if (cases < 0) cases = tier == "quick" ? property.quick_cases : property.thorough_cases;
    signal (SIGPIPE, SIG_IGN);
    char tmpl[] = "/tmp/vh.XXXXXX";
    if (!mkdtemp (tmpl)) { perror ("mkdtemp"); return 3; }
    g_tmp = tmpl;
    chmod (tmpl, 0777);
    struct Cleanup { ~Cleanup () { remove_tree (g_tmp); } } cleanup;
    uint64_t pkey = 1469598103934665603ull;
    for (const char *p = property.id; *p; p++) pkey = (pkey ^ (unsigned char) *p) * 1099511628211ull;
    auto case_state = [&] (uint64_t idx)
    {
        uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ pkey ^ (idx * 0xd1342543de82ef95ull + 0x2545F4914F6CDD1Dull);
        splitmix (s);
        return s;
    };

    if (!replay.empty ())
    {
        std::string txt; if (!read_file (replay, txt)) { fprintf (stderr, "cannot read %s\n", replay.c_str ()); return 3; }
        std::istringstream is (txt); std::string line; std::vector<uint32_t> ch; int fixed = -1; std::vector<uint64_t> hist;
        while (std::getline (is, line))
        {
            if (line.compare (0, 8, "choices:") == 0) { std::istringstream l (line.substr (8)); uint32_t v; while (l >> v) ch.push_back (v); }
            if (line.compare (0, 6, "seed: ") == 0) seed = strtoull (line.c_str () + 6, nullptr, 10);
            if (line.compare (0, 8, "history:") == 0) { std::istringstream l (line.substr (8)); uint64_t v; while (l >> v) hist.push_back (case_state (v)); }
            if (line.compare (0, 6, "fixed:") == 0)
            {
                std::string n = line.substr (6); while (!n.empty () && n[0] == ' ') n.erase (0, 1);
                for (size_t k = 0; k < property.fixed.size (); k++) if (n == property.fixed[k].first) fixed = k;
            }
        }
        Iso r = run_isolated (ch, fixed, true, hist.empty () ? nullptr : &hist);
        std::cout << r.desc << "\n" << (r.o == FAIL ? "FAIL: " + r.msg : r.o == PASS ? "PASS" : "DISCARD") << std::endl;
        return r.o == FAIL ? 1 : 0;
    }
    if (show >= 0)
    {
        // record what case N draws, then show it
        std::vector<uint32_t> rec; Src s; s.rec = &rec; s.state = case_state (show);
        for (int k = 0; k < 1; k++) {}
        pid_t pid = fork ();
        if (pid == 0)
        {
            child_setup (g_tmp + "/show", "", nullptr);
            Ctx c (s); c.verbose = true;
            Result r = run_case (property.run, c);
            std::cout << c.desc;
            for (auto& l : c.labels) std::cout << "label " << l << "\n";
            std::cout << "nontrivial " << c.nontriv << "\nchoices " << rec.size () << "\n" << (r.o == FAIL ? "FAIL: " + r.msg : r.o == PASS ? "PASS" : "DISCARD") << std::endl;
            _exit (0);
        }
        int st; waitpid (pid, &st, 0);
        return 0;
    }

    auto t0 = std::chrono::steady_clock::now ();
    auto elapsed = [&] { return std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count (); };
    bool violated = false; std::string vmsg, vdesc; std::vector<uint32_t> vchoices; std::string vfixed; uint64_t vcase = 0;
    unsigned shrinks = 0;
    std::map<std::string, uint64_t> labels;
    uint64_t evals = 0, discards = 0, distinct = 0, fixedrun = 0;
    std::vector<std::string> samples;

    // fixed regression cases first
    if (!nofixed)
        for (size_t k = 0; k < property.fixed.size () && !violated; k++)
        {
            Iso r = run_isolated ({}, k, false);
            fixedrun++; evals++;
            for (auto& l : r.labels) labels[l]++;
            if (r.o == FAIL) { violated = true; vfixed = property.fixed[k].first; vmsg = r.msg; }
        }

    int rc = 0; std::string rpath;
    std::unordered_set<uint64_t> seen;
    const long end = start + cases;
    // A failure that cannot be had again, neither from its choices nor from the cases before it, is noted
    // and the search goes on behind it.
    for (int round = 0; round < 6; round++)
    {
    long from = start;
    if (!violated && cases > 0)
    {
        std::vector<Shared *> sh (jobs);
        struct W { pid_t pid; int fd; std::string buf; };
        std::vector<W> ws (jobs);
        volatile uint32_t *stop = (volatile uint32_t *) mmap (nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (int j = 0; j < jobs; j++)
        {
            sh[j] = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            int p[2]; if (pipe (p) != 0) return 3;
            pid_t pid = fork ();
            if (pid == 0)
            {
                close (p[0]);
                for (int k = 0; k < j; k++) close (ws[k].fd);
                child_setup (g_tmp + fmt ("/w%d", j), g_tmp + fmt ("/w%d.log", j), sh[j]);
                std::map<std::string, uint64_t> lab; std::unordered_set<uint64_t> seen; uint64_t ev = 0, di = 0;
                std::vector<uint32_t> rec; rec.reserve (1 << 16);
                std::string smp; int nsmp = 0; int code = 0;
                for (long i = start + j; i < end && !*stop; i += jobs)
                {
                    if ((ev & 15) == 0 && elapsed () > maxtime) { lab["time-budget-reached"]++; break; }
                    rec.clear ();
                    sh[j]->nchoices = 0; sh[j]->case_index = i;
                    Src s; s.rec = &rec; s.state = case_state (i);
                    Ctx c (s);
                    c.verbose = nsmp < 2;
                    Result r = run_case (property.run, c);
                    if (r.o == DISCARD) { di++; continue; }
                    ev++;
                    for (auto& l : c.labels) lab[l]++;
                    if (r.o == FAIL)
                    {
                        sh[j]->failed = 1;
                        snprintf (sh[j]->msg, MAXMSG, "%s", r.msg.c_str ());
                        *stop = 1; code = 10;
                        break;
                    }
                    if (c.nontriv)
                    {
                        uint64_t h = 1469598103934665603ull;
                        for (uint32_t v : rec) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
                        seen.insert (h);
                        if (nsmp < 2 && !c.desc.empty ()) { nsmp++; smp += "S" + jstr (c.desc.substr (0, 3000)) + "\n"; }
                    }
                }
                std::string o = fmt ("E%llu\nD%llu\n", (unsigned long long) ev, (unsigned long long) di);
                for (auto& l : lab) o += fmt ("L%llu ", (unsigned long long) l.second) + l.first + "\n";
                for (uint64_t h : seen) o += fmt ("H%llx\n", (unsigned long long) h);
                o += smp;
                size_t off = 0;
                while (off < o.size ()) { ssize_t n = write (p[1], o.data () + off, o.size () - off); if (n <= 0) break; off += n; }
                _exit (code);
            }
            close (p[1]);
            ws[j] = { pid, p[0], "" };
        }
        for (int j = 0; j < jobs; j++)
        {
            char buf[65536]; ssize_t n;
            while ((n = read (ws[j].fd, buf, sizeof buf)) > 0) ws[j].buf.append (buf, n);
            close (ws[j].fd);
            int st; waitpid (ws[j].pid, &st, 0);
            int ec = WIFEXITED (st) ? WEXITSTATUS (st) : 1000 + WTERMSIG (st);
            if (ec == 3) { std::cerr << read_log (g_tmp + fmt ("/w%d.log", j)); return 3; }
            if (ec != 0)
            {
                *stop = 1;
                if (ec == 1009) { std::cerr << "worker was killed (SIGKILL); no verdict\n"; return 3; }
                if (!violated || sh[j]->case_index < vcase)
                {
                    violated = true; vcase = sh[j]->case_index;
                    vmsg = sh[j]->msg;
                    if (ec != 10) vmsg += fmt (" crash (exit %d)\n", ec) + read_log (g_tmp + fmt ("/w%d.log", j));
                    vchoices.assign (sh[j]->choices, sh[j]->choices + sh[j]->nchoices);
                }
                if (ec != 10) evals += 1;
            }
            std::istringstream is (ws[j].buf); std::string line;
            while (std::getline (is, line))
            {
                if (line.empty ()) continue;
                if (line[0] == 'E') evals += strtoull (line.c_str () + 1, nullptr, 10);
                else if (line[0] == 'D') discards += strtoull (line.c_str () + 1, nullptr, 10);
                else if (line[0] == 'H') seen.insert (strtoull (line.c_str () + 1, nullptr, 16));
                else if (line[0] == 'S') { if (samples.size () < 3) samples.push_back (line.substr (1)); }
                else if (line[0] == 'L') { char *e; uint64_t v = strtoull (line.c_str () + 1, &e, 10); labels[e + 1] += v; }
            }
        }
        distinct = seen.size ();
        for (int j = 0; j < jobs; j++) munmap (sh[j], sizeof (Shared));
    }

    rc = 0;
    if (!violated) break;
    {
        int ok = 0;
        Iso last;
        int which = -1;
        if (!vfixed.empty ()) for (size_t k = 0; k < property.fixed.size (); k++) if (vfixed == property.fixed[k].first) which = k;
        for (int k = 0; k < 3; k++) { last = run_isolated (vchoices, which, true); if (last.o == FAIL) ok++; }
        if (ok == 3)
        {
            if (which < 0)
            {
                vchoices = shrink (vchoices, last.crash && last.msg.find ("CPU time") != std::string::npos ? 60 : 45, shrinks);
                int ok2 = 0; Iso l2;
                for (int k = 0; k < 3; k++) { l2 = run_isolated (vchoices, which, true); if (l2.o == FAIL) ok2++; }
                last = l2; ok = ok2;
            }
            rpath = replaydir + "/" + property.id + fmt ("-%016llx.replay", (unsigned long long)
                [&] { uint64_t h = 1469598103934665603ull; for (uint32_t v : vchoices) h = (h ^ v) * 1099511628211ull; for (char ch : vfixed) h = (h ^ ch) * 1099511628211ull; return h; } ());
            std::ofstream o (rpath);
            o << "property: " << property.id << "\nseed: " << seed << " case: " << vcase << " shrink-attempts: " << shrinks << "\n";
            if (which >= 0) o << "fixed: " << vfixed << "\n";
            o << "choices:"; for (uint32_t v : vchoices) o << ' ' << v; o << "\n\n";
            o << "--- failure\n" << last.msg << "\n--- case\n" << last.desc << "\n";
            o.close ();
            std::cout << "--- failure\n" << last.msg << "\n--- case\n" << last.desc << std::endl;
            std::cout << "VIOLATION property=" << property.id << " replay=" << rpath << std::endl;
            rc = 1;
        }
        else if (which < 0 && [&] {
            // from the cases that the same process had run before it
            std::vector<uint64_t> idx;
            for (uint64_t i = from + (vcase - from) % jobs; i <= vcase; i += jobs) idx.push_back (i);
            auto attempt = [&] (const std::vector<uint64_t>& v, bool verbose)
            {
                std::vector<uint64_t> s; for (uint64_t i : v) s.push_back (case_state (i));
                last = run_isolated ({}, -1, verbose, &s);
                return last.o == FAIL;
            };
            auto t1 = elapsed ();
            std::vector<uint64_t> best;
            for (size_t n = 2; ; n *= 4)
            {
                std::vector<uint64_t> v (idx.end () - std::min (n, idx.size ()), idx.end ());
                if (attempt (v, false)) { best = v; break; }
                if (n >= idx.size () || elapsed () - t1 > 60) break;
            }
            if (best.empty () || !attempt (best, false)) return false;
            for (size_t len = std::max<size_t> (1, (best.size () - 1) / 2); len >= 1 && elapsed () - t1 < 100; len /= 2)
            {
                for (size_t i = 0; i + len < best.size () && elapsed () - t1 < 100;)
                {
                    auto v = best; v.erase (v.begin () + i, v.begin () + i + len);
                    shrinks++;
                    if (attempt (v, false)) best = v; else i += len;
                }
                if (len == 1) break;
            }
            for (int k = 0; k < 2; k++) if (!attempt (best, true)) return false;
            rpath = replaydir + "/" + property.id + fmt ("-%016llx.replay", (unsigned long long) case_state (vcase));
            std::ofstream o (rpath);
            o << "property: " << property.id << "\nseed: " << seed << " case: " << vcase << " shrink-attempts: " << shrinks << "\n";
            o << "history:"; for (uint64_t v : best) o << ' ' << v; o << "\n\n";
            o << "--- failure, of the last of " << best.size () << " cases run by one process\n" << last.msg << "\n--- case\n" << last.desc << "\n";
            o.close ();
            std::cout << "--- failure, of the last of " << best.size () << " cases run by one process\n" << last.msg << "\n--- case\n" << last.desc << std::endl;
            std::cout << "VIOLATION property=" << property.id << " replay=" << rpath << std::endl;
            return true; } ())
        {
            rc = 1;
        }
        else
        {
            std::cout << "note: a failure did not reproduce from its choices (" << ok << "/3); first message: " << vmsg << std::endl;
            labels["unreproduced-failure"]++;
            rc = 4;
        }
    }
    if (rc == 1 || !vfixed.empty () || (long) vcase + 1 >= end || elapsed () > maxtime) break;
    start = vcase + 1; violated = false;
    }
    if (!out.empty ())
    {
        std::ofstream o (out);
        o << "{\"evaluations\": " << evals << ", \"distinct_nontrivial\": " << distinct << ", \"discarded\": " << discards
          << ", \"fixed_regressions\": " << fixedrun << ", \"wall_s\": " << elapsed () << ", \"violations\": " << (rc == 1 ? 1 : 0)
          << ", \"rule\": " << jstr (property.rule) << ", \"labels\": {";
        bool first = true;
        for (auto& l : labels) { o << (first ? "" : ", ") << jstr (l.first) << ": " << l.second; first = false; }
        o << "}, \"samples\": [";
        first = true;
        for (auto& s : samples) { o << (first ? "" : ", ") << s; first = false; }
        o << "]}\n";
    }
    return rc;
}
