// Generated-input engine shared by all checks: choice sequences, shrinking, fork isolation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

// ---------------------------------------------------------------- choice source
// Every random decision of a case is one entry of a choice sequence. A fresh case draws the
// entries from a splitmix64 stream keyed by (seed, property, case index); a replay or a shrink
// attempt feeds a recorded (possibly shortened) sequence, and reads 0 past its end, so 0 must
// always mean "the simplest alternative".
struct Src
{
    std::vector<uint32_t> *rec;     // what was consumed
    const std::vector<uint32_t> *feed = nullptr;
    size_t pos = 0;
    uint64_t state = 0;

    uint32_t raw (uint32_t bound);          // [0, bound)
    uint32_t below (uint32_t n) { return n <= 1 ? 0 : raw (n); }
    int range (int lo, int hi) { return lo + (int) below ((uint32_t)(hi - lo + 1)); }
    bool chance (int num, int den) { return below (den) >= (uint32_t)(den - num); } // 0 -> false
    template<class T> const T& pick (const std::vector<T>& v) { return v[below (v.size ())]; }
    // index picked with the given weights; index 0 is the simplest
    size_t weighted (std::initializer_list<int> w);
    uint64_t u64 () { return ((uint64_t) raw (0x10000) << 48) | ((uint64_t) raw (0x10000) << 32)
                           | ((uint64_t) raw (0x10000) << 16) | raw (0x10000); }
};

struct Failure : std::runtime_error
{
    explicit Failure (const std::string& m) : std::runtime_error (m) {}
};
// A case the property does not cover (counted, never a verdict)
struct Discard {};

struct Ctx
{
    Src& s;
    bool verbose = false;
    std::string desc;
    bool nontriv = false;
    std::set<std::string> labels;
    explicit Ctx (Src& src) : s (src) {}
    void label (const std::string& l) { labels.insert (l); }
    void nontrivial (const char *l = nullptr) { nontriv = true; if (l) labels.insert (l); }
    void log (const char *fmt, ...) __attribute__ ((format (printf, 2, 3)));
    // true if the deviation TAG is listed in known_findings.jsonl for this property; the case
    // is then counted as "known:TAG" and goes on.
    bool known (const std::string& tag);
};

std::string fmt (const char *f, ...) __attribute__ ((format (printf, 1, 2)));
[[noreturn]] void fail (const char *f, ...) __attribute__ ((format (printf, 1, 2)));
#define REQUIRE(cond, ...) do { if (!(cond)) fail (__VA_ARGS__); } while (0)

std::string quote (const std::string& s, size_t max = 400);       // printable form

// scratch directory of the current worker process: private, empty at the start of each case that
// calls fresh_dir(), owned by the unprivileged user the worker runs as.
std::string scratch_dir ();
std::string fresh_dir ();
void remove_tree (const std::string& path);
bool write_file (const std::string& path, const std::string& data);
bool read_file (const std::string& path, std::string& out);
// All regular files below path, relative name -> content
std::map<std::string, std::string> snapshot_tree (const std::string& path);

size_t heap_bytes ();       // bytes currently allocated (ASan accounting)
int open_fds ();            // descriptors open in this process

// ---------------------------------------------------------------- what a property TU provides
struct Property
{
    const char *id;
    const char *rule;               // how cases are made and what makes one non-trivial
    void (*run) (Ctx&);             // one case
    unsigned quick_cases;
    unsigned thorough_cases;
    // deterministic regression inputs that bypass generation; each returns normally or fails
    std::vector<std::pair<const char *, std::function<void (Ctx&)>>> fixed;
    void (*worker_init) () = nullptr;
    bool own_user = false;          // every worker runs as another unprivileged user
};
extern Property property;
