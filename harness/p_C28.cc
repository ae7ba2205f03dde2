// C28: operations on a group of plugins reach the plugin that holds the entry, in order of registration.
#include "model.h"
#include <algorithm>
#include <cstring>
#include <disir/plugin.h>
#include <map>

namespace {
const char *G[] = { "g", "h", "", "gg" };
const char *E[] = { "a", "b", "n/", "n/c", "", "/" };
enum Op { CREAD, CWRITE, CREMOVE, CENTRIES, CQUERY, MREAD, MWRITE, MENTRIES, MQUERY, LIST, NULLS, REG, NOPS };
const char *ON[] = { "config read", "config write", "config remove", "config entries", "config query", "mold read", "mold write", "mold entries", "mold query", "registered", "NULL arguments", "register" };
// What a plugin of ours answers.
struct Stub
{
    int id = 0, group = 0;
    bool has[9];                                    // which callbacks it implements
    enum disir_status query[2][6];                  // its answer to queries, per entry
    enum disir_status ret[9];                       // of everything else
    std::vector<std::pair<int, unsigned>> list[2];  // what it lists: name, attributes
    bool finished_cb = true, bases = false;
    std::string name, type;
};
struct Step { Op op; int group, entry, variant; unsigned order; };
struct Plan { std::vector<Stub> stubs; std::vector<Step> steps; };
struct Call { int stub; Op op; std::string entry; const void *arg; };

// the run under way
std::vector<Call> calls;
std::vector<int> finished;
struct disir_instance *current;
std::string complaint;
char token[8][16];          // stands for the objects handed through

Stub *stub_of (struct disir_instance *i, struct disir_register_plugin *p)
{
    Stub *s = (Stub *) p->dp_storage;
    if (i != current) complaint = "a plugin was called with another instance";
    if (std::string (p->dp_name) != s->name || std::string (p->dp_config_entry_type) != s->type || std::string (p->dp_mold_entry_type) != s->type + "m" || std::string (p->dp_description) != s->name + "!")
        complaint = fmt ("the strings of plugin %d are not those it registered", s->id);
    if (s->bases ? !p->dp_config_base_id || std::string (p->dp_config_base_id) != "/c/" + s->name || !p->dp_mold_base_id || std::string (p->dp_mold_base_id) != "/m/" + s->name : p->dp_config_base_id || p->dp_mold_base_id)
        complaint = fmt ("the base identifiers of plugin %d are not those it registered", s->id);
    return s;
}
int entry_no (const char *e) { for (int i = 0; i < 6; i++) if (!strcmp (E[i], e)) return i; complaint = "a plugin was asked for another entry"; return 0; }
struct disir_entry *new_entry (const char *name, unsigned attr)
{
    struct disir_entry *e = (struct disir_entry *) calloc (1, sizeof *e);
    e->de_entry_name = strdup (name); e->de_attributes = attr;
    return e;
}
template<int Q> enum disir_status query (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_entry **out)
{
    Stub *s = stub_of (i, p);
    calls.push_back ({ s->id, Q ? MQUERY : CQUERY, e, out });
    enum disir_status st = s->query[Q][entry_no (e)];
    if (out && st == DISIR_STATUS_EXISTS) *out = new_entry (e, s->id + 1);
    return st;
}
template<int Q> enum disir_status entries (struct disir_instance *i, struct disir_register_plugin *p, struct disir_entry **out)
{
    Stub *s = stub_of (i, p);
    calls.push_back ({ s->id, Q ? MENTRIES : CENTRIES, "", nullptr });
    if (s->ret[Q ? MENTRIES : CENTRIES] != DISIR_STATUS_OK) return s->ret[Q ? MENTRIES : CENTRIES];
    struct disir_entry *head = nullptr;
    for (auto& l : s->list[Q])
    {
        struct disir_entry *e = new_entry (E[l.first], l.second);
        if (!head) { head = e; e->prev = e; }
        else { e->prev = head->prev; head->prev->next = e; head->prev = e; }
    }
    *out = head;
    return DISIR_STATUS_OK;
}
enum disir_status cread (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_mold *m, struct disir_config **c)
{
    Stub *s = stub_of (i, p);
    calls.push_back ({ s->id, CREAD, e, m });
    if (*c) complaint = "a plugin was asked to read into a configuration that is there already";
    if (s->ret[CREAD] == DISIR_STATUS_OK || s->ret[CREAD] == DISIR_STATUS_INVALID_CONTEXT) *c = (struct disir_config *) token[s->id];
    return s->ret[CREAD];
}
enum disir_status mread (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_mold **m)
{
    Stub *s = stub_of (i, p);
    calls.push_back ({ s->id, MREAD, e, nullptr });
    if (s->ret[MREAD] == DISIR_STATUS_OK || s->ret[MREAD] == DISIR_STATUS_INVALID_CONTEXT) *m = (struct disir_mold *) token[s->id];
    return s->ret[MREAD];
}
enum disir_status cwrite (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_config *c)
{
    Stub *s = stub_of (i, p); calls.push_back ({ s->id, CWRITE, e, c }); return s->ret[CWRITE];
}
enum disir_status mwrite (struct disir_instance *i, struct disir_register_plugin *p, const char *e, struct disir_mold *m)
{
    Stub *s = stub_of (i, p); calls.push_back ({ s->id, MWRITE, e, m }); return s->ret[MWRITE];
}
enum disir_status cremove (struct disir_instance *i, struct disir_register_plugin *p, const char *e)
{
    Stub *s = stub_of (i, p); calls.push_back ({ s->id, CREMOVE, e, nullptr }); return s->ret[CREMOVE];
}
enum disir_status finish (struct disir_instance *i, struct disir_register_plugin *p)
{
    finished.push_back (stub_of (i, p)->id); return DISIR_STATUS_OK;
}
bool do_register (struct disir_instance *i, Stub& s)
{
    struct disir_register_plugin p = {};
    std::vector<char> name (s.name.begin (), s.name.end ()); name.push_back (0);
    std::string d = s.name + "!", t = s.type, m = s.type + "m";
    p.dp_name = name.data (); p.dp_description = &d[0]; p.dp_config_entry_type = &t[0]; p.dp_mold_entry_type = &m[0];
    p.dp_storage = &s;
    if (s.bases) { p.dp_config_base_id = strdup (("/c/" + s.name).c_str ()); p.dp_mold_base_id = strdup (("/m/" + s.name).c_str ()); }
    if (s.finished_cb) p.dp_plugin_finished = finish;
    if (s.has[CREAD]) p.dp_config_read = cread;
    if (s.has[CWRITE]) p.dp_config_write = cwrite;
    if (s.has[CREMOVE]) p.dp_config_remove = cremove;
    if (s.has[CENTRIES]) p.dp_config_entries = entries<0>;
    if (s.has[CQUERY]) p.dp_config_query = query<0>;
    if (s.has[MREAD]) p.dp_mold_read = mread;
    if (s.has[MWRITE]) p.dp_mold_write = mwrite;
    if (s.has[MENTRIES]) p.dp_mold_entries = entries<1>;
    if (s.has[MQUERY]) p.dp_mold_query = query<1>;
    std::string g = G[s.group], io = "io_" + s.name;
    bool ok = disir_plugin_register (i, &p, io.c_str (), g.c_str ()) == DISIR_STATUS_OK;
    std::fill (name.begin (), name.end (), 'z'); memset (&d[0], 'z', d.size ()); memset (&g[0], 'z', g.size ()); memset (&t[0], 'z', t.size ());
    return ok;
}
std::string step_text (const Step& s) { return fmt ("%s in \"%s\"", ON[s.op], G[s.group]) + (s.op == CENTRIES || s.op == MENTRIES || s.op >= LIST ? "" : fmt (" of \"%s\"", E[s.entry])); }

void play (Plan& plan, Ctx& c)
{
    calls.clear (); finished.clear (); complaint.clear ();
    struct disir_instance *inst = nullptr;
    OKAY (disir_instance_create (NULL, NULL, &inst));
    struct Guard { struct disir_instance *& i; ~Guard () { if (i) disir_instance_destroy (&i); } } guard { inst };
    current = inst;
    size_t reg = 0, early = plan.stubs.size ();
    for (auto& s : plan.steps) if (s.op == REG) early--;
    for (; reg < early; reg++) REQUIRE (do_register (inst, plan.stubs[reg]), "registering plugin %zu failed", reg);
    auto in_group = [&] (int g) { std::vector<Stub *> r; for (size_t i = 0; i < reg; i++) if (plan.stubs[i].group == g) r.push_back (&plan.stubs[i]); return r; };
    auto called = [&] (Op op) { std::vector<Call> r; for (auto& k : calls) if (k.op == op) r.push_back (k); return r; };
    for (auto& s : plan.steps)
    {
        std::string what = step_text (s);
        calls.clear ();
        auto group = in_group (s.group);
        const char *g = G[s.group], *e = E[s.entry];
        bool mold = s.op >= MREAD;
        enum disir_status st = DISIR_STATUS_OK;
        // a call must reach exactly one plugin once, with what was given
        auto reached = [&] (Op op, Stub *p, const void *arg, enum disir_status want)
        {
            auto k = called (op);
            if (!p) { REQUIRE (k.empty (), "%s reached plugin %d", what.c_str (), k[0].stub); return; }
            REQUIRE (k.size () == 1 && k[0].stub == p->id, "%s reached %s, not plugin %d", what.c_str (), k.empty () ? "no plugin" : fmt ("plugin %d%s", k[0].stub, k.size () > 1 ? " and more" : "").c_str (), p->id);
            REQUIRE (k[0].entry == e && k[0].arg == arg, "%s reached the plugin with \"%s\" and something else", what.c_str (), k[0].entry.c_str ());
            REQUIRE (st == want, "%s returned %s, the plugin %s", what.c_str (), ss (st), ss (want));
        };
        Op q = mold ? MQUERY : CQUERY;
        Stub *holder = nullptr;
        for (auto p : group) if (!holder && p->has[q] && p->query[mold][s.entry] == DISIR_STATUS_EXISTS) holder = p;
        bool bad_entry = !*e || e[strlen (e) - 1] == '/';
        switch (s.op)
        {
        case CREAD:
        case MREAD:
        {
            struct disir_config *cf = (struct disir_config *) token[7];
            struct disir_mold *m = (struct disir_mold *) token[7], *given = s.variant ? (struct disir_mold *) token[6] : nullptr;
            st = mold ? disir_mold_read (inst, g, e, &m) : disir_config_read (inst, g, e, given, &cf);
            void *got = mold ? (void *) m : (void *) cf;
            if (!holder) REQUIRE (st == DISIR_STATUS_NOT_EXIST && got == token[7], "%s, which is nowhere, returned %s", what.c_str (), ss (st));
            else if (!holder->has[s.op]) REQUIRE (st == DISIR_STATUS_NO_CAN_DO && got == token[7], "%s, which plugin %d cannot do, returned %s", what.c_str (), holder->id, ss (st));
            reached (s.op, holder && holder->has[s.op] ? holder : nullptr, mold ? nullptr : given, holder ? holder->ret[s.op] : DISIR_STATUS_OK);
            if (holder && holder->has[s.op])
            {
                bool some = holder->ret[s.op] == DISIR_STATUS_OK || holder->ret[s.op] == DISIR_STATUS_INVALID_CONTEXT;
                REQUIRE (got == (some ? token[holder->id] : nullptr), "%s does not return what plugin %d read", what.c_str (), holder->id);
                if (group.size () > 1 && holder != group[0]) c.nontrivial ("held by a later plugin");
            }
            break;
        }
        case CWRITE:
        case CREMOVE:
        case MWRITE:
        {
            Stub *first = group.empty () ? nullptr : group[0];
            if (s.op == CWRITE) st = disir_config_write (inst, g, e, (struct disir_config *) token[6]);
            else if (s.op == MWRITE) st = disir_mold_write (inst, g, e, (struct disir_mold *) token[6]);
            else st = disir_config_remove (inst, g, e);
            if (bad_entry && !mold) { REQUIRE (st != DISIR_STATUS_OK && calls.empty (), "%s returned %s", what.c_str (), ss (st)); break; }
            if (!first) REQUIRE (st == DISIR_STATUS_NOT_EXIST, "%s, without a plugin, returned %s", what.c_str (), ss (st));
            else if (!first->has[s.op]) REQUIRE (st == DISIR_STATUS_NO_CAN_DO || (mold && st == DISIR_STATUS_INTERNAL_ERROR), "%s, which plugin %d cannot do, returned %s", what.c_str (), first->id, ss (st));
            reached (s.op, first && first->has[s.op] ? first : nullptr, s.op == CREMOVE ? nullptr : token[6], first ? first->ret[s.op] : DISIR_STATUS_OK);
            if (group.size () > 1 && first->has[s.op]) c.nontrivial ("the first of several");
            break;
        }
        case CQUERY:
        case MQUERY:
        {
            struct disir_entry *out = nullptr;
            st = mold ? disir_mold_query (inst, g, e, s.variant ? &out : nullptr) : disir_config_query (inst, g, e, s.variant ? &out : nullptr);
            bool any = false, told = false;
            for (auto p : group) if (p->has[q]) { any = true; told |= st == p->query[mold][s.entry]; }
            std::string on = out ? out->de_entry_name : "";
            unsigned oa = out ? out->de_attributes : 0;
            bool was = out;
            if (out) disir_entry_finished (&out);
            if (!any) REQUIRE (st == DISIR_STATUS_GROUP_MISSING && !was, "%s, without a plugin, returned %s", what.c_str (), ss (st));
            else if (holder)
            {
                REQUIRE (st == DISIR_STATUS_EXISTS, "%s, which plugin %d holds, returned %s", what.c_str (), holder->id, ss (st));
                REQUIRE (was == (bool) s.variant && (!was || (on == e && oa == (unsigned) holder->id + 1)), "%s does not describe the entry of plugin %d", what.c_str (), holder->id);
                if (group.back () != holder || group[0] != holder) c.nontrivial ("a query of several");
            }
            else REQUIRE (told && !was, "%s returned %s, which no plugin answered", what.c_str (), ss (st));
            break;
        }
        case CENTRIES:
        case MENTRIES:
        {
            std::map<int, unsigned> want; std::vector<int> order; bool failing = false; enum disir_status fs = DISIR_STATUS_OK;
            for (auto p : group)
            {
                if (!p->has[s.op]) continue;
                if (p->ret[s.op] != DISIR_STATUS_OK) { failing = true; fs = p->ret[s.op]; continue; }
                for (auto& l : p->list[mold]) if (want.insert (l).second) order.push_back (l.first); else c.nontrivial ("superseded");
            }
            struct disir_entry *out = nullptr;
            st = mold ? disir_mold_entries (inst, g, &out) : disir_config_entries (inst, g, &out);
            REQUIRE (st == DISIR_STATUS_OK || (failing && st == fs), "%s returned %s", what.c_str (), ss (st));
            std::vector<struct disir_entry *> l;
            std::map<int, unsigned> got; bool twice = false;
            for (auto x = out; x; x = x->next)
            {
                REQUIRE (l.size () < 64, "%s: the list does not end", what.c_str ());
                REQUIRE (x == out || x->prev == l.back (), "%s: the list is not linked backwards", what.c_str ());
                l.push_back (x);
                if (!got.insert ({ entry_no (x->de_entry_name), x->de_attributes }).second) twice = true;
            }
            REQUIRE (l.empty () || out->prev == l.back (), "%s: the head does not lead to the tail", what.c_str ());
            // given back in any order, the others stay what they are
            std::vector<struct disir_entry *> left = l;
            unsigned o = s.order;
            std::string broken;
            while (!left.empty ())
            {
                size_t i = o % left.size (); o = o / 3 + 7;
                struct disir_entry *x = left[i];
                left.erase (left.begin () + i);
                if (disir_entry_finished (&x) != DISIR_STATUS_OK || x) broken = "could not be given back";
                for (size_t k = 0; k < left.size (); k++)
                    if (left[k]->next != (k + 1 < left.size () ? left[k + 1] : nullptr) || left[k]->prev != (k ? left[k - 1] : left.back ())) broken = "is not linked after one was given back";
            }
            REQUIRE (broken.empty (), "%s: the list %s", what.c_str (), broken.c_str ());
            REQUIRE (!twice, "%s lists one twice", what.c_str ());
            REQUIRE (got == want, "%s lists %zu entries, not the %zu of its plugins", what.c_str (), got.size (), want.size ());
            for (auto p : group) { int n = 0; for (auto& k : calls) n += k.stub == p->id; REQUIRE (n == (p->has[s.op] ? 1 : 0), "%s asked plugin %d %d times", what.c_str (), p->id, n); }
            break;
        }
        case LIST:
        {
            struct disir_plugin *l = nullptr;
            st = disir_plugin_registered (inst, &l);
            std::vector<std::string> got, want;
            while (l) { struct disir_plugin *n = l->next; got.push_back (l->pl_group_id); disir_plugin_finished (&l); l = n; }
            for (size_t i = 0; i < reg; i++) want.push_back (G[plan.stubs[i].group]);
            REQUIRE (st == DISIR_STATUS_OK && got == want, "%zu plugins are registered, %zu are said to be: %s", want.size (), got.size (), ss (st));
            break;
        }
        case NULLS:
        {
            struct disir_config *cf = nullptr; struct disir_mold *m = nullptr; struct disir_entry *out = nullptr;
            for (int k = 0; k < 3; k++)
            {
                struct disir_instance *i = k == 0 ? nullptr : inst;
                const char *gg = k == 1 ? nullptr : g, *ee = k == 2 ? nullptr : e;
                REQUIRE (disir_config_read (i, gg, ee, nullptr, &cf) == DISIR_STATUS_INVALID_ARGUMENT, "config read without argument %d", k);
                REQUIRE (disir_mold_read (i, gg, ee, &m) == DISIR_STATUS_INVALID_ARGUMENT, "mold read without argument %d", k);
                REQUIRE (disir_config_write (i, gg, ee, (struct disir_config *) token[0]) == DISIR_STATUS_INVALID_ARGUMENT, "config write without argument %d", k);
                REQUIRE (disir_mold_write (i, gg, ee, (struct disir_mold *) token[0]) == DISIR_STATUS_INVALID_ARGUMENT, "mold write without argument %d", k);
                REQUIRE (disir_config_remove (i, gg, ee) == DISIR_STATUS_INVALID_ARGUMENT, "config remove without argument %d", k);
                REQUIRE (disir_config_query (i, gg, ee, &out) == DISIR_STATUS_INVALID_ARGUMENT, "config query without argument %d", k);
                REQUIRE (disir_mold_query (i, gg, ee, &out) == DISIR_STATUS_INVALID_ARGUMENT, "mold query without argument %d", k);
                REQUIRE (disir_config_entries (i, gg, k == 2 ? nullptr : &out) == DISIR_STATUS_INVALID_ARGUMENT, "config entries without argument %d", k);
                REQUIRE (disir_mold_entries (i, gg, k == 2 ? nullptr : &out) == DISIR_STATUS_INVALID_ARGUMENT, "mold entries without argument %d", k);
            }
            REQUIRE (disir_config_read (inst, g, e, nullptr, nullptr) == DISIR_STATUS_INVALID_ARGUMENT && disir_mold_read (inst, g, e, nullptr) == DISIR_STATUS_INVALID_ARGUMENT
                     && disir_config_write (inst, g, e, nullptr) == DISIR_STATUS_INVALID_ARGUMENT && disir_mold_write (inst, g, e, nullptr) == DISIR_STATUS_INVALID_ARGUMENT, "an operation without its object is not refused");
            REQUIRE (calls.empty (), "an operation without an argument reached a plugin");
            break;
        }
        case REG:
            REQUIRE (do_register (inst, plan.stubs[reg]), "registering plugin %zu failed", reg);
            reg++;
            break;
        default: break;
        }
        // nothing but queries may happen besides
        for (auto& k : calls)
        {
            REQUIRE (k.op == s.op || k.op == (s.op == CREAD ? CQUERY : s.op == MREAD ? MQUERY : s.op), "%s made a plugin do %s", what.c_str (), ON[k.op]);
            REQUIRE (plan.stubs[k.stub].group == s.group, "%s reached plugin %d of group \"%s\"", what.c_str (), k.stub, G[plan.stubs[k.stub].group]);
        }
        REQUIRE (complaint.empty (), "%s: %s", what.c_str (), complaint.c_str ());
        if (c.verbose) c.log ("%s: %s", what.c_str (), ss (st));
    }
    enum disir_status st = disir_instance_destroy (&inst);
    REQUIRE (st == DISIR_STATUS_OK && !inst, "the instance could not be destroyed: %s", ss (st));
    std::vector<int> want;
    for (size_t i = 0; i < reg; i++) if (plan.stubs[i].finished_cb) want.push_back (i);
    std::sort (finished.begin (), finished.end ());
    REQUIRE (finished == want, "%zu plugins were told to finish, not each of %zu once", finished.size (), want.size ());
    REQUIRE (complaint.empty (), "%s", complaint.c_str ());
}

void run (Ctx& c)
{
    Plan p;
    int n = c.s.range (0, 6);
    for (int i = 0; i < n; i++)
    {
        Stub s; s.id = i; s.group = c.s.weighted ({ 6, 2, 1, 1 });
        bool full = c.s.below (3) != 2;
        for (auto& h : s.has) h = full || c.s.below (3);
        auto status = [&] (bool query) -> enum disir_status
        {
            static const std::vector<enum disir_status> odd { DISIR_STATUS_FS_ERROR, DISIR_STATUS_MOLD_MISSING, DISIR_STATUS_RESTRICTION_VIOLATED, DISIR_STATUS_INTERNAL_ERROR, DISIR_STATUS_OK, DISIR_STATUS_INVALID_CONTEXT, DISIR_STATUS_NOT_EXIST, DISIR_STATUS_NO_CAN_DO, DISIR_STATUS_EXISTS, DISIR_STATUS_GROUP_MISSING, DISIR_STATUS_PERMISSION_ERROR };
            size_t w = c.s.weighted ({ 4, 3, 1 });
            if (w == 2) return c.s.pick (odd);
            return query ? w ? DISIR_STATUS_EXISTS : DISIR_STATUS_NOT_EXIST : DISIR_STATUS_OK;
        };
        for (auto& q : s.query) for (auto& x : q) x = status (true);
        for (auto& r : s.ret) r = status (false);
        for (auto& l : s.list)
        {
            std::vector<int> names { 0, 1, 2, 3, 4, 5 };
            int k = c.s.range (0, 5);
            for (int j = 0; j < k; j++) { int x = c.s.below (names.size ()); l.push_back ({ names[x], (unsigned) c.s.below (32) }); names.erase (names.begin () + x); }
            if (!l.empty () && c.s.below (8) == 7) l.push_back (c.s.pick (l));
        }
        s.finished_cb = c.s.below (4) != 3; s.bases = c.s.below (2);
        s.name = fmt ("p%d", i) + std::string (c.s.below (8) == 7 ? 400 : 0, 'n'); s.type = c.s.below (2) ? "json" : "";
        p.stubs.push_back (s);
        c.log ("plugin %d in \"%s\"%s%s", i, G[s.group], [&] { std::string r; for (int k = 0; k < 9; k++) if (!s.has[k]) r += fmt (", no %s", ON[k]); return r; } ().c_str (),
               [&] { std::string r; for (int m = 0; m < 2; m++) { r += m ? "; molds" : "; configs"; for (int k = 0; k < 6; k++) if (s.query[m][k] != DISIR_STATUS_NOT_EXIST) r += fmt (" \"%s\": %s,", E[k], ss (s.query[m][k])); r += " lists"; for (auto& l : s.list[m]) r += fmt (" \"%s\"", E[l.first]); } for (int k = 0; k < 9; k++) if (s.ret[k] != DISIR_STATUS_OK) r += fmt ("; %s returns %s", ON[k], ss (s.ret[k])); return r; } ().c_str ());
    }
    int k = c.s.range (1, 14), late = 0;
    for (int i = 0; i < k; i++)
    {
        Step s; s.op = (Op) c.s.weighted ({ 3, 3, 2, 3, 4, 3, 3, 3, 4, 1, 1, 1 });
        s.group = c.s.weighted ({ 6, 2, 1, 1 }); s.entry = c.s.weighted ({ 4, 3, 1, 2, 1, 1 }); s.variant = c.s.below (2); s.order = c.s.below (100000);
        if (s.op == REG && late++ >= n) continue;
        p.steps.push_back (s);
        c.log ("%s", step_text (s).c_str ());
    }
    bool v = c.verbose;
    c.verbose = false;
    play (p, c);
    c.label ("done");
    auto again = [&] { play (p, c); };
    again ();
    size_t b0 = heap_bytes ();
    again ();
    size_t b1 = heap_bytes ();
    if (b1 > b0) { again (); size_t b2 = heap_bytes (); REQUIRE (b2 <= b1, "%zu bytes are lost", b2 - b1); }
    c.verbose = v;
}
}
Property property = { "C28",
    "0-6 plugins in 4 groups, each implementing some callbacks, holding and listing some of 6 entries, failing at some; up to 14 operations on groups, also while plugins are added; non-trivial: more than one plugin of the group could have answered",
    run, 20000, 300000, {} };
