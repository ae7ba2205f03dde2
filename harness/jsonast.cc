#include "jsonast.h"
#include "text.h"
#include <cmath>
#include <functional>
#include <cstring>

J J::huge (const std::string& x) { J j; j.k = HUGE_INT; j.s = x; j.d = strtod (x.c_str (), nullptr); return j; }
const J *J::get (const std::string& n) const
{
    if (k != OBJ) return nullptr;
    for (auto& x : m) if (x.first == n) return &x.second;
    return nullptr;
}
bool J::operator== (const J& o) const
{
    if (k != o.k) return false;
    switch (k)
    {
    case NUL: return true;
    case BOOL: return b == o.b;
    case INT: return i == o.i;
    case REAL: return d == o.d;
    case HUGE_INT: case STR: return s == o.s;
    default:
        if (m.size () != o.m.size ()) return false;
        for (size_t x = 0; x < m.size (); x++) if (m[x].first != o.m[x].first || !(m[x].second == o.m[x].second)) return false;
        return true;
    }
}

// ---------------------------------------------------------------- parser
namespace {
struct P
{
    const char *p, *e;
    bool lax;       // also what readers of JSON commonly let pass
    void ws ()
    {
        for (;;)
        {
            while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++;
            if (!lax || e - p < 2 || p[0] != '/') return;
            if (p[1] == '/') { while (p < e && *p != '\n' && *p != '\r') p++; }
            else if (p[1] == '*')
            {
                const char *q = p + 2;
                while (q < e - 1 && !(q[0] == '*' && q[1] == '/')) q++;
                if (q >= e - 1) return;
                p = q + 2;
            }
            else return;
        }
    }
    bool lit (const char *w) { size_t n = strlen (w); if ((size_t) (e - p) < n || memcmp (p, w, n)) return false; p += n; return true; }
    static void utf8 (std::string& o, uint32_t c)
    {
        if (c < 0x80) o += (char) c;
        else if (c < 0x800) { o += (char) (0xc0 | c >> 6); o += (char) (0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char) (0xe0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
        else { o += (char) (0xf0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    }
    bool hex4 (uint32_t& c)
    {
        c = 0;
        for (int x = 0; x < 4; x++, p++)
        {
            if (p >= e || !isxdigit ((unsigned char) *p)) return false;
            c = c * 16 + (isdigit ((unsigned char) *p) ? *p - '0' : (*p | 32) - 'a' + 10);
        }
        return true;
    }
    bool string (std::string& o)
    {
        if (p >= e || *p != '"') return false;
        for (p++; p < e && *p != '"'; )
        {
            if ((unsigned char) *p < 0x20 && !lax) return false;
            if (*p != '\\') { o += *p++; continue; }
            if (++p >= e) return false;
            char c = *p++;
            uint32_t u, v;
            switch (c)
            {
            case '"': case '\\': case '/': o += c; break;
            case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
            case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u':
                if (!hex4 (u)) return false;
                if (u >= 0xd800 && u < 0xdc00)
                {
                    if (e - p < 6 || p[0] != '\\' || p[1] != 'u') return false;
                    p += 2;
                    if (!hex4 (v) || v < 0xdc00 || v > 0xdfff) return false;
                    u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
                }
                else if (u >= 0xdc00 && u < 0xe000) return false;
                utf8 (o, u);
                break;
            default: return false;
            }
        }
        if (p >= e) return false;
        p++;
        return true;
    }
    bool number (J& j)
    {
        const char *b = p;
        if (p < e && *p == '-') p++;
        if (p >= e || !isdigit ((unsigned char) *p)) return false;
        if (*p == '0' && !lax) p++; else while (p < e && isdigit ((unsigned char) *p)) p++;
        bool real = false;
        if (p < e && *p == '.') { real = true; p++; if (!lax && (p >= e || !isdigit ((unsigned char) *p))) return false; while (p < e && isdigit ((unsigned char) *p)) p++; }
        if (p < e && (*p == 'e' || *p == 'E'))
        {
            real = true; p++;
            if (p < e && (*p == '+' || *p == '-')) p++;
            if (p >= e || !isdigit ((unsigned char) *p)) return false;
            while (p < e && isdigit ((unsigned char) *p)) p++;
        }
        std::string t (b, p - b);
        if (real) { j = J::real (strtod (t.c_str (), nullptr)); return true; }
        errno = 0;
        int64_t v = strtoll (t.c_str (), nullptr, 10);
        j = errno ? J::huge (t) : J::num (v);
        return true;
    }
    bool value (J& j, int depth)
    {
        ws ();
        if (p >= e || depth > 5000) return false;
        switch (*p)
        {
        case 'n': j = J (); return lit ("null");
        case 't': j = J::boolean (true); return lit ("true");
        case 'f': j = J::boolean (false); return lit ("false");
        case '"': j = J::of (J::STR); return string (j.s);
        case '[': case '{':
        {
            bool obj = *p == '{';
            char end = obj ? '}' : ']';
            j = J::of (obj ? J::OBJ : J::ARR);
            p++; ws ();
            if (p < e && *p == end) { p++; return true; }
            for (;;)
            {
                std::string n;
                if (obj) { ws (); if (lax && j.m.size () && j.m.back ().first.empty () && p < e && *p == end) { p++; return true; } if (!string (n)) return false; ws (); if (p >= e || *p++ != ':') return false; }
                j.m.emplace_back (n, J ());
                if (!value (j.m.back ().second, depth + 1)) return false;
                ws ();
                if (p >= e) return false;
                if (*p == end) { p++; return true; }
                if (*p++ != ',') return false;
            }
        }
        default: return number (j);
        }
    }
};
}
static bool utf8_valid (const std::string& t)
{
    for (size_t i = 0; i < t.size (); )
    {
        unsigned char c = t[i];
        int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
        if (n < 0 || i + n >= t.size () + (n == 0)) return false;
        for (int x = 1; x <= n; x++) if (((unsigned char) t[i + x] & 0xc0) != 0x80) return false;
        i += n + 1;
    }
    return true;
}
bool json_parse (const std::string& text, J& out, bool lax)
{
    if (!lax && !utf8_valid (text)) return false;
    P p { text.data (), text.data () + text.size (), lax };
    if (!p.value (out, 0)) return false;
    p.ws ();
    return p.p == p.e;
}
static std::string real_text (double d)
{
    std::string s = fmt ("%.17g", d);
    if (s.find_first_of (".eE") == std::string::npos) s += ".0";
    return s;
}
std::string json_write (const J& j, int ind)
{
    switch (j.k)
    {
    case J::NUL: return "null";
    case J::BOOL: return j.b ? "true" : "false";
    case J::INT: return fmt ("%lld", (long long) j.i);
    case J::HUGE_INT: return j.s;
    case J::REAL: return real_text (j.d);
    case J::STR: return json_string (j.s);
    default:
    {
        bool obj = j.k == J::OBJ;
        std::string o = obj ? "{" : "[";
        for (size_t x = 0; x < j.m.size (); x++)
        {
            if (x) o += obj ? ",\n" + std::string (ind + 1, ' ') : ", ";
            if (obj) o += json_string (j.m[x].first) + ": ";
            o += json_write (j.m[x].second, ind + 1);
        }
        return o + (obj ? "}" : "]");
    }
    }
}
bool json_duplicates (const J& j)
{
    std::set<std::string> n;
    for (auto& x : j.m)
    {
        if (j.k == J::OBJ && !n.insert (x.first).second) return true;
        if (json_duplicates (x.second)) return true;
    }
    return false;
}
int json_depth (const J& j) { int d = 0; for (auto& x : j.m) d = std::max (d, 1 + json_depth (x.second)); return d; }
size_t json_nodes (const J& j) { size_t n = 1; for (auto& x : j.m) n += json_nodes (x.second); return n; }

// ---------------------------------------------------------------- mutations
J json_scalar (Src& s, const std::vector<std::string>& names)
{
    static const std::vector<std::string> HUGE_ = { "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "100000000000000000000000000000" };
    static const std::vector<int64_t> INTS = { 0, 1, -1, 2, 2147483647, 2147483648LL, -2147483649LL, 4294967296LL, 9007199254740993LL, INT64_MAX, INT64_MIN };
    static const std::vector<double> REALS = { 0.0, 1.0, -1.5, 1e300, 1e-300, 2147483648.0, 9.3e18, -0.0, 0.1 };
    static const std::vector<std::string> STRS = { "", "1.0", "0.0", "2.1", "x", "1", "-1.0", "1.0.0", "99999999999.1", "true", "4294967295.4294967295",
        "line\nline", "\n\nx", "  blanks\t ", "\r\n", "\"\"\"", "\"a\"\"b", "it's", "''\'x", "'", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", "\xf0\x90\x80\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xc2\x80\xdf\xbf", "a\\b\\", "\x7f", "\b\f\x01", "/*x*/ // #", "\xef\xbb\xbf" };
    switch (s.weighted ({ 2, 2, 2, 1, 2, 2, 3, 1 }))
    {
    case 0: return J::num ((int) s.below (20));
    case 1: return J::num (s.pick (INTS));
    case 2: return J::boolean (s.below (2));
    case 3: return J::huge (s.pick (HUGE_));
    case 4: return J::real (s.pick (REALS));
    case 5: return J::str (s.pick (STRS));
    case 6: return J::str (names.empty () ? "y" : s.pick (names));
    default: return J ();
    }
}
static J any (Src& s, const std::vector<std::string>& names, int depth = 0)
{
    if (depth > 2 || s.below (3) < 2) return json_scalar (s, names);
    J j = J::of (s.below (2) ? J::OBJ : J::ARR);
    for (int n = s.range (0, 2); n > 0; n--)
    {
        std::string k = j.k == J::ARR ? "" : names.empty () ? "k" : s.pick (names);
        if (j.k == J::OBJ && j.get (k)) continue;
        j.m.emplace_back (k, any (s, names, depth + 1));
    }
    return j;
}
static void collect (J& j, std::vector<J *>& all) { all.push_back (&j); for (auto& x : j.m) collect (x.second, all); }
std::string json_mutate (Src& s, J& root, const std::vector<std::string>& names)
{
    std::vector<J *> all;
    collect (root, all);
    J& j = *all[s.below (all.size ())];
    std::vector<J *> boxes;
    for (auto *x : all) if (x->k == J::OBJ || x->k == J::ARR) boxes.push_back (x);
    J *box = boxes.empty () ? nullptr : boxes[s.below (boxes.size ())];
    size_t at = box && !box->m.empty () ? s.below (box->m.size ()) : 0;
    switch (s.weighted ({ 4, 4, 3, 2, 2, 2, 2, 1 }))
    {
    case 0: j = json_scalar (s, names); return "scalar";
    case 1: if (!box || box->m.empty ()) return "nothing"; box->m.erase (box->m.begin () + at); return "removed";
    case 2:
    {
        if (!box) return "nothing";
        std::string n = box->k == J::ARR ? "" : names.empty () ? "k" : s.pick (names);
        J v = s.below (2) ? any (s, names) : *all[s.below (all.size ())];
        if (json_nodes (v) > 60) v = J::num (1);
        if (box->k == J::OBJ && box->get (n) && s.below (8)) n += "_2";
        box->m.insert (box->m.begin () + s.below (box->m.size () + 1), { n, v });
        return "added";
    }
    case 3: { J a = J::of (J::ARR); a.m.emplace_back ("", j); j = a; return "wrapped"; }
    case 4: { J& o = *all[s.below (all.size ())]; J a = j, b = o; if (json_nodes (a) + json_nodes (b) > 60) return "nothing"; j = b; if (json_nodes (root) < 400) return "copied"; return "copied"; }
    case 5: if (!box || box->m.empty ()) return "nothing"; { auto c = box->m[at]; if (box->k == J::OBJ) c.first = names.empty () ? "k" : s.pick (names); if (box->k == J::OBJ && box->get (c.first)) c.first += "_3"; box->m.push_back (c); return "repeated"; }
    case 6: if (!box || box->k != J::OBJ || box->m.empty () || names.empty ()) return "nothing"; { std::string n = s.pick (names); if (box->get (n)) return "nothing"; box->m[at].first = n; return "renamed"; }
    default: j = any (s, names); return "replaced";
    }
}
std::string text_mutate (Src& s, std::string& t, const std::vector<std::string>& tokens)
{
    size_t at = s.below ((uint32_t) t.size () + 1);
    switch (s.weighted ({ 3, 3, 3, 2, 2, 2 }))
    {
    case 0: t.resize (at); return "truncated";
    case 1: if (at < t.size ()) t[at] = (char) s.below (256); return "byte";
    case 2: t.insert (at, tokens.empty () ? "," : s.pick (tokens)); return "inserted";
    case 3: t.erase (at, 1 + s.below (10)); return "erased";
    case 4: if (at < t.size ()) t[at] ^= (char) (1 << s.below (8)); return "bit";
    default: { size_t n = 1 + s.below (30); std::string c = t.substr (at, n); t.insert (s.below ((uint32_t) t.size () + 1), c); return "copied"; }
    }
}

// ---------------------------------------------------------------- TOML
static std::string toml_key (const std::string& k)
{
    if (!k.empty () && k.find_first_not_of ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-") == std::string::npos) return k;
    return toml_string (k);
}
static std::string toml_inline (const J& j)
{
    switch (j.k)
    {
    case J::NUL: return "1979-05-27T07:32:00Z";
    case J::BOOL: return j.b ? "true" : "false";
    case J::INT: return fmt ("%lld", (long long) j.i);
    case J::HUGE_INT: return j.s;
    case J::REAL: return real_text (j.d);
    case J::STR: return toml_string (j.s);
    default:
    {
        bool obj = j.k == J::OBJ;
        std::string o = obj ? "{" : "[";
        for (size_t x = 0; x < j.m.size (); x++)
        {
            if (x) o += ", ";
            if (obj) o += toml_key (j.m[x].first) + " = ";
            o += toml_inline (j.m[x].second);
        }
        return o + (obj ? "}" : "]");
    }
    }
}
static bool all_tables (const J& j)
{
    if (j.k != J::ARR || j.m.empty ()) return false;
    for (auto& x : j.m) if (x.second.k != J::OBJ) return false;
    return true;
}
static void toml_table (const J& j, const std::string& prefix, bool headers, std::string& o)
{
    for (auto& x : j.m)
        if (!headers || (x.second.k != J::OBJ && !all_tables (x.second))) o += toml_key (x.first) + " = " + toml_inline (x.second) + "\n";
    if (!headers) return;
    for (auto& x : j.m)
    {
        std::string k = prefix + toml_key (x.first);
        if (x.second.k == J::OBJ) { o += "[" + k + "]\n"; toml_table (x.second, k + ".", true, o); }
        else if (all_tables (x.second)) for (auto& y : x.second.m) { o += "[[" + k + "]]\n"; toml_table (y.second, k + ".", true, o); }
    }
}
std::string toml_write (const J& root, bool headers)
{
    std::string o;
    toml_table (root, "", headers, o);
    return o;
}
bool toml_mixed (const J& j)
{
    for (auto& x : j.m)
    {
        if (j.k == J::ARR && x.second.k != j.m[0].second.k && !(x.second.k == J::HUGE_INT || j.m[0].second.k == J::HUGE_INT)) return true;
        if (toml_mixed (x.second)) return true;
    }
    return false;
}

// ---------------------------------------------------------------- spellings
// the characters of a text; bytes that are none come one by one
static std::vector<std::string> chars (const std::string& t)
{
    std::vector<std::string> out;
    for (size_t i = 0; i < t.size (); )
    {
        unsigned char c = t[i];
        size_t n = c < 0xc0 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        std::string x = t.substr (i, n);
        if (!utf8_valid (x)) x = t.substr (i, 1);
        out.push_back (x);
        i += x.size ();
    }
    return out;
}
static uint32_t code_of (const std::string& x)
{
    unsigned char c = x[0];
    uint32_t u = x.size () == 1 ? c : x.size () == 2 ? c & 31 : x.size () == 3 ? c & 15 : c & 7;
    for (size_t i = 1; i < x.size (); i++) u = u << 6 | ((unsigned char) x[i] & 63);
    return u;
}
static bool is_char (const std::string& x) { return x.size () > 1 || (unsigned char) x[0] < 0x80; }
static std::string hex (Src& s, uint32_t v, int digits)
{
    std::string t;
    bool mix = s.below (3) == 2, up = s.below (2);
    for (int i = digits - 1; i >= 0; i--)
    {
        bool u = mix ? s.below (2) : up;
        uint32_t d = (v >> (4 * i)) & 15;
        t += d < 10 ? (char) ('0' + d) : (char) ((u ? 'A' : 'a') + d - 10);
    }
    return t;
}
static std::string json_spell_string (Src& s, const std::string& t)
{
    static const std::string NAMED = "\b\f\n\r\t\"\\/", LETTER = "bfnrt\"\\/";
    int often = s.below (3);        // never, sometimes, always
    std::string o = "\"";
    for (auto& x : chars (t))
    {
        if (!is_char (x)) { o += x; continue; }
        uint32_t u = code_of (x);
        size_t at = x.size () == 1 && x[0] ? NAMED.find (x[0]) : std::string::npos;
        bool must = u < 0x20 || u == '"' || u == '\\', esc = often == 2 || (often == 1 && s.below (3) == 2);
        if (!must && !esc) o += x;
        else if (at != std::string::npos && (!esc || s.below (2) == 0)) o += std::string ("\\") + LETTER[at];
        else if (u >= 0x10000) { o += "\\u" + hex (s, 0xd800 + ((u - 0x10000) >> 10), 4); o += "\\u" + hex (s, 0xdc00 + ((u - 0x10000) & 0x3ff), 4); }
        else o += "\\u" + hex (s, u, 4);
    }
    return o + "\"";
}
static std::string with_zeros (Src& s, std::string t, size_t more)
{
    if (t.find ('.') != std::string::npos && t.find_first_of ("eE") == std::string::npos) t += std::string (s.below (more), '0');
    return t;
}
static std::string real_spell (Src& s, double d)
{
    if (!std::isfinite (d)) return real_text (d);
    bool whole = std::fabs (d) < 1e15 && d == std::floor (d) && !(d == 0 && std::signbit (d));
    switch (s.below (6))
    {
    case 1: return fmt ("%.17e", d);
    case 2: return fmt ("%.20E", d);
    case 3: return with_zeros (s, real_text (d), 30);
    case 4: if (!whole) break; return fmt ("%llde0", (long long) d);
    case 5: if (!whole) break; return d == 0 ? "0e0" : fmt ("%lld0e-1", (long long) d);
    }
    return real_text (d);
}
static std::string blank (Src& s, const std::vector<std::string>& some) { return s.below (3) ? s.pick (some) : ""; }
std::string json_spell (Src& s, const J& j)
{
    static const std::vector<std::string> WS = { " ", "\n", "\t", "\r\n", "  \n\n ", "\r" };
    switch (j.k)
    {
    case J::REAL: return real_spell (s, j.d);
    case J::STR: return json_spell_string (s, j.s);
    case J::OBJ: case J::ARR:
    {
        bool obj = j.k == J::OBJ;
        std::string o = obj ? "{" : "[";
        for (size_t x = 0; x < j.m.size (); x++)
        {
            if (x) o += ",";
            o += blank (s, WS);
            if (obj) { o += json_spell_string (s, j.m[x].first); o += blank (s, WS); o += ":"; o += blank (s, WS); }
            o += json_spell (s, j.m[x].second);
            o += blank (s, WS);
        }
        if (j.m.empty ()) o += blank (s, WS);
        return o + (obj ? "}" : "]");
    }
    default: return json_write (j);
    }
}

static const std::string QQQ = "\"\"\"", AAA = "\'\'\'";
static bool plain_bytes (const std::string& t, bool lines)
{
    for (unsigned char c : t) if ((c < 0x20 && c != '\t' && !(lines && c == '\n')) || c == 0x7f) return false;
    return true;
}
static std::string toml_spell_basic (Src& s, const std::string& t, bool lines)
{
    static const std::string NAMED = "\b\f\n\r\t\"\\", LETTER = "bfnrt\"\\";
    static const std::vector<std::string> CUT = { "\n", "\n  ", "\n\n\t ", "\n \n" };
    int often = s.below (3), quotes = 0;
    std::string o;
    auto all = chars (t);
    if (lines && s.below (2)) o += "\n";
    else if (lines && t[0] == '\n') o += "\n";
    for (size_t i = 0; i < all.size (); i++)
    {
        auto& x = all[i];
        if (!is_char (x)) { o += x; quotes = 0; continue; }
        uint32_t u = code_of (x);
        // the blanks after a cut go: none may belong to the text
        if (lines && u > 0x20 && s.below (8) == 7) { o += "\\" + s.pick (CUT); quotes = 0; }
        size_t at = x.size () == 1 && x[0] ? NAMED.find (x[0]) : std::string::npos;
        bool must = (u < 0x20 && u != '\t' && !(lines && u == '\n')) || u == 0x7f || u == '\\' || (u == '"' && (!lines || quotes == 2 || i + 1 == all.size ()));
        bool esc = often == 2 || (often == 1 && s.below (3) == 2);
        if (!must && !esc) { o += x; quotes = u == '"' ? quotes + 1 : 0; continue; }
        quotes = 0;
        if (at != std::string::npos && (!esc || s.below (2) == 0)) o += std::string ("\\") + LETTER[at];
        else if (u < 0x10000 && s.below (2) == 0) o += "\\u" + hex (s, u, 4);
        else o += "\\U" + hex (s, u, 8);
    }
    if (lines && s.below (8) == 7) o += "\\" + s.pick (CUT);
    return o;
}
static std::string toml_spell_string (Src& s, const std::string& t, bool key)
{
    switch (s.below (key ? 3 : 5))
    {
    case 1: return "\"" + toml_spell_basic (s, t, false) + "\"";
    case 2: if (t.find ('\'') != std::string::npos || !plain_bytes (t, false)) break; return "'" + t + "'";
    case 3: return QQQ + toml_spell_basic (s, t, true) + QQQ;
    case 4:
        if (t.find (AAA) != std::string::npos || (!t.empty () && t.back () == '\'') || !plain_bytes (t, true)) break;
        return AAA + (s.below (2) || t[0] == '\n' ? "\n" : "") + t + AAA;
    }
    return toml_string (t);
}
static std::string toml_spell_key (Src& s, const std::string& k) { return s.below (2) ? toml_spell_string (s, k, true) : toml_key (k); }
static const std::vector<std::string> GAP = { " ", "\t", "  " };
static std::string underscores (Src& s, const std::string& t)
{
    std::string o;
    for (size_t i = 0; i < t.size (); i++)
    {
        if (i && isdigit ((unsigned char) t[i]) && isdigit ((unsigned char) t[i - 1]) && s.below (4) == 3) o += '_';
        o += t[i];
    }
    return o;
}
static std::string toml_spell_inline (Src& s, const J& j)
{
    static const std::vector<std::string> DATES = { "1979-05-27T07:32:00Z", "1979-05-27", "1979-05-27T00:32:00-07:00", "1979-05-27T00:32:00.999999-07:00" };
    static const std::vector<std::string> WIDE = { " ", "\n", "\n\t", " # [1, \"\n", "\r\n" };
    switch (j.k)
    {
    case J::NUL: return s.pick (DATES);
    case J::STR: return toml_spell_string (s, j.s, false);
    case J::INT: case J::REAL:
    {
        std::string t = j.k == J::INT ? fmt ("%lld", (long long) j.i) : real_spell (s, j.d);
        if (t[0] != '-' && s.below (4) == 3) t = "+" + t;
        return s.below (3) ? t : underscores (s, t);
    }
    case J::OBJ: case J::ARR:
    {
        bool obj = j.k == J::OBJ;
        auto& W = obj ? GAP : WIDE;
        std::string o = obj ? "{" : "[";
        for (size_t x = 0; x < j.m.size (); x++)
        {
            if (x) o += ",";
            o += blank (s, W);
            if (obj) { o += toml_spell_key (s, j.m[x].first); o += blank (s, GAP); o += "="; o += blank (s, GAP); }
            o += toml_spell_inline (s, j.m[x].second);
            o += blank (s, W);
        }
        if (!obj && !j.m.empty () && s.below (4) == 3) { o += ","; o += blank (s, W); }
        if (j.m.empty ()) o += blank (s, W);
        return o + (obj ? "}" : "]");
    }
    default: return toml_inline (j);
    }
}
static std::string toml_eol (Src& s)
{
    static const std::vector<std::string> E = { "\n", " # x = \"y\n", "\r\n", "\t\n\n", "\n  # [x]\n  " };
    return s.below (2) ? s.pick (E) : "\n";
}
static void toml_spell_table (Src& s, const J& j, const std::string& prefix, const std::string& header, std::string& o)
{
    std::vector<bool> later;
    bool own = j.m.empty (), any = false, element = header.compare (0, 2, "[[") == 0;
    for (auto& x : j.m)
    {
        later.push_back ((x.second.k == J::OBJ || all_tables (x.second)) && s.below (4) < 3);
        if (later.back ()) any = true; else own = true;
    }
    auto keyvals = [&] {
        o += header;
        for (size_t i = 0; i < j.m.size (); i++)
        {
            if (later[i]) continue;
            o += blank (s, GAP); o += toml_spell_key (s, j.m[i].first); o += blank (s, GAP); o += "="; o += blank (s, GAP);
            o += toml_spell_inline (s, j.m[i].second); o += toml_eol (s);
        }
    };
    // a table may come after its tables, or not at all; an element of an array has to start
    int order = !header.empty () && !element && any ? s.below (3) : 0;
    if (order == 0) keyvals ();
    for (size_t i = 0; i < j.m.size (); i++)
    {
        if (!later[i]) continue;
        auto& x = j.m[i];
        for (size_t e = 0; e < (x.second.k == J::OBJ ? 1 : x.second.m.size ()); e++)
        {
            std::string k = prefix + blank (s, GAP);
            k += toml_spell_key (s, x.first); k += blank (s, GAP);
            bool one = x.second.k == J::OBJ;
            std::string h = (one ? "[" : "[[") + k + (one ? "]" : "]]");
            h += toml_eol (s);
            toml_spell_table (s, one ? x.second : x.second.m[e].second, k + ".", h, o);
        }
    }
    if (order == 1 || (order == 2 && own)) keyvals ();
}
std::string toml_spell (Src& s, const J& root)
{
    std::string o = toml_eol (s);
    toml_spell_table (s, root, "", "", o);
    if (s.below (4) == 3) o += "# the end";
    else if (s.below (4) == 3 && !o.empty () && o.back () == '\n') o.pop_back ();
    return o;
}

std::string json_break (Src& s, J doc, std::string& text)
{
    static const std::vector<std::string> BAD = { "-", "+1", ".5", "-.5", "1e", "1e+", "1.5e+", "0x1", "1x", "1.2.3", "--1", "- 1", "NaN", "Infinity", "tru", "truex", "True", "nul", "nulll", "false1", "'a'", "a", "\"\\q\"", "\"\\u12\"", "\"\\u12g4\"", "\"\\ud800\"", "\"\\ud800\\u0041\"", "\"\\ud800x\"", "\"\\ud800\\ud800\"", "\"\\udc00\"", "\"\\udfff\\udc00\"", "\"a\" \"b\"", "1 2", "[1,]", "[1,,2]", "[,1]", "[1 2]", "{1:2}", "{a:1}", "{\"a\" 1}", "{\"a\":}", "{\"a\"}", "{\"a\":1,}", "{,}", "{\"a\":1 \"b\":2}", "[1}", "{\"a\":1]", "", "#", "\\", "/", "@" };
    static const std::vector<std::string> AFTER = { "x", "{}", "]", "}", ",", "1", "\"", "\n\n:", "null", "/", "-", "#" };
    std::vector<J *> leaves;
    std::function<void (J&)> find = [&] (J& j) { if (j.k != J::OBJ && j.k != J::ARR) leaves.push_back (&j); for (auto& x : j.m) find (x.second); };
    find (doc);
    if (leaves.empty () || s.below (4) == 3) { text = json_write (doc); std::string t = s.pick (AFTER); text += " " + t; return "more after the end"; }
    else
    {
        *leaves[s.below (leaves.size ())] = J::str ("%BAD%");
        text = json_write (doc);
        std::string t = s.pick (BAD);
        size_t at = text.find ("\"%BAD%\"");
        // nothing at all may be fine between brackets
        if (t.empty () && at && text[at - 1] == '[') t = ",";
        text.replace (at, 7, t);
        return "no value";
    }
}
bool json_hopeless (const std::string& text)
{
    J j;
    return !json_parse (text, j) && !json_parse (text.substr (0, text.find ('\xff')), j, true);
}
