// C28: the string utilities do what they say for every string
#include "pbt.h"
#include <wreport/utils/string.h>
#include <algorithm>
#include <memory>
#include <vector>

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

using namespace wreport;
using namespace pbt;

namespace {

std::string show(const std::string& s) { return quote(s, 200); }
std::string show(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (const auto& s: v) r += (r.size() > 1 ? ", " : "") + show(s);
    return r + "]";
}

bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool hexd(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

// A string over an alphabet of its own: few letters make coincidences common
std::string text(Gen& g, const std::string& must, unsigned max)
{
    std::string alphabet = must;
    switch (g.draw(4))
    {
        case 0: break;
        case 1: alphabet += "ab"; break;
        case 2: alphabet += g.ascii(3); break;
        default: return g.boolean() ? g.bytes(g.size(max)) : g.ascii(g.size(max));
    }
    std::string res;
    for (unsigned n = g.size(max); n; --n) res += alphabet[g.draw(alphabet.size())];
    return res;
}

void strips(Ctx& c)
{
    std::string s = text(c.g, " \t\n\r\v\fx", 24);
    size_t b = 0, e = s.size();
    while (b < s.size() && space(s[b])) ++b;
    while (e > 0 && space(s[e - 1])) --e;
    std::string l = s.substr(b), r = s.substr(0, e), both = b >= e ? "" : s.substr(b, e - b);
    PBT_CHECK(str::lstrip(s) == l, "lstrip(" << show(s) << ") gives " << show(str::lstrip(s)) << " instead of " << show(l));
    PBT_CHECK(str::rstrip(s) == r, "rstrip(" << show(s) << ") gives " << show(str::rstrip(s)) << " instead of " << show(r));
    PBT_CHECK(str::strip(s) == both, "strip(" << show(s) << ") gives " << show(str::strip(s)) << " instead of " << show(both));
    c.set_sample("strip " + show(s));
    if (both != s) c.nontrivial("strip" + s);
}

void affixes(Ctx& c)
{
    std::string s = text(c.g, "ab", 16), p = text(c.g, "ab", 5);
    if (c.g.boolean()) s = c.g.boolean() ? p + s : s + p;
    bool st = p.size() <= s.size() && memcmp(s.data(), p.data(), p.size()) == 0;
    bool en = p.size() <= s.size() && memcmp(s.data() + (s.size() - p.size()), p.data(), p.size()) == 0;
    PBT_CHECK(str::startswith(s, p) == st, "startswith(" << show(s) << ", " << show(p) << ")");
    PBT_CHECK(str::endswith(s, p) == en, "endswith(" << show(s) << ", " << show(p) << ")");
    std::string u, l;
    for (char x: s)
    {
        u += x >= 'a' && x <= 'z' ? (char)(x - 32) : x;
        l += x >= 'A' && x <= 'Z' ? (char)(x + 32) : x;
    }
    PBT_CHECK(str::upper(s) == u, "upper(" << show(s) << ") gives " << show(str::upper(s)));
    PBT_CHECK(str::lower(s) == l, "lower(" << show(s) << ") gives " << show(str::lower(s)));
    c.set_sample("affix " + show(s) + " " + show(p));
    if (!p.empty() && (st || en)) c.nontrivial("affix" + s + "|" + p);
}

std::string ref_append(std::string a, const std::string& b)
{
    if (b.empty()) return a;
    if (a.empty()) return b;
    bool x = a.back() == '/', y = b[0] == '/';
    if (x && y) a.pop_back();
    if (!x && !y) a += '/';
    return a + b;
}

std::string ref_norm(const std::string& p)
{
    bool abs = !p.empty() && p[0] == '/';
    std::vector<std::string> st;
    size_t i = 0;
    while (i <= p.size())
    {
        size_t e = p.find('/', i);
        if (e == std::string::npos) e = p.size();
        std::string x = p.substr(i, e - i);
        i = e + 1;
        if (x.empty() || x == ".") continue;
        if (x != "..") st.push_back(x);
        else if (!st.empty() && st.back() != "..") st.pop_back();
        else if (!abs) st.push_back(x);
    }
    std::string r = abs ? "/" : "";
    for (size_t k = 0; k < st.size(); ++k) r += (k ? "/" : "") + st[k];
    return r.empty() ? "." : r;
}

std::string path(Gen& g)
{
    std::string r = g.chance(1, 3) ? std::string(1 + g.draw(2), '/') : "";
    static const char* parts[] = {"a", "b", "foo", "..", ".", "", "...", "a.b", "..a", "a..", " "};
    for (unsigned n = g.size(7); n; --n)
    {
        r += g.pick(parts);
        if (n > 1 || g.chance(1, 4)) r += "/";
    }
    return r;
}

void paths(Ctx& c)
{
    std::string p = path(c.g), q = path(c.g), s = path(c.g);
    size_t pos = p.rfind('/');
    std::string base = pos == std::string::npos ? p : p.substr(pos + 1);
    PBT_CHECK(str::basename(p) == base, "basename(" << show(p) << ") gives " << show(str::basename(p)));
    std::string d = p;
    if (d.empty()) d = ".";
    else
    {
        while (!d.empty() && d.back() == '/') d.pop_back();
        if (d.empty()) d = "/";
        else if (d.find('/') == std::string::npos) d = ".";
        else
        {
            while (d.back() != '/') d.pop_back();
            while (!d.empty() && d.back() == '/') d.pop_back();
            if (d.empty()) d = "/";
        }
    }
    PBT_CHECK(str::dirname(p) == d, "dirname(" << show(p) << ") gives " << show(str::dirname(p)) << " instead of " << show(d));
    std::string want = ref_append(p, q), want3 = ref_append(want, s);
    std::string x = p;
    str::appendpath(x, q);
    PBT_CHECK(x == want, "appendpath(" << show(p) << ", " << show(q) << ") gives " << show(x));
    x = p;
    str::appendpath(x, q.c_str());
    PBT_CHECK(x == want, "appendpath(" << show(p) << ", " << show(q) << " as char*) gives " << show(x));
    x = p;
    str::appendpath(x, q, s.c_str());
    PBT_CHECK(x == want3, "appendpath(" << show(p) << ", " << show(q) << ", " << show(s) << ") gives " << show(x));
    x = str::joinpath(p.c_str(), q, s);
    PBT_CHECK(x == want3, "joinpath(" << show(p) << ", " << show(q) << ", " << show(s) << ") gives " << show(x));
    std::string n = ref_norm(p);
    x = str::normpath(p);
    PBT_CHECK(x == n, "normpath(" << show(p) << ") gives " << show(x) << " instead of " << show(n));
    PBT_CHECK(str::normpath(x) == x, "normpath is not idempotent on " << show(p));
    c.set_sample("path " + show(p) + " " + show(q) + " " + show(s));
    if (p.find('/') != std::string::npos) c.nontrivial("path" + p + "|" + q + "|" + s);
}

void split(Ctx& c)
{
    Gen& g = c.g;
    bool skip = g.boolean();
    std::string sep = g.chance(1, 12) ? "" : text(g, "ab", 3);
    if (sep.size() > 3) sep.resize(3);
    std::string s;
    if (g.boolean())
        for (unsigned n = g.size(8); n; --n) s += g.boolean() ? sep : text(g, "ab", 3);
    else
        s = text(g, "ab", 20);
    // The expected tokens, and what follows each
    std::vector<std::string> want, rest;
    if (sep.empty())
        for (size_t i = 0; i < s.size(); ++i) { want.push_back(s.substr(i, 1)); rest.push_back(s.substr(i + 1)); }
    else if (!s.empty())
    {
        size_t i = 0;
        while (true)
        {
            size_t e = s.find(sep, i);
            want.push_back(e == std::string::npos ? s.substr(i) : s.substr(i, e - i));
            rest.push_back(e == std::string::npos ? "" : s.substr(e + sep.size()));
            if (e == std::string::npos) break;
            i = e + sep.size();
        }
        if (skip)
        {
            for (size_t k = want.size(); k-- > 0;)
                if (want[k].empty())
                {
                    want.erase(want.begin() + (long)k);
                    rest.erase(rest.begin() + (long)k);
                }
            // Separators that follow the one of the token are skipped too
            for (auto& r: rest)
                while (r.compare(0, sep.size(), sep) == 0) r.erase(0, sep.size());
        }
    }
    std::string what = "splitting " + show(s) + " on " + show(sep) + (skip ? " without empty tokens" : "");
    str::Split sp(s, sep, skip);
    std::vector<std::string> got;
    for (auto i = sp.begin(); i != sp.end(); ++i)
    {
        PBT_CHECK(!(i == sp.end()), what << ": the iterator is both equal to and different from the end");
        PBT_CHECK(*i == *i.operator->(), what << ": * and -> differ");
        got.push_back(*i);
        size_t k = got.size() - 1;
        PBT_CHECK(k <= s.size(), what << " does not end");
        if (k < rest.size())
        {
            PBT_CHECK(i.remainder() == rest[k], what << ": remainder after token " << k << " is " << show(i.remainder()) << " instead of " << show(rest[k]));
            // A copy of the iterator goes on from the same place
            auto j = i;
            PBT_CHECK(j == i, what << ": a copy of an iterator differs from it");
            ++j;
            if (k + 1 < want.size())
                PBT_CHECK(*j == want[k + 1] && *i == want[k] && j != i, what << ": copy of the iterator at " << k);
        }
    }
    // With an empty separator, whether an empty token closes the list is not said
    if (sep.empty() && !skip && got.size() == want.size() + 1 && got.back().empty()) got.pop_back();
    PBT_CHECK(got == want, what << " gives " << show(got) << " instead of " << show(want));
    // Iterators of different splits are different
    str::Split other(s, sep, skip);
    auto i1 = sp.begin(), i2 = sp.begin(), e1 = sp.end();
    PBT_CHECK(i1 == i2 && !(i1 != i2) && (i1 == e1) == !(i1 != e1) && (i1 == e1) == got.empty(), "comparisons of iterators on " << show(s));
    if (!got.empty()) { auto o = other.begin(); PBT_CHECK(i1 != o && !(i1 == o), "iterators on different strings are the same"); }
    PBT_CHECK(str::Split("", sep, skip).begin().remainder().empty(), "the remainder of an empty string");
    // join is the inverse of split
    if (!skip && !sep.empty() && !s.empty())
    {
        PBT_CHECK(str::join(sep, got) == s, "join(" << show(sep) << ", " << show(got) << ") gives " << show(str::join(sep, got)));
        PBT_CHECK(str::join(sep, got.begin(), got.end()) == s, "join of the range of " << show(got));
    }
    std::vector<int> nums;
    std::string numtext;
    for (unsigned n = g.size(5); n; --n)
    {
        nums.push_back((int)g.range(-20, 20));
        numtext += (nums.size() > 1 ? sep : "") + std::to_string(nums.back());
    }
    PBT_CHECK(str::join(sep, nums) == numtext && str::join(sep, nums.begin(), nums.end()) == numtext, "join(" << show(sep) << ") of " << numtext << " gives " << show(str::join(sep, nums)));
    c.set_sample(what);
    if (want.size() > 1) c.nontrivial(what);
}

void cstring(Ctx& c)
{
    Gen& g = c.g;
    std::string s = text(g, std::string("\\\"\n\tx0fFn\x01\x1f\x7f\0", 13), 20);
    std::string e = str::encode_cstring(s);
    for (size_t i = 0; i < e.size(); ++i)
    {
        PBT_CHECK((unsigned char)e[i] >= 32 && e[i] != 127, "encode_cstring(" << show(s) << ") contains a control character: " << show(e));
        PBT_CHECK(e[i] != '"', "encode_cstring(" << show(s) << ") contains plain quotes: " << show(e));
        if (e[i] == '\\') ++i;
    }
    std::string tail = g.boolean() ? "\"" + text(g, "\"x\\", 8) : "";
    size_t len = 123456;
    std::string d = str::decode_cstring(e + tail, len);
    PBT_CHECK(d == s, "decode_cstring(encode_cstring(" << show(s) << ")) gives " << show(d) << " through " << show(e));
    PBT_CHECK(len == e.size() + (tail.empty() ? 0 : 1), "decode_cstring(" << show(e + tail) << ") parsed " << len << " characters instead of " << e.size());
    c.set_sample("cstring " + show(s));
    if (e != s) c.nontrivial("cstring" + s);

    // Any text, well formed or not
    std::string t = text(g, "\\\"xnt09afAFg", 16), want;
    size_t i = 0;
    bool vague = false;
    while (i < t.size() && t[i] != '"')
    {
        if (t[i] != '\\' || i + 1 == t.size()) { want += t[i++]; continue; }
        char k = t[i + 1];
        i += 2;
        if (k == 'n') want += '\n';
        else if (k == 't') want += '\t';
        else if (k == 'x')
        {
            int v = 0;
            unsigned n = 0;
            while (n < 2 && i < t.size() && hexd(t[i])) { v = v * 16 + hexv(t[i++]); ++n; }
            if (!n) vague = true;
            want += (char)v;
        }
        else want += k;
    }
    if (i < t.size()) ++i;
    d = str::decode_cstring(t, len);
    if (vague) return;
    PBT_CHECK(d == want, "decode_cstring(" << show(t) << ") gives " << show(d) << " instead of " << show(want));
    PBT_CHECK(len == i, "decode_cstring(" << show(t) << ") parsed " << len << " characters instead of " << i);
}

void url(Ctx& c)
{
    Gen& g = c.g;
    std::string s = text(g, std::string("%aZ09-_./ \xff\0+", 13), 20);
    std::string e = str::encode_url(s);
    for (size_t i = 0; i < e.size(); ++i)
    {
        if (e[i] == '%')
        {
            PBT_CHECK(i + 2 < e.size() && hexd(e[i + 1]) && hexd(e[i + 2]), "encode_url(" << show(s) << ") gives the malformed " << show(e));
            i += 2;
        }
        else
            PBT_CHECK(isalnum((unsigned char)e[i]) || strchr("-_.~!*'()", e[i]), "encode_url(" << show(s) << ") leaves the reserved '" << e[i] << "' in " << show(e));
    }
    // What needs no escape has none
    for (char ch: s) if ((isalnum((unsigned char)ch) && (unsigned char)ch < 128) || ch == '-' || ch == '_')
        PBT_CHECK(str::encode_url(std::string(1, ch)) == std::string(1, ch), "encode_url escapes '" << ch << "'");
    PBT_CHECK(str::decode_url(e) == s, "decode_url(encode_url(" << show(s) << ")) gives " << show(str::decode_url(e)) << " through " << show(e));
    c.set_sample("url " + show(s));
    if (e != s) c.nontrivial("url" + s);
    // Any text: an escape cut by the end of the string is ignored
    std::string t = text(g, "%a4F", 12), want;
    bool vague = false;
    for (size_t i = 0; i < t.size(); ++i)
        if (t[i] != '%') want += t[i];
        else if (i + 2 >= t.size()) break;
        else
        {
            if (!hexd(t[i + 1]) || !hexd(t[i + 2])) { vague = true; break; }
            want += (char)(hexv(t[i + 1]) * 16 + hexv(t[i + 2]));
            i += 2;
        }
    std::string d = str::decode_url(t);
    if (!vague) PBT_CHECK(d == want, "decode_url(" << show(t) << ") gives " << show(d) << " instead of " << show(want));
}

void base64(Ctx& c)
{
    Gen& g = c.g;
    static const char* digits = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string s = g.chance(1, 3) ? text(g, std::string("\0\xff", 2), 24) : g.bytes(g.size(40));
    std::string want;
    unsigned acc = 0, bits = 0;
    for (unsigned char x: s)
    {
        acc = (acc << 8 | x) & 0xffff;
        bits += 8;
        while (bits >= 6) { want += digits[acc >> (bits - 6) & 63]; bits -= 6; }
    }
    if (bits) want += digits[acc << (6 - bits) & 63];
    while (want.size() % 4) want += '=';
    std::string e = str::encode_base64(s);
    PBT_CHECK(e == want, "encode_base64(" << show(s) << ") gives " << show(e) << " instead of " << show(want));
    // The exact bytes given, in a block of that size
    std::unique_ptr<char[]> exact(new char[s.size()]);
    memcpy(exact.get(), s.data(), s.size());
    PBT_CHECK(str::encode_base64(exact.get(), s.size()) == want, "encode_base64 of a buffer with " << show(s));
    PBT_CHECK(str::decode_base64(e) == s, "decode_base64(" << show(e) << ") gives " << show(str::decode_base64(e)) << " instead of " << show(s));
    // Anything else is decoded to something
    std::string junk = g.boolean() ? g.bytes(g.size(12)) : text(g, "={zA+\xff", 12);
    std::string d = str::decode_base64(junk);
    PBT_CHECK(d.size() <= (junk.size() + 3) / 4 * 3, "decode_base64(" << show(junk) << ") gives " << d.size() << " bytes");
    c.set_sample("base64 " + show(s) + " " + show(junk));
    if (!s.empty()) c.nontrivial("base64" + s);
}

void run(Ctx& c)
{
    static void (* const parts[])(Ctx&) = {strips, affixes, paths, split, cstring, url, base64};
    static const char* names[] = {"strip", "affix", "path", "split", "cstring", "url", "base64"};
    size_t k = c.g.cycle(7);
    c.label(names[k]);
    parts[k](c);
}

Register r({"C28", "random strings over small alphabets chosen for each function (separators, escapes, digits, blanks, control and high bytes) given to the string utilities, each result compared with an independent definition; non trivial: the function has something to change; distinct: function and arguments",
        run, nullptr, 1500000, 40000000, true});
}
