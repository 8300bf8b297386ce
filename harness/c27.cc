// C27: importing WMO tables gives table files that the library loads with the same definitions
#include "fuzz.h"
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/opcodes.h>
#include <wreport/error.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
#include <random>

using namespace wreport;
using namespace pbt;
using model::fxy;
using model::code_t;
namespace fs = std::filesystem;
extern char** environ;

namespace {

struct Entry
{
    code_t code;
    std::string desc, unit, cunit;
    int scale, ref, cscale;
    unsigned bits, clen;
    bool crex;
};
typedef std::vector<std::pair<code_t, std::vector<code_t>>> Seqs;

std::string rstrip(std::string s)
{
    while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
    return s;
}

std::string upper(std::string s)
{
    for (auto& c: s) if (c >= 'a' && c <= 'z') c = (char)(c - 32);
    return s;
}

// How the library shows a unit
std::string shown_unit(const std::string& unit, bool crex)
{
    std::string u = upper(unit);
    if (!crex && u == "CCITT IA5") u = "CCITTIA5";
    u = rstrip(u.substr(0, 23));
    if (u.compare(0, 10, "CODE TABLE") == 0 || u.compare(0, 9, "CODETABLE") == 0) return "CODE TABLE";
    if (u.compare(0, 10, "FLAG TABLE") == 0 || u.compare(0, 9, "FLAGTABLE") == 0) return "FLAG TABLE";
    return u;
}

bool ascii(const std::string& s)
{
    for (char c: s) if ((unsigned char)c >= 128) return false;
    return true;
}

std::string escape(Gen& g, const std::string& s)
{
    std::string r;
    for (char c: s)
        switch (c)
        {
            case '&': r += g.boolean() ? "&amp;" : "&#38;"; break;
            case '<': r += "&lt;"; break;
            case '>': r += "&gt;"; break;
            default:
                if ((unsigned char)c < 128 && c != ' ' && g.chance(1, 200)) r += strf("&#%d;", c); else r += c;
        }
    return r;
}

std::string junk(Gen& g)
{
    switch (g.draw(8))
    {
        case 0: return "<!-- FXY1 & TableB < -->";
        case 1: return "\n   ";
        case 2: return "\r\n";
        default: return "\n";
    }
}

std::string num(Gen& g, long v)
{
    std::string r = strf("%ld", v);
    if (g.chance(1, 30)) r = " " + r + " ";
    return r;
}

std::string element(Gen& g, const std::string& name, const std::string& text)
{
    return junk(g) + "<" + name + ">" + text + "</" + name + ">";
}

template<typename T> void shuffle(Gen& g, std::vector<T>& v)
{
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.draw(i)]);
}

std::string xml_b(Gen& g, const std::vector<Entry>& entries)
{
    std::string tag = g.boolean() ? "BUFRCREX_24_0_0_TableB_en" : "Exp_BUFRCREXTableB_E";
    std::string doc = std::string(g.boolean() ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "") + "<dataroot>";
    for (const auto& e: entries)
    {
        std::vector<std::string> f;
        f.push_back(element(g, "FXY", model::codestr(e.code)[0] == 'B' ? strf("0%02u%03u", model::X(e.code), model::Y(e.code)) : "x"));
        f.push_back(element(g, g.boolean() ? "ElementName_en" : "ElementName_E", escape(g, e.desc)));
        f.push_back(element(g, "BUFR_Unit", escape(g, e.unit)));
        f.push_back(element(g, "BUFR_Scale", num(g, e.scale)));
        f.push_back(element(g, "BUFR_ReferenceValue", num(g, e.ref)));
        f.push_back(element(g, "BUFR_DataWidth_Bits", num(g, e.bits)));
        if (e.crex)
        {
            f.push_back(element(g, "CREX_Unit", escape(g, e.cunit)));
            f.push_back(element(g, "CREX_Scale", num(g, e.cscale)));
            f.push_back(element(g, "CREX_DataWidth_Char", num(g, e.clen)));
        }
        if (g.boolean()) f.push_back(element(g, "ClassNo", "99"));
        if (g.boolean()) f.push_back(element(g, "Status", "Operational"));
        if (g.boolean()) shuffle(g, f);
        doc += junk(g) + "<" + tag + ">";
        for (const auto& x: f) doc += x;
        doc += junk(g) + "</" + tag + ">";
        if (g.chance(1, 10)) doc += "<other><FXY>012345</FXY></other>";
    }
    return doc + junk(g) + "</dataroot>\n";
}

std::string code_text(code_t c, bool letters)
{
    static const char l[] = "BRCD";
    return letters ? strf("%c%02u%03u", l[model::F(c)], model::X(c), model::Y(c)) : strf("%u%02u%03u", model::F(c), model::X(c), model::Y(c));
}

std::string xml_d(Gen& g, const Seqs& seqs, bool letters)
{
    std::string tag = g.boolean() ? "BUFR_24_0_0_TableD_en" : "Exp_TableD_E";
    std::string doc = std::string(g.boolean() ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "") + "<dataroot>";
    auto item = [&](const std::string& a, const std::string& b) {
        std::vector<std::string> f;
        auto ws = [&] { return g.chance(1, 10) ? " " : ""; };
        if (!a.empty()) f.push_back(element(g, "FXY1", ws() + a + ws()));
        if (!b.empty()) f.push_back(element(g, "FXY2", ws() + b + ws()));
        if (g.boolean()) f.push_back(element(g, "ElementName_en", "x"));
        if (g.boolean()) shuffle(g, f);
        doc += junk(g) + "<" + tag + ">";
        for (const auto& x: f) doc += x;
        doc += "</" + tag + ">";
    };
    // One element for each item, usually but not always one sequence after the other
    std::vector<size_t> next(seqs.size());
    bool mixed = g.chance(1, 4);
    std::vector<size_t> open;
    for (size_t i = 0; i < seqs.size(); ++i) open.push_back(i);
    while (!open.empty())
    {
        size_t k = mixed ? g.draw(open.size()) : 0, q = open[k];
        item(code_text(seqs[q].first, letters), code_text(seqs[q].second[next[q]], letters));
        if (++next[q] == seqs[q].second.size()) open.erase(open.begin() + (long)k);
        // Titles have no item
        if (g.chance(1, 20)) item(code_text(seqs[q].first, letters), "");
        if (g.chance(1, 40)) item(code_text(fxy(3, 63, 255), letters), "");
    }
    return doc + junk(g) + "</dataroot>\n";
}

uint32_t crc(const std::string& s)
{
    uint32_t r = ~0u;
    for (unsigned char c: s)
    {
        r ^= c;
        for (int i = 0; i < 8; ++i) r = (r >> 1) ^ (r & 1 ? 0xedb88320u : 0);
    }
    return ~r;
}

std::string le(uint32_t v, unsigned n) { std::string r; for (; n; --n, v >>= 8) r += (char)v; return r; }

std::string zip(const std::vector<std::pair<std::string, std::string>>& files)
{
    std::string out, dir;
    for (const auto& f: files)
    {
        std::string common = le(20, 2) + le(0, 2) + le(0, 2) + le(0, 2) + le(0x21, 2) + le(crc(f.second), 4) + le((uint32_t)f.second.size(), 4) + le((uint32_t)f.second.size(), 4)
            + le((uint32_t)f.first.size(), 2) + le(0, 2);
        dir += "PK\1\2" + le(20, 2) + common + le(0, 2) + le(0, 2) + le(0, 2) + le(0, 4) + le((uint32_t)out.size(), 4) + f.first;
        out += "PK\3\4" + common + f.first + f.second;
    }
    std::string end = "PK\5\6" + le(0, 2) + le(0, 2) + le((uint32_t)files.size(), 2) + le((uint32_t)files.size(), 2) + le((uint32_t)dir.size(), 4) + le((uint32_t)out.size(), 4) + le(0, 2);
    return out + dir + end;
}

void spew(const std::string& p, const std::string& data)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f || (data.size() && fwrite(data.data(), data.size(), 1, f) != 1) || fclose(f)) { perror(p.c_str()); _exit(99); }
}

// Run the program in dir, where it writes its files
int import(const std::string& dir, const std::vector<std::string>& args, std::string& err)
{
    std::string script = fuzz::repo_dir() + "/src/wrep-importtable";
    std::vector<const char*> argv = {"python3", "-B", script.c_str()};
    for (const auto& a: args) argv.push_back(a.c_str());
    argv.push_back(nullptr);
    std::string e = dir + "/stderr";
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addchdir_np(&fa, dir.c_str());
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    pid_t pid;
    int r = posix_spawnp(&pid, "python3", &fa, nullptr, const_cast<char**>(argv.data()), environ);
    posix_spawn_file_actions_destroy(&fa);
    if (r) { fprintf(stderr, "cannot run python3: %s\n", strerror(r)); _exit(99); }
    int st;
    while (waitpid(pid, &st, 0) == -1) if (errno != EINTR) _exit(99);
    err = fuzz::slurp(e);
    unlink(e.c_str());
    PBT_CHECK(WIFEXITED(st), "the program was killed by signal " << WTERMSIG(st));
    return WEXITSTATUS(st);
}

unsigned long serial = 0;
// Tables are cached by name: give each its own
std::string own_name(const std::string& path)
{
    struct stat st;
    PBT_CHECK(stat(path.c_str(), &st) == 0, "the program did not write " << fs::path(path).filename().string());
    std::string n = fs::path(path).parent_path().string() + strf("/t%lu.txt", serial++);
    if (rename(path.c_str(), n.c_str())) { perror(n.c_str()); _exit(99); }
    return n;
}

void check_desc(const char* got, const Entry& e, const std::string& what)
{
    std::string x = rstrip(e.desc.substr(0, 63));
    if (ascii(e.desc)) PBT_CHECK(x == got, what << ": description is " << quote(got) << " instead of " << quote(x));
    // A character can be left out where it does not fit
    else PBT_CHECK(x.compare(0, strlen(got), got) == 0 && strlen(got) + 4 >= x.size(), what << ": description is " << quote(got) << " instead of " << quote(x));
}

void check_unit(const char* got, const std::string& exp, const std::string& what)
{
    PBT_CHECK(exp == got, what << ": unit is " << quote(got) << " instead of " << quote(exp));
}

void check_b(const std::string& path, const std::vector<Entry>& entries, bool crex)
{
    const Vartable* t = nullptr;
    std::string why;
    bool loadable = true;
    // Only delayed replication factors can lack the CREX definition
    if (crex) for (const auto& e: entries) if (!e.crex && model::X(e.code) != 31) loadable = false;
    std::string file = own_name(path);
    try { t = crex ? Vartable::load_crex(file) : Vartable::load_bufr(file); } catch (wreport::error& e) { why = e.what(); }
    unlink(file.c_str());
    if (!loadable) { PBT_CHECK(!t, "a CREX table without some CREX definitions was loaded"); return; }
    PBT_CHECK(t, "the table does not load: " << why);
    size_t n = 0;
    t->iterate([&](Varinfo) { ++n; return true; });
    size_t expected = 0;
    for (const auto& e: entries)
    {
        std::string what = std::string(crex ? "CREX " : "BUFR ") + model::codestr(e.code);
        if (crex && !e.crex) { PBT_CHECK(!t->contains(e.code), what << " has no definition but is in the table"); continue; }
        ++expected;
        PBT_CHECK(t->contains(e.code), what << " is not in the table");
        Varinfo i = t->query(e.code);
        check_desc(i->desc, e, what);
        check_unit(i->unit, shown_unit(crex ? e.cunit : e.unit, crex), what);
        if (crex)
        {
            PBT_CHECK(i->scale == e.cscale && i->len == e.clen, what << ": scale " << i->scale << " length " << i->len << " instead of " << e.cscale << " and " << e.clen);
            PBT_CHECK((i->type == Vartype::String) == (upper(e.cunit) == "CHARACTER"), what << ": type is " << vartype_format(i->type));
        } else {
            PBT_CHECK(i->scale == e.scale && i->bit_ref == e.ref && i->bit_len == e.bits,
                what << ": scale " << i->scale << " reference " << i->bit_ref << " bits " << i->bit_len << " instead of " << e.scale << ", " << e.ref << " and " << e.bits);
            PBT_CHECK((i->type == Vartype::String) == (upper(e.unit) == "CCITT IA5" || upper(e.unit) == "CCITTIA5"), what << ": type is " << vartype_format(i->type));
        }
    }
    PBT_CHECK(n == expected, "the table has " << n << " entries instead of " << expected);
}

void check_d(const std::string& path, const Seqs& seqs, bool crex)
{
    const DTable* t = nullptr;
    std::string why;
    std::string file = own_name(path);
    try { t = crex ? DTable::load_crex(file) : DTable::load_bufr(file); } catch (wreport::error& e) { why = e.what(); }
    unlink(file.c_str());
    PBT_CHECK(t, "the table does not load: " << why);
    for (const auto& s: seqs)
    {
        std::string what = std::string(crex ? "CREX " : "BUFR ") + model::codestr(s.first);
        std::vector<code_t> got;
        try { Opcodes o = t->query(s.first); for (unsigned i = 0; i < o.size(); ++i) got.push_back(o[i]); }
        catch (wreport::error& e) { PBT_FAIL(what << ": " << e.what()); }
        std::string a, b;
        for (auto c: got) a += model::codestr(c) + " ";
        for (auto c: s.second) b += model::codestr(c) + " ";
        PBT_CHECK(got == s.second, what << " is " << a << "instead of " << b);
    }
    bool found = true;
    try { t->query(fxy(3, 63, 255)); } catch (error_notfound&) { found = false; }
    PBT_CHECK(!found, "a sequence without items is in the table");
}

std::string text(Gen& g, size_t max)
{
    std::string r = g.ascii(1 + g.draw(max));
    for (auto& c: r) if (c < 32 || c > 126) c = 'x';
    if (r[0] == ' ') r[0] = 'y';
    r = rstrip(r);
    return r;
}

std::vector<Entry> gen_b(Gen& g)
{
    static const char* const units[] = { "K", "Pa", "m s-1", "Code table", "Flag table", "CODE TABLE 12345", "Numeric", "CCITT IA5", "CCITT IA5", "degree true", "%", "log (m-2)", "kg m-2", "\xc2\xb0 true" };
    static const char* const cunits[] = { "C", "Pa", "m s-1", "Code table", "Flag table", "Numeric", "Character", "Character", "CHARACTER", "%", "degree true" };
    std::vector<Entry> res;
    std::set<code_t> seen;
    bool all_crex = g.boolean();
    for (unsigned n = 1 + g.size(12); n; --n)
    {
        Entry e;
        e.code = fxy(0, g.chance(1, 6) ? 31 : (unsigned)g.draw(64), (unsigned)g.draw(256));
        if (!seen.insert(e.code).second) continue;
        e.desc = text(g, g.chance(1, 5) ? 90 : 30);
        if (g.chance(1, 8)) e.desc.insert(g.draw(e.desc.size() + 1), g.pick({ "\xc3\x85", "\xe2\x80\x93", "\xc2\xb0", "\xf0\x9f\x8c\xa7" }));
        e.unit = g.chance(1, 6) ? text(g, 30) : std::string(g.pick(units));
        bool str = upper(e.unit) == "CCITT IA5";
        e.scale = str ? 0 : (int)g.range(-10, 10);
        e.ref = str ? 0 : (int)g.edgy(-2147483647, 2147483647);
        e.bits = str ? 8 * (unsigned)g.edgy(1, 100) : (unsigned)g.edgy(1, 32);
        e.crex = all_crex ? model::X(e.code) != 31 || g.boolean() : g.chance(7, 8);
        e.cunit = g.chance(1, 6) ? text(g, 30) : std::string(g.pick(cunits));
        e.cscale = upper(e.cunit) == "CHARACTER" ? 0 : (int)g.range(-9, 10);
        e.clen = (unsigned)g.edgy(1, upper(e.cunit) == "CHARACTER" ? 100 : 10);
        res.push_back(e);
    }
    if (!g.boolean()) std::sort(res.begin(), res.end(), [](const Entry& a, const Entry& b) { return a.code < b.code; });
    return res;
}

Seqs gen_d(Gen& g)
{
    Seqs res;
    std::set<code_t> seen{fxy(3, 63, 255)};
    for (unsigned n = 1 + g.size(8); n; --n)
    {
        code_t code = fxy(3, (unsigned)g.draw(64), (unsigned)g.draw(256));
        if (!seen.insert(code).second) continue;
        std::vector<code_t> items;
        unsigned k = 1 + g.size(9);
        if (g.chance(1, 20)) k = (unsigned)g.range(95, 110);
        for (; k; --k) items.push_back(fxy((unsigned)g.draw(4), (unsigned)g.draw(64), (unsigned)g.draw(256)));
        res.push_back({code, items});
    }
    if (res.empty()) res.push_back({fxy(3, 1, 1), {fxy(0, 1, 1)}});
    return res;
}

void run(Ctx& c)
{
    Gen& g = c.g;
    c.evaluations = 1;
    struct Dir
    {
        std::string path;
        Dir() { static unsigned long n = 0; path = scratch_dir() + strf("/import-%d-%lu", (int)getpid(), n++); mkdir(path.c_str(), 0755); }
        ~Dir() { std::error_code e; fs::remove_all(path, e); }
    } dir;
    std::string err;
    std::vector<Entry> b = gen_b(g);
    Seqs d = gen_d(g), dc = gen_d(g);
    std::string xb = xml_b(g, b), xd = xml_d(g, d, false);
    // Something that cannot be read
    if (g.chance(1, 8))
    {
        std::vector<std::string> args;
        std::string in = dir.path + "/in";
        switch (g.draw(5))
        {
            case 0: args = {"--btable", in}; xb.resize(g.draw(xb.size() - 12)); spew(in, xb); c.set_sample("cut table B"); break;
            case 1: args = {"--dtable", in}; xd.resize(g.draw(xd.size() - 12)); spew(in, xd); c.set_sample("cut table D"); break;
            case 2: args = {g.pick({ "--btable", "--dtable", "--zipfile" }), dir.path + "/missing"}; c.set_sample("missing file"); break;
            case 3: { args = {"--zipfile", in}; std::string z = zip({{"BUFRCREX_24/BUFRCREX_24_0_0_TableB_en.xml", xb}}); z.resize(g.draw(z.size())); spew(in, z); c.set_sample("cut zip file"); break; }
            case 4:
            {
                args = {"--btable", in};
                size_t p = xb.find(g.pick({ "<BUFR_Scale>", "<BUFR_ReferenceValue>", "<BUFR_DataWidth_Bits>" }));
                p = xb.find('>', p) + 1;
                xb.insert(p, "x");
                spew(in, xb);
                c.set_sample("not a number");
                break;
            }
        }
        int st = import(dir.path, args, err);
        PBT_CHECK(st != 0, "the program does not report a failure in its exit status: " << quote(err, 300));
        PBT_CHECK(!err.empty(), "the program fails without a message");
        c.label("bad input");
        c.nontrivial(xb + xd);
        return;
    }
    std::string what;
    for (const auto& e: b) what += strf("%s %s [%s] %d %d %u [%s] %d %u; ", model::codestr(e.code).c_str(), quote(e.desc, 100).c_str(), e.unit.c_str(), e.scale, e.ref, e.bits, e.crex ? e.cunit.c_str() : "none", e.cscale, e.clen);
    switch (g.draw(4))
    {
        case 0:
        {
            c.set_sample("--btable " + what);
            spew(dir.path + "/in", xb);
            int st = import(dir.path, {"--btable", "in"}, err);
            PBT_CHECK(st == 0, "the program fails: " << quote(err, 800));
            check_b(dir.path + "/B0000000000000255255.txt", b, false);
            check_b(dir.path + "/B00255255.txt", b, true);
            c.label("table B");
            c.nontrivial(xb);
            break;
        }
        case 1:
        {
            c.set_sample(strf("--dtable with %zu sequences", d.size()));
            spew(dir.path + "/in", xd);
            int st = import(dir.path, {"--dtable", "in"}, err);
            PBT_CHECK(st == 0, "the program fails: " << quote(err, 800));
            check_d(dir.path + "/D0000000000000255255.txt", d, false);
            c.label("table D");
            c.nontrivial(xd);
            break;
        }
        default:
        {
            std::string xc = xml_d(g, dc, g.chance(3, 4));
            unsigned v = (unsigned)g.edgy(1, 99), sv = (unsigned)g.edgy(0, 9);
            std::string lang = g.boolean() ? "en" : "E";
            std::string top = strf("BUFRCREX_%u_%u_%u/", v, sv, (unsigned)g.draw(3));
            std::vector<std::pair<std::string, std::string>> files = {
                {top + strf("BUFRCREX_%u_%u_0_TableB_%s.xml", v, sv, lang.c_str()), xb},
                {top + strf("BUFR_%u_%u_0_TableD_%s.xml", v, sv, lang.c_str()), xd},
                {top + strf("CREX_%u_%u_0_TableD_%s.xml", v, sv, lang.c_str()), xc},
            };
            // Other files are of no interest
            if (g.boolean()) files.push_back({top + "readme.txt", "TableB"});
            if (g.boolean()) files.push_back({top + strf("BUFRCREX_%u_%u_0_CodeFlag_en.xml", v, sv), xd});
            if (g.boolean()) files.push_back({top + strf("BUFRCREX_%u_%u_0_TableB_fr.xml", v, sv), "<no>"});
            if (g.boolean()) files.push_back({top + strf("BUFRCREX_%u_%u_0_TableB_en.txt", v, sv), "no"});
            shuffle(g, files);
            spew(dir.path + "/in.zip", zip(files));
            c.set_sample(strf("--zipfile version %u.%u ", v, sv) + what);
            int st = import(dir.path, {"--zipfile", "in.zip"}, err);
            PBT_CHECK(st == 0, "the program fails: " << quote(err, 800));
            check_b(dir.path + strf("/B0000000000000%03u%03u.txt", v, sv), b, false);
            check_b(dir.path + strf("/B00%02u%02u.txt", v, sv), b, true);
            check_d(dir.path + strf("/D0000000000000%03u%03u.txt", v, sv), d, false);
            check_d(dir.path + strf("/D00%02u%02u.txt", v, sv), dc, true);
            c.label("zip file");
            c.nontrivial(xb + xd + xc);
            break;
        }
    }
}

void init() { }

Register r({"C27", "generated WMO table B and D documents (1-13 definitions and 1-9 sequences in any order, with entities, comments, white space, text that is not ASCII, long texts, limits of numbers, missing CREX fields) given to the import program alone or in a zip file with other files, and unreadable ones; the files written are loaded by the library and compared with the definitions; non trivial: all; distinct: document",
        run, init, 1500, 40000, true});
}
