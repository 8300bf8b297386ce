// C26: the wrep tool reports every message in its input files
#include "fuzz.h"
#include "refcrex.h"
#include <wreport/error.h>
#include <wreport/bulletin/dds-scanfeatures.h>
#include <wreport/internals/tabledir.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <algorithm>
#include <fcntl.h>
#include <set>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern char** environ;
using namespace wreport;
using namespace pbt;

namespace {

struct Found { size_t offset; std::string data; };
enum End { CLEAN, BROKEN };
End scan_bufr(const std::string& s, std::vector<Found>& out)
{
    size_t pos = 0;
    while ((pos = s.find("BUFR", pos)) != std::string::npos)
    {
        if (pos + 8 > s.size()) return BROKEN;
        size_t len = (size_t)(unsigned char)s[pos + 4] << 16 | (size_t)(unsigned char)s[pos + 5] << 8 | (unsigned char)s[pos + 6];
        if (len < 12 || pos + len > s.size()) return BROKEN;
        out.push_back({pos, s.substr(pos, len)});
        pos += len;
    }
    return CLEAN;
}
size_t crex_end(const std::string& s, size_t pos)
{
    for (; pos + 2 < s.size(); ++pos)
    {
        if (s.compare(pos, 2, "++")) continue;
        size_t e = s.find_first_not_of("\r\n", pos + 2);
        if (e == std::string::npos || e == pos + 2) continue;
        if (!s.compare(e, 4, "7777")) return e + 4;
    }
    return std::string::npos;
}
End scan_crex(const std::string& s, std::vector<Found>& out)
{
    size_t pos = 0;
    while ((pos = s.find("CREX++", pos)) != std::string::npos)
    {
        size_t end = crex_end(s, pos + 6);
        if (crex_end(s, pos + 4) != end) throw Discard("message end in the signature");
        if (end == std::string::npos) return BROKEN;
        out.push_back({pos, s.substr(pos, end - pos)});
        pos = end;
    }
    return CLEAN;
}

struct Mem
{
    char* p = nullptr;
    size_t n = 0;
    FILE* f;
    Mem() { f = open_memstream(&p, &n); }
    ~Mem() { if (f) fclose(f); free(p); }
    std::string str() { fflush(f); return std::string(p, n); }
};

std::string fxy(Varcode c) { return strf("%d%02d%03d", WR_VAR_F(c), WR_VAR_X(c), WR_VAR_Y(c)); }

std::string show_var(const Var& v)
{
    return fxy(v.code()) + " " + std::string(v.info()->desc).substr(0, 64) + "(" + v.info()->unit + "): " + v.format("(undef)") + "\n";
}

// Contents of a message, as they have to be in a dump
std::string dump(const Bulletin& b)
{
    std::string r = strf("%s %u:%u:%u %u:%u %04u-%02u-%02u %02u:%02u:%02u %u %zu subsets\n", b.encoding_name(), b.data_category, b.data_subcategory,
            b.data_subcategory_local, b.originating_centre, b.originating_subcentre, b.rep_year, b.rep_month, b.rep_day, b.rep_hour,
            b.rep_minute, b.rep_second, b.update_sequence_number, b.subsets.size());
    r += " Tables: " + b.tables.btable->path().string() + " " + b.tables.dtable->path().string() + "\n Data descriptors:\n";
    for (auto d: b.datadesc) r += "  " + fxy(d) + "\n";
    if (auto* m = dynamic_cast<const BufrBulletin*>(&b))
        r += strf(" BUFR details: ed%u t%u:%u:%u %c osl%zu\n", m->edition_number, m->master_table_number, m->master_table_version_number,
                m->master_table_version_number_local, m->compression ? 'c' : '-', m->optional_section.size());
    else if (auto* m = dynamic_cast<const CrexBulletin*>(&b))
        r += strf(" CREX details: ed%u t%u:%u:%u:%u %c\n", m->edition_number, m->master_table_number, m->master_table_version_number,
                m->master_table_version_number_local, m->master_table_version_number_bufr, m->has_check_digit ? 'C' : '-');
    r += " Variables:\n";
    for (unsigned i = 0; i < b.subsets.size(); ++i)
        for (unsigned j = 0; j < b.subsets[i].size(); ++j)
        {
            const Var& v = b.subsets[i][j];
            r += strf("  [%u][%u] ", i, j) + show_var(v);
            for (const Var* a = v.next_attr(); a; a = a->next_attr()) r += "           " + show_var(*a);
        }
    return r;
}

bool plain_template(const Bulletin& b, const std::vector<Varcode>& l, std::set<std::string>& feat, unsigned depth = 0)
{
    if (depth > 20) return false;
    for (size_t i = 0; i < l.size(); ++i)
        switch (WR_VAR_F(l[i]))
        {
            case 0: if (!b.tables.btable->contains(l[i])) return false; break;
            case 1:
                if (WR_VAR_Y(l[i])) feat.insert("Rxxyyy");
                else
                {
                    // The factor can be implied, as in CREX
                    Varcode f = i + 1 < l.size() && WR_VAR_F(l[i + 1]) == 0 && WR_VAR_X(l[i + 1]) == 31 ? l[++i] : WR_VAR(0, 31, 12);
                    feat.insert("Rxx000:B" + fxy(f).substr(1));
                }
                break;
            case 2:
            {
                unsigned x = WR_VAR_X(l[i]);
                if (x < 1 || x > 8) return false;
                std::string f = "C" + fxy(l[i]).substr(1);
                if (x == 6 && i + 1 < l.size())
                {
                    ++i;
                    f += std::string(":") + "BRCD"[WR_VAR_F(l[i])] + fxy(l[i]).substr(1);
                }
                feat.insert(f);
                break;
            }
            case 3:
            {
                std::vector<Varcode> sub;
                try { Opcodes o = b.tables.dtable->query(l[i]); for (unsigned k = 0; k < o.size(); ++k) sub.push_back(o[k]); } catch (error&) { return false; }
                if (!plain_template(b, sub, feat, depth + 1)) return false;
                break;
            }
        }
    return true;
}

enum Act { DUMP, TRACE, STRUCT, DDS, PRINT, UNPARSABLE, TABLES, FEATURES };
const char* const short_opts[] = {"-d", "-t", "-s", "-D", "-p", "-U", "-T", "-F"};
const char* const long_opts[] = {"--dump", "--trace", "--structure", "--dds", "--print", "--unparsable", "--tables", "--features"};

struct Expect
{
    std::string out;
    std::vector<std::string> err;   // starts of the lines that have to be in stderr
};

void expect_message(Ctx& c, Act act, bool crex, const std::vector<Varcode>& codes, const Found& m, const std::string& fname, bool& head_printed, Expect& x)
{
    std::string at = strf("%s:%zu:", fname.c_str(), m.offset);
    bool bad = false;
    std::string why, out;
    auto decode = [&]() -> std::unique_ptr<Bulletin> {
        if (crex) return CrexBulletin::decode(m.data, fname.c_str(), m.offset);
        if (act == DDS || act == TABLES || act == FEATURES) return BufrBulletin::decode_header(m.data, fname.c_str(), m.offset);
        return BufrBulletin::decode(m.data, fname.c_str(), m.offset);
    };
    Mem mem;
    try
    {
        if (act == TRACE && !crex)
            BufrBulletin::decode_verbose(m.data, mem.f, fname.c_str(), m.offset);
        else
        {
            auto b = decode();
            switch (act)
            {
                case DUMP: fputs(dump(*b).c_str(), mem.f); break;
                case STRUCT:
                {
                    b->print_structured(mem.f);
                    // It has all the data of the message
                    std::string s = mem.str();
                    size_t p = 0;
                    for (const auto& sub: b->subsets)
                        for (const auto& v: sub)
                        {
                            size_t n = s.find(": " + show_var(v), p);
                            PBT_CHECK(n != std::string::npos, "the structure of " << at << " does not show " << quote(show_var(v)));
                            p = n + 1;
                        }
                    break;
                }
                case DDS:
                {
                    b->print_datadesc(mem.f);
                    // It has all the descriptors in order, and replications have what they repeat under them
                    std::string s = "\n" + mem.str();
                    size_t p = 0;
                    std::set<std::string> feat;
                    if (!plain_template(*b, b->datadesc, feat)) break;
                    if (std::any_of(feat.begin(), feat.end(), [](const std::string& f) { return f[0] == 'C'; })) break;
                    for (size_t i = 0; i < b->datadesc.size(); ++i)
                    {
                        std::string code = fxy(b->datadesc[i]);
                        size_t n = s.find(code, p ? p + 1 : 0);
                        PBT_CHECK(n != std::string::npos, "the data descriptors of " << at << " do not show " << code << " which is number " << i << ": " << quote(s, 2000));
                        p = n;
                    }
                    break;
                }
                case PRINT:
                    for (size_t i = 0; i < b->subsets.size(); ++i)
                    {
                        fprintf(mem.f, "%s:%zu:", fname.c_str(), i + 1);
                        for (auto code: codes)
                            for (const auto& v: b->subsets[i])
                                if (v.code() == code) { fputc('\t', mem.f); fputs(v.format().c_str(), mem.f); break; }
                        fputc('\n', mem.f);
                    }
                    break;
                case TABLES:
                    if (auto* m = dynamic_cast<const BufrBulletin*>(b.get()))
                    {
                        if (!head_printed) fprintf(mem.f, "%-*s\tOffset\tCentre\tSubc.\tMaster\tLocal\n", (int)fname.size(), "Filename");
                        fprintf(mem.f, "%s\t%lld\t%u\t%u\t%u\t%u\n", fname.c_str(), (long long)b->offset, m->originating_centre, m->originating_subcentre,
                                m->master_table_version_number, m->master_table_version_number_local);
                    }
                    else if (auto* m = dynamic_cast<const CrexBulletin*>(b.get()))
                    {
                        if (!head_printed) fprintf(mem.f, "Filename\tOffset\tMaster\tEdition\tTable\n");
                        fprintf(mem.f, "%s\t%lld\t%u\t%u\t%u\n", fname.c_str(), (long long)b->offset, m->master_table_number, m->edition_number, m->master_table_version_number);
                    }
                    head_printed = true;
                    break;
                case FEATURES:
                {
                    bulletin::ScanFeatures scan(b->tables, b->datadesc);
                    scan.run();
                    std::set<std::string> feat;
                    if (plain_template(*b, b->datadesc, feat))
                    {
                        PBT_CHECK(feat.size() == scan.features.size() && std::equal(feat.begin(), feat.end(), scan.features.begin()), "features of " << at << [&]{ std::string r; for (auto& f: feat) r += f + ","; r += " instead of "; for (auto& f: scan.features) r += f + ","; for (auto d: b->datadesc) r += " " + fxy(d); return r; }());
                        c.label("features checked");
                    }
                    fprintf(mem.f, "%s", at.c_str());
                    bool first = true;
                    for (const auto& f: scan.features) { fprintf(mem.f, "%s%s", first ? "" : ",", f.c_str()); first = false; }
                    fprintf(mem.f, "\n");
                    break;
                }
                default: break;
            }
        }
    }
    catch (std::exception& e) { bad = true; why = e.what(); }
    if (act == UNPARSABLE)
    {
        if (bad) { x.out += m.data; x.err.push_back(why); }
    }
    else
    {
        x.out += mem.str();
        if (bad) x.err.push_back(at + why);
    }
    c.label(bad ? "message with errors" : "good message");
}

std::string junk(Gen& g)
{
    static const char* const bits[] = {"B", "BUF", "CREX", "CREX+", "++", "\r\n", "7777", "BUFFUR", "\x01\r\r\n123\r\r\nIUSN01 EGRR\r\r\n", "\x03"};
    std::string r;
    for (unsigned i = g.size(5); i; --i) r += g.boolean() ? std::string(g.pick(bits)) : g.bytes(g.size(12));
    for (size_t p; (p = r.find("BUFR")) != std::string::npos; ) r[p + 3] = '_';
    for (size_t p; (p = r.find("CREX++")) != std::string::npos; ) r[p + 5] = '_';
    return r;
}

std::string bufr_message(Gen& g)
{
    std::string m;
    switch (g.draw(8))
    {
        case 0: m = fuzz::soup_message(g); break;
        case 1: m = fuzz::mutate_bufr(g, g.pick(fuzz::bufr_samples()).data); break;
        case 2: m = fuzz::mutate(g, g.pick(fuzz::bufr_samples()).data, fuzz::bufr_samples()); break;
        case 3: case 4: m = g.pick(fuzz::bufr_samples()).data; break;
        default:
        {
            ref::GenOpts o;
            o.small = true;
            ref::Message rm = ref::gen_message(g, o);
            m = ref::write(rm, g, rm.compressible && g.boolean());
            break;
        }
    }
    if (m.size() > 60000) m.resize(2000);
    // Make most of them have the right length, so that the file can be read
    if (m.size() >= 12 && !m.compare(0, 4, "BUFR") && g.chance(7, 8)) { m[4] = m.size() >> 16; m[5] = m.size() >> 8; m[6] = m.size(); }
    return m;
}

std::string crex_message(Gen& g)
{
    std::string m;
    if (g.chance(1, 3)) m = g.pick(fuzz::crex_samples()).data;
    else
    {
        refc::GenOpts o;
        o.small = true;
        m = refc::write(refc::gen_message(g, o), g);
        size_t e = m.rfind("7777");
        m.resize(e + 4);
    }
    if (g.chance(1, 3)) m = fuzz::mutate(g, m, fuzz::crex_samples());
    else if (g.chance(1, 4))
    {
        // Operators that only work in BUFR
        static const std::vector<const char*> ops = {"C05010", "C03012", "C04008", "C06008", "C07003", "C08004", "C22000", "C23000", "C23255", "C36000", "C37000", "R01004"};
        std::vector<size_t> pos;
        for (size_t p = 0; (p = m.find(" B", p)) != std::string::npos && p < 4000; ++p) if (p + 7 <= m.size()) pos.push_back(p + 1);
        if (!pos.empty()) m.replace(g.pick(pos), 6, g.pick(ops));
    }
    return m;
}

std::string slurp(const std::string& p) { return fuzz::slurp(p); }
void spew(const std::string& p, const std::string& data)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f || (data.size() && fwrite(data.data(), data.size(), 1, f) != 1) || fclose(f)) { perror(p.c_str()); _exit(99); }
}

struct Result { int status; std::string out, err; };
Result wrep(const std::vector<std::string>& args, const std::string& dir)
{
    static const char* exe = getenv("WREP_EXE");
    if (!exe) { fprintf(stderr, "WREP_EXE is not set\n"); _exit(99); }
    std::vector<char*> argv = {const_cast<char*>(exe)};
    for (const auto& a: args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    std::vector<char*> env;
    for (char** e = environ; *e; ++e)
        if (strncmp(*e, "ASAN_OPTIONS=", 13) && strncmp(*e, "UBSAN_OPTIONS=", 14)) env.push_back(*e);
    char asan[] = "ASAN_OPTIONS=detect_leaks=0:exitcode=77:allocator_may_return_null=0", ubsan[] = "UBSAN_OPTIONS=print_stacktrace=0";
    env.push_back(asan); env.push_back(ubsan); env.push_back(nullptr);
    std::string o = dir + "/stdout", e = dir + "/stderr";
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    pid_t pid;
    int r = posix_spawn(&pid, exe, &fa, nullptr, argv.data(), env.data());
    posix_spawn_file_actions_destroy(&fa);
    if (r) { fprintf(stderr, "cannot run %s: %s\n", exe, strerror(r)); _exit(99); }
    int st;
    while (waitpid(pid, &st, 0) == -1) if (errno != EINTR) _exit(99);
    return {st, slurp(o), slurp(e)};
}

std::string cmdline(const std::vector<std::string>& args)
{
    std::string r = "wrep";
    for (const auto& a: args) r += " " + quote(a, 200);
    return r;
}

void no_crash(const Result& r, const std::vector<std::string>& args)
{
    PBT_CHECK(WIFEXITED(r.status), cmdline(args) << " was killed by signal " << WTERMSIG(r.status) << ": " << quote(r.err, 600));
    PBT_CHECK(WEXITSTATUS(r.status) != 77 && r.err.find("ERROR: AddressSanitizer") == std::string::npos, cmdline(args) << ": " << quote(r.err, 1500));
    PBT_CHECK(r.err.find("runtime error:") == std::string::npos, cmdline(args) << ": " << quote(r.err, 1500));
    PBT_CHECK(WEXITSTATUS(r.status) == 0 || WEXITSTATUS(r.status) == 1, cmdline(args) << " exits with status " << WEXITSTATUS(r.status) << ": " << quote(r.err, 600));
}

std::string first_diff(const std::string& a, const std::string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t s = i > 60 ? i - 60 : 0;
    return strf("at byte %zu: ", i) + quote(a.substr(s, 200)) + " instead of " + quote(b.substr(s, 200));
}

void run_files(Ctx& c, const std::string& dir)
{
    Gen& g = c.g;
    bool crex = g.chance(1, 3);
    Act act = (Act)g.cycle(8);
    std::vector<Varcode> seen;
    struct File { std::string name; std::vector<Found> msgs; End end = CLEAN; bool opens = true; };
    std::vector<File> files;
    static const char* const names[] = {"a.bufr", "some name", "%s%n", "b", "very-long-name-to-see-how-columns-are-aligned.data"};
    unsigned nf = 1 + g.size(2);
    std::string all;
    struct Made { std::vector<std::string> l; void push_back(const std::string& n) { l.push_back(n); } ~Made() { for (auto& n: l) remove(n.c_str()); } } made;
    for (unsigned i = 0; i < nf; ++i)
    {
        File f;
        f.name = dir + strf("/%u", i) + g.pick(names);
        unsigned kind = g.draw(12);
        if (kind == 11) { f.opens = false; c.label("missing file"); }
        else if (kind == 10) { f.opens = false; mkdir(f.name.c_str(), 0755); made.push_back(f.name); c.label("directory"); }
        else
        {
            std::string data;
            unsigned n = g.size(4);
            for (unsigned j = 0; j < n; ++j)
            {
                if (g.boolean()) data += junk(g);
                data += crex ? crex_message(g) : bufr_message(g);
            }
            if (g.boolean()) data += junk(g);
            if (!data.empty() && g.chance(1, 10)) data.resize(g.draw(data.size()));
            f.end = crex ? scan_crex(data, f.msgs) : scan_bufr(data, f.msgs);
            for (const auto& m: f.msgs)
            {
                if (!crex && fuzz::expensive(m.data)) throw Discard("expensive to decode");
            }
            spew(f.name, data);
            made.push_back(f.name);
            all += data;
            c.label(f.end == CLEAN ? "file read to its end" : "file with a cut message");
        }
        files.push_back(f);
    }
    // Codes to print
    std::vector<Varcode> codes;
    std::string codelist;
    if (act == PRINT)
    {
        for (const auto& f: files)
            for (const auto& m: f.msgs)
                try {
                    std::unique_ptr<Bulletin> b;
                    if (crex) b = CrexBulletin::decode(m.data); else b = BufrBulletin::decode(m.data);
                    for (const auto& s: b->subsets) for (const auto& v: s) seen.push_back(v.code());
                } catch (error&) {}
        unsigned n = 1 + g.size(g.chance(1, 4) ? 40 : 5);
        for (unsigned i = 0; i < n; ++i)
        {
            Varcode code = !seen.empty() && g.chance(4, 5) ? g.pick(seen) : WR_VAR(g.draw(4), g.draw(64), g.draw(256));
            codes.push_back(code);
            if (i) codelist += ',';
            codelist += g.boolean() ? std::string(1, "BRCD"[WR_VAR_F(code)]) + fxy(code).substr(1) : fxy(code);
        }
    }
    // Command line
    std::vector<std::string> args;
    bool verbose = g.chance(1, 8);
    if (crex) args.push_back(g.boolean() ? "-c" : "--crex");
    if (verbose) args.push_back(g.boolean() ? "-v" : "--verbose");
    if (act == DUMP && g.boolean()) {}   // It is the default
    else if (act == PRINT)
        switch (g.draw(4))
        {
            case 0: args.push_back("--print=" + codelist); break;
            case 1: args.push_back("--print"); args.push_back(codelist); break;
            case 2: args.push_back("-p" + codelist); break;
            case 3: args.push_back("-p"); args.push_back(codelist); break;
        }
    else
        args.push_back(g.boolean() ? short_opts[act] : long_opts[act]);
    for (const auto& f: files) args.push_back(f.name);

    Expect x;
    bool head = false;
    for (const auto& f: files)
    {
        for (const auto& m: f.msgs) expect_message(c, act, crex, codes, m, f.name, head, x);
        if (!f.opens || f.end != CLEAN) x.err.push_back(f.name + ":");
    }
    c.set_sample(cmdline(args) + strf(" %zu bytes of input, %zu bytes of output, %zu errors: ", all.size(), x.out.size(), x.err.size()) + quote(all, 200));
    Result r = wrep(args, dir);
    no_crash(r, args);
    PBT_CHECK(WEXITSTATUS(r.status) == 0, cmdline(args) << " exits with status " << WEXITSTATUS(r.status) << ": " << quote(r.err, 400));
    PBT_CHECK(r.out == x.out, cmdline(args) << ": output differs " << first_diff(r.out, x.out) << "; stderr: " << quote(r.err, 400));
    // Every problem is reported, in order
    size_t pos = 0;
    for (const auto& e: x.err)
    {
        size_t p = pos;
        for (;;)
        {
            p = r.err.find(e, p);
            PBT_CHECK(p != std::string::npos, cmdline(args) << ": stderr does not have " << quote(e) << " after " << pos << ": " << quote(r.err, 1000));
            if (p == 0 || verbose || r.err[p - 1] == '\n') break;   // Notes can lack a newline
            ++p;
        }
        pos = p + e.size();
    }
    if (x.err.empty() && !verbose) PBT_CHECK(r.err.empty(), cmdline(args) << ": unexpected " << quote(r.err, 400));
    c.label(std::string(crex ? "CREX " : "BUFR ") + long_opts[act]);
    c.nontrivial(cmdline(args).substr(0, 20) + all);
}

void run_options(Ctx& c, const std::string& dir)
{
    Gen& g = c.g;
    std::vector<std::string> args;
    switch (g.draw(6))
    {
        case 0:
        {
            args = {g.boolean() ? "-h" : "--help"};
            Result r = wrep(args, dir);
            no_crash(r, args);
            PBT_CHECK(WEXITSTATUS(r.status) == 0 && r.err.empty(), cmdline(args) << ": status " << WEXITSTATUS(r.status) << ", " << quote(r.err));
            for (const char* o: long_opts) PBT_CHECK(r.out.find(o) != std::string::npos, cmdline(args) << " does not show " << o);
            break;
        }
        case 1:
        {
            args = {g.boolean() ? "-i" : "--info"};
            Result r = wrep(args, dir);
            no_crash(r, args);
            PBT_CHECK(WEXITSTATUS(r.status) == 0, cmdline(args) << ": status " << WEXITSTATUS(r.status) << ", " << quote(r.err));
            PBT_CHECK(r.out.find(getenv("WREPORT_TABLES")) != std::string::npos, cmdline(args) << " does not show the directory of the tables");
            break;
        }
        case 2:
        {
            args = {g.boolean() ? "-L" : "--list-tables"};
            Result r = wrep(args, dir);
            no_crash(r, args);
            Mem m;
            tabledir::Tabledirs::get().print(m.f);
            PBT_CHECK(WEXITSTATUS(r.status) == 0 && r.out == m.str(), cmdline(args) << ": status " << WEXITSTATUS(r.status) << ", " << first_diff(r.out, m.str()));
            break;
        }
        case 3:
        {
            // Nothing to read
            if (g.boolean()) args.push_back(short_opts[g.pick({0, 1, 2, 3, 5, 6, 7})]);
            Result r = wrep(args, dir);
            no_crash(r, args);
            PBT_CHECK(WEXITSTATUS(r.status) == 1 && !r.err.empty() && r.out.empty(), cmdline(args) << ": status " << WEXITSTATUS(r.status));
            break;
        }
        case 4:
        {
            // Option that does not exist
            std::string o = "-";
            o += g.pick(std::vector<char>{'x', 'z', 'Q', '1', 'u'});
            args = {o, "/dev/null"};
            Result r = wrep(args, dir);
            no_crash(r, args);
            PBT_CHECK(WEXITSTATUS(r.status) == 1 && !r.err.empty(), cmdline(args) << ": status " << WEXITSTATUS(r.status));
            break;
        }
        case 5:
        {
            // Any text as list of codes
            static const char* const bits[] = {"B01001", ",", "B", "X01001", "001001", "B0100", "B01001 ", "foobar", "B01-01", "-", "D", "B99999999", "foo", "B01O01", "b01001"};
            std::string l;
            bool bad = false;
            if (g.boolean()) for (unsigned i = g.size(6); i; --i) l += g.pick(bits);
            else
            {
                static const char* const wrong[] = {"X01001", "foobar", "A01001", "Q12345", "?01001"};
                if (g.boolean()) l = "B01001,";
                l += g.pick(wrong);
                if (g.boolean()) l += ",B01002";
                bad = true;
            }
            args = {g.boolean() ? "-p" : "--print", l, "/dev/null"};
            Result r = wrep(args, dir);
            no_crash(r, args);
            if (bad) PBT_CHECK(WEXITSTATUS(r.status) == 1 && !r.err.empty(), cmdline(args) << ": status " << WEXITSTATUS(r.status) << ", " << quote(r.err));
            break;
        }
    }
    c.set_sample(cmdline(args));
    c.label("options");
    c.nontrivial(cmdline(args));
}

void run(Ctx& c)
{
    c.evaluations = 1;
    std::string dir = scratch_dir();
    if (c.g.chance(1, 20)) run_options(c, dir);
    else run_files(c, dir);
}

void init() { model::init_tables(); fuzz::bufr_samples(); fuzz::crex_samples(); refc::tabs(); }

Register r({"C26", "runs of the wrep program on one to three files (also missing ones and directories) made of generated, sample, corrupted and arbitrary messages with junk between them, with each of its actions and forms of options; the expected output is made with the library for each message found in the bytes; non trivial: every run; distinct: action and input bytes",
        run, init, 4000, 60000, true});
}
