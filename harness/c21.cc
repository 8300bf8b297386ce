// C21: re-encoding a decoded message preserves its content; decoding depends on the bytes only
#include "fuzz.h"
#include "refcrex.h"
#include <wreport/error.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace wreport;
using namespace pbt;
using model::code_t;

namespace {

template<typename F> bool attempt(F f, std::string* msg = nullptr)
{
    try { f(); return true; } catch (wreport::error& e) { if (msg) *msg = e.what(); return false; }
}

// Everything that decoding gives, as text
uint64_t fingerprint(const Bulletin& b)
{
    std::string t = strf("%u %u %u %u %u %u %u %u-%u-%u %u:%u:%u %zu", b.master_table_number, b.data_category, b.data_subcategory, b.data_subcategory_local,
        b.originating_centre, b.originating_subcentre, b.update_sequence_number, b.rep_year, b.rep_month, b.rep_day, b.rep_hour, b.rep_minute, b.rep_second, b.subsets.size());
    t += b.tables.btable ? b.tables.btable->path().string() : "";
    for (auto d: b.datadesc) t += model::codestr(d);
    if (auto bb = dynamic_cast<const BufrBulletin*>(&b))
        t += strf(" %u %u %u", bb->edition_number, bb->master_table_version_number, bb->master_table_version_number_local) + bb->optional_section;
    if (auto bb = dynamic_cast<const CrexBulletin*>(&b))
        t += strf(" %u %u %u %u", bb->edition_number, bb->master_table_version_number, bb->master_table_version_number_bufr, bb->has_check_digit);
    uint64_t h = hash_str(t);
    for (const auto& s: b.subsets)
        for (const auto& v: s)
        {
            std::string x = ref::var_text(v) + model::describe(v.info());
            for (const Var* a = v.next_attr(); a; a = a->next_attr()) x += " attr " + ref::var_text(*a) + model::describe(a->info());
            h = hash_bytes(x.data(), x.size(), h);
        }
    return h;
}

std::unique_ptr<Bulletin> decode(bool crex, const std::string& buf)
{
    if (crex) return CrexBulletin::decode(buf);
    return BufrBulletin::decode(buf);
}

struct Known { bool crex; std::string name, data; uint64_t fp; };
std::vector<Known> known;

// Result of decoding each sample in a process that decoded nothing else
void init()
{
    model::init_tables();
    refc::tabs();
    std::map<std::string, unsigned> per_file;
    auto add = [&](bool crex, const fuzz::Sample& s) {
        if (s.data.size() > 40000 || (!crex && fuzz::expensive(s.data))) return;
        // The name of the file, and the number of the message
        if (++per_file[s.name.substr(0, s.name.find('#'))] > 3) return;
        known.push_back({crex, s.name, s.data, 1});
    };
    for (const auto& s: fuzz::bufr_samples()) add(false, s);
    for (const auto& s: fuzz::crex_samples()) add(true, s);
    std::vector<int> fds;
    for (size_t i = 0; i < known.size() + 8; ++i)
    {
        if (i < known.size())
        {
            int p[2];
            if (pipe(p)) abort();
            if (fork() == 0)
            {
                uint64_t fp = 0;
                try { fp = fingerprint(*decode(known[i].crex, known[i].data)); } catch (wreport::error&) {}
                if (write(p[1], &fp, sizeof fp) != sizeof fp) _exit(1);
                _exit(0);
            }
            close(p[1]);
            fds.push_back(p[0]);
        }
        // Eight at a time
        if (i >= 8)
        {
            uint64_t fp = 0;
            if (read(fds[i - 8], &fp, sizeof fp) != sizeof fp) fp = 1;
            close(fds[i - 8]);
            known[i - 8].fp = fp;
        }
    }
    while (wait(nullptr) > 0) ;
}

// Decode, encode, decode, encode
bool reencode(Ctx& c, bool crex, const std::string& buf, std::string* why)
{
    auto d1 = decode(crex, buf);
    // Before edition 4 there is only the year of the century: outside of 0..100 it has no meaning
    if (auto b = dynamic_cast<BufrBulletin*>(d1.get()))
        if (b->edition_number < 4 && (b->rep_year > 2050 || b->rep_year < 1951)) throw Discard("invalid year");
    std::string e1;
    uint64_t before = fingerprint(*d1);
    if (!attempt([&] { e1 = d1->encode(); }, why)) return false;
    PBT_CHECK(fingerprint(*d1) == before, "encoding changed the bulletin");
    std::unique_ptr<Bulletin> d2;
    std::string w;
    if (!attempt([&] { d2 = decode(crex, e1); }, &w)) PBT_FAIL("the encoded message does not decode: " << w << " " << hex(e1, 3000));
    // The optional section is padded
    if (auto b = dynamic_cast<BufrBulletin*>(d1.get()))
    {
        if (b->optional_section.size() % 2) b->optional_section += '\0';
    }
    ref::compare_bulletins(*d1, *d2, "decoded before and after encoding", true, true);
    // White space at the end of strings is not kept
    for (const auto& s: d1->subsets)
        for (const auto& v: s)
        {
            if (!v.isset() || v.info()->type != Vartype::String) continue;
            std::string t = v.enqc();
            if (!t.empty() && isspace((unsigned char)t.back()) && t.back() != ' ') return true;
        }
    std::string e2 = d2->encode();
    PBT_CHECK(e1 == e2, "encoding what was encoded gives different bytes: " << hex(e1, 2000) << " and " << hex(e2, 2000));
    return true;
}

void run(Ctx& c)
{
    Gen& g = c.g;
    c.evaluations = 1;
    std::string why;
    switch (g.draw(6))
    {
        case 0:
        {
            // Any order
            unsigned n = 1 + g.size(6);
            std::string names;
            for (unsigned i = 0; i < n; ++i)
            {
                const Known& k = g.pick(known);
                names += " " + k.name;
                uint64_t fp = 0;
                std::string m;
                attempt([&] { auto b = decode(k.crex, k.data); fp = fingerprint(*b); }, &m);
                PBT_CHECK(fp == k.fp, "decoding " << k.name << " gives a different result after other messages: " << (fp ? "" : m));
            }
            c.set_sample("decode in turn" + names);
            c.label("order");
            c.nontrivial(names);
            break;
        }
        case 1:
        {
            const Known& k = g.pick(known);
            c.set_sample("sample " + k.name);
            if (!k.fp) throw Discard("does not decode");
            if (reencode(c, k.crex, k.data, &why)) c.label("sample re-encoded");
            else PBT_FAIL("sample " << k.name << " decodes but cannot be encoded: " << why);
            c.nontrivial(k.name);
            break;
        }
        case 2:
        {
            const Known& k = g.pick(known);
            if (!k.crex) throw Discard("BUFR");
            std::string buf = k.data;
            // Digits, letters and signs of CREX samples
            unsigned n = 1 + g.size(8);
            for (unsigned i = 0; i < n; ++i)
            {
                size_t p = g.draw(buf.size());
                if (isdigit((unsigned char)buf[p])) buf[p] = '0' + g.draw(10);
                else if (isalpha((unsigned char)buf[p])) buf[p] = 'A' + g.draw(26);
            }
            // Category, with and without subcategory
            size_t a = buf.find(" A");
            if (a != std::string::npos && g.chance(1, 3))
            {
                size_t e = a + 2;
                while (e < buf.size() && isdigit((unsigned char)buf[e])) ++e;
                std::string cat = strf("%03u", (unsigned)g.edgy(0, 255));
                if (g.boolean()) cat += strf("%03u", (unsigned)g.edgy(0, 254));
                buf.replace(a + 2, e - a - 2, cat);
            }
            c.set_sample("changed " + k.name + " " + quote(buf));
            if (!attempt([&] { decode(true, buf); })) throw Discard("does not decode");
            if (reencode(c, true, buf, &why)) { c.label("CREX variation re-encoded"); c.nontrivial(buf); }
            else c.label("CREX variation not encoded");
            break;
        }
        default:
        {
            std::string desc, buf;
            if (g.boolean())
            {
                // Variations in the data of samples
                const Known& k = g.pick(known);
                if (k.crex || !k.fp || k.data.size() > 20000) throw Discard("not a small BUFR sample");
                ref::Parsed p;
                buf = k.data;
                desc = k.name;
                try { p = ref::parse(k.data, false); } catch (Fail&) { throw Discard("unusual layout"); }
                unsigned n = 1 + g.size(10);
                for (unsigned i = 0; i < n; ++i)
                {
                    size_t lo = p.sec[4] + 4, hi = p.sec[5];
                    if (hi <= lo || hi > buf.size()) throw Discard("no data");
                    size_t at = lo + g.draw(hi - lo);
                    if (g.boolean()) buf[at] ^= 1 << g.draw(8); else buf[at] = (char)g.byte();
                }
            }
            else buf = fuzz::bufr_input(g, &desc);
            c.set_sample(desc + " " + hex(buf, 2000));
            if (fuzz::expensive(buf)) throw Discard("work out of proportion with the size of the message");
            if (!attempt([&] { decode(false, buf); })) throw Discard("does not decode");
            if (reencode(c, false, buf, &why)) { c.label("BUFR variation re-encoded"); c.nontrivial(buf); }
            else c.label("BUFR variation not encoded");
            break;
        }
    }
}

Register r({"C21", "the sample messages, variations of their bytes and random messages that still decode: decoded, encoded, decoded, encoded; and samples decoded in random order in one process, compared with a decode in a process of their own; non trivial: re-encoded, or decoded in order; distinct: bytes",
        run, init, 25000, 500000, true});
}
