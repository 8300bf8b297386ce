// C13: loading a table D returns exactly the sequences in the file
#include "model.h"
#include <wreport/dtable.h>
#include <wreport/opcodes.h>
#include <wreport/tables.h>
#include <unistd.h>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

struct Loaded { std::string name; model::DTable model; const wreport::DTable* bufr; const wreport::DTable* crex; };
std::vector<Loaded> shipped;
unsigned long serial = 0;

void check_query(const wreport::DTable* t, const model::DTable& m, Varcode c, const std::string& what)
{
    auto i = m.find(c);
    if (i == m.end())
    {
        PBT_CHECK(caught([&] { t->query(c); }) == E_NOTFOUND, what << ": query of missing " << codestr(c));
        return;
    }
    Opcodes o = t->query(c);
    std::vector<Varcode> got;
    for (unsigned j = 0; j < o.size(); ++j) got.push_back(o[j]);
    if (got != i->second)
    {
        std::string e, g;
        for (auto x: i->second) e += codestr(x) + " ";
        for (auto x: got) g += codestr(x) + " ";
        PBT_FAIL(what << ": " << codestr(c) << " is " << g << "expected " << e);
    }
}

bool expand_lib(const wreport::DTable* t, Varcode c, std::vector<Varcode>& out, unsigned depth = 0)
{
    if (WR_VAR_F(c) != 3) { out.push_back(c); return true; }
    if (depth > 50) return false;
    Opcodes o(nullptr, nullptr);
    if (caught([&] { o = t->query(c); }) != E_NONE) return false;
    while (!o.empty())
        if (!expand_lib(t, o.pop_left(), out, depth + 1)) return false;
    return true;
}

void run(Ctx& ctx)
{
    Gen& g = ctx.g;
    if (g.chance(1, 4))
    {
        Loaded& l = shipped[g.cycle(shipped.size())];
        std::string what = "table " + l.name;
        for (unsigned n = 0; n < 30; ++n)
        {
            Varcode c = g.boolean() ? (Varcode)g.draw(65536) : fxy(3, (unsigned)g.draw(64), (unsigned)g.draw(256));
            if (n < 15)
            {
                auto i = l.model.begin();
                std::advance(i, (long)g.draw(l.model.size()));
                c = i->first;
            }
            check_query(l.bufr, l.model, c, what);
            check_query(l.crex, l.model, c, what + " (crex)");
            if (n < 5)
            {
                std::vector<Varcode> a, b;
                bool ra = expand_d(l.model, c, a), rb = expand_lib(l.bufr, c, b);
                PBT_CHECK(ra == rb && (!ra || a == b), what << ": recursive expansion of " << codestr(c));
            }
        }
        ctx.label("shipped");
        ctx.nontrivial(hash_str(what) ^ g.draw(0));
        ctx.set_sample(what);
        return;
    }
    // Generated file
    bool crex = g.boolean();
    std::vector<std::pair<Varcode, std::vector<Varcode>>> seqs;
    unsigned n = 1 + g.size(25);
    std::vector<std::string> lines;
    std::vector<size_t> starts;
    static const char letters[] = "BRCD";
    for (unsigned i = 0; i < n; ++i)
    {
        Varcode code = fxy(3, (unsigned)g.draw(64), (unsigned)g.draw(256));
        std::vector<Varcode> items;
        unsigned k = 1 + g.size(9);
        if (g.chance(1, 30)) k = (unsigned)g.range(95, 110);
        else if (g.chance(1, 60)) k = (unsigned)(g.boolean() ? g.range(250, 260) : g.edgy(200, 999));
        for (unsigned j = 0; j < k; ++j)
            items.push_back(fxy((unsigned)g.draw(4), (unsigned)g.draw(64), (unsigned)g.draw(256)));
        seqs.push_back(std::make_pair(code, items));
        starts.push_back(lines.size());
        auto fmt = [&](Varcode c) {
            if (crex) return strf("%c%02u%03u", letters[F(c)], X(c), Y(c));
            return strf("%u%02u%03u", F(c), X(c), Y(c));
        };
        for (unsigned j = 0; j < k; ++j)
        {
            std::string pad = g.chance(1, 8) ? " " : "";
            if (j == 0) lines.push_back(" " + fmt(code) + strf("%3u", k) + " " + fmt(items[0]) + pad);
            else lines.push_back("           " + fmt(items[j]) + pad);
        }
    }
    // Sometimes in order, as it should be
    model::DTable m;
    for (const auto& s: seqs) m[s.first] = s.second;
    std::string defect;
    if (g.chance(1, 3))
    {
        size_t i = g.draw(lines.size());
        switch (g.draw(11))
        {
            case 0: lines[i] = lines[i].substr(0, g.draw(17)); defect = "line too short"; break;
            case 1: {
                // Wrong count: one less or one more
                size_t s = starts[g.draw(starts.size())];
                unsigned k = (unsigned)atoi(lines[s].substr(7, 3).c_str());
                k = g.boolean() ? k + 1 : k - 1;
                lines[s].replace(7, 3, strf("%3u", k));
                defect = "wrong count";
                break;
            }
            case 2: lines.insert(lines.begin() + (long)i + 1, "           001001"); if (i + 1 == lines.size() - 1 || true) defect = "extra line"; break;
            case 3: lines[i][0] = 'x'; if (lines[i][1] == 'D' || lines[i][1] == '3') { lines[i][0] = ' '; lines[i][1] = 'X'; } defect = "unrecognized line"; break;
            case 4: lines.insert(lines.begin(), "           001001"); defect = "expansion before first entry"; break;
            case 5: lines.clear(); defect = "empty file"; break;
            case 6: {
                // Remove a line of a sequence
                lines.erase(lines.begin() + (long)i);
                bool single = false;
                for (size_t q = 0; q < starts.size(); ++q)
                    if (starts[q] == i && seqs[q].second.size() == 1) single = true;
                if (single && lines.size())
                {
                    // A whole entry is gone
                    m.clear();
                    for (size_t q = 0; q < seqs.size(); ++q)
                        if (starts[q] != i) m[seqs[q].first] = seqs[q].second;
                    defect = "";
                } else
                    defect = "missing line";
                break;
            }
            case 8: {
                // Text where a continuation line must be blank
                std::vector<size_t> conts;
                for (size_t q = 0; q < lines.size(); ++q)
                    if (lines[q].compare(0, 11, "           ") == 0) conts.push_back(q);
                if (conts.empty()) break;
                size_t col = g.draw(11);
                static const char junk[] = "x0129BCRZ-*.";
                lines[conts[g.draw(conts.size())]][col] = junk[g.draw(sizeof(junk) - 1)];
                defect = "text in the indent";
                break;
            }
            case 9: {
                // A character of a code is not a digit, nor the letter or number of a kind of code
                static const char junk[] = "xEAZ/-:@ ";
                lines[i][11 + g.draw(6)] = junk[g.draw(sizeof(junk) - 1)];
                if (lines[i].size() > 17 && lines[i].substr(11).find_last_not_of(' ') == 5) lines[i] = lines[i].substr(0, 17);
                defect = "bad code";
                break;
            }
            case 10: {
                // A character of the code that a sequence defines is not a digit
                static const char junk[] = "xEAZ/-:@ ";
                lines[starts[g.draw(starts.size())]][2 + g.draw(5)] = junk[g.draw(sizeof(junk) - 1)];
                defect = "bad sequence code";
                break;
            }
            case 7: lines[i] += std::string(200 + g.draw(300), ' '); defect = "line too long"; break;
        }
    }
    std::string text;
    for (const auto& l: lines) text += l + "\n";
    std::string path = scratch_dir() + strf("/D%lu.txt", serial++);
    FILE* f = fopen(path.c_str(), "w");
    if (!f) throw Discard("cannot write");
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    std::string what = strf("generated table of %zu lines %s", lines.size(), defect.c_str());
    const wreport::DTable* t = nullptr;
    std::string msg;
    Err e = caught([&] { t = crex ? wreport::DTable::load_crex(path) : wreport::DTable::load_bufr(path); }, &msg);
    if (defect == "line too long" && e == E_NONE) defect = "";
    if (defect.empty())
    {
        PBT_CHECK(e == E_NONE, what << ": " << errname(e) << " " << msg);
        PBT_CHECK(t->path() == path && t->pathname() == path, what << ": path");
        for (const auto& s: m) check_query(t, m, s.first, what);
        for (unsigned i = 0; i < 10; ++i) check_query(t, m, (Varcode)g.draw(65536), what);
        PBT_CHECK((crex ? wreport::DTable::load_crex(path) : wreport::DTable::load_bufr(path)) == t, what << ": loaded again");
        ctx.label("generated");
    } else {
        PBT_CHECK(e != E_NONE && e != E_SYSTEM && e != E_NOTFOUND, what << ": expected an error, got " << errname(e) << " " << msg << "\n" << text);
        e = caught([&] { t = crex ? wreport::DTable::load_crex(path) : wreport::DTable::load_bufr(path); }, &msg);
        PBT_CHECK(e != E_NONE, what << ": accepted the second time");
        ctx.label(defect);
    }
    unlink(path.c_str());
    ctx.nontrivial(text);
    ctx.set_sample(what + (lines.empty() ? "" : ", first line " + quote(lines[0], 40)));
}

void init()
{
    for (const std::string& n: list_tables('D'))
    {
        Loaded l;
        l.name = n;
        std::string path = tables_dir() + "/" + n + ".txt";
        l.model = load_d(path);
        l.bufr = wreport::DTable::load_bufr(path);
        l.crex = wreport::DTable::load_crex(path);
        // All the codes in the table, their neighbours, and some of the others
        std::string what = "table " + n;
        for (unsigned c = 0; c < 65536; ++c)
            if (l.model.count((Varcode)c) || l.model.count((Varcode)(c + 1)) || l.model.count((Varcode)(c - 1)) || c % 101 == 0)
                check_query(l.bufr, l.model, (Varcode)c, what);
        for (const auto& i: l.model)
        {
            std::vector<Varcode> a, b;
            bool ra = expand_d(l.model, i.first, a), rb = expand_lib(l.bufr, i.first, b);
            PBT_CHECK(ra == rb && (!ra || a == b), "table " << n << ": recursive expansion of " << codestr(i.first));
        }
        shipped.push_back(l);
    }
    PBT_CHECK(shipped.size() > 20, "no tables found");
    PBT_CHECK(caught([] { wreport::DTable::load_bufr("/nonexistent/D.txt"); }) == E_SYSTEM, "missing file");
}

pbt::Register r({"C13",
    "A case is a shipped table D (each compared with an independent parse for all its codes and their neighbours and expanded recursively at start, then queried at random in both formats) or a generated BUFR/CREX file with 1-26 sequences in any order (a third of them with a wrong count, a bad code, text in the indent, or a short, long, extra, missing or unrecognized line). Non-trivial: every case, distinct by file content or queries.",
    run, init, 100000, 2500000, true});
}
