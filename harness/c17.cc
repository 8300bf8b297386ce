// C17: variable codes and descriptor lists parse, print and slice correctly
#include "model.h"
#include <wreport/opcodes.h>
#include <climits>
#include <cstdlib>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

std::string opprint(const Opcodes& o)
{
    char* buf = nullptr;
    size_t len = 0;
    FILE* f = open_memstream(&buf, &len);
    o.print(f);
    fclose(f);
    std::string res(buf, len);
    free(buf);
    return res;
}

void check_list(const Opcodes& o, const std::vector<Varcode>& m, const std::string& what)
{
    PBT_CHECK(o.size() == m.size(), what << ": size " << o.size() << " expected " << m.size());
    PBT_CHECK(o.empty() == m.empty(), what << ": empty");
    PBT_CHECK(o.head() == (m.empty() ? 0 : m[0]), what << ": head");
    for (unsigned i = 0; i < m.size(); ++i)
        PBT_CHECK(o[i] == m[i], what << ": element " << i << " is " << codestr(o[i]) << " expected " << codestr(m[i]));
    std::string p;
    for (Varcode c: m) p += strf("%u%02u%03u ", F(c), X(c), Y(c));
    if (m.empty()) p = "(empty)";
    PBT_CHECK(opprint(o) == p, what << ": printed as " << quote(opprint(o)));
}

void run_list(Ctx& ctx)
{
    Gen& g = ctx.g;
    unsigned n = g.size(12);
    // Exactly sized heap buffer: any access outside is seen by the sanitizer
    std::vector<Varcode> src;
    src.reserve(n);
    for (unsigned i = 0; i < n; ++i) src.push_back((Varcode)(1 + g.draw(65535)));
    std::vector<Varcode> orig(src);
    std::unique_ptr<Varcode[]> exact(new Varcode[n]);
    std::copy(src.begin(), src.end(), exact.get());
    Opcodes full = g.boolean() ? Opcodes(src) : Opcodes(exact.get(), exact.get() + n);
    Opcodes cur(full);
    std::vector<Varcode> m(src);
    std::string log = strf("list of %u", n);
    unsigned steps = 1 + g.size(10);
    unsigned moved = 0;
    auto idx = [&]() -> unsigned {
        switch (g.draw(4))
        {
            case 0: return (unsigned)g.draw(m.size() + 1);
            case 1: return (unsigned)m.size() + (unsigned)g.draw(3);
            case 2: return g.boolean() ? UINT_MAX : (unsigned)INT_MAX;
            default: return (unsigned)g.draw(m.size() + 3);
        }
    };
    for (unsigned s = 0; s < steps && !g.exhausted(); ++s)
    {
        switch (g.draw(7))
        {
            case 0: {
                log += "; pop_left";
                Varcode c = 0;
                Err e = caught([&] { c = cur.pop_left(); });
                if (m.empty()) PBT_CHECK(e == E_CONSISTENCY, log << " on empty: " << errname(e));
                else
                {
                    PBT_CHECK(e == E_NONE && c == m[0], log << " returned " << codestr(c));
                    m.erase(m.begin());
                    ++moved;
                }
                break;
            }
            case 1: {
                unsigned c = idx();
                log += strf("; pop_left(%u)", c);
                Opcodes res(full);
                Err e = caught([&] { res = cur.pop_left(c); });
                if (c > m.size()) PBT_CHECK(e == E_CONSISTENCY, log << ": " << errname(e));
                else
                {
                    PBT_CHECK(e == E_NONE, log);
                    check_list(res, std::vector<Varcode>(m.begin(), m.begin() + c), log + " result");
                    m.erase(m.begin(), m.begin() + c);
                    ++moved;
                }
                break;
            }
            case 2: {
                log += "; next";
                cur = cur.next();
                if (!m.empty()) { m.erase(m.begin()); ++moved; }
                break;
            }
            case 3: {
                unsigned c = idx();
                log += strf("; sub(%u)", c);
                cur = cur.sub(c);
                m.erase(m.begin(), c > m.size() ? m.end() : m.begin() + c);
                ++moved;
                break;
            }
            case 4: {
                unsigned c = idx(), l = idx();
                log += strf("; sub(%u,%u)", c, l);
                cur = cur.sub(c, l);
                m.erase(m.begin(), c > m.size() ? m.end() : m.begin() + c);
                if (l < m.size()) m.resize(l);
                ++moved;
                break;
            }
            case 5: {
                unsigned i = idx();
                log += strf("; [%u]", i);
                Varcode c = cur[i];
                PBT_CHECK(c == (i < m.size() ? m[i] : 0), log << " is " << codestr(c));
                break;
            }
            case 6:
                log += "; restart";
                cur = full;
                m = orig;
                break;
        }
        check_list(cur, m, log);
        check_list(full, orig, log + " (whole list)");
    }
    if (n && moved) ctx.nontrivial(log + hex(std::string((const char*)orig.data(), orig.size() * 2)));
    ctx.label("lists");
    ctx.set_sample(log);
}

void run_code(Ctx& ctx)
{
    Gen& g = ctx.g;
    Varcode code = (Varcode)g.cycle(65536);
    unsigned f = code >> 14, x = (code >> 8) & 63, y = code & 255;
    PBT_CHECK(WR_VAR(f, x, y) == code && WR_VAR_F(code) == f && WR_VAR_X(code) == x && WR_VAR_Y(code) == y, "packing of " << code);
    static const char letters[] = "BRCD";
    std::string text = strf("%c%02u%03u", letters[f], x, y);
    PBT_CHECK(varcode_format(code) == text, "code " << code << " formats as " << varcode_format(code) << " expected " << text);
    PBT_CHECK(varcode_parse(text.c_str()) == code, text << " parses as " << varcode_parse(text.c_str()));
    std::string num = strf("%u%02u%03u", f, x, y);
    PBT_CHECK(varcode_parse(num.c_str()) == code, num << " parses as " << varcode_parse(num.c_str()));
    ctx.label("codes");
    ctx.nontrivial((uint64_t)code + 1);
    ctx.set_sample(text);
}

void run_string(Ctx& ctx)
{
    Gen& g = ctx.g;
    // Text that is not a code
    std::string s = varcode_format((Varcode)g.draw(65536));
    if (g.boolean()) s[0] = "0123"[WR_VAR_F(varcode_parse(s.c_str()))];
    bool bad = true;
    switch (g.draw(3))
    {
        case 0:
            s.resize(g.draw(6));
            break;
        case 1: {
            // Unknown first letter
            char c = (char)g.draw(256);
            if (strchr("BRCD0123", c) && c) c = 'X';
            if (!c) c = 'Q';
            s[0] = c;
            break;
        }
        case 2:
            s.clear();
            break;
    }
    // Exactly sized copy
    std::unique_ptr<char[]> p(new char[s.size() + 1]);
    memcpy(p.get(), s.c_str(), s.size() + 1);
    if (bad)
    {
        Err e = caught([&] { varcode_parse(p.get()); });
        PBT_CHECK(e != E_NONE, quote(s) << " was accepted as a code");
    }
    ctx.label("not codes");
    ctx.nontrivial(s + "!");
    ctx.set_sample(quote(s));
}

void run(Ctx& ctx)
{
    switch (ctx.g.draw(4))
    {
        case 0: run_code(ctx); break;
        case 1: run_string(ctx); break;
        default: run_list(ctx); break;
    }
}

pbt::Register r({"C17",
    "A case is one of: one of the 65536 codes formatted and parsed in both forms, a string that is not a code, or a descriptor list with a random sequence of pop/slice/index operations compared with a vector model (exactly sized buffers under ASan). Non-trivial: codes, rejected strings, and list histories with at least one slice on a non-empty list.",
    run, nullptr, 1600000, 40000000, true});
}
