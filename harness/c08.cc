// C08: text forms of a variable round trip exactly
#include "model.h"
#include <climits>
#include <sstream>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

std::string file_format(const Var& v, const char* undef)
{
    char* buf = nullptr;
    size_t len = 0;
    FILE* f = open_memstream(&buf, &len);
    v.format(f, undef);
    fclose(f);
    std::string res(buf, len);
    free(buf);
    return res;
}

std::string file_print(const Var& v)
{
    char* buf = nullptr;
    size_t len = 0;
    FILE* f = open_memstream(&buf, &len);
    v.print(f);
    fclose(f);
    std::string res(buf, len);
    free(buf);
    return res;
}

std::string file_print_line(const Var& v, const char* end)
{
    char* buf = nullptr;
    size_t len = 0;
    FILE* f = open_memstream(&buf, &len);
    v.print_without_attrs(f, end);
    fclose(f);
    std::string res(buf, len);
    free(buf);
    return res;
}

void check_print(const Var& v, const std::string& val, const std::string& what)
{
    Varinfo i = v.info();
    std::string desc(i->desc);
    std::string line = codestr(i->code).substr(0) + "";
    // The code is printed as 6 digits, then the description and the unit
    std::string digits = strf("%u%02u%03u", F(i->code), X(i->code), Y(i->code));
    std::string tail = std::string("(") + i->unit + "): " + val;
    std::string expected = digits + " " + desc.substr(0, 64) + tail;
    std::string got = file_print_line(v, "<END>");
    PBT_CHECK(got == expected + "<END>", what << ": print_without_attrs printed " << quote(got) << " expected " << quote(expected));
    got = file_print(v);
    PBT_CHECK(got == expected + "\n", what << ": print printed " << quote(got) << " expected " << quote(expected));
    std::ostringstream ss;
    v.print(ss);
    // The stream form uses the letter form of the code, but has the same value
    std::string s = ss.str();
    PBT_CHECK(s.size() > tail.size() && s.substr(s.size() - tail.size() - 1) == tail + "\n", what << ": stream print " << quote(s));
    PBT_CHECK(s.find(varcode_format(i->code)) == 0, what << ": stream print " << quote(s));
}

void run(Ctx& ctx)
{
    Gen& g = ctx.g;
    InfoPool pool;
    Varinfo info;
    switch (g.draw(8))
    {
        case 0: info = pool.string(g); break;
        case 1: info = pool.binary(g); break;
        case 2: case 3: info = pool.shipped(g); break;
        default: info = pool.numeric(g); break;
    }
    std::string what = describe(info);
    Var var(info);
    // Unset
    PBT_CHECK(var.format() == "" && var.format("xx") == "xx" && file_format(var, "xx") == "xx" && file_format(var, "") == "", what << ": format of unset");
    check_print(var, "(undef)", what + " unset");
    Var fromempty(info);
    if (info->type != Vartype::Binary)
    {
        fromempty.setf("");
        PBT_CHECK(!fromempty.isset(), what << ": setf of empty");
    }
    ctx.label(vartype_format(info->type));
    switch (info->type)
    {
        case Vartype::Integer:
        case Vartype::Decimal: {
            int64_t imin, imax;
            model::range(X(info->code), info->len, info->bit_ref, info->bit_len, imin, imax);
            if (imin > imax) throw Discard("empty range");
            int64_t raw = g.edgy(imin, imax);
            what += strf(" raw %lld", (long long)raw);
            var.seti((int)raw);
            std::string text = var.format("undef");
            std::string exact = decimal_text(raw, info->scale);
            size_t digits = 0;
            for (char c: exact) if (isdigit(c)) ++digits;
            long double mag = fabsl(scaled(raw, info->scale));
            if (info->scale >= 0 || mag < 9007199254740992.0L)
            {
                // Sign of zero
                if (raw == 0 && text[0] == '-') text.erase(0, 1);
                PBT_CHECK(text == exact, what << ": formatted as " << text << " expected " << exact);
                ctx.label("exact text");
            } else {
                // Past 2^53 doubles cannot hold all the digits
                PBT_CHECK(text.find_first_not_of("-0123456789") == std::string::npos
                          && fabsl(strtold(text.c_str(), nullptr) - scaled(raw, info->scale)) <= mag * 1e-15L, what << ": formatted as " << text << " expected about " << exact);
            }
            PBT_CHECK(file_format(var, "undef") == var.format("undef"), what << ": format to file differs: " << file_format(var, ""));
            check_print(var, var.format(), what);
            // Round trips
            Var v1(info);
            v1.setf(var.format().c_str());
            PBT_CHECK(v1.isset() && v1.enqi() == raw && v1 == var, what << ": setf(" << text << ") gives " << (v1.isset() ? v1.enqs() : "unset"));
            Var v2(info);
            v2.setc(var.enqc());
            PBT_CHECK(v2 == var && v2.enqi() == raw, what << ": setc(enqc)");
            PBT_CHECK(std::to_string(raw) == var.enqc() && var.enqs() == std::to_string(raw), what << ": enqc is " << var.enqc());
            Var v3(info);
            v3.sets(var.enqs());
            PBT_CHECK(v3 == var, what << ": sets(enqs)");
            Var v4(info);
            v4.seti(var.enqi());
            PBT_CHECK(v4 == var, what << ": seti(enqi)");
            Var v5(info);
            v5.setd(var.enqd());
            PBT_CHECK(v5.isset() && v5.enqi() == raw, what << ": setd(enqd) gives " << (v5.isset() ? v5.enqs() : "unset"));
            // enqc does not keep memory of other variables
            Var other(info);
            other.seti((int)imin);
            std::string t1 = var.enqc();
            other.enqc();
            PBT_CHECK(t1 == var.enqc(), what << ": enqc after another enqc");
            ctx.nontrivial(hash_str(what));
            ctx.set_sample(what + " -> " + text);
            break;
        }
        case Vartype::String: {
            std::string val = g.ascii(g.boolean() ? g.size(info->len + 4) : (unsigned)g.range(0, info->len));
            std::string exp = val.substr(0, info->len);
            switch (g.draw(3))
            {
                case 0: var.setc(val.c_str()); break;
                case 1: var.sets(val); break;
                default: if (val.empty()) var.setc(""); else var.setf(val.c_str()); break;
            }
            what += " " + quote(val);
            PBT_CHECK(var.isset(), what << ": unset");
            PBT_CHECK(var.format("undef") == exp, what << ": format " << quote(var.format()));
            PBT_CHECK(file_format(var, "undef") == exp, what << ": format to file");
            PBT_CHECK(var.enqs() == exp && exp == var.enqc(), what << ": enqs/enqc");
            check_print(var, exp, what);
            Var v1(info);
            v1.setc(var.enqc());
            PBT_CHECK(v1 == var, what << ": setc(enqc)");
            Var v2(info);
            v2.sets(var.enqs());
            PBT_CHECK(v2 == var, what << ": sets(enqs)");
            if (!exp.empty())
            {
                Var v3(info);
                v3.setf(var.format().c_str());
                PBT_CHECK(v3 == var, what << ": setf(format)");
            }
            ctx.nontrivial(hash_str(what));
            ctx.set_sample(what);
            break;
        }
        case Vartype::Binary: {
            std::string val = g.bytes(info->len);
            var.sets(val);
            if (info->bit_len % 8) val[info->len - 1] = (char)(val[info->len - 1] & ((1 << (info->bit_len % 8)) - 1));
            what += " " + hex(val);
            std::string exp;
            for (char c: val) exp += strf("%02X", (unsigned)(uint8_t)c);
            PBT_CHECK(var.format("undef") == exp, what << ": format " << var.format());
            PBT_CHECK(file_format(var, "undef") == exp, what << ": format to file");
            check_print(var, exp, what);
            PBT_CHECK(var.enqs() == val, what << ": enqs " << hex(var.enqs()));
            Var v2(info);
            v2.sets(var.enqs());
            PBT_CHECK(v2 == var, what << ": sets(enqs)");
            ctx.nontrivial(hash_str(what));
            ctx.set_sample(what);
            break;
        }
    }
}

pbt::Register r({"C08",
    "A case is one variable definition (shipped or synthetic: scale -16..16, width 1..32 bits or 1..12 digits, strings, binary) and one value, formatted with format(), format(FILE), print, enqc, enqs and read back with setf/setc/sets/seti/setd; the expected text comes from exact integer arithmetic. Non-trivial: every case with a non-empty domain, distinct by definition and value.",
    run, init_tables, 800000, 30000000, true});
}
