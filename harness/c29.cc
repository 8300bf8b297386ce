// C29: exceptions carry their code and their whole message
#include "pbt.h"
#include <wreport/error.h>
#include <cerrno>
#include <memory>
#include <regex.h>
#include <typeinfo>

using namespace wreport;
using namespace pbt;

namespace {

// What is known of an exception after it was caught
struct Seen
{
    bool thrown = false;
    std::string type, what, std_what;
    int code = -1;
};

template<typename E, typename F>
Seen thrown(F f)
{
    Seen s;
    try {
        f();
    } catch (E& e) {
        s.thrown = true;
        s.type = typeid(e).name();
        s.what = e.what();
        s.code = e.code();
        // A copy outlives the original
        std::unique_ptr<E> copy(new E(e));
        e.msg = nullptr == copy.get() ? "" : "changed";
        if (s.what != copy->what()) PBT_FAIL("the copy of the exception says " << quote(copy->what()) << " instead of " << quote(s.what));
    }
    // The same through the base classes
    try { f(); } catch (error& e) { s.std_what = e.what(); if (e.code() != s.code) PBT_FAIL("code seen as error " << e.code() << " or " << s.code); }
    if (s.what != s.std_what) PBT_FAIL("message seen as error " << quote(s.std_what) << " or " << quote(s.what));
    try { f(); } catch (std::exception& e) { s.std_what = e.what(); }
    if (s.what != s.std_what) PBT_FAIL("message seen as exception " << quote(s.std_what) << " or " << quote(s.what));
    return s;
}

std::string message(Gen& g)
{
    // Lengths around the sizes of usual buffers
    static const unsigned sizes[] = {0, 1, 15, 16, 31, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8192, 70000};
    size_t n = g.boolean() ? g.size(60) : (size_t)std::max<int64_t>(0, (int64_t)g.pick(sizes) + g.range(-1, 1));
    std::string s;
    if (n < 300) s = g.boolean() ? g.ascii(n) : g.bytes(n);
    else { std::string unit = g.ascii(7); while (s.size() < n) s += unit; s.resize(n); }
    for (auto& c: s) if (!c) c = '%';
    return s;
}

template<typename E>
void plain(Ctx& c, const char* name, ErrorCode code)
{
    Gen& g = c.g;
    std::string m = message(g);
    int n = (int)g.edgy(-2147483647, 2147483647);
    double d = (double)g.range(-100000, 100000) / 16;
    std::string formatted = m + strf("|%d|%.3f|%%|%5s|", n, d, "ab");
    Seen a = thrown<E>([&] { throw E(m); });
    Seen b = thrown<E>([&] { E::throwf("%s|%d|%.3f|%%|%5s|", m.c_str(), n, d, "ab"); });
    PBT_CHECK(a.thrown && b.thrown, name << " is not thrown");
    PBT_CHECK(a.code == code && b.code == code, name << " has code " << a.code << " and " << b.code << " instead of " << code);
    PBT_CHECK(a.what == m, name << " made with " << quote(m, 100) << " of " << m.size() << " says " << quote(a.what, 100) << " of " << a.what.size());
    PBT_CHECK(b.what == formatted, name << "::throwf gives " << quote(b.what, 100) << " of " << b.what.size() << " instead of " << quote(formatted, 100) << " of " << formatted.size());
    PBT_CHECK(a.type == b.type, name << "::throwf throws another type");
    c.set_sample(strf("%s %zu characters", name, m.size()));
    if (!m.empty()) c.nontrivial(name + formatted);
}

void run(Ctx& c)
{
    Gen& g = c.g;
    switch (g.cycle(12))
    {
        case 0: plain<error_notfound>(c, "error_notfound", WR_ERR_NOTFOUND); break;
        case 1: plain<error_type>(c, "error_type", WR_ERR_TYPE); break;
        case 2: plain<error_handles>(c, "error_handles", WR_ERR_HANDLES); break;
        case 3: plain<error_toolong>(c, "error_toolong", WR_ERR_TOOLONG); break;
        case 4: plain<error_consistency>(c, "error_consistency", WR_ERR_CONSISTENCY); break;
        case 5: plain<error_unimplemented>(c, "error_unimplemented", WR_ERR_UNIMPLEMENTED); break;
        case 6: plain<error_domain>(c, "error_domain", WR_ERR_DOMAIN); break;
        case 7: {
            // The reason is the one of errno when the exception is made
            std::string m = message(g);
            int en = (int)g.range(1, 133), other = (int)g.range(0, 133);
            std::string want = m + ": " + ::strerror(en);
            Seen a = thrown<error_system>([&] { errno = other; throw error_system(m, en); });
            Seen b = thrown<error_system>([&] { errno = en; throw error_system(m); });
            Seen d = thrown<error_system>([&] { errno = en; error_system::throwf("%s", m.c_str()); });
            PBT_CHECK(a.thrown && b.thrown && d.thrown, "error_system is not thrown");
            PBT_CHECK(a.code == WR_ERR_SYSTEM && b.code == WR_ERR_SYSTEM && d.code == WR_ERR_SYSTEM, "code of error_system");
            PBT_CHECK(a.what == want, "error_system with explicit errno " << en << " says " << quote(a.what, 200) << " instead of " << quote(want, 200));
            PBT_CHECK(b.what == want, "error_system with errno " << en << " says " << quote(b.what, 200) << " instead of " << quote(want, 200));
            PBT_CHECK(d.what == want, "error_system::throwf with errno " << en << " says " << quote(d.what, 200) << " instead of " << quote(want, 200));
            c.set_sample(strf("error_system errno %d", en));
            c.nontrivial("sys" + want);
            break;
        }
        case 8: {
            std::string m = message(g), file = g.ascii(g.size(30));
            int line = (int)g.edgy(-1, 2147483647);
            std::string want = file + ":" + std::to_string(line) + ": " + m;
            Seen a = thrown<error_parse>([&] { throw error_parse(file.c_str(), line, m); });
            Seen b = thrown<error_parse>([&] { error_parse::throwf(file.c_str(), line, "%s", m.c_str()); });
            Seen d = thrown<error_parse>([&] { throw error_parse(m); });
            PBT_CHECK(a.thrown && b.thrown && d.thrown, "error_parse is not thrown");
            PBT_CHECK(a.code == WR_ERR_PARSE && b.code == WR_ERR_PARSE && d.code == WR_ERR_PARSE, "code of error_parse");
            PBT_CHECK(a.what == want, "error_parse says " << quote(a.what, 200) << " instead of " << quote(want, 200));
            PBT_CHECK(b.what == want, "error_parse::throwf says " << quote(b.what, 200) << " instead of " << quote(want, 200));
            PBT_CHECK(d.what == m, "error_parse says " << quote(d.what, 200) << " instead of " << quote(m, 200));
            c.set_sample(strf("error_parse %s line %d", file.c_str(), line));
            c.nontrivial("parse" + want);
            break;
        }
        case 9: {
            static const char* bad[] = {"(", "[a", "*a", "a\\{2", "a{3,1}", "[[:foo:]]", "a)", "\\"};
            std::string m = message(g);
            const char* pat = g.pick(bad);
            regex_t re;
            int rc = regcomp(&re, pat, REG_EXTENDED);
            if (rc == 0) { regfree(&re); throw Discard("valid expression"); }
            char details[512];
            regerror(rc, &re, details, sizeof(details));
            std::string want = m + ": " + details;
            Seen a = thrown<error_regexp>([&] { throw error_regexp(rc, &re, m); });
            Seen b = thrown<error_regexp>([&] { error_regexp::throwf(rc, &re, "%s", m.c_str()); });
            PBT_CHECK(a.thrown && b.thrown && a.code == WR_ERR_REGEX && b.code == WR_ERR_REGEX, "error_regexp type and code");
            PBT_CHECK(a.what == want && b.what == want, "error_regexp says " << quote(a.what, 200) << " and " << quote(b.what, 200) << " instead of " << quote(want, 200));
            c.set_sample(std::string("error_regexp ") + pat);
            c.nontrivial("re" + want);
            break;
        }
        case 10: {
            std::string m = message(g);
            bool ok = false;
            try { throw error_alloc(m.c_str()); } catch (error& e) { ok = e.code() == WR_ERR_ALLOC && m == e.what(); }
            PBT_CHECK(ok, "error_alloc with " << quote(m, 100));
            c.nontrivial("alloc" + m);
            break;
        }
        default: {
            // One description for each code
            static const char* words[] = {"no error", "not found", "type", "memory", "ODBC", "handle", "too short", "system", "consistency", "parse", "write", "expression", "not implemented", "domain"};
            unsigned k = (unsigned)g.draw(14);
            const char* d = error::strerror((ErrorCode)k);
            PBT_CHECK(d && strstr(d, words[k]), "strerror(" << k << ") is " << (d ? d : "null"));
            c.set_sample(strf("strerror %u", k));
            c.nontrivial(strf("strerror%u", k));
            break;
        }
    }
}

Register r({"C29", "messages of lengths around buffer sizes, with any bytes, formatted arguments, every errno, file names and lines, thrown through every exception class and its throwf and caught as itself, as wreport::error and as std::exception; code and whole text compared; non trivial: message not empty; distinct: class and text",
        run, nullptr, 400000, 8000000, true});
}
