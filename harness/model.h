// Reference models, written from the documentation and the WMO manual,
// independent of the library's own code paths.
#ifndef MODEL_H
#define MODEL_H
#include "pbt.h"
#include <wreport/error.h>
#include <wreport/varinfo.h>
#include <wreport/var.h>
#include <wreport/vartable.h>
#include <memory>
#include <deque>
#include <set>
#include <map>

namespace model {

typedef uint16_t code_t;
inline code_t fxy(unsigned f, unsigned x, unsigned y) { return (code_t)((f << 14) | (x << 8) | y); }
inline unsigned F(code_t c) { return c >> 14; }
inline unsigned X(code_t c) { return (c >> 8) & 0x3f; }
inline unsigned Y(code_t c) { return c & 0xff; }
std::string codestr(code_t c);

// One line of a table B file
struct BEntry
{
    code_t code = 0;
    std::string desc, unit;
    int scale = 0;
    int ref = 0;
    unsigned bits = 0;
    bool has_crex = false;
    std::string cunit;
    int cscale = 0;
    unsigned clen = 0;
    bool is_string() const { return unit == "CCITTIA5"; }
};

typedef std::map<code_t, BEntry> BTable;
typedef std::map<code_t, std::vector<code_t>> DTable;

// Parse table files with code of our own
BTable load_b(const std::string& path);
DTable load_d(const std::string& path);
// Recursive expansion of a list of descriptors
bool expand_d(const DTable& t, code_t code, std::vector<code_t>& out, unsigned depth = 0);

std::string tables_dir();
std::vector<std::string> list_tables(char letter);

// Numeric range that a definition allows
void range(unsigned x, unsigned len, int ref, unsigned bits, int64_t& imin, int64_t& imax);
// Decimal digits for a bit width, as for entries of a BUFR table B
unsigned digits(unsigned bits);
// raw * 10^-scale
long double scaled(int64_t raw, int scale);
// Exact decimal representation of raw * 10^-scale, with max(scale, 0) decimals
std::string decimal_text(int64_t raw, int scale);

// Kind of the exception thrown by f: "" if none
enum Err { E_NONE, E_DOMAIN, E_TYPE, E_NOTFOUND, E_CONSISTENCY, E_PARSE, E_TOOLONG, E_UNIMPL, E_SYSTEM, E_ALLOC, E_ODBC, E_HANDLES, E_REGEXP, E_WRITE, E_OTHER };
Err caught(const std::function<void()>& f, std::string* msg = nullptr);
const char* errname(Err e);

// Definitions of variables, kept alive for the duration of a case
struct InfoPool
{
    std::deque<std::unique_ptr<wreport::_Varinfo>> infos;
    wreport::_Varinfo* add() { infos.emplace_back(new wreport::_Varinfo); memset((void*)infos.back().get(), 0x5a, sizeof(wreport::_Varinfo)); return infos.back().get(); }
    // Any definition the library can represent
    wreport::Varinfo any(pbt::Gen& g);
    wreport::Varinfo numeric(pbt::Gen& g);
    wreport::Varinfo string(pbt::Gen& g);
    wreport::Varinfo binary(pbt::Gen& g);
    // From a shipped table
    wreport::Varinfo shipped(pbt::Gen& g);
};
std::string describe(wreport::Varinfo i);

void init_tables();
const wreport::Vartable* main_btable();
}
#endif
