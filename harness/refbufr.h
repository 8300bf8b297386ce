// Independent implementation of the FM-94 BUFR format: template generator,
// interpreter, writer (compressed and not) and parser, written from the WMO
// manual. It shares no code with the library; only build() and compare() touch
// its API.
#ifndef REFBUFR_H
#define REFBUFR_H
#include "model.h"
#include <wreport/bulletin.h>

namespace ref {
using model::code_t;
using pbt::Gen;

// Tables used by a message
struct Tab
{
    std::string bpath, dpath;
    model::BTable b;
    model::DTable d;
    std::vector<const model::BEntry*> nums, codes, strs;
    // Sequences made only of things the reference handles, with their size
    std::vector<code_t> seqs;
    std::map<code_t, unsigned> seq_size;
    std::map<code_t, bool> seq_plain;   // no operators, no class 31 outside factors
    const model::BEntry* find(code_t c) const { auto i = b.find(c); return i == b.end() ? nullptr : &i->second; }
};
const Tab* get_tab(const std::string& bpath, const std::string& dpath);

enum Kind { NUM, STR, BIN, CHARS, BITMAP };

struct RVar
{
    code_t code = 0;
    Kind kind = NUM;
    int scale = 0, refv = 0;
    unsigned bits = 0;
    bool altered = false;
    bool set = false;
    int64_t val = 0;       // value * 10^scale
    std::string str;
    std::vector<RVar> attrs;
    std::vector<code_t> undef;   // associated fields given as missing
};

// One field of section 4
struct Field
{
    enum Type { INT, TEXT, RAW } type = INT;
    unsigned bits = 0;
    uint64_t v = 0;
    std::string s;
    bool missing = false;
    bool uniform = false;  // must be the same in all the subsets
};

struct RSubset
{
    std::vector<RVar> vars;
    std::vector<Field> fields;
};

struct Header
{
    unsigned edition = 4, mtn = 0, cat = 0, subcat = 255, subcat_local = 255, centre = 0, subcentre = 0, usn = 0;
    unsigned year = 2000, month = 1, day = 1, hour = 0, minute = 0, second = 0;
    unsigned mtv = 24, mtvl = 0;
    std::string optional;
};

struct Message
{
    Header h;
    const Tab* tab = nullptr;
    std::vector<code_t> desc;
    std::vector<RSubset> subsets;
    bool same_shape = false;   // all subsets have the same structure
    bool compressible = false; // same_shape and only things that can be compressed
    unsigned n_bitmaps = 0, n_attrs = 0, n_af = 0, n_altered = 0, n_delayed = 0, n_strings = 0, n_missing = 0, n_reuse = 0;
    std::set<std::string> features;
    std::string describe() const;
};

struct GenOpts
{
    bool want_bitmaps = false;    // always add bitmap blocks
    bool allow_bitmaps = true;
    bool small = false;
    bool for_encode = false;      // only what an API user can ask the encoder for
    unsigned max_subsets = 4;
    bool only_compressible = false;
    bool allow_huge = false;      // now and then, sizes near the limits of the format
};

Message gen_message(Gen& g, const GenOpts& o);
Header gen_header(Gen& g);

// Bits of section 4
struct BitWriter
{
    std::string out;
    unsigned nbits = 0;
    void put(uint64_t v, unsigned n);
    void ones(unsigned n);
    void text(const std::string& s, unsigned bits);
    void field(const Field& f);
};
std::string data_uncompressed(const Message& m, unsigned* nbits = nullptr);
std::string data_compressed(const Message& m, Gen& g);
// Whole message; g decides the freedoms that the format allows
std::string write(const Message& m, Gen& g, bool compressed);

// Parsed structure of an encoded message
struct Parsed
{
    Header h;
    bool has_optional = false, compressed = false, observed = false;
    unsigned subsets = 0;
    std::vector<code_t> desc;
    std::string data;
    size_t sec[7];
};
// Throws pbt::Fail if the layout is not as prescribed
Parsed parse(const std::string& buf, bool even = true);

// Reference message to library bulletin
std::unique_ptr<wreport::BufrBulletin> build(const Message& m);
// Give some of the variables another definition that can hold the same value.
// Returns how many were changed
unsigned restate(pbt::Gen& g, const Message& m, wreport::BufrBulletin& b);
wreport::Var build_var(const wreport::Tables& t, const RVar& v, code_t bitmap_code = 0);
// Throws pbt::Fail if they differ
void compare(const Message& m, const wreport::BufrBulletin& b, const char* what, bool header = true);
void compare_vars(const std::vector<RVar>& exp, const wreport::Subset& s, const std::string& what);
// Exact comparison of two library bulletins
void compare_bulletins(const wreport::Bulletin& a, const wreport::Bulletin& b, const char* what, bool unset_attrs = true, bool trim = false);
std::string var_text(const wreport::Var& v);
}
#endif
