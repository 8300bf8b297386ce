// Independent implementation of the FM-95 CREX format: template generator,
// writer and parser, written from the WMO manual. Only build() and compare()
// touch the library's API.
#ifndef REFCREX_H
#define REFCREX_H
#include "model.h"
#include <wreport/bulletin.h>

namespace refc {
using model::code_t;
using pbt::Gen;

struct Tab
{
    unsigned edition = 0, version = 0;
    model::BTable b;
    model::DTable d;
    std::vector<const model::BEntry*> nums, strs;
    std::vector<code_t> seqs;
    const model::BEntry* find(code_t c) const { auto i = b.find(c); return i == b.end() || !i->second.has_crex ? nullptr : &i->second; }
};
inline bool is_string(const model::BEntry& e) { return e.cunit == "CHARACTER"; }
// One for each combination of edition and version that can be used
const std::vector<Tab>& tabs();

struct CVar
{
    code_t code = 0;
    bool factor = false, str = false;
    unsigned width = 0;
    bool set = false;
    int64_t val = 0;       // value * 10^scale
    std::string s;
    std::string show() const;
};

struct Message
{
    const Tab* tab = nullptr;
    unsigned cat = 0, subcat = 255;
    bool check = false;
    std::vector<code_t> desc;
    std::vector<std::vector<CVar>> subsets;
    unsigned n_delayed = 0, n_missing = 0, n_neg = 0, n_str = 0, n_seq = 0, n_rep = 0, n_wide = 0, n_explicit = 0;
    std::string describe() const;
};

struct GenOpts
{
    bool small = false;
    bool wide = false;   // 10 digit fields can also have values beyond 32 bits
};
Message gen_message(Gen& g, const GenOpts& o);

// Values of a field
int64_t max_value(unsigned width);

// Text of the message; g decides separators and presence of the optional section
std::string write(const Message& m, Gen& g);

// Throws pbt::Fail if text is not a CREX text with the contents of m
void check_text(const Message& m, const std::string& text);

std::unique_ptr<wreport::CrexBulletin> build(const Message& m);
// Throws pbt::Fail if they differ
void compare(const Message& m, const wreport::CrexBulletin& b, const char* what);
std::string letter_code(code_t c);
}
#endif
