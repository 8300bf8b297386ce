// Inputs for decoders: sample messages, mutations and random templates
#ifndef FUZZ_H
#define FUZZ_H
#include "refbufr.h"
#include <sanitizer/allocator_interface.h>

namespace fuzz {
using pbt::Gen;
using model::code_t;

std::string repo_dir();
// Every message of the sample archive, with the name of its file
struct Sample { std::string name; std::string data; };
const std::vector<Sample>& bufr_samples();
const std::vector<Sample>& crex_samples();
std::string slurp(const std::string& path);

// Edit bytes at random
std::string mutate(Gen& g, std::string buf, const std::vector<Sample>& other);
// Like mutate, but aware of the sections of a BUFR message
std::string mutate_bufr(Gen& g, std::string buf);
// Random list of descriptors
std::vector<code_t> soup(Gen& g, const ref::Tab& t, unsigned max);
// Well formed envelope around a random template and random data
std::string soup_message(Gen& g, std::string* desc = nullptr);
// Any input for a BUFR decoder
std::string bufr_input(Gen& g, std::string* desc, bool* known_good = nullptr);

// Independent bound on the work that decoding the message can take: true if
// it can be out of proportion with its size (zero width replications, huge
// numbers of subsets)
bool expensive(const std::string& buf);
bool expensive_template(const std::vector<code_t>& l, unsigned vars);

// Open a stream that discards everything, but formats it
FILE* null_stream();
// Use everything a bulletin offers for reading
void inspect(const wreport::Bulletin& b);

// Memory that f keeps every time it runs. What it keeps only the first time is
// not lost: tables and the definitions derived from them are loaded once
template<typename F> size_t leaked(F f)
{
    f();
    size_t growth = 0;
    for (unsigned i = 0; i < 3; ++i)
    {
        size_t before = __sanitizer_get_current_allocated_bytes();
        f();
        size_t after = __sanitizer_get_current_allocated_bytes();
        if (after <= before) return 0;
        growth = after - before;
    }
    return growth;
}
}
#endif
