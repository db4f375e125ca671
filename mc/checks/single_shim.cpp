// The single-file distribution with its namespace renamed (see run.py), and
// the harness's driver compiled against it.
#include "engine.hpp"
#include "Argos/Argos.cpp"

namespace mc_single
{
    using mc::Chooser;
    using mc::client_call;
    using mc::ExitCalled;
    using mc::Fail;
    using mc::hash64;
    using mc::show;
}
#define mc mc_single
#define MC_SINGLE
#include "real.cpp"
#include "checks/single_driver.inc"

// The two sets of harness types have the same layout.
std::string single_transcript(const void* spec, const std::vector<std::string>& line, int mode)
{
    return mc::transcript(*static_cast<const mc::ParserSpec*>(spec), line, mode);
}

std::string single_constants() { return mc::constants(); }

size_t single_spec_size() { return sizeof(mc::ParserSpec) * 1000003 + sizeof(mc::OptSpec) * 1009 + sizeof(mc::ArgSpec); }
