// Stateless bounded-exhaustive explorer.
//
// A family is a body that makes finitely many finite choices (Chooser::pick);
// the engine runs the body once for every complete choice sequence (depth
// first, partitioned over forked workers), so the explored set is exactly the
// choice tree.  A choice sequence identifies an execution and replays it.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
    struct Fail
    {
        std::string sig; // stable identification of what failed
        std::string msg; // full description
    };

    struct PrefixEnd
    {
        uint32_t arity;
    };

    // Thrown by the exit() stand-in (see exit_hook.hpp).
    struct ExitCalled
    {
        int code;
    };

    class Chooser
    {
    public:
        // Returns a number in [0, n). Choices with one alternative are not
        // recorded.
        uint32_t pick(uint32_t n);

        template <typename T>
        const T& of(const std::vector<T>& v)
        {
            return v[pick(uint32_t(v.size()))];
        }

        bool flip() { return pick(2) != 0; }

        // Coverage reported by the body.
        void state(uint64_t hash);
        void state(const std::string& s);
        void step(uint64_t n = 1);
        void trace(uint64_t n = 1);
        void outcome(const std::string& s); // distinct observed outcomes

        // A description of this case, kept for a few cases only.
        template <typename F>
        void sample(F&& f)
        {
            if (wants_sample())
                add_sample(f());
        }
        bool wants_sample();
        void add_sample(const std::string& s);

        [[noreturn]] void fail(const std::string& sig, const std::string& msg);

        // engine side
        std::vector<uint32_t> choices, arities;
        size_t pos = 0;
        bool expanding = false;
        size_t expand_len = 0;
    };

    struct Family
    {
        std::string name;
        std::string bounds; // what is enumerated, in words
        std::function<void(Chooser&)> body;
    };

    struct Check
    {
        std::string id;
        std::vector<Family> families;
        std::vector<std::string> assumptions;
        std::string level_note;
    };

    enum class Tier { QUICK, THOROUGH };

    // Defined by each checks/Pxx.cpp
    Check make_check(Tier tier);

    uint64_t hash64(const void* data, size_t n, uint64_t seed = 1469598103934665603ull);
    inline uint64_t hash64(const std::string& s, uint64_t seed = 1469598103934665603ull)
    {
        return hash64(s.data(), s.size(), seed);
    }

    // Escapes for messages.
    std::string show(const std::string& s);
    std::string show(const std::vector<std::string>& v);

    // live heap allocations made through operator new
    long live_allocations();

    // A kind of event that can be made to fail at a chosen occurrence.
    struct Faults
    {
        bool armed = false;
        bool lasting = false; // all occurrences from the chosen one on
        long at = 0;          // 0: none
        long count = 0, struck = 0;

        void arm(long n, bool all_later = false) { *this = {true, all_later, n, 0, 0}; }
        void disarm() { armed = false; }
        bool strikes()
        {
            if (!armed)
                return false;
            ++count;
            const bool r = at && (count == at || (lasting && count > at));
            struck += r;
            return r;
        }
    };
    Faults& allocation_faults(); // operator new
    Faults& client_faults();     // calls of the client's functions

    // What the client's functions throw when made to fail.
    struct Boom
    {
        long which;
    };
    // Throws something else than Boom, if set.
    inline std::function<void(long)> client_thrower;
    // Something to do whenever one of the client's functions is called.
    extern thread_local std::function<void()>* client_hook;
    inline void client_call()
    {
        if (client_hook && *client_hook)
            (*client_hook)();
        auto& f = client_faults();
        if (f.strikes())
        {
            if (client_thrower)
                client_thrower(f.count);
            throw Boom{f.count};
        }
    }
}
