#include "engine.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <typeinfo>
#include <unordered_set>
#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

// ---------------------------------------------------------------- exit hook
int mc_exit_mode = 0; // 0: throw, 1: really exit

[[noreturn]] void mc_exit_hook(int code)
{
    if (mc_exit_mode == 1)
        ::exit(code);
    throw mc::ExitCalled{code};
}

// ------------------------------------------------------- allocation counter
static long g_live = 0;
static mc::Faults g_allocation_faults, g_client_faults;

mc::Faults& mc::allocation_faults() { return g_allocation_faults; }
thread_local std::function<void()>* mc::client_hook = nullptr;
mc::Faults& mc::client_faults() { return g_client_faults; }

void* operator new(size_t n)
{
    void* p = g_allocation_faults.strikes() ? nullptr : std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++g_live;
    return p;
}

void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    void* p = g_allocation_faults.strikes() ? nullptr : std::malloc(n ? n : 1);
    if (p)
        ++g_live;
    return p;
}

void operator delete(void* p) noexcept
{
    if (p)
    {
        --g_live;
        std::free(p);
    }
}

void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

#if defined(MC_RACES)
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:abort_on_error=1:report_thread_leaks=0:report_signal_unsafe=0:die_after_fork=0:handle_abort=0";
}
#endif
#if defined(MC_SANITIZED)
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3500:"
           "strict_string_checks=1:"
           "allocator_may_return_null=0:handle_abort=1:"
           "detect_container_overflow=0:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=0";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:abort_on_error=1:print_stacktrace=1";
}
#endif

namespace mc
{
    long live_allocations() { return g_live; }

    uint64_t hash64(const void* data, size_t n, uint64_t h)
    {
        auto p = static_cast<const unsigned char*>(data);
        for (size_t i = 0; i < n; ++i)
        {
            h ^= p[i];
            h *= 1099511628211ull;
        }
        h ^= h >> 29;
        return h;
    }

    std::string show(const std::string& s)
    {
        std::string r = "\"";
        size_t n = 0;
        for (unsigned char c : s)
        {
            if (++n > 300)
            {
                r += "...(" + std::to_string(s.size()) + " bytes)";
                break;
            }
            char buf[8];
            if (c == '"' || c == '\\')
                (r += '\\') += char(c);
            else if (c < 32 || c > 126)
            {
                snprintf(buf, sizeof buf, "\\x%02x", c);
                r += buf;
            }
            else
                r += char(c);
        }
        return r + "\"";
    }

    std::string show(const std::vector<std::string>& v)
    {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i)
        {
            if (i)
                r += ", ";
            r += show(v[i]);
        }
        return r + "]";
    }

    namespace
    {
        constexpr size_t MAX_CHOICES = 400;
        constexpr int MAX_WORKERS = 64;

        struct Slot
        {
            std::atomic<uint64_t> start_ms; // 0: idle
            std::atomic<uint32_t> prefix;
            std::atomic<uint32_t> n;
            uint32_t choices[MAX_CHOICES];
            std::atomic<uint64_t> execs, steps, traces;
        };

        struct Shared
        {
            std::atomic<uint32_t> next_prefix;
            std::atomic<uint32_t> stop;
            std::atomic<uint64_t> fam_execs[256];
            Slot slots[MAX_WORKERS];
        };

        struct Worker
        {
            std::unordered_set<uint64_t> states;
            std::set<std::string> outcomes, samples;
            uint64_t sample_calls = 0, next_sample = 1;
            uint64_t steps = 0, traces = 0;
        };

        Worker g_worker;
        Shared* g_shared = nullptr;
        std::chrono::steady_clock::time_point g_t0;

        uint64_t now_ms()
        {
            return uint64_t(std::chrono::duration_cast<std::chrono::milliseconds>(
                std::chrono::steady_clock::now() - g_t0).count()) + 1;
        }

        struct Prefix
        {
            uint32_t family;
            std::vector<uint32_t> choices;
        };

        struct Violation
        {
            uint32_t family = 0;
            std::vector<uint32_t> choices;
            std::string sig, msg;
            int worker = -1;
        };

        struct KnownFinding
        {
            std::string property, sig, text;
        };

        std::vector<KnownFinding> g_known;
        std::string g_check_id;

        bool is_known(const std::string& sig)
        {
            for (auto& k : g_known)
                if (k.property == g_check_id && k.sig == sig)
                    return true;
            return false;
        }

        // Runs one execution; returns true if it violated the property.
        bool run_one(const Family& f, Chooser& c, Violation& v)
        {
            c.pos = 0;
            try
            {
                f.body(c);
            }
            catch (Fail& e)
            {
                v.sig = e.sig;
                v.msg = e.msg;
                return true;
            }
            catch (PrefixEnd&)
            {
                throw;
            }
            catch (ExitCalled& e)
            {
                v.sig = "unexpected-exit";
                v.msg = "the library called exit(" + std::to_string(e.code) + ") where the harness expects no exit";
                return true;
            }
            catch (std::exception& e)
            {
                int st;
                char* nm = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
                v.sig = std::string("unexpected-exception:") + (nm ? nm : "?");
                v.msg = v.sig + ": " + e.what();
                free(nm);
                return true;
            }
            if (c.pos != c.choices.size())
            {
                std::cerr << "ENGINE: replay divergence in family " << f.name << "\n";
                _exit(97);
            }
            return false;
        }

        std::string choices_text(const std::vector<uint32_t>& ch)
        {
            std::string s;
            for (auto x : ch)
                s += (s.empty() ? "" : ",") + std::to_string(x);
            return s;
        }

        void write_violation(const std::string& path, const Violation& v)
        {
            std::ofstream o(path);
            o << v.family << "\n" << choices_text(v.choices) << "\n" << v.sig << "\n" << v.msg;
        }

        bool read_violation(const std::string& path, Violation& v)
        {
            std::ifstream i(path);
            if (!i)
                return false;
            std::string line;
            std::getline(i, line);
            v.family = uint32_t(std::stoul(line));
            std::getline(i, line);
            std::stringstream ss(line);
            std::string x;
            while (std::getline(ss, x, ','))
                v.choices.push_back(uint32_t(std::stoul(x)));
            std::getline(i, v.sig);
            std::stringstream rest;
            rest << i.rdbuf();
            v.msg = rest.str();
            return true;
        }

        std::string g_tmp;
        std::set<std::string> g_known_seen;

        // Explores every execution under the prefix.
        bool explore_prefix(const std::vector<Family>& fams, const Prefix& p,
                            uint32_t pi, Slot& slot, Violation& v, double deadline_ms)
        {
            Chooser c;
            c.choices = p.choices;
            c.arities.assign(p.choices.size(), 0);
            const size_t base = p.choices.size();
            const auto& f = fams[p.family];
            slot.prefix = pi;
            uint64_t execs = 0;
            while (true)
            {
                if (g_shared->stop)
                    return false;
                const auto n = std::min(c.choices.size(), MAX_CHOICES);
                memcpy(slot.choices, c.choices.data(), n * sizeof(uint32_t));
                slot.n = uint32_t(n);
                slot.start_ms = now_ms();
                bool bad = run_one(f, c, v);
                slot.execs++;
                if (bad)
                {
                    if (is_known(v.sig))
                    {
                        g_known_seen.insert(v.sig);
                    }
                    else
                    {
                        v.family = p.family;
                        // keep only the choices actually consumed
                        v.choices.assign(c.choices.begin(), c.choices.begin() + long(c.pos));
                        return true;
                    }
                    // a known failing execution may have stopped early
                    c.choices.resize(c.pos);
                    c.arities.resize(c.pos);
                }
                ++execs;
                while (c.choices.size() > base && c.choices.back() + 1 >= c.arities.back())
                {
                    c.choices.pop_back();
                    c.arities.pop_back();
                }
                if (c.choices.size() <= base)
                    break;
                c.choices.back()++;
                if ((execs & 255) == 0 && double(now_ms()) > deadline_ms)
                {
                    g_shared->stop = 2;
                    break;
                }
            }
            g_shared->fam_execs[p.family] += execs;
            return false;
        }

        // What worker w has been given, in order, so that it can be repeated.
        void note_prefix(int w, const Prefix& p)
        {
            static std::ofstream o(g_tmp + "/done." + std::to_string(w), std::ios::trunc);
            o << p.family << " " << choices_text(p.choices) << std::endl;
        }

        bool read_prefix(const std::string& line, Prefix& p)
        {
            const auto sp = line.find(' ');
            if (sp == std::string::npos)
                return false;
            p = {uint32_t(std::stoul(line.substr(0, sp))), {}};
            std::stringstream ss(line.substr(sp + 1));
            std::string x;
            while (std::getline(ss, x, ','))
                p.choices.push_back(uint32_t(std::stoul(x)));
            return true;
        }

        // Explores the listed prefixes one after another in one new process:
        // for a failure that depends on what the process did before.
        bool repeat_sequence(const Check& chk, const std::string& list, Violation& v, int limit_s)
        {
            const auto vf = g_tmp + "/sequence.viol";
            unlink(vf.c_str());
            fflush(nullptr);
            const pid_t pid = fork();
            if (pid == 0)
            {
                const int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 2);
                dup2(fd, 1);
                g_shared->stop = 0;
                std::ifstream i(list);
                std::string line;
                Slot& slot = g_shared->slots[MAX_WORKERS - 1];
                Prefix p;
                Violation x;
                while (std::getline(i, line))
                    if (read_prefix(line, p) && explore_prefix(chk.families, p, 0, slot, x, 1e18))
                    {
                        write_violation(vf, x);
                        _exit(1);
                    }
                _exit(0);
            }
            int st = 0;
            const auto t0 = now_ms();
            while (waitpid(pid, &st, WNOHANG) != pid)
            {
                if (now_ms() - t0 > uint64_t(limit_s) * 1000)
                {
                    kill(pid, SIGKILL);
                    waitpid(pid, &st, 0);
                    return false;
                }
                usleep(5000);
            }
            return WIFEXITED(st) && WEXITSTATUS(st) == 1 && read_violation(vf, v);
        }

        void worker_main(int w, const Check& chk, const std::vector<Prefix>& prefixes, double deadline_ms)
        {
            Slot& slot = g_shared->slots[w];
            while (!g_shared->stop)
            {
                const uint32_t i = g_shared->next_prefix++;
                if (i >= prefixes.size())
                    break;
                Violation v;
                note_prefix(w, prefixes[i]);
                if (explore_prefix(chk.families, prefixes[i], i, slot, v, deadline_ms))
                {
                    write_violation(g_tmp + "/viol." + std::to_string(w), v);
                    g_shared->stop = 1;
                    break;
                }
            }
            slot.start_ms = 0;
            slot.steps += g_worker.steps;
            slot.traces += g_worker.traces;
            {
                std::ofstream o(g_tmp + "/states." + std::to_string(getpid()), std::ios::binary);
                for (auto h : g_worker.states)
                    o.write(reinterpret_cast<const char*>(&h), sizeof h);
            }
            {
                std::ofstream o(g_tmp + "/outcomes." + std::to_string(getpid()));
                for (auto& s : g_worker.outcomes)
                    o << show(s) << "\n";
            }
            {
                std::ofstream o(g_tmp + "/samples." + std::to_string(getpid()));
                for (auto& s : g_worker.samples)
                {
                    auto t = s;
                    std::replace(t.begin(), t.end(), '\n', ' ');
                    o << t << "\n";
                }
            }
            {
                std::ofstream o(g_tmp + "/known." + std::to_string(getpid()));
                for (auto& s : g_known_seen)
                    o << s << "\n";
            }
            fflush(nullptr);
            _exit(0);
        }

        // Runs one case in a child of its own.
        // result: 0 held, 1 violated (v filled), 2 crashed (v filled), 3 timeout
        int run_alone(const Check& chk, uint32_t fam, const std::vector<uint32_t>& ch, int limit_s, Violation& v)
        {
            const auto vf = g_tmp + "/alone.viol", ef = g_tmp + "/alone.err";
            unlink(vf.c_str());
            fflush(nullptr);
            const pid_t pid = fork();
            if (pid == 0)
            {
                const int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                dup2(fd, 2);
                Chooser c;
                c.choices = ch;
                c.arities.assign(ch.size(), 0);
                Violation x;
                x.family = fam;
                bool bad = run_one(chk.families[fam], c, x);
                if (bad)
                {
                    x.choices = ch;
                    write_violation(vf, x);
                    _exit(1);
                }
                _exit(0);
            }
            int st = 0;
            const auto t0 = now_ms();
            while (true)
            {
                const auto r = waitpid(pid, &st, WNOHANG);
                if (r == pid)
                    break;
                if (now_ms() - t0 > uint64_t(limit_s) * 1000)
                {
                    kill(pid, SIGKILL);
                    waitpid(pid, &st, 0);
                    v.family = fam;
                    v.choices = ch;
                    v.sig = "hang";
                    v.msg = "the execution did not terminate within " + std::to_string(limit_s) + " s";
                    return 3;
                }
                usleep(5000);
            }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                return 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && read_violation(vf, v))
                return 1;
            v.family = fam;
            v.choices = ch;
            v.sig = "crash";
            std::ifstream i(ef);
            std::stringstream ss;
            ss << i.rdbuf();
            v.msg = "the execution crashed (" + std::string(WIFSIGNALED(st)
                ? "signal " + std::to_string(WTERMSIG(st))
                : "exit status " + std::to_string(WEXITSTATUS(st))) + "):\n" + ss.str().substr(0, 6000);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 97)
                return 4;
            return 2;
        }

        std::string json_str(const std::string& s)
        {
            std::string r = "\"";
            for (unsigned char c : s)
            {
                char b[8];
                if (c == '"' || c == '\\')
                    (r += '\\') += char(c);
                else if (c < 32 || c > 126)
                {
                    snprintf(b, sizeof b, "\\u%04x", c);
                    r += b;
                }
                else
                    r += char(c);
            }
            return r + "\"";
        }
    }

    uint32_t Chooser::pick(uint32_t n)
    {
        if (n <= 1)
        {
            if (n == 0)
            {
                std::cerr << "ENGINE: pick(0)\n";
                _exit(97);
            }
            return 0;
        }
        if (pos < choices.size())
        {
            const auto v = choices[pos];
            if (v >= n)
            {
                std::cerr << "ENGINE: recorded choice out of range\n";
                _exit(97);
            }
            arities[pos] = n;
            ++pos;
            return v;
        }
        if (expanding)
            throw PrefixEnd{n};
        choices.push_back(0);
        arities.push_back(n);
        ++pos;
        return 0;
    }

    void Chooser::state(uint64_t h)
    {
        if (g_worker.states.size() < 6000000)
            g_worker.states.insert(h);
    }

    void Chooser::state(const std::string& s) { state(hash64(s)); }
    void Chooser::step(uint64_t n) { g_worker.steps += n; }
    void Chooser::trace(uint64_t n) { g_worker.traces += n; }

    bool Chooser::wants_sample()
    {
        // the 1st, 4th, 16th, ... case seen by each worker
        if (expanding || ++g_worker.sample_calls != g_worker.next_sample)
            return false;
        g_worker.next_sample *= 4;
        return true;
    }

    void Chooser::add_sample(const std::string& s) { g_worker.samples.insert(s.substr(0, 600)); }

    void Chooser::outcome(const std::string& s)
    {
        if (g_worker.outcomes.size() < 200)
            g_worker.outcomes.insert(s);
    }

    void Chooser::fail(const std::string& sig, const std::string& msg)
    {
        if (expanding)
            throw PrefixEnd{1}; // will be re-run as a complete execution
        throw Fail{sig, msg};
    }
}

using namespace mc;

int main(int argc, char** argv)
{
    g_t0 = std::chrono::steady_clock::now();
    Tier tier = Tier::QUICK;
    std::string evidence, replay_out, known_file, replay_case, sequence_file, only;
    int replay_family = -1;
    int workers = 8;
    double deadline_s = 400;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--tier") tier = val() == "thorough" ? Tier::THOROUGH : Tier::QUICK;
        else if (a == "--evidence") evidence = val();
        else if (a == "--replay-out") replay_out = val();
        else if (a == "--known") known_file = val();
        else if (a == "--family") only = val();
        else if (a == "--sequence") sequence_file = val();
        else if (a == "--case") { replay_family = -2; only = val(); replay_case = val(); }
        else if (a == "--workers") workers = std::stoi(val());
        else if (a == "--deadline") deadline_s = std::stod(val());
        else { std::cerr << "unknown option " << a << "\n"; return 2; }
    }
    if (workers > MAX_WORKERS)
        workers = MAX_WORKERS;

    char tmpl[] = "/tmp/argos-mc-XXXXXX";
    g_tmp = mkdtemp(tmpl);
    struct Cleanup
    {
        ~Cleanup()
        {
            std::string cmd = "/bin/rm -rf '" + g_tmp + "'";
            if (g_tmp.rfind("/tmp/argos-mc-", 0) == 0)
                (void)!system(cmd.c_str());
        }
    } cleanup;

    Check chk = make_check(tier);
    g_check_id = chk.id;
    if (!known_file.empty())
    {
        std::ifstream i(known_file);
        std::string line;
        while (std::getline(i, line))
        {
            // "finding: property=<id> sig=<sig> | text"
            if (line.rfind("finding: property=", 0) != 0)
                continue;
            auto p = line.find(" sig="), q = line.find(" | ");
            if (p == std::string::npos || q == std::string::npos)
                continue;
            g_known.push_back({line.substr(18, p - 18), line.substr(p + 5, q - p - 5), line.substr(q + 3)});
        }
    }
    if (!only.empty())
    {
        if (replay_family == -2)
        {
            for (size_t i = 0; i < chk.families.size(); ++i)
                if (chk.families[i].name == only)
                    replay_family = int(i);
            if (replay_family < 0)
            {
                std::cerr << "no such family: " << only << "\n";
                return 2;
            }
            std::vector<uint32_t> ch;
            std::stringstream ss(replay_case);
            std::string x;
            while (std::getline(ss, x, ','))
                ch.push_back(uint32_t(std::stoul(x)));
            Violation v;
            const int r = run_alone(chk, uint32_t(replay_family), ch, 60, v);
            if (r == 0)
            {
                std::cout << "HELD " << chk.id << "/" << only << " " << replay_case << "\n";
                return 0;
            }
            std::cout << "sig: " << v.sig << "\n" << v.msg << "\n";
            return r == 4 ? 2 : 1;
        }
        std::vector<Family> keep;
        for (auto& f : chk.families)
            if (f.name == only)
                keep.push_back(f);
        chk.families = keep;
    }

    const double deadline_ms = deadline_s * 1000;
    g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (g_shared) Shared();

    if (!sequence_file.empty())
    {
        Violation v;
        if (!repeat_sequence(chk, sequence_file, v, 800))
        {
            std::cout << "HELD " << chk.id << " sequence of " << sequence_file << "\n";
            return 0;
        }
        std::cout << "sig: " << v.sig << "\n" << v.msg << "\n";
        return 1;
    }

    // Expand every family's choice tree to prefixes. Bodies run here only up
    // to their first few choices, inside a forked child so that a crash in
    // the expansion is not fatal to the engine.
    std::vector<Prefix> prefixes;
    {
        const auto pf = g_tmp + "/prefixes";
        pid_t pid = fork();
        if (pid == 0)
        {
            std::ofstream o(pf);
            for (uint32_t f = 0; f < chk.families.size(); ++f)
            {
                std::vector<std::vector<uint32_t>> level{{}}, done;
                while (!level.empty() && level.size() + done.size() < 1500)
                {
                    std::vector<std::vector<uint32_t>> nxt;
                    for (auto& p : level)
                    {
                        Chooser c;
                        c.choices = p;
                        c.arities.assign(p.size(), 0);
                        c.expanding = true;
                        bool leaf = true;
                        try
                        {
                            chk.families[f].body(c);
                        }
                        catch (PrefixEnd& e)
                        {
                            if (e.arity > 1)
                            {
                                leaf = false;
                                for (uint32_t k = 0; k < e.arity; ++k)
                                {
                                    auto q = p;
                                    q.push_back(k);
                                    nxt.push_back(q);
                                }
                            }
                        }
                        catch (...)
                        {
                        }
                        if (leaf)
                            done.push_back(p);
                    }
                    level = std::move(nxt);
                }
                for (auto* l : {&done, &level})
                    for (auto& p : *l)
                        o << f << " " << choices_text(p) << "\n";
            }
            o << "end\n";
            o.close();
            _exit(0);
        }
        int st;
        const auto t0 = now_ms();
        while (waitpid(pid, &st, WNOHANG) != pid)
        {
            if (now_ms() - t0 > 60000)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                break;
            }
            usleep(2000);
        }
        std::ifstream i(pf);
        std::string line;
        bool complete = false;
        while (std::getline(i, line))
        {
            if (line == "end")
            {
                complete = true;
                break;
            }
            Prefix p;
            if (read_prefix(line, p))
                prefixes.push_back(std::move(p));
        }
        if (!complete)
        {
            // crashed or hung in the expansion: explore from the roots
            prefixes.clear();
            for (uint32_t f = 0; f < chk.families.size(); ++f)
                prefixes.push_back({f, {}});
        }
    }

    std::vector<pid_t> pids(static_cast<size_t>(workers), -1);
    auto spawn = [&](int w)
    {
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0)
        {
            const int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            dup2(fd, 1);
            worker_main(w, chk, prefixes, deadline_ms);
        }
        pids[size_t(w)] = pid;
    };
    for (int w = 0; w < workers; ++w)
        spawn(w);

    std::vector<Violation> violations;
    bool engine_error = false;
    int alive = workers;
    while (alive > 0)
    {
        usleep(20000);
        for (int w = 0; w < workers; ++w)
        {
            if (pids[size_t(w)] < 0)
                continue;
            int st;
            auto& slot = g_shared->slots[w];
            const auto r = waitpid(pids[size_t(w)], &st, WNOHANG);
            bool hung = false;
            if (r == 0)
            {
                const auto s = slot.start_ms.load();
                if (s && now_ms() > s + 15000)
                {
                    kill(pids[size_t(w)], SIGKILL);
                    waitpid(pids[size_t(w)], &st, 0);
                    hung = true;
                }
                else
                    continue;
            }
            pids[size_t(w)] = -1;
            --alive;
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0)
                continue;
            // crashed or hung: examine the current case alone
            std::vector<uint32_t> ch(slot.choices, slot.choices + slot.n.load());
            const auto pi = slot.prefix.load();
            Violation v;
            const int res = run_alone(chk, prefixes[pi].family, ch, 40, v);
            if (res == 4)
            {
                std::cerr << v.msg << "\n";
                engine_error = true;
                g_shared->stop = 1;
            }
            else if (res != 0 && !(res == 1 && is_known(v.sig)) )
            {
                violations.push_back(v);
                g_shared->stop = 1;
            }
            else
            {
                // not reproducible alone: re-run the whole prefix once alone
                fflush(nullptr);
                const pid_t pid = fork();
                if (pid == 0)
                {
                    Violation x;
                    Slot& sl = g_shared->slots[MAX_WORKERS - 1];
                    _exit(explore_prefix(chk.families, prefixes[pi], pi, sl, x, deadline_ms + 60000) ? 1 : 0);
                }
                waitpid(pid, &st, 0);
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                {
                    v.family = prefixes[pi].family;
                    v.choices = ch;
                    v.sig = "crash-in-sequence";
                    v.msg = "a worker crashed in this execution, after others in the same process (state corrupted by an earlier execution)";
                    violations.push_back(v);
                    g_shared->stop = 1;
                }
                else if (!g_shared->stop)
                {
                    spawn(w); // e.g. the machine was overloaded
                    ++alive;
                }
            }
        }
    }
    for (int w = 0; w < workers; ++w)
    {
        Violation v;
        if (read_violation(g_tmp + "/viol." + std::to_string(w), v))
        {
            v.worker = w;
            violations.push_back(v);
        }
    }

    uint64_t execs = 0, steps = 0, traces = 0;
    for (auto& s : g_shared->slots)
    {
        execs += s.execs;
        steps += s.steps;
        traces += s.traces;
    }
    std::unordered_set<uint64_t> states;
    std::set<std::string> outcomes, known_seen, samples;
    {
        const auto lf = g_tmp + "/list";
        std::string cmd = "ls " + g_tmp + " > " + lf;
        (void)!system(cmd.c_str());
        std::ifstream l(lf);
        std::string n;
        while (std::getline(l, n))
        {
            if (n.rfind("states.", 0) == 0)
            {
                std::ifstream i(g_tmp + "/" + n, std::ios::binary);
                uint64_t h;
                while (i.read(reinterpret_cast<char*>(&h), sizeof h))
                    states.insert(h);
            }
            else if (n.rfind("outcomes.", 0) == 0 || n.rfind("known.", 0) == 0 || n.rfind("samples.", 0) == 0)
            {
                std::ifstream i(g_tmp + "/" + n);
                std::string s;
                while (std::getline(i, s))
                    (n[0] == 'o' ? outcomes : n[0] == 's' ? samples : known_seen).insert(s);
            }
        }
    }
    const bool capped = g_shared->stop == 2;
    const double wall = double(now_ms()) / 1000.0;

    int rc = 0;
    bool sequence = false;
    Violation final_v;
    if (!violations.empty())
    {
        std::sort(violations.begin(), violations.end(), [](auto& a, auto& b)
        {
            return a.choices.size() != b.choices.size() ? a.choices.size() < b.choices.size() : a.choices < b.choices;
        });
        // replay before report
        for (auto& v : violations)
        {
            Violation x;
            const int r = v.sig == "crash-in-sequence" ? 1 : run_alone(chk, v.family, v.choices, 60, x);
            if (r == 1 || r == 2 || r == 3)
            {
                final_v = v;
                rc = 1;
                break;
            }
        }
        for (auto& v : violations)
        {
            Violation x;
            const auto list = g_tmp + "/done." + std::to_string(v.worker);
            if (rc || v.worker < 0 || !repeat_sequence(chk, list, x, 300))
                continue;
            final_v = x;
            final_v.msg = "(only after the executions before it in the same process)\n" + x.msg;
            rc = 1;
            if (!replay_out.empty())
            {
                std::ifstream i(list);
                std::ofstream o(replay_out + ".sequence");
                o << i.rdbuf();
                sequence = true;
            }
        }
        if (!rc)
        {
            std::cerr << "ENGINE: violation did not reproduce: " << violations[0].msg << "\n";
            rc = 2;
        }
    }
    if (engine_error && rc == 0)
        rc = 2;

    if (rc == 1)
    {
        if (!replay_out.empty())
        {
            std::ofstream o(replay_out);
            o << "{\n \"property\": " << json_str(chk.id)
              << ",\n \"family\": " << json_str(chk.families[final_v.family].name)
              << ",\n \"case\": " << json_str(choices_text(final_v.choices))
              << ",\n \"tier\": " << json_str(tier == Tier::QUICK ? "quick" : "thorough")
              << ",\n \"sequence\": " << (sequence ? "true" : "false")
              << ",\n \"sig\": " << json_str(final_v.sig)
              << ",\n \"detail\": " << json_str(final_v.msg) << "\n}\n";
        }
        std::cout << "family " << chk.families[final_v.family].name << " case " << choices_text(final_v.choices)
                  << "\n" << final_v.sig << "\n" << final_v.msg << "\n";
    }
    for (auto& k : g_known)
        if (k.property == chk.id && known_seen.count(k.sig))
            std::cout << "KNOWN-FINDING: property=" << chk.id << " " << k.text << "\n";

    if (!evidence.empty() && rc != 2)
    {
        std::ofstream o(evidence);
        o << "{\n \"property\": " << json_str(chk.id)
          << ",\n \"tier\": " << json_str(tier == Tier::QUICK ? "quick" : "thorough")
          << ",\n \"seed\": " << (getenv("VERIF_SEED") && *getenv("VERIF_SEED") ? std::to_string(atol(getenv("VERIF_SEED"))) : "0")
          << ",\n \"level\": \"model_checking\""
          << ",\n \"coverage\": {"
          << "\n  \"states\": " << states.size()
          << ",\n  \"transitions\": " << steps
          << ",\n  \"traces_validated_against_impl\": " << traces
          << ",\n  \"distinct_outcomes\": " << outcomes.size()
          << ",\n  \"exhaustive\": " << (!capped && rc == 0 ? "true" : "false")
          << ",\n  \"families\": [";
        for (size_t i = 0; i < chk.families.size(); ++i)
            o << (i ? ",\n" : "\n") << "   {\"name\": " << json_str(chk.families[i].name)
              << ", \"bounds\": " << json_str(chk.families[i].bounds)
              << ", \"cases\": " << g_shared->fam_execs[i].load() << "}";
        o << "\n  ],\n  \"samples\": [";
        {
            size_t k = 0;
            const size_t every = samples.size() / 24 + 1;
            bool first = true;
            for (auto& x : samples)
                if (k++ % every == 0)
                {
                    o << (first ? "\n   " : ",\n   ") << json_str(x);
                    first = false;
                }
        }
        o << "\n  ]\n }";
        o << ",\n \"assumptions\": [";
        for (size_t i = 0; i < chk.assumptions.size(); ++i)
            o << (i ? ", " : "") << json_str(chk.assumptions[i]);
        o << "],\n \"wall_s\": " << wall;
        o << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    }
    std::cout << chk.id << " " << (tier == Tier::QUICK ? "quick" : "thorough") << ": executions=" << execs
              << " states=" << states.size() << " transitions=" << steps << " traces=" << traces
              << " outcomes=" << outcomes.size() << (capped ? " CAPPED" : "") << " wall=" << wall << "s\n";
    return rc;
}
