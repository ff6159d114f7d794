// Monitor runtime shared by all harnesses.
//
// A harness registers groups of cases with VF_GROUP(name, quick_count, thorough_factor). Each case
// gets its own random generator derived from (VERIF_SEED, group, index), so every case replays alone
// with  --only group:index . The verdict, counters, distinct-case signatures and samples go to a
// JSON file; the case being executed is kept in a memory-mapped file, so that the driver knows which
// case crashed or hung.
#ifndef VF_HPP_
#define VF_HPP_

#include <limits>
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vf
{
// template arguments other than the usual ones; a tree that does not compile with them is monitored with
// the usual ones only (VF_PLAIN)
#ifdef VF_PLAIN
template <typename T>
using other_list = std::vector<T>;
template <typename T>
using other_deque = std::vector<T>;
using f32 = double;
using f80 = double;
using u32 = uint64_t;
using i32 = uint64_t;
using i64 = uint64_t;
#else
template <typename T>
using other_list = std::list<T>;
template <typename T>
using other_deque = std::deque<T>;
using f32 = float;
using f80 = long double;
using u32 = uint32_t;
using i32 = int;
using i64 = int64_t;
#endif

    inline uint64_t splitmix(uint64_t& s)
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    inline uint64_t hash_str(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;
        for(unsigned char c : s) {
            h = (h ^ c) * 1099511628211ull;
        }
        return splitmix(h);
    }

    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed) {}
        using result_type = uint64_t;
        static constexpr uint64_t min() { return 0; }
        static constexpr uint64_t max() { return ~uint64_t(0); }
        uint64_t operator()() { return splitmix(s); }
        uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
        int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a + 1))); }
        double unit() { return double((*this)() >> 11) / 9007199254740992.0; }
        double real(double a, double b) { return a + (b - a) * unit(); }
        bool chance(double p) { return unit() < p; }
        bool coin() { return (*this)() & 1; }
        template <typename C>
        auto pick(const C& c) -> decltype(c[0])
        {
            return c[below(c.size())];
        }
        template <typename T>
        T one_of(std::initializer_list<T> l)
        {
            return *(l.begin() + below(l.size()));
        }
        // a "generic" real number, sometimes special
        double number()
        {
            switch(below(8)) {
                case 0: return 0.;
                case 1: return 1.;
                case 2: return -1.;
                case 3: return double(range(-5, 5));
                default: return real(-3., 3.);
            }
        }
    };

    // gives complex coefficients a special structure now and then
    template <typename V>
    void shape(Rng& r, V& v)
    {
        using T        = typename std::decay<decltype(v[0])>::type;
        using F        = typename T::value_type;
        const auto n   = v.size();
        const auto kind = r.below(20);
        if(n == 0 || kind > 10) {
            return;
        }
        const auto at = r.below(n);
        const F tiny  = std::pow(std::numeric_limits<F>::epsilon(), F(r.real(0.3, 3)));
        for(std::size_t i = 0; i < n; ++i) {
            const T x = v[i];
            const F one = std::abs(x) > 0 ? std::abs(x) : F(1);
            switch(kind) {
                case 0: v[i] = T(F(0), x.imag()); break;
                case 1: v[i] = T(x.real(), F(0)); break;
                case 2: v[i] = r.coin() ? T(F(0), x.imag()) : T(x.real(), F(0)); break;
                case 3: v[i] = i == at ? x : T(0); break;
                case 4: v[i] = i == at ? T(F(0), one) : T(0); break;
                case 5: v[i] = i == at ? T(0) : x; break;
                case 6: v[i] = v[0]; break;
                case 7: v[i] = i % 2 ? std::conj(v[i - 1]) : x; break;
                case 8: v[i] = i % 2 ? -v[i - 1] : x; break;
                case 9: v[i] = r.coin() ? x * tiny : x; break;
                default: v[i] = T(r.coin() ? -F(0) : x.real(), r.coin() ? -F(0) : x.imag());
            }
        }
    }

    struct CaseFailed : std::exception {
    };

    struct Violation {
        std::string key, group, message;
        uint64_t index;
    };

    struct State {
        uint64_t seed = 1;
        bool thorough = false;
        double scale  = 1;
        std::map<std::string, uint64_t> counters;
        std::map<std::string, uint64_t> required;
        std::unordered_set<uint64_t> sigs;
        std::vector<std::string> samples;
        std::map<std::string, unsigned> samples_per_group;
        std::vector<Violation> violations;
        uint64_t evaluations = 0;
        std::string group;
        uint64_t index = 0;
        char* progress = nullptr;
        bool only       = false;
    };

    inline State& st()
    {
        static State s;
        return s;
    }

    inline void put(std::ostream&) {}
    // the object as it arrives after being passed around: copied, moved, assigned over another one of its type
    namespace detail
    {
        template <typename T>
        std::enable_if_t<std::is_copy_assignable<T>::value> assign(T& to, const T& from)
        {
            to = from;
        }
        template <typename T>
        std::enable_if_t<!std::is_copy_assignable<T>::value> assign(T&, const T&)
        {
        }
    } // namespace detail
    template <typename T>
    T passed(Rng& r, T x)
    {
        switch(r.below(4)) {
            case 0: return x;
            case 1: {
                const T y(x);
                return T(y);
            }
            case 2: {
                std::unique_ptr<T> first(new T(x));
                T y(std::move(*first));
                first.reset();
                return T(std::move(y));
            }
            default: {
                std::unique_ptr<T> first(new T(x)), second(new T(*first));
                first.reset();
                detail::assign(x, *second);
                T y(*second);
                second.reset();
                return y;
            }
        }
    }

    template <typename T, typename... Ts>
    void put(std::ostream& o, const T& t, const Ts&... ts)
    {
        o << t;
        put(o, ts...);
    }
    template <typename... Ts>
    std::string cat(const Ts&... ts)
    {
        std::ostringstream o;
        o << std::setprecision(17);
        put(o, ts...);
        return o.str();
    }

    inline void observe(const std::string& name, uint64_t n = 1) { st().counters[name] += n; }

    // note what the case is about to do, so that a crash report can show it
    inline void stage(const std::string& what)
    {
        auto& s = st();
        if(s.progress) {
            std::snprintf(s.progress, 4000, "%s\n%llu\n%s\n", s.group.c_str(),
                          (unsigned long long) s.index, what.c_str());
        }
    }

    struct Case {
        Rng rng;
        uint64_t index;
        std::string desc;
        bool is_signal = false;
        Case(uint64_t seed, uint64_t i) : rng(seed), index(i) {}

        // describe the case: used for samples, failure messages, crash reports, distinctness
        void describe(const std::string& d, bool nontrivial = true)
        {
            desc      = d;
            is_signal = nontrivial;
            stage(d);
        }

        // called by the runner after the case held
        void done() const
        {
            auto& s = st();
            if(!is_signal) {
                return;
            }
            s.sigs.insert(hash_str(s.group + '|' + desc));
            auto& n = s.samples_per_group[s.group];
            if(n < 2) {
                ++n;
                s.samples.push_back(s.group + '#' + std::to_string(index) + ": "
                                    + desc.substr(0, 600));
            }
        }

        [[noreturn]] void fail(const std::string& key, const std::string& msg)
        {
            auto& s = st();
            s.violations.push_back(
                Violation{key, s.group, msg + (desc.empty() ? "" : "\n  case: " + desc), index});
            throw CaseFailed();
        }

        template <typename... Ts>
        void check(bool cond, const char* key, const Ts&... msg)
        {
            if(!cond) {
                fail(key, cat(msg...));
            }
        }

        // |a-b| <= tol (NaN fails)
        template <typename A, typename B, typename... Ts>
        void near(const A& a, const B& b, double tol, const char* key, const Ts&... msg)
        {
            if(!(std::abs(a - b) <= tol)) {
                fail(key, cat(msg..., ": got ", a, " expected ", b, " (tolerance ", tol, ")"));
            }
        }
    };

    struct Group {
        std::string name;
        uint64_t quick, thorough;
        std::function<void(Case&)> f;
    };
    inline std::vector<Group>& groups()
    {
        static std::vector<Group> g;
        return g;
    }
    struct Register {
        Register(const char* n, uint64_t q, uint64_t factor, std::function<void(Case&)> f)
        {
            groups().push_back(Group{n, q, q * factor, std::move(f)});
        }
    };

    // fewer than n of these events in total => the run is inconclusive
    inline void require_events(const std::string& counter, uint64_t n) { st().required[counter] = n; }

    inline std::string js(const std::string& s)
    {
        std::string o = "\"";
        for(unsigned char c : s) {
            if(c == '"' || c == '\\') {
                o += '\\';
                o += char(c);
            } else if(c == '\n') {
                o += "\\n";
            } else if(c < 0x20 || c == 0x7f) {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else {
                o += char(c);
            }
        }
        return o + '"';
    }

    inline void write_result(const std::string& path)
    {
        auto& s = st();
        std::ofstream o(path);
        o << "{\"evaluations\":" << s.evaluations << ",\"violations\":[";
        bool first = true;
        for(auto& v : s.violations) {
            o << (first ? "" : ",") << "{\"key\":" << js(v.key) << ",\"group\":" << js(v.group)
              << ",\"index\":" << v.index << ",\"message\":" << js(v.message) << "}";
            first = false;
        }
        o << "],\"counters\":{";
        first = true;
        for(auto& c : s.counters) {
            o << (first ? "" : ",") << js(c.first) << ":" << c.second;
            first = false;
        }
        o << "},\"required\":{";
        first = true;
        for(auto& c : s.required) {
            o << (first ? "" : ",") << js(c.first) << ":" << c.second;
            first = false;
        }
        o << "},\"samples\":[";
        first = true;
        for(auto& c : s.samples) {
            o << (first ? "" : ",") << js(c);
            first = false;
        }
        o << "],\"sigs\":[";
        first = true;
        for(auto& c : s.sigs) {
            o << (first ? "" : ",") << "\"" << std::hex << c << std::dec << "\"";
            first = false;
        }
        o << "],\"done\":true}\n";
    }

    inline int run_main(int argc, char** argv)
    {
        auto& s = st();
        std::string out, progress, only_group;
        uint64_t only_index = 0, shard = 0, shards = 1;
        bool only = false;
        double scale = 1; // share of the cases to run
        for(int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next     = [&] { return std::string(argv[++i]); };
            if(a == "--seed") {
                s.seed = std::stoull(next());
            } else if(a == "--tier") {
                s.thorough = next() == "thorough";
            } else if(a == "--out") {
                out = next();
            } else if(a == "--progress") {
                progress = next();
            } else if(a == "--shard") {
                auto v = next();
                shard  = std::stoull(v.substr(0, v.find('/')));
                shards = std::stoull(v.substr(v.find('/') + 1));
            } else if(a == "--scale") {
                scale = s.scale = std::stod(next());
            } else if(a == "--only") {
                auto v     = next();
                only       = true;
                s.only     = true;
                only_group = v.substr(0, v.rfind(':'));
                only_index = std::stoull(v.substr(v.rfind(':') + 1));
            } else {
                std::cerr << "unknown argument " << a << "\n";
                return 3;
            }
        }
        if(!progress.empty()) {
            int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
            if(fd < 0 || ftruncate(fd, 4096) != 0) {
                return 3;
            }
            void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if(p == MAP_FAILED) {
                return 3;
            }
            s.progress = static_cast<char*>(p);
        }
        for(auto& g : groups()) {
            if(only && g.name != only_group) {
                continue;
            }
            const uint64_t all = s.thorough ? g.thorough : g.quick;
            const uint64_t n   = scale < 1 ? std::min<uint64_t>(all, uint64_t(double(all) * scale) + 2) : all;
            unsigned failed  = 0;
            for(uint64_t i = only ? only_index : shard; i < (only ? only_index + 1 : n);
                i += shards) {
                s.group       = g.name;
                s.index       = i;
                uint64_t seed = s.seed * 0x9e3779b97f4a7c15ull ^ hash_str(g.name);
                seed ^= splitmix(seed) + i * 0xd1342543de82ef95ull;
                splitmix(seed);
                Case c(seed, i);
                stage("");
                ++s.evaluations;
                observe("cases:" + g.name);
                try {
                    g.f(c);
                    c.done();
                } catch(const CaseFailed&) {
                    ++failed;
                } catch(const std::exception& e) {
                    s.violations.push_back(Violation{"exception:" + g.name, g.name,
                                                     cat("unexpected exception: ", e.what(),
                                                         "\n  case: ", c.desc),
                                                     i});
                    ++failed;
                }
                if(failed >= 5) {
                    break;
                }
            }
        }
        s.group = "";
        stage("finished");
        if(!out.empty()) {
            write_result(out);
        }
        for(auto& v : s.violations) {
            std::cerr << "[" << v.key << "] " << v.group << ":" << v.index << "  " << v.message
                      << "\n";
        }
        return s.violations.empty() ? 0 : 1;
    }
} // namespace vf

// quick: number of cases of the quick tier, factor: multiplier of the thorough tier
#define VF_GROUP(name, quick, factor)                                                              \
    static void vf_group_##name(vf::Case& c);                                                      \
    static vf::Register vf_register_##name(#name, quick, factor, vf_group_##name);                 \
    static void vf_group_##name(vf::Case& c)

#define VF_REQUIRE(name, n) static const int vf_req_##name = (vf::require_events(#name, n), 0);

#define VF_MAIN                                                                                    \
    int main(int argc, char** argv) { return vf::run_main(argc, argv); }

#endif
