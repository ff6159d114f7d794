// vf:rule=one case per sequence of checkpoints or output file to clean, with all (or a sample of) the file operations at which the process is killed; distinct by a description of its content; non-trivial when at least one kill takes effect
// vf:assume=a crash is the end of the process at a file operation, before it or after a part of the data was written; loss of data the kernel has accepted is not simulated
// vf:assume=Blaze's archive is replaced by a stand-in that raises an exception on damaged files, as Blaze does; spdlog replaced by a stand-in
// vf:link=-lboost_filesystem -lboost_system
#include "vf.hpp"
#include "crash.hpp"
#include <sstream>
#include <sys/stat.h>
#include <boost/filesystem.hpp>
#include <blaze/Math.h>
#include <hubbard/include/checkpoint.hpp>
namespace fs = boost::filesystem;

static std::string contents(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}
static void write(const std::string& path, const std::string& text)
{
    std::ofstream(path, std::ios::binary) << text;
}
template <typename T>
static bool same_bits(const T& a, const T& b)
{
    return std::memcmp(&a, &b, sizeof(T)) == 0;
}
template <typename V>
static bool same(const V& a, const V& b)
{
    if(a.size() != b.size()) {
        return false;
    }
    for(std::size_t i = 0; i < a.size(); ++i) {
        if(!same_bits(a[i], b[i])) {
            return false;
        }
    }
    return true;
}
static double any_double(vf::Rng& r)
{
    switch(r.below(12)) {
        case 0: return 0.;
        case 1: return -0.;
        case 2: return std::numeric_limits<double>::infinity();
        case 3: return std::numeric_limits<double>::quiet_NaN();
        case 4: return std::numeric_limits<double>::denorm_min();
        case 5: return std::numeric_limits<double>::max();
        case 6: return 1. / 3.;
        default: return r.real(-1, 1) * std::pow(10., r.real(-20, 20));
    }
}
static void fill(vf::Rng& r, std::complex<double>& x) { x = {any_double(r), any_double(r)}; }
static void fill(vf::Rng& r, double& x) { x = any_double(r); }
static void fill(vf::Rng& r, float& x) { x = float(r.real(-1, 1)); }

struct Shared {
    volatile uint64_t completed;
};
static Shared& shared()
{
    static Shared* s = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return *s;
}
static void loggers()
{
    if(!get_loggers().io) {
        get_loggers().init(vf::cat("log", getpid(), ".log"));
    }
}
// the kills of one case: all of them, or a sample
static std::vector<std::pair<uint64_t, crash::Mode>> kills(vf::Rng& r, uint64_t operations)
{
    std::vector<std::pair<uint64_t, crash::Mode>> k;
    for(uint64_t i = 1; i <= operations; ++i) {
        k.push_back({i, crash::before});
        k.push_back({i, crash::torn});
    }
    const std::size_t most = vf::st().thorough ? 200 : 28;
    while(k.size() > most) {
        k.erase(k.begin() + std::ptrdiff_t(r.below(k.size())));
    }
    return k;
}

// ---------------------------------------------------------------- checkpoints
template <typename Vector>
static void checkpoints(vf::Case& c, const std::string& kind)
{
    auto& r = c.rng;
    loggers();
    const uint64_t count = r.range(1, 5);
    std::vector<Vector> v;
    std::vector<double> t;
    std::string sizes;
    for(uint64_t k = 0; k < count; ++k) {
        const uint64_t n = r.chance(0.15) ? r.below(3) : r.chance(0.3) ? uint64_t(r.range(500, 4000)) : r.below(60);
        Vector x(n);
        for(std::size_t i = 0; i < n; ++i) {
            fill(r, x[i]);
        }
        v.push_back(x);
        t.push_back(r.one_of({0., 0.25, 12.5, 1e-3, r.real(0, 1000), double(k)}));
        sizes += vf::cat(" ", n);
    }
    const std::string dir = vf::cat("checkpoints", getpid());
    const std::string prefix = dir + r.one_of<const char*>({"/result_checkpoint_", "/c", "/1", "/"});
    // what an earlier run with the same name left
    std::vector<Vector> old;
    std::vector<std::string> old_data, old_info;
    if(r.chance(0.5)) {
        const uint64_t n = r.range(1, count + 2);
        for(uint64_t k = 0; k < n; ++k) {
            Vector x(r.chance(0.3) && k < count ? v[k].size() : r.chance(0.3) ? uint64_t(r.range(500, 4000)) : r.below(60));
            for(std::size_t i = 0; i < x.size(); ++i) {
                fill(r, x[i]);
            }
            const auto path = vf::cat("old", getpid());
            {
                std::ofstream f(path, std::ios::binary);
                blaze::Archive<std::ofstream> archive(f);
                archive << x;
            }
            old.push_back(x);
            old_data.push_back(contents(path));
            old_info.push_back(vf::cat(7000 + k, r.chance(0.5) ? ".123456\n" : "\n"));
            fs::remove(path);
        }
        sizes += vf::cat(" over ", n, " of an earlier run");
        vf::observe("over_earlier_runs");
    }
    auto reset = [&] {
        fs::remove_all(dir);
        fs::create_directory(dir);
        write(dir + "/result.txt", "1\t2\n");
        for(uint64_t k = 0; k < old.size(); ++k) {
            write(vf::cat(prefix, k, ".blaze"), old_data[k]);
            write(vf::cat(prefix, k, ".info"), old_info[k]);
        }
        shared().completed = 0;
    };
    auto body = [&] {
        for(uint64_t k = 0; k < count; ++k) {
            write_checkpoint_file(prefix, v[k], t[k]);
            shared().completed = k + 1;
        }
    };
    // must: it can be read; the state is the one written or, where it is allowed, that of the earlier run
    auto restored = [&](uint64_t k, bool must, bool written, bool earlier) {
        Vector x;
        const auto path = vf::cat(prefix, k, ".blaze");
        try {
            read_checkpoint_file(path, x);
        } catch(const std::exception& e) {
            c.check(!must, "unreadable", "reading checkpoint ", k, " back raises ", e.what());
            vf::observe("damaged_files_refused");
            return;
        }
        // a file that was never written
        if(!must && !fs::exists(path)) {
            return;
        }
        c.check((written && same(x, v[k])) || (earlier && k < old.size() && same(x, old[k])), "state", "checkpoint ", k, " of ",
                v[k].size(), " elements reads back as ", x.size(), " elements, or other values");
        vf::observe("states_restored");
    };
    auto verify = [&](const std::string& when) {
        const uint64_t completed = shared().completed;
        for(uint64_t k = 0; k < count; ++k) {
            const auto data = vf::cat(prefix, k, ".blaze"), info = vf::cat(prefix, k, ".info");
            vf::stage(when);
            if(k > completed) {
                c.check(k < old.size() ? contents(data) == old_data[k] && contents(info) == old_info[k]
                                       : !fs::exists(data) && !fs::exists(info), "early", when, ": checkpoint ", k, " exists or is changed although only ",
                        completed, " were written completely");
                continue;
            }
            const bool announced = fs::exists(info) && !contents(info).empty();
            const bool stale     = k == completed && k < old.size() && contents(info) == old_info[k];
            restored(k, k < completed || announced, !stale, stale || !announced);
            vf::observe("earlier_checkpoints_intact", stale);
            if(k < completed) {
                std::istringstream s(contents(info));
                double x = -1;
                std::string rest;
                c.check(bool(s >> x) && !(s >> rest) && std::abs(x - t[k]) <= 6e-6 * std::abs(t[k]), "time", when,
                        ": the information of checkpoint ", k, " is '", contents(info), "' instead of ", t[k]);
            }
        }
        c.check(contents(dir + "/result.txt") == "1\t2\n", "other-file", when, ": another file was changed");
    };
    reset();
    const auto whole = crash::run(body, 0, crash::before, ".log");
    if(!whole.traced) {
        vf::observe("not_traced");
        c.describe(kind + sizes, false);
        return;
    }
    c.describe(vf::cat(count, " checkpoints of", sizes, " ", kind, ", ", whole.operations, " file operations, prefix ", prefix.substr(dir.size())), true);
    c.check(!whole.failed && shared().completed == count, "fails", "writing the checkpoints fails (status ", whole.status, ")");
    verify("after all checkpoints");
    std::size_t files = 0;
    for(auto i = fs::directory_iterator(dir); i != fs::directory_iterator(); ++i) {
        ++files;
    }
    c.check(files == 2 * std::max<std::size_t>(count, old.size()) + 1, "files", files - 1, " files for ", count, " checkpoints");
    for(const auto& k : kills(r, whole.operations)) {
        reset();
        const auto o = crash::run(body, k.first, k.second, ".log");
        if(!o.killed) {
            vf::observe("kills_missed");
            continue;
        }
        verify(vf::cat("killed at file operation ", k.first, " of ", whole.operations, ", ", o.last));
        vf::observe("checkpoint_kills");
        vf::observe(shared().completed == 0 ? "before_the_first" : "between");
    }
    fs::remove_all(dir);
}
VF_GROUP(complex_checkpoints, 44, 20) { checkpoints<blaze::DynamicVector<std::complex<double>>>(c, "complex numbers"); }
VF_GROUP(real_checkpoints, 14, 20) { checkpoints<blaze::DynamicVector<double>>(c, "real numbers"); }
VF_GROUP(row_checkpoints, 7, 20)
{
    checkpoints<blaze::DynamicVector<std::complex<double>, blaze::rowVector>>(c, "complex numbers in a row");
}

// a long run: more checkpoints than small counters hold
VF_GROUP(many, 1, 2)
{
    using Vector = blaze::DynamicVector<std::complex<double>>;
    const uint64_t count  = vf::st().thorough && c.index == 1 ? 66000 : c.rng.range(300, 1500);
    const std::string dir = vf::cat("many", getpid());
    c.describe(vf::cat(count, " checkpoints in a row"), true);
    loggers();
    fs::remove_all(dir);
    fs::create_directory(dir);
    std::cout.flush();
    std::fflush(nullptr);
    const pid_t child = fork();
    if(child == 0) {
        if(!std::freopen("/dev/null", "w", stderr)) {
            std::_Exit(3);
        }
        Vector x(2);
        for(uint64_t k = 0; k < count; ++k) {
            x[0] = {double(k), 1. / double(k + 1)};
            write_checkpoint_file(dir + "/c_", x, 0.5 * double(k));
        }
        std::_Exit(0);
    }
    int status = -1;
    waitpid(child, &status, 0);
    c.check(status == 0, "fails", "writing ", count, " checkpoints ends with status ", status);
    for(uint64_t k = 0; k < count; ++k) {
        Vector x;
        vf::stage(vf::cat("reading checkpoint ", k, " of ", count));
        try {
            read_checkpoint_file(vf::cat(dir, "/c_", k, ".blaze"), x);
        } catch(const std::exception& e) {
            c.fail("unreadable", vf::cat("reading checkpoint ", k, " of ", count, " back raises ", e.what()));
        }
        c.check(x.size() == 2 && x[0] == std::complex<double>(double(k), 1. / double(k + 1)), "state", "checkpoint ", k, " of ",
                count, " reads back as another vector");
        c.check(std::abs(std::strtod(contents(vf::cat(dir, "/c_", k, ".info")).c_str(), nullptr) - 0.5 * double(k)) <= 3e-6 * double(k),
                "time", "the information of checkpoint ", k, " of ", count, " is '", contents(vf::cat(dir, "/c_", k, ".info")), "'");
        vf::observe("states_in_long_runs");
    }
    fs::remove_all(dir);
}
// a checkpoint damaged afterwards is never taken for a state
VF_GROUP(damaged, 150, 20)
{
    auto& r = c.rng;
    loggers();
    using Vector = blaze::DynamicVector<std::complex<double>>;
    Vector v(r.range(1, 200));
    for(std::size_t i = 0; i < v.size(); ++i) {
        fill(r, v[i]);
    }
    const std::string prefix = vf::cat("damaged", getpid(), "_");
    const auto whole = crash::run([&] { write_checkpoint_file(prefix, v, 0.5); }, 0, crash::before, ".log");
    const auto path  = prefix + "0.blaze";
    const auto text  = contents(path);
    const auto cut   = r.below(text.size());
    c.describe(vf::cat("checkpoint of ", v.size(), " elements cut to ", cut, " of ", text.size(), " bytes"), true);
    if(!whole.traced) {
        vf::observe("not_traced");
        return;
    }
    write(path, text.substr(0, cut));
    Vector x;
    bool raised = false;
    try {
        read_checkpoint_file(path, x);
    } catch(const std::exception&) {
        raised = true;
    }
    c.check(raised, "accepted", "the damaged file is read as a vector of ", x.size(), " elements");
    // a file that does not exist
    fs::remove(path);
    raised = false;
    try {
        read_checkpoint_file(path, x);
    } catch(const std::exception&) {
        raised = true;
    }
    c.check(raised, "accepted", "a file that does not exist is read as a vector of ", x.size(), " elements");
    // the previous content of the vector has no influence
    write(path, text);
    Vector y(r.below(400), std::complex<double>(7, 7));
    read_checkpoint_file(path, y);
    c.check(same(y, v), "state", "reading into a vector that had ", "another content gives another state");
    vf::observe("damaged_files_refused", 2);
}

// ---------------------------------------------------------------- cleaning the output file
VF_GROUP(cleaning, 40, 20)
{
    auto& r = c.rng;
    loggers();
    const std::string dir = vf::cat("cleaning", getpid()), path = dir + r.one_of<const char*>({"/out.txt", "/o"});
    std::string text;
    std::vector<std::size_t> ends;
    for(uint64_t n = r.below(15); n > 0; --n) {
        text += r.chance(0.2) ? "\n" : "#\tkey = value\n";
    }
    const uint64_t total = r.chance(0.3) ? r.range(500, 3000) : r.range(1, 40);
    for(uint64_t i = 0; i < total; ++i) {
        text += vf::cat(0.1 * double(i), "\t", r.real(-1, 1), "\n");
        ends.push_back(text.size());
    }
    const uint64_t entries = r.chance(0.1) ? total + 3 : r.range(1, int64_t(total));
    const auto original = r.coin() ? text + "17.3\t0." : text; // interrupted while writing a line
    const auto want     = entries <= total ? text.substr(0, ends[entries - 1]) : original + (original == text ? "" : "\n");
    const bool old      = r.chance(0.3);
    auto reset = [&] {
        fs::remove_all(dir);
        fs::create_directory(dir);
        write(path, original);
        if(old) {
            write(path + ".bak", "left from an earlier restart\n");
        }
        write(dir + "/other", "x");
        shared().completed = 0;
    };
    auto body = [&] {
        clean_output_file(path, entries);
        shared().completed = 1;
    };
    reset();
    const auto whole = crash::run(body, 0, crash::before, ".log");
    c.describe(vf::cat("output file of ", original.size(), " bytes, ", entries, " of ", total, " measurements to keep, ",
                       whole.operations, " file operations"), whole.traced);
    if(!whole.traced) {
        vf::observe("not_traced");
        return;
    }
    c.check(!whole.failed && contents(path) == want, "cleaned", "the cleaned file has ", contents(path).size(),
            " bytes instead of ", want.size());
    for(const auto& k : kills(r, whole.operations)) {
        reset();
        const auto o = crash::run(body, k.first, k.second, ".log");
        if(!o.killed) {
            vf::observe("kills_missed");
            continue;
        }
        const auto now = contents(path), bak = contents(path + ".bak");
        const auto when = vf::cat("killed at file operation ", k.first, " of ", whole.operations, ", ", o.last);
        c.check(now == original || bak == original, "lost", when, ": neither the output file (", now.size(),
                " bytes) nor its backup (", bak.size(), " bytes) holds what had been recorded (", original.size(), " bytes)");
        c.check(now == original || want.compare(0, now.size(), now) == 0, "falsified", when,
                ": the output file holds something else than the beginning of what had been recorded");
        c.check(contents(dir + "/other") == "x", "other-file", when, ": another file was changed");
        vf::observe("cleaning_kills");
        vf::observe(now == original ? "not_begun" : "half_way");
    }
    fs::remove_all(dir);
}

VF_REQUIRE(states_in_long_runs, 300)
VF_REQUIRE(checkpoint_kills, 800)
VF_REQUIRE(cleaning_kills, 300)
VF_REQUIRE(states_restored, 1000)
VF_REQUIRE(damaged_files_refused, 300)
VF_REQUIRE(between, 300)
VF_REQUIRE(half_way, 100)
VF_MAIN
