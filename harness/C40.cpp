// vf:rule=one case per text, line or output file with a number of measurements; distinct by a description of its content; non-trivial when it has content lines as well as lines to skip
// vf:assume=lines of up to 300000 characters represent longer ones; spdlog replaced by a stand-in
// vf:link=-lboost_filesystem -lboost_system
#include "vf.hpp"
#include <sstream>
#include <boost/filesystem.hpp>
#include <blaze/Math.h>
#include <ieompp/io/line.hpp>
#include <hubbard/include/checkpoint.hpp>
namespace io = ieompp::io;

// reference: character by character
static bool skippable(const std::string& s)
{
    for(char ch : s) {
        switch(ch) {
            case ' ': case '\t': case '\v': case '\f': case '\r': continue;
            case '#': return true;
            default: return false;
        }
    }
    return true;
}
// no line feeds inside
static std::string draw_line(vf::Rng& r, unsigned kind)
{
    static const std::string blanks = " \t\v\f\r";
    static const std::string other  = "abcXYZ0129.,;:-+*/\\\"'!$%&()[]{}=?<>|~^_`@";
    auto blank = [&](unsigned max) {
        std::string s;
        for(uint64_t n = r.below(max + 1); n > 0; --n) {
            s += blanks[r.below(r.chance(0.6) ? 2 : blanks.size())];
        }
        return s;
    };
    auto text = [&](uint64_t n) {
        std::string s;
        while(s.size() < n) {
            const auto k = r.below(20);
            s += k == 0 ? '#' : k < 4 ? ' ' : k == 4 ? '\t' : k == 5 ? char(128 + r.below(128))
                 : k == 6 ? char(r.below(8)) : other[r.below(other.size())];
        }
        return s;
    };
    switch(kind) {
        case 0: return "";
        case 1: return blank(8);
        case 2: return blank(5) + "#" + text(r.below(30));
        case 3: return blank(5) + other[r.below(other.size())] + text(r.below(30));
        case 4: return blank(3) + other[r.below(other.size())] + text(r.below(8)) + " # remark";
        case 5: return std::string(1, char(r.chance(0.5) ? 0 : 128 + r.below(128))) + text(r.below(5));
        case 6: { // long lines
            const uint64_t n = uint64_t(std::pow(10., r.real(2, 5.4)));
            const auto what  = r.below(4);
            std::string s(n, what == 0 ? ' ' : what == 1 ? 'x' : what == 2 ? '#' : '\t');
            if(r.coin()) {
                s.back() = r.coin() ? '#' : 'q';
            }
            return s;
        }
        default: { // one decisive character anywhere in blanks
            std::string s = blank(6) + blank(6);
            if(!s.empty() && r.coin()) {
                s[r.below(s.size())] = r.coin() ? '#' : char(1 + r.below(255));
                for(auto& ch : s) {
                    ch = ch == '\n' ? 'n' : ch;
                }
            }
            return s;
        }
    }
}
static std::string show(const std::string& s)
{
    std::ostringstream o;
    for(unsigned char ch : s.substr(0, 60)) {
        if(ch < 32 || ch > 126 || ch == '\\') {
            o << "\\x" << std::hex << int(ch) << std::dec;
        } else {
            o << ch;
        }
    }
    if(s.size() > 60) {
        o << "...(" << s.size() << ")";
    }
    return o.str();
}

VF_GROUP(single_lines, 3000, 40)
{
    const auto s = draw_line(c.rng, unsigned(c.rng.below(8)));
    c.describe("line '" + show(s) + "'", !s.empty());
    c.check(io::is_skippable_line(s) == skippable(s), "skippable", "is_skippable_line('", show(s), "') gives ",
            io::is_skippable_line(s));
    vf::observe(skippable(s) ? "skippable" : "content");
}
// every single byte, alone, after and before blanks
VF_GROUP(bytes, 256, 1)
{
    const char b = char(c.index % 256);
    c.describe(vf::cat("byte ", c.index % 256), true);
    if(b == '\n') {
        return;
    }
    for(const std::string& s : {std::string(1, b), std::string(" ") + b, std::string("\t ") + b + " x",
                                std::string(1, b) + "#", std::string(1, b) + " "}) {
        c.check(io::is_skippable_line(s) == skippable(s), "skippable", "is_skippable_line('", show(s),
                "') gives ", io::is_skippable_line(s));
    }
}

static std::vector<std::string> draw_text(vf::Rng& r, std::size_t max)
{
    std::vector<std::string> l(r.below(max + 1));
    const bool lng = r.chance(0.1);
    for(auto& x : l) {
        const auto k = r.below(40);
        x            = draw_line(r, unsigned(k == 0 && lng ? 6 : k % 6));
    }
    return l;
}
VF_GROUP(streams, 1200, 40)
{
    auto& r      = c.rng;
    const auto l = draw_text(r, r.chance(0.1) ? 200 : 12);
    const bool terminated = r.coin();
    std::string text;
    std::vector<std::string> want;
    for(std::size_t i = 0; i < l.size(); ++i) {
        text += l[i] + (i + 1 < l.size() || terminated ? "\n" : "");
        if(!skippable(l[i])) {
            want.push_back(l[i]);
        }
    }
    c.describe(vf::cat(l.size(), " lines, ", want.size(), " of content, last ", terminated ? "" : "not ",
                       "terminated: '", show(text), "'"), !want.empty() && want.size() < l.size());
    std::istringstream in(text);
    std::unique_ptr<std::ifstream> file;
    std::istream* strm = &in;
    if(r.chance(0.2)) {
        std::ofstream(vf::cat("stream", getpid(), ".txt"), std::ios::binary) << text;
        file.reset(new std::ifstream(vf::cat("stream", getpid(), ".txt"), std::ios::binary));
        strm = file.get();
    }
    std::istringstream other("# x\n\n other 1\nother 2 \n");
    unsigned others = 0;
    for(std::size_t i = 0; i < want.size(); ++i) {
        if(others < 2 && r.chance(0.1)) { // another stream is read in between
            const auto got = io::next_line(other);
            c.check(got == (others ? "other 2 " : " other 1"), "next_line", "line of a second stream is '", show(got), "'");
            ++others;
        }
        const auto got = io::next_line(*strm);
        c.check(got == want[i], "next_line", "content line ", i, " is '", show(got), "' instead of '",
                show(want[i]), "'");
        if(got != want[i]) {
            return;
        }
        vf::observe("lines_read");
    }
    for(int k = 0; k < 3; ++k) {
        const auto got = io::next_line(*strm);
        c.check(got.empty(), "end", "next_line at the end of input gives '", show(got), "'");
        vf::observe("ends_reached");
    }
}

// ---------------------------------------------------------------- checkpoints
static std::string read(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}
VF_GROUP(checkpoint, 700, 20)
{
    auto& r = c.rng;
    if(!get_loggers().io) {
        get_loggers().init(vf::cat("log", getpid(), ".txt"));
    }
    // an output file as the programs write it
    std::vector<std::string> lines;
    for(uint64_t n = r.below(20); n > 0; --n) {
        lines.push_back(r.chance(0.1) ? "#" : r.chance(0.1) ? "" : "#\tkey = " + vf::cat(r.below(1000)));
    }
    const std::size_t header = lines.size();
    const uint64_t total     = r.chance(0.1) ? r.range(100, 2000) : r.range(1, 30);
    double t                 = 0;
    for(uint64_t i = 0; i < total; ++i) {
        if(r.chance(0.03)) {
            lines.push_back(r.coin() ? "# resumed" : "");
        }
        std::ostringstream s;
        s << t << '\t' << r.real(-1, 1);
        for(uint64_t k = r.chance(0.1) ? r.below(300) : 0; k > 0; --k) {
            s << '\t' << r.real(-1, 1);
        }
        lines.push_back(s.str());
        t += 0.1;
    }
    std::string text;
    for(auto& x : lines) {
        text += x + "\n";
    }
    // the run was interrupted: cut anywhere
    bool cut = r.coin();
    if(cut) {
        text.resize(r.below(text.size() + 1));
    }
    const uint64_t entries = r.chance(0.15) ? total + r.below(5)
                             : r.chance(0.05) ? std::max<uint64_t>(total, (uint64_t(1) << r.range(12, 63)) * r.range(1, 3) + r.below(3)) // all of them
                                              : r.range(1, total);
    std::string want;
    uint64_t found = 0;
    {
        std::size_t pos = 0;
        while(pos < text.size() && found < entries) {
            const auto end = text.find('\n', pos);
            const auto x   = text.substr(pos, end == std::string::npos ? end : end - pos);
            found += !skippable(x);
            want += x + "\n";
            pos = end == std::string::npos ? text.size() : end + 1;
        }
    }
    c.describe(vf::cat("output file of ", text.size(), " bytes, header ", header, " lines, ", total,
                       " measurements, ", cut ? "cut off, " : "", entries, " to keep"), found > 0);
    const std::string path = vf::cat("out", getpid(), ".txt");
    boost::filesystem::remove(path);
    boost::filesystem::remove(path + ".bak");
    std::ofstream(path, std::ios::binary) << text;
    if(r.chance(0.2)) {
        std::ofstream(path + ".bak") << "left from an earlier restart\n";
    }
    clean_output_file(path, entries);
    const auto got = read(path);
    c.check(got == want, "cleaned", "cleaned file of ", got.size(), " bytes is not the expected one of ",
            want.size(), " bytes; ends with '", show(got.substr(got.size() - std::min<std::size_t>(50, got.size()))),
            "' instead of '", show(want.substr(want.size() - std::min<std::size_t>(50, want.size()))), "'");
    // cleaning again changes nothing
    clean_output_file(path, entries);
    c.check(read(path) == want, "again", "cleaning a clean file changes it");
    vf::observe("files_cleaned");
    vf::observe("measurements_kept", found);
}

VF_REQUIRE(skippable, 300)
VF_REQUIRE(content, 300)
VF_REQUIRE(lines_read, 1000)
VF_REQUIRE(ends_reached, 1000)
VF_REQUIRE(files_cleaned, 100)
VF_MAIN
