// Stand-in for the spdlog 0.x API used by the programs in src/hubbard.
#ifndef SPDLOG_SHIM_H_
#define SPDLOG_SHIM_H_

#include <fstream>
#include <initializer_list>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <vector>
#include <string>

namespace spdlog
{
    namespace sinks
    {
        struct sink {
            virtual ~sink() = default;
            virtual void log(const std::string& line) = 0;
        };
        struct stderr_sink_mt : sink {
            void log(const std::string& line) override { std::cerr << line << '\n'; }
        };
        struct simple_file_sink_mt : sink {
            std::ofstream f;
            std::mutex m;
            explicit simple_file_sink_mt(const std::string& p, bool truncate = false)
                : f(p.c_str(), truncate ? std::ios::out | std::ios::trunc : std::ios::out | std::ios::app)
            {
            }
            void log(const std::string& line) override
            {
                std::lock_guard<std::mutex> l(m);
                f << line << std::endl;
            }
        };
    } // namespace sinks
    using sink_ptr = std::shared_ptr<sinks::sink>;

    namespace shim
    {
        inline void format(std::ostream& o, const std::string& f, std::size_t pos)
        {
            for(; pos < f.size(); ++pos) {
                if((f[pos] == '{' || f[pos] == '}') && pos + 1 < f.size() && f[pos + 1] == f[pos]) ++pos;
                o << f[pos];
            }
        }
        template <typename T, typename... Ts>
        void format(std::ostream& o, const std::string& f, std::size_t pos, const T& t, const Ts&... ts)
        {
            for(; pos < f.size(); ++pos) {
                if((f[pos] == '{' || f[pos] == '}') && pos + 1 < f.size() && f[pos + 1] == f[pos]) {
                    o << f[pos++];
                    continue;
                }
                if(f[pos] == '{') {
                    const auto end = f.find('}', pos);
                    o << t;
                    format(o, f, end == std::string::npos ? f.size() : end + 1, ts...);
                    return;
                }
                o << f[pos];
            }
        }
    } // namespace shim

    namespace level
    {
        enum level_enum { trace, debug, info, warn, err, critical, off };
    }

    class logger
    {
        std::string _name;
        std::vector<sink_ptr> _sinks;
        level::level_enum _level = level::info;

    public:
        template <typename It>
        logger(const std::string& name, It b, It e) : _name(name), _sinks(b, e)
        {
        }
        logger(const std::string& name, std::initializer_list<sink_ptr> l) : _name(name), _sinks(l) {}
        logger(const std::string& name, sink_ptr sink) : _name(name), _sinks({sink}) {}

        const std::string& name() const { return _name; }
        level::level_enum level() const { return _level; }
        void set_level(level::level_enum l) { _level = l; }
        bool should_log(level::level_enum l) const { return l >= _level; }
        void flush() {}
        void flush_on(level::level_enum) {}
        void set_pattern(const std::string&) {}

        void log(level::level_enum l, const std::string& msg)
        {
            if(!should_log(l)) return;
            for(auto& s : _sinks) s->log("[" + _name + "] " + msg);
        }
        template <typename T, typename... Ts>
        void log(level::level_enum l, const std::string& fmt, const T& t, const Ts&... ts)
        {
            std::ostringstream o;
            shim::format(o, fmt, 0, t, ts...);
            log(l, o.str());
        }
        template <typename... Ts>
        void trace(const std::string& fmt, const Ts&... ts)
        {
            log(level::trace, fmt, ts...);
        }
        template <typename... Ts>
        void debug(const std::string& fmt, const Ts&... ts)
        {
            log(level::debug, fmt, ts...);
        }
        template <typename... Ts>
        void info(const std::string& fmt, const Ts&... ts)
        {
            log(level::info, fmt, ts...);
        }
        template <typename... Ts>
        void warn(const std::string& fmt, const Ts&... ts)
        {
            log(level::warn, fmt, ts...);
        }
        template <typename... Ts>
        void error(const std::string& fmt, const Ts&... ts)
        {
            log(level::err, fmt, ts...);
        }
        template <typename... Ts>
        void critical(const std::string& fmt, const Ts&... ts)
        {
            log(level::critical, fmt, ts...);
        }
    };
} // namespace spdlog

#include <vector>
#endif
