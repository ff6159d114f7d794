// Crash injection: runs a child process under ptrace and kills it at a chosen file operation, before the
// operation takes effect or after a part of it did.
#ifndef CRASH_HPP_
#define CRASH_HPP_

#include <csignal>
#include <cstdint>
#include <string>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include <vector>

namespace crash
{
    enum Mode { before = 0, torn = 1 };

    struct Outcome {
        uint64_t operations = 0; // file operations seen
        bool killed         = false;
        bool failed         = false; // ended by itself, but not with status 0
        bool traced         = true;
        int status          = 0;
        std::string last;
        std::vector<std::pair<std::string, uint64_t>> writes; // file and number of bytes, in order
    };

    inline const char* file_operation(unsigned long long call)
    {
        switch(call) {
            case 1: return "write";
            case 18: return "pwrite64";
            case 20: return "writev";
            case 296: return "pwritev";
            case 2: return "open";
            case 85: return "creat";
            case 257: return "openat";
            case 3: return "close";
            case 82: return "rename";
            case 264: return "renameat";
            case 316: return "renameat2";
            case 87: return "unlink";
            case 263: return "unlinkat";
            case 76: return "truncate";
            case 77: return "ftruncate";
            case 86: return "link";
            case 265: return "linkat";
            case 40: return "sendfile";
            case 326: return "copy_file_range";
            default: return nullptr;
        }
    }
    inline bool by_descriptor(unsigned long long call)
    {
        return call == 1 || call == 18 || call == 20 || call == 296 || call == 3 || call == 77;
    }

    // `pid` has asked to be traced and stopped itself. File operations on descriptors 0-2 and on files whose
    // names end in `ignore` do not count. Kills at operation number `at` (from 1; 0: never).
    inline Outcome follow(pid_t pid, uint64_t at, Mode mode, const std::string& ignore = "")
    {
        Outcome r;
        int status = 0;
        if(waitpid(pid, &status, 0) != pid || !WIFSTOPPED(status)
           || ptrace(PTRACE_SETOPTIONS, pid, nullptr, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL) != 0) {
            r.traced = false;
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            return r;
        }
        bool entering = true;
        bool kill_now = false;
        std::string written; // the file of the call under way
        int signal    = 0;
        while(true) {
            if(ptrace(PTRACE_SYSCALL, pid, nullptr, reinterpret_cast<void*>(long(signal))) != 0) {
                r.traced = false;
                kill(pid, SIGKILL);
            }
            signal = 0;
            if(waitpid(pid, &status, 0) != pid) {
                r.traced = false;
                return r;
            }
            if(WIFEXITED(status) || WIFSIGNALED(status)) {
                r.status = status;
                r.failed = !r.killed && !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
                return r;
            }
            if(WSTOPSIG(status) != (SIGTRAP | 0x80)) {
                signal = WSTOPSIG(status) == SIGTRAP ? 0 : WSTOPSIG(status);
                continue;
            }
            if(!entering) {
                entering = true;
                struct user_regs_struct done;
                if(!written.empty() && ptrace(PTRACE_GETREGS, pid, nullptr, &done) == 0 && long(done.rax) > 0) {
                    r.writes.push_back({written, done.rax});
                }
                written.clear();
                if(kill_now) {
                    r.killed = true;
                    kill(pid, SIGKILL);
                }
                continue;
            }
            entering = false;
            struct user_regs_struct regs;
            if(ptrace(PTRACE_GETREGS, pid, nullptr, &regs) != 0) {
                continue;
            }
            const char* name = file_operation(regs.orig_rax);
            if(name == nullptr || (by_descriptor(regs.orig_rax) && regs.rdi <= 2)) {
                continue;
            }
            if(by_descriptor(regs.orig_rax) && !ignore.empty()) {
                char path[4096];
                const auto link = "/proc/" + std::to_string(pid) + "/fd/" + std::to_string(regs.rdi);
                const auto n    = readlink(link.c_str(), path, sizeof path);
                const std::string p(path, n > 0 ? std::size_t(n) : 0);
                if(p.size() >= ignore.size() && p.compare(p.size() - ignore.size(), ignore.size(), ignore) == 0) {
                    continue;
                }
                if(regs.orig_rax == 1 || regs.orig_rax == 18 || regs.orig_rax == 20 || regs.orig_rax == 296) {
                    written = p;
                }
            }
            ++r.operations;
            if(r.operations != at) {
                continue;
            }
            r.last = name;
            if(mode == torn && (regs.orig_rax == 1 || regs.orig_rax == 18 || regs.orig_rax == 20) && regs.rdx > 1) {
                regs.rdx = regs.orig_rax == 20 ? 1 : regs.rdx * 3 / 5;
                if(ptrace(PTRACE_SETREGS, pid, nullptr, &regs) == 0) {
                    r.last += " (torn)";
                    kill_now = true;
                    continue;
                }
            }
            r.killed = true;
            kill(pid, SIGKILL);
        }
    }

    template <typename Body>
    Outcome run(Body&& body, uint64_t at, Mode mode, const std::string& ignore = "")
    {
        const pid_t pid = fork();
        if(pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if(ptrace(PTRACE_TRACEME, 0, nullptr, nullptr) != 0) {
                _exit(99);
            }
            raise(SIGSTOP);
            body();
            _exit(0);
        }
        return follow(pid, at, mode, ignore);
    }
} // namespace crash

#endif
