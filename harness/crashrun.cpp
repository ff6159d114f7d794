// Prints the writes seen and, on the last line, the outcome.
// crashrun AT MODE IGNORE COMMAND...   runs the command, killing it at file operation number AT
#include "crash.hpp"
#include <cstdio>
#include <cstdlib>

int main(int argc, char** argv)
{
    if(argc < 5) {
        return 2;
    }
    const auto r = crash::run([&] { execv(argv[4], argv + 4); _exit(98); }, strtoull(argv[1], nullptr, 10),
                              argv[2][0] == '1' ? crash::torn : crash::before, argv[3]);
    for(const auto& w : r.writes) {
        std::printf("w %llu %s\n", static_cast<unsigned long long>(w.second), w.first.c_str());
    }
    std::printf("%d %d %d %llu %s\n", int(r.traced), int(r.killed), int(r.failed),
                static_cast<unsigned long long>(r.operations), r.last.c_str());
    return 0;
}
