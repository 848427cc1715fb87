#include <vif.hpp>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <functional>
using namespace vif;
// outcome of running f in a child process: 0 returned, 1 stopped with an error, 2 memory error / crash / hang
static int outcome(const std::function<void()>& f) {
    std::fflush(stdout); std::fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        if (!std::freopen("/dev/null", "w", stdout)) {}
        if (!std::freopen("/dev/null", "w", stderr)) {}
        alarm(20);
        try { f(); } catch (...) { std::_Exit(1); }
        std::_Exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st)) return WEXITSTATUS(st) == 0 ? 0 : WEXITSTATUS(st) == 99 ? 2 : 1;
    return WTERMSIG(st) == SIGABRT ? 1 : 2;
}
static int bad = 0;
#define RETURNS(...) do { int o = outcome([&]() { __VA_ARGS__; }); if (o != 0) { std::printf("expected normal return, got %d: %s\n", o, #__VA_ARGS__); ++bad; } } while (0)
#define REJECTS(...) do { int o = outcome([&]() { __VA_ARGS__; }); if (o != 1) { std::printf("expected an error, got %d: %s\n", o, #__VA_ARGS__); ++bad; } } while (0)
#define TRUE_(...) do { int o = outcome([&]() { if (!(__VA_ARGS__)) std::_Exit(3); }); if (o != 0) { std::printf("does not hold: %s\n", #__VA_ARGS__); ++bad; } } while (0)
void demo();
int vif_main(int argc, char* argv[]) { demo(); return bad ? 1 : 0; }
