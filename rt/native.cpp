// Native runtime: replays recorded assignments against the real code, one forked child per assignment.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <map>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/resource.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" const char * __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=3000"; }
#endif
static std::vector<std::pair<std::string, std::string>> inputs; static size_t pos = 0; static std::map<std::string, int> bounds; static bool expectReject = false;
static const std::string & next(const char * name) {
    if (pos >= inputs.size()) { printf("DIVERGED out-of-inputs %s\n", name); fflush(stdout); _exit(50); }
    if (inputs[pos].first != name) { printf("DIVERGED expected %s got %s\n", inputs[pos].first.c_str(), name); fflush(stdout); _exit(50); }
    return inputs[pos++].second;
}
static void rejected(const char * why) { printf("REJECTED %s\n", why); printf(expectReject ? "RESULT ok\n" : "RESULT violation rejected\n"); fflush(stdout); _exit(expectReject ? 0 : 60); }
extern "C" {
    int sx_int(const char * n, int lo, int hi) { int v = atoi(next(n).c_str()); if (v < lo || v > hi) { printf("DIVERGED range %s\n", n); fflush(stdout); _exit(50); } return v; }
    int sx_choose(const char * n, int k) { return sx_int(n, 0, k - 1); }
    double sx_real(const char * n, double, double) { return strtod(next(n).c_str(), nullptr); }
    int sx_concretize(int v) { return v; }
    void sx_assume(bool b) { if (!b) { printf("ASSUMPTION-FAILED\n"); fflush(stdout); _exit(51); } }
    void sx_check(bool b, const char * l) { if (!b) { printf("FAILED %s\nRESULT violation check\n", l); fflush(stdout); _exit(61); } }
    void sx_close(const char * l, double a, double b, double t) { if (!(std::fabs(a - b) <= t)) { printf("FAILED %s (%.17g vs %.17g)\nRESULT violation check\n", l, a, b); fflush(stdout); _exit(61); } }
    double sx_ddx_raw(double, double) { abort(); }
    int sx_symbolic() { return 0; }
    void sx_expect_reject() { expectReject = true; }
    void sx_observe_i(const char * n, long v) { printf("OBS %s %ld\n", n, v); }
    void sx_observe_d(const char * n, double v) { if (std::isfinite(v)) printf("OBS %s %.17g\n", n, v); }
    static long live = 0;
    long sx_heap_live() { return live; }
    int sx_bound(const char * n, int d) { auto it = bounds.find(n); return it == bounds.end() ? d : it->second; }
    void sx_trace(const char * s) { printf("TRACE %s\n", s); }
    void sx_trace_i(const char * s, long v) { printf("TRACE %s=%ld\n", s, v); }
    void sx_print_d(const char * s, double v) { printf("PRINT %s %.17g\n", s, v); }
    void sx_stop() { printf("RESULT ok\n"); fflush(stdout); _exit(0); }
    void sx_firewall() { rejected("firewall"); abort(); }
    void __assert_fail(const char * e, const char * f, unsigned l, const char *) { char b[600]; snprintf(b, sizeof b, "assertion %s at %s:%u", e, f, l); rejected(b); abort(); }
}
#if !defined(__SANITIZE_ADDRESS__)
#include <new>
void * operator new(size_t n) { live++; void * p = malloc(n ? n : 1); return p; }
void * operator new[](size_t n) { live++; return malloc(n ? n : 1); }
void operator delete(void * p) noexcept { if (p) { live--; free(p); } }
void operator delete(void * p, size_t) noexcept { if (p) { live--; free(p); } }
void operator delete[](void * p) noexcept { if (p) { live--; free(p); } }
void operator delete[](void * p, size_t) noexcept { if (p) { live--; free(p); } }
#else
extern "C" void __sanitizer_malloc_hook(const volatile void *, size_t) { live++; }
extern "C" void __sanitizer_free_hook(const volatile void * p) { if (p) live--; }
#endif
#include <exception>
int main(int argc, char ** argv) {
    // native <harness> <model-file>; the file holds blocks: "MODEL", "BOUND k v", "IN name value", "END"
    void * f = dlsym(RTLD_DEFAULT, (std::string("sxh_") + argv[1]).c_str()); if (!f) { printf("no harness\n"); return 3; }
    std::ifstream is(argv[2]); std::string line; int k = 0;
    while (std::getline(is, line)) {
        std::istringstream ls(line); std::string w; ls >> w;
        if (w == "MODEL") { inputs.clear(); bounds.clear(); }
        else if (w == "BOUND") { std::string n; int v; ls >> n >> v; bounds[n] = v; }
        else if (w == "IN") { std::string r; std::getline(ls, r); size_t a = r.find_first_not_of(" "), b = r.find_last_of(" "); inputs.push_back({ r.substr(a, b - a), r.substr(b + 1) }); }
        else if (w == "END") {
            printf("BEGIN %d\n", k); fflush(stdout);
            pid_t p = fork();
            if (p == 0) { alarm(argc > 3 ? atoi(argv[3]) : 60); dup2(1, 2); std::set_terminate([] { rejected("exception"); }); live = 0; ((void (*)()) f)(); if (expectReject) printf("RESULT violation accepted\n"); else printf("RESULT ok\n"); fflush(stdout); _exit(0); }
            int st; waitpid(p, &st, 0);
            if (WIFSIGNALED(st)) printf("SIGNAL %d\n", WTERMSIG(st)); else printf("EXIT %d\n", WEXITSTATUS(st));
            printf("FINISH %d\n", k++); fflush(stdout);
        }
    }
}
