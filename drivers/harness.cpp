#include "harness.hpp"
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <csignal>
#include <fcntl.h>
#include <set>
#include <unistd.h>

double Rng::lu(double a, double b) { return std::exp(std::log(a) + u() * (std::log(b) - std::log(a))); }
double Rng::gauss() {
    double a = u() + 1e-300, b = u();
    return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
}

static std::map<std::string, uint64_t> counters;
static std::map<std::string, double> maxima;
std::string gWorkDir;
void count(const char* name, uint64_t n) { counters[name] += n; }
void maxi(const char* name, double v) {
    auto it = maxima.find(name);
    if (it == maxima.end() || !(it->second >= v)) maxima[name] = v;
}
std::string fmt(const char* f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static FILE* out;
static int fails = 0;
static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r;
}
void Case::fail(const char* f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (!failed) {
        fprintf(out, "{\"fail\":%llu,\"message\":\"%s\"}\n", (unsigned long long) index, esc(b).c_str());
        fflush(out);
        fails++;
    }
    failed = true;
}

static jmp_buf exitJump;
static volatile bool exitArmed = false;
static volatile int exitCode   = 0;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) {
    if (exitArmed) {
        exitArmed = false;
        exitCode  = code;
        longjmp(exitJump, 1);
    }
    __real_exit(code);
}
bool callsExit(const std::function<void()>& f, int* code) {
    if (setjmp(exitJump)) {
        if (code) *code = exitCode;
        return true;
    }
    exitArmed = true;
    try {
        f();
    } catch (...) {
        exitArmed = false;
        throw;
    }
    exitArmed = false;
    return false;
}

static void onAlarm(int) {
    static const char m[] = "HARNESS: case timed out\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(77);
}

int harnessMain(int argc, char** argv, void (*run)(Case&)) {
    std::map<std::string, std::string> a;
    for (int k = 1; k + 1 < argc; k += 2) a[argv[k]] = argv[k + 1];
    uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10), from = strtoull(a["--from"].c_str(), 0, 10), to = strtoull(a["--to"].c_str(), 0, 10);
    uint64_t stride = a.count("--stride") ? strtoull(a["--stride"].c_str(), 0, 10) : 1;
    out = fopen(a["--out"].c_str(), "w");
    if (!out) { perror("--out"); return 3; }
    gWorkDir = a["--work"];
    int progress = open(a["--progress"].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    signal(SIGALRM, onAlarm);
    std::set<uint64_t> hashes;
    std::vector<std::string> samples;
    uint64_t done = 0;
    for (uint64_t i = from; i < to; i += stride) {
        if (progress >= 0) {
            char b[32];
            int n = snprintf(b, sizeof b, "%-20llu\n", (unsigned long long) i);
            if (pwrite(progress, b, n, 0)) {}
        }
        Case c;
        c.prop = a["--prop"]; c.args = a["--args"]; c.thorough = a["--tier"] == "thorough";
        c.index = i; 
        Rng r(seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 12345);
        c.seed = r.next();
        c.rng  = Rng(c.seed);
        alarm(60);
        try {
            run(c);
        } catch (const std::exception& e) {
            c.fail("unexpected exception: %s", e.what());
        }
        alarm(0);
        done++;
        if (c.nontrivial) hashes.insert(c.hash);
        if (!c.sample.empty() && samples.size() < 3) samples.push_back(c.sample);
        if (fails >= 3) break;
    }
    fprintf(out, "{\"done\":%llu,\"hashes\":[", (unsigned long long) done);
    bool first = true;
    for (auto h : hashes) { fprintf(out, "%s%llu", first ? "" : ",", (unsigned long long) h); first = false; }
    fprintf(out, "],\"counters\":{");
    first = true;
    for (auto& kv : counters) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", esc(kv.first).c_str(), (unsigned long long) kv.second); first = false; }
    fprintf(out, "},\"maxima\":{");
    first = true;
    for (auto& kv : maxima) { fprintf(out, "%s\"%s\":%.6g", first ? "" : ",", esc(kv.first).c_str(), std::isfinite(kv.second) ? kv.second : 1e308); first = false; }
    fprintf(out, "},\"samples\":[");
    first = true;
    for (auto& s : samples) { fprintf(out, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
    fprintf(out, "]}\n");
    fclose(out);
    return 0;
}
