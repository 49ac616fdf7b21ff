// Runner: seeded search, replay and minimisation.
//   sim check PROP SEED JOBS RUNS SECS OUTDIR
//   sim replay PROP TAPEFILE [log]
//   sim min PROP TAPEFILE OUTFILE SECS
#include "core.hpp"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:handle_abort=1:"
           "handle_segv=1:detect_stack_use_after_return=0:max_allocation_size_mb=1024:quarantine_size_mb=8:"
           "malloc_context_size=6:symbolize=1:print_legend=0:print_summary=1:handle_sigfpe=1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=86"; }

static const uint32_t MIRROR = 1u << 20;
struct Shared
{
    uint64_t index;
    uint64_t stage;      // 0 idle, 1 in a run, 2 finished all
    uint32_t tapeLen;
    uint32_t tape[MIRROR];
};
uint32_t *g_mirror = nullptr;
uint32_t *g_mirrorLen = nullptr;
uint32_t g_mirrorCap = 0;

static double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static const Scenario *findScenario(const char *prop)
{
    for(const Scenario *s = g_scenarios; s->prop; s++) if(!strcmp(s->prop, prop)) return s;
    return nullptr;
}

static void arm(int secs)
{
    itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static uint64_t mixSeed(uint64_t seed, const char *prop, uint64_t i)
{
    uint64_t h = 1469598103934665603ULL ^ (seed * 0x9e3779b97f4a7c15ULL);
    for(const char *c = prop; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ULL;
    h = (h ^ i) * 0xbf58476d1ce4e5b9ULL;
    return h ^ (h >> 29);
}

static Str esc(const Str &s)
{
    Str o;
    for(unsigned char c : s) {
        if(c == '\\') o += "\\\\";
        else if(c == '\n') o += "\\n";
        else if(c == '\t') o += "\\t";
        else if(c < 32 || c > 126) o += strf("\\x%02x", c);
        else o += (char)c;
    }
    return o;
}

// Reads a sanitizer or assertion report and names the failure.
static Str classifyCrash(int status, const Str &errFile)
{
    Str txt;
    if(FILE *f = fopen(errFile.c_str(), "rb")) {
        char buf[4096];
        size_t n;
        while((n = fread(buf, 1, sizeof(buf), f)) > 0 && txt.size() < 200000) txt.append(buf, n);
        fclose(f);
    }
    auto strip = [](const Str &p) { size_t k = p.rfind('/'); return k == Str::npos ? p : p.substr(k + 1); };
    size_t p;
    if((p = txt.find("runtime error: ")) != Str::npos) {
        size_t b = txt.rfind('\n', p);
        b = b == Str::npos ? 0 : b + 1;
        Str loc = strip(txt.substr(b, p - b));
        size_t c = loc.find(':');
        size_t e = txt.find('\n', p);
        Str msg = txt.substr(p + 15, e - p - 15);
        Str m2;
        for(char ch : msg) { if(ch >= '0' && ch <= '9') { if(m2.empty() || m2.back() != 'N') m2 += 'N'; } else m2 += ch; }
        return "crash ubsan " + loc.substr(0, c) + " " + m2.substr(0, 90);
    }
    if((p = txt.find("AddressSanitizer: ")) != Str::npos) {
        size_t e = txt.find_first_of(" \n", p + 18);
        Str kind = txt.substr(p + 18, e - p - 18);
        Str fn;
        size_t q = p;
        // First frame in the VM's own sources.
        while((q = txt.find(" in nk", q)) != Str::npos) {
            size_t e2 = txt.find_first_of(" \n", q + 4);
            fn = txt.substr(q + 4, e2 - q - 4);
            break;
        }
        size_t a = txt.find("Assertion `");
        if(a != Str::npos) {
            size_t e3 = txt.find('\n', a);
            return "crash assert " + txt.substr(a, std::min<size_t>(e3 - a, 120));
        }
        return "crash asan " + kind + " " + fn;
    }
    if((p = txt.find("Assertion `")) != Str::npos) {
        size_t e3 = txt.find('\n', p);
        return "crash assert " + txt.substr(p, std::min<size_t>(e3 - p, 120));
    }
    if(WIFSIGNALED(status)) {
        if(WTERMSIG(status) == SIGVTALRM) return "hang no return from the API within the CPU budget";
        if(WTERMSIG(status) == SIGKILL) return "killed";
        return strf("crash signal %d", WTERMSIG(status));
    }
    return strf("crash exit %d", WIFEXITED(status) ? WEXITSTATUS(status) : -1);
}

struct Result { Str cls, msg; uint64_t hash = 0; std::vector<uint32_t> tape; bool done = false; Str log; };

static int g_cpuLimit = 20;

// One run in a child process.
static Result runForked(const Scenario *sc, const std::vector<uint32_t> &tape, bool log, const Str &tmp)
{
    static Shared *sh = nullptr;
    if(!sh) sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->tapeLen = 0;
    sh->stage = 0;
    Str errF = tmp + ".err", outF = tmp + ".out";
    unlink(outF.c_str());
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
        int fd = open(errF.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        g_mirror = sh->tape;
        g_mirrorLen = &sh->tapeLen;
        g_mirrorCap = MIRROR;
        Tape t;
        t.replay = true;
        t.src = tape;
        World w(t);
        w.prop = sc->prop;
        w.keepLog = log;
        arm(g_cpuLimit);
        sc->fn(w);
        arm(0);
        FILE *f = fopen(outF.c_str(), "wb");
        fprintf(f, "%s\n%s\n%llx\n", esc(w.vclass).c_str(), esc(w.vmsg).c_str(), (unsigned long long)w.hash);
        fclose(f);
        sh->stage = 2;
        _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    Result r;
    r.tape.assign(sh->tape, sh->tape + std::min(sh->tapeLen, MIRROR));
    if(sh->stage == 2) {
        FILE *f = fopen(outF.c_str(), "rb");
        Str txt;
        char buf[4096];
        size_t n;
        while(f && (n = fread(buf, 1, sizeof(buf), f)) > 0) txt.append(buf, n);
        if(f) fclose(f);
        size_t a = txt.find('\n'), b = txt.find('\n', a + 1), c = txt.find('\n', b + 1);
        r.cls = txt.substr(0, a);
        r.msg = txt.substr(a + 1, b - a - 1);
        r.hash = strtoull(txt.substr(b + 1, c - b - 1).c_str(), nullptr, 16);
        r.done = true;
    } else {
        r.cls = classifyCrash(status, errF);
        r.msg = "the process died";
        r.done = true;
    }
    if(log) {
        FILE *f = fopen(errF.c_str(), "rb");
        char buf[4096];
        size_t n;
        while(f && (n = fread(buf, 1, sizeof(buf), f)) > 0 && r.log.size() < 200000) r.log.append(buf, n);
        if(f) fclose(f);
    }
    unlink(errF.c_str());
    unlink(outF.c_str());
    return r;
}

static std::vector<uint32_t> readTape(const char *f)
{
    std::vector<uint32_t> t;
    FILE *in = fopen(f, "r");
    if(!in) { fprintf(stderr, "cannot read %s\n", f); exit(2); }
    unsigned v;
    while(fscanf(in, "%u", &v) == 1) t.push_back(v);
    fclose(in);
    return t;
}

static void writeTape(const char *f, const std::vector<uint32_t> &t)
{
    FILE *o = fopen(f, "w");
    for(uint32_t v : t) fprintf(o, "%u ", v);
    fprintf(o, "\n");
    fclose(o);
}

static Str classKey(const Str &c) { return c; }

static int cmdMin(int argc, char **argv)
{
    const Scenario *sc = findScenario(argv[2]);
    std::vector<uint32_t> best = readTape(argv[3]);
    double end = now() + atof(argv[5]);
    Str tmp = Str(argv[4]) + ".tmp";
    Result r0 = runForked(sc, best, false, tmp);
    Result r1 = runForked(sc, best, false, tmp);
    if(r0.cls.empty() || r0.cls != r1.cls || r0.hash != r1.hash) {
        printf("NOT-REPRODUCED '%s' '%s'\n", r0.cls.c_str(), r1.cls.c_str());
        return 3;
    }
    if(r0.tape.size() < best.size()) best = r0.tape;
    Str key = classKey(r0.cls);
    auto tryIt = [&](const std::vector<uint32_t> &c) {
        if(c == best || now() > end) return false;
        Result r = runForked(sc, c, false, tmp);
        if(classKey(r.cls) != key) return false;
        std::vector<uint32_t> used = r.tape;
        while(!used.empty() && used.back() == 0) used.pop_back();
        std::vector<uint32_t> cc = c;
        while(!cc.empty() && cc.back() == 0) cc.pop_back();
        best = used.size() < cc.size() ? used : cc;
        return true;
    };
    // Truncate, delete chunks, zero chunks, lower values.
    for(size_t cut = best.size() / 2; cut >= 1 && now() < end;) {
        if(cut < best.size() && tryIt(std::vector<uint32_t>(best.begin(), best.end() - (long)cut))) continue;
        cut /= 2;
    }
    bool changed = true;
    for(int round = 0; round < 3 && changed && now() < end; round++) {
        changed = false;
        for(size_t sz = best.size() / 2; sz >= 1 && now() < end; sz /= 2) {
            for(size_t i = 0; i + sz <= best.size() && now() < end;) {
                std::vector<uint32_t> c(best.begin(), best.begin() + (long)i);
                c.insert(c.end(), best.begin() + (long)(i + sz), best.end());
                if(tryIt(c)) { changed = true; continue; }
                c = best;
                bool nz = false;
                for(size_t k = i; k < i + sz; k++) { if(c[k]) nz = true; c[k] = 0; }
                if(nz && tryIt(c)) changed = true;
                i += sz;
            }
        }
        for(size_t i = 0; i < best.size() && now() < end; i++) {
            while(i < best.size() && best[i] > 1 && now() < end) {
                std::vector<uint32_t> c = best;
                c[i] /= 2;
                if(!tryIt(c)) break;
                changed = true;
            }
        }
    }
    writeTape(argv[4], best);
    printf("OK %zu\n", best.size());
    return 0;
}

// Prints one run's log, for the evidence file.
static int cmdSample(char **argv)
{
    const Scenario *sc = findScenario(argv[2]);
    if(!sc) return 2;
    dup2(1, 2);
    Tape t;
    t.seed(mixSeed(strtoull(argv[3], nullptr, 10), sc->prop, strtoull(argv[4], nullptr, 10)));
    World w(t);
    w.prop = sc->prop;
    w.keepLog = true;
    arm(g_cpuLimit);
    sc->fn(w);
    printf("hash %llx choices %zu\n", (unsigned long long)w.hash, t.rec.size());
    return 0;
}

static int cmdReplay(int argc, char **argv)
{
    const Scenario *sc = findScenario(argv[2]);
    bool log = argc > 4;
    Result r = runForked(sc, readTape(argv[3]), log, strf("/tmp/simreplay.%d", (int)getpid()));
    printf("CLASS %s\nMSG %s\nHASH %llx\n", r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash);
    if(log) printf("%s\n", r.log.c_str());
    return r.cls.empty() ? 0 : 1;
}

struct Agg
{
    uint64_t runs = 0, nontrivial = 0, instrs = 0, events = 0;
    std::map<Str, uint64_t> counters;
    std::vector<uint64_t> sigs;
};

static void flushAgg(FILE *o, Agg &a)
{
    fprintf(o, "AGG %llu %llu %llu %llu\n", (unsigned long long)a.runs, (unsigned long long)a.nontrivial,
            (unsigned long long)a.instrs, (unsigned long long)a.events);
    for(auto &c : a.counters) fprintf(o, "C %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
    for(uint64_t s : a.sigs) fprintf(o, "S %llx\n", (unsigned long long)s);
    fflush(o);
    a = Agg();
}

static volatile uint64_t *g_found = nullptr; // set when any worker found something
static void writeVio(FILE *o, uint64_t idx, const Str &cls, const Str &msg, uint64_t hash, const uint32_t *tape, size_t n)
{
    if(g_found) *g_found = 1;
    fprintf(o, "V %llu\t%llx\t%s\t%s\t", (unsigned long long)idx, (unsigned long long)hash, esc(cls).c_str(), esc(msg).c_str());
    for(size_t i = 0; i < n; i++) fprintf(o, "%u ", tape[i]);
    fprintf(o, "\n");
    fflush(o);
}

static double g_grace = 6;
static double g_foundAt = 0;
static bool stopNow(double endT)
{
    double t = now();
    if(t >= endT) return true;
    if(g_found && *g_found) {
        if(!g_foundAt) g_foundAt = t;
        if(t > g_foundAt + g_grace) return true;
    }
    return false;
}

static void worker(const Scenario *sc, uint64_t seed, int job, int jobs, uint64_t runs, double endT, const Str &dir)
{
    Str outF = strf("%s/w%d.txt", dir.c_str(), job), errF = strf("%s/w%d.err", dir.c_str(), job);
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t next = (uint64_t)job;
    int vios = 0;
    fclose(fopen(outF.c_str(), "w"));
    while(next < runs && !stopNow(endT) && vios < 4) {
        sh->index = next;
        sh->stage = 0;
        pid_t pid = fork();
        if(pid == 0) {
            int fd = open(errF.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            rlimit rl = { 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            FILE *o = fopen(outF.c_str(), "a");
            g_mirror = sh->tape;
            g_mirrorLen = &sh->tapeLen;
            g_mirrorCap = MIRROR;
            Agg a;
            double last = now();
            // Fresh processes now and then keep the heap in a known state.
            uint64_t cnt = 0;
            for(uint64_t i = next; i < runs && !stopNow(endT); i += (uint64_t)jobs) {
                sh->index = i;
                sh->tapeLen = 0;
                sh->stage = 1;
                Tape t;
                t.seed(mixSeed(seed, sc->prop, i));
                World w(t);
                w.prop = sc->prop;
                arm(g_cpuLimit);
                sc->fn(w);
                arm(0);
                sh->stage = 0;
                a.runs++;
                if(!w.trivial) { a.nontrivial++; a.sigs.push_back(w.signature ? w.signature : w.hash); }
                if(getenv("SIM_HASHES")) fprintf(o, "H %llu %llx\n", (unsigned long long)i, (unsigned long long)w.hash);
                a.instrs += w.instrs;
                a.events += w.events;
                for(auto &c : w.counters) a.counters[c.first] += c.second;
                if(w.bad()) {
                    flushAgg(o, a);
                    writeVio(o, i, w.vclass, w.vmsg, w.hash, t.rec.data(), t.rec.size());
                    sh->index = i + (uint64_t)jobs;
                    _exit(10);
                }
                if(now() - last > 0.5) { flushAgg(o, a); last = now(); }
                if(++cnt >= 4000) { flushAgg(o, a); sh->index = i + (uint64_t)jobs; _exit(11); }
            }
            flushAgg(o, a);
            sh->index = runs;
            sh->stage = 2;
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if(WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh->stage == 2) break;
        if(WIFEXITED(status) && WEXITSTATUS(status) == 11) { next = sh->index; continue; }
        if(WIFEXITED(status) && WEXITSTATUS(status) == 10) { next = sh->index; vios++; continue; }
        FILE *o = fopen(outF.c_str(), "a");
        if(sh->stage != 1) {
            fprintf(o, "E worker died outside a run: status %d\n", status);
            fclose(o);
            break;
        }
        Str cls = classifyCrash(status, errF);
        if(cls == "killed") fprintf(o, "E run %llu was killed from outside\n", (unsigned long long)sh->index);
        else writeVio(o, sh->index, cls, "the process died", 0, sh->tape, std::min(sh->tapeLen, MIRROR));
        fclose(o);
        vios++;
        next = sh->index + (uint64_t)jobs;
    }
    unlink(errF.c_str());
}

static int cmdCheck(char **argv)
{
    const Scenario *sc = findScenario(argv[2]);
    if(!sc) { fprintf(stderr, "no scenario for %s\n", argv[2]); return 2; }
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    int jobs = atoi(argv[4]);
    uint64_t runs = strtoull(argv[5], nullptr, 10);
    if(!runs) runs = sc->quickRuns;
    double endT = now() + atof(argv[6]);
    std::vector<pid_t> kids;
    g_found = (volatile uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for(int j = 0; j < jobs; j++) {
        pid_t p = fork();
        if(p == 0) { worker(sc, seed, j, jobs, runs, endT, argv[7]); _exit(0); }
        kids.push_back(p);
    }
    for(pid_t p : kids) { int st; waitpid(p, &st, 0); }
    return 0;
}

void runProgramFile(World &w, const char *file, unsigned long max);

int main(int argc, char **argv)
{
    if(argc >= 3 && !strcmp(argv[1], "prog")) {
        Tape t;
        World w(t);
        runProgramFile(w, argv[2], argc > 3 ? strtoul(argv[3], nullptr, 10) : 20000);
        return 0;
    }
    if(argc >= 8 && !strcmp(argv[1], "check")) return cmdCheck(argv);
    if(argc >= 5 && !strcmp(argv[1], "sample")) return cmdSample(argv);
    if(argc >= 4 && !strcmp(argv[1], "replay")) return cmdReplay(argc, argv);
    if(argc >= 6 && !strcmp(argv[1], "min")) return cmdMin(argc, argv);
    fprintf(stderr, "usage: sim check|replay|min ...\n");
    return 2;
}
