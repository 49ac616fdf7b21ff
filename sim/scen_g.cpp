// Scenarios: script files on a faulty device.
#include "life.hpp"
#include <cerrno>
#include <climits>

// ---------------------------------------------------------------------
// The simulated file system: every fopen() in the library under test comes
// here; names it knows are served by streams that fail as told.
struct SimFile
{
    Bytes data;
    bool exists = true;
    bool directory = false;
    bool seekFails = false;        // every seek (a pipe)
    int seekFailAt = -1;           // this seek only
    int64_t claim = -1;            // what seeking to the end reports instead
    size_t errAt = (size_t)-1;     // the device fails here
    bool errOnce = false;
    size_t eofAt = (size_t)-1;     // the file was cut short here after being sized
    size_t chunk = 0;              // at most so much per read
    size_t growTo = 0;             // (bytes of data visible at first)
    int errNo = EIO;
    bool closeFails = false;
};

struct SimFs
{
    std::map<Str, SimFile> files;
    int opened = 0, closed = 0, reads = 0, seeks = 0;
    int errs = 0;
    bool active = false;
    int failMalloc = -1;
    int mallocs = 0;
};
static SimFs *g_fs = nullptr;

struct Handle { SimFile *f; int64_t pos = 0; };

static ssize_t fsRead(void *c, char *buf, size_t n)
{
    Handle *h = (Handle *)c;
    SimFile &f = *h->f;
    g_fs->reads++;
    if(f.directory) { g_fs->errs++; errno = EISDIR; return -1; }
    size_t end = std::min(f.data.size(), f.eofAt);
    size_t pos = (size_t)h->pos;
    if(pos >= f.errAt) {
        g_fs->errs++;
        if(f.errOnce) f.errAt = (size_t)-1;
        errno = f.errNo;
        return -1;
    }
    if(pos >= end) return 0;
    size_t k = std::min(n, end - pos);
    if(f.errAt != (size_t)-1) k = std::min(k, f.errAt - pos);
    if(f.chunk) k = std::min(k, f.chunk);
    memcpy(buf, f.data.data() + pos, k);
    h->pos += (int64_t)k;
    return (ssize_t)k;
}
static int fsSeek(void *c, off64_t *off, int whence)
{
    Handle *h = (Handle *)c;
    SimFile &f = *h->f;
    int k = g_fs->seeks++;
    if(f.seekFails || k == f.seekFailAt) { errno = ESPIPE; return -1; }
    int64_t size = f.claim >= 0 ? f.claim : f.directory ? LLONG_MAX : (int64_t)f.data.size();
    int64_t np = whence == SEEK_SET ? *off : whence == SEEK_CUR ? h->pos + *off : size + *off;
    if(np < 0) { errno = EINVAL; return -1; }
    h->pos = np;
    *off = np;
    return 0;
}
static int fsClose(void *c)
{
    Handle *h = (Handle *)c;
    g_fs->closed++;
    int r = h->f->closeFails ? -1 : 0;
    delete h;
    return r;
}

extern "C" FILE *__real_fopen(const char *name, const char *mode);
extern "C" FILE *__wrap_fopen(const char *name, const char *mode)
{
    if(!g_fs || !g_fs->active) return __real_fopen(name, mode);
    auto it = g_fs->files.find(name);
    if(it == g_fs->files.end() || !it->second.exists) { errno = ENOENT; return nullptr; }
    if(strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+')) { errno = EROFS; return nullptr; }
    Handle *h = new Handle();
    h->f = &it->second;
    cookie_io_functions_t io = { fsRead, nullptr, fsSeek, fsClose };
    FILE *f = fopencookie(h, mode, io);
    if(!f) { delete h; return nullptr; }
    g_fs->opened++;
    return f;
}
// The one buffer that does not come from the VM's allocator.
extern "C" void *__real_malloc(size_t n);
extern "C" void *__wrap_malloc(size_t n)
{
    if(g_fs && g_fs->active && g_fs->mallocs++ == g_fs->failMalloc) return nullptr;
    return __real_malloc(n);
}

void scP19(World &w)
{
    GenOpt g = pickGen(w.t);
    if(w.t.chance(2, 3)) { g.rootStmts = 4; g.bodyStmts = 2; g.maxFns = 2; }
    Model m = makeModel(w, g);
    if(!m.usable) return;
    // A long or a tiny file, so that the stream's own buffer is passed or not.
    if(w.t.chance(1, 3)) {
        uint32_t k = w.t.draw(300);
        Str pad;
        for(uint32_t i = 0; i < k; i++) pad += strf("// %u %s\n", i, Str(i % 61, 'x').c_str());
        if(w.t.chance(1, 2)) m.p.src = pad + m.p.src; else m.p.src += pad;
    }
    w.setScenario(m.p.src);
    size_t L = m.p.src.size();
    NodeOpt o = pickNode(w.t);
    Trace base;
    {
        Node n(w, o, "text");
        if(!n.build(m.p)) { w.fail("compile", "a valid program was rejected: " + n.errors()); return; }
        SlicePolicy sp(w.t);
        drive(n, stepBound(m), [&] { return sp.next(); }, nullptr, base);
        base = finish(n, m, base);
        n.destroy();
        if(w.bad()) return;
    }

    SimFs fs;
    g_fs = &fs;
    struct Out { ~Out() { g_fs = nullptr; } } out;
    SimFile good;
    good.data.assign(m.p.src.begin(), m.p.src.end());
    auto drawOffset = [&]() -> size_t {
        switch(w.t.draw(4)) {
            case 0: return w.t.draw((uint32_t)L + 1);
            case 1: return L - std::min<size_t>(L, 1 + w.t.draw(3));
            case 2: return w.t.draw(4);
            default: return std::min<size_t>(L, (size_t)w.t.draw((uint32_t)(L / 4096) + 1) * 4096 + w.t.draw(3));
        }
    };
    // 0: must succeed; 1: must be refused; 2: either, but complete.
    int expect = 0;
    SimFile bad = good;
    Str name = "sim.nks";
    Str kind;
    bool mallocFails = false;
    uint64_t failAt = ~0ULL;
    switch(w.t.draw(16)) {
        case 0: kind = "none"; break;
        case 1: kind = "missing"; bad.exists = false; expect = 1; break;
        case 2: kind = "directory"; bad.directory = true; expect = 1; break;
        case 3: kind = "read_error"; bad.errAt = drawOffset(); bad.errOnce = w.t.chance(1, 2); expect = bad.errAt < L ? 1 : 2; break;
        case 4: {
            kind = "truncated_while_reading";
            bad.eofAt = drawOffset();
            expect = bad.eofAt < L ? 1 : 0;
        } break;
        case 5: kind = "unseekable"; bad.seekFails = true; expect = 2; break;
        case 6: kind = "seek_error"; bad.seekFailAt = (int)w.t.draw(4); expect = 2; break;
        case 7: kind = "short_reads"; bad.chunk = 1 + w.t.draw(w.t.chance(1, 2) ? 3 : 700); break;
        case 8: kind = "size_zero"; bad.claim = 0; expect = L ? 2 : 0; break;
        case 9: kind = "size_too_small"; bad.claim = (int64_t)drawOffset(); expect = bad.claim < (int64_t)L ? 2 : 0; break;
        case 10: kind = "size_too_large"; bad.claim = (int64_t)L + 1 + w.t.draw(w.t.chance(1, 2) ? 3 : 5000); expect = 1; break;
        case 11: {
            kind = "size_huge";
            static const int64_t sz[] = { LLONG_MAX, 0xffffffffLL, 0xfffffffeLL, 0x100000000LL, 0x7fffffffLL, 0x100000001LL, 0x80000000LL };
            bad.claim = sz[w.t.draw(7)];
            if(bad.claim == 0x100000000LL && w.t.chance(1, 2)) bad.claim += (int64_t)drawOffset();
            // A machine that has no such buffer to give.
            if(bad.claim < 0xffffffffLL) mallocFails = true;
            expect = 1;
        } break;
        case 12: kind = "buffer_malloc_null"; mallocFails = true; expect = 2; break;
        case 13: {
            kind = "null_character";
            size_t at = w.t.draw((uint32_t)L + 1);
            bad.data.insert(bad.data.begin() + (long)at, 1 + w.t.draw(3), 0);
            expect = 1;
        } break;
        case 14: kind = "close_error"; bad.closeFails = true; expect = 2; break;
        default: kind = "malloc_null"; failAt = w.t.draw(w.t.chance(1, 2) ? 30 : 600); expect = 2; break;
    }
    bool first = w.t.chance(1, 3);   // another file before it
    uint32_t attempts = 1 + w.t.draw(3);
    bool retry = w.t.chance(1, 2) && kind != "malloc_null" && kind != "buffer_malloc_null" && kind != "size_huge";
    fs.files["sim.nks"] = bad;

    auto compile = [&](Node &n) {
        fs.active = true;
        fs.seeks = fs.reads = fs.mallocs = 0;
        int o0 = fs.opened;
        bool ok = nkxCompilerCompileScriptFile(n.cs, name.c_str());
        fs.active = false;
        (void)o0;
        if(fs.opened != fs.closed) w.fail("file-open", strf("%d streams opened and %d closed after %s", fs.opened, fs.closed, kind.c_str()));
        if(ok == n.hasErr()) w.fail("file-report", strf("the file (%s) was %s but the VM has %s", kind.c_str(), ok ? "accepted" : "refused", n.hasErr() ? "errors" : "no error"));
        return ok;
    };

    NodeOpt o2 = o;
    Node n(w, o2, "file");
    if(!n.create() || !n.setup(true)) { w.fail("compile", "set-up failed: " + n.errors()); return; }
    if(first) {
        fs.files["first.nks"] = SimFile();
        Str s = "// nothing\n";
        fs.files["first.nks"].data.assign(s.begin(), s.end());
        name = "first.nks";
        if(!compile(n) && !w.bad()) w.fail("file-refused", "a good file was refused: " + n.errors());
        if(w.bad()) return;
        name = "sim.nks";
    }
    if(mallocFails) fs.failMalloc = 0;
    uint32_t ip = nkxCompilerGetInstructionWriteIndex(n.cs);
    uint64_t a0 = n.alloc.nAllocs;
    if(failAt != ~0ULL) { n.alloc.failAt = a0 + failAt; n.alloc.failCount = ~0ULL; }
    bool ok = compile(n);
    if(kind == "malloc_null" && !n.alloc.failsFired) { kind = "none"; expect = 0; n.alloc.failAt = ~0ULL; }
    n.alloc.failAt = ~0ULL;
    w.ev(strf("%s: %s '%s'", kind.c_str(), ok ? "accepted" : "refused", n.errors().c_str()));
    w.count("fault.file_" + kind);
    if(w.bad()) return;
    if(expect == 0 && !ok) { w.fail("file-refused", "a readable file was refused (" + kind + "): " + n.errors()); return; }
    if(expect == 1 && ok) { w.fail("file-partial", "a file that could not be read completely was compiled (" + kind + ")"); return; }
    if(!ok) {
        // Nothing of it was compiled.
        for(auto &gl : m.p.globals) {
            if(kind == "malloc_null" || n.oom()) break;
            if(nkxVmFindGlobalVariable(n.vm, n.cs, gl.c_str())) { w.fail("file-partial", "'" + gl + "' is defined although the file was refused (" + kind + ")"); return; }
        }
        // Again and again, into the same failed VM.
        for(uint32_t i = 1; i < attempts && !w.bad(); i++) compile(n);
        if(w.bad()) return;
        fs.failMalloc = -1;
        if(retry) {
            nkxCompilerClearReplErrorState(n.cs, ip);
            if(n.hasErr()) { w.fail("file-retry", "the error stayed: " + n.errors()); return; }
            fs.files["sim.nks"] = good;
            ok = compile(n);
            w.count("action.retry");
            if(!w.bad() && !ok) w.fail("file-retry", "the repaired file was refused: " + n.errors());
            if(w.bad()) return;
        }
    }
    nkxCompilerFinalize(n.cs);
    n.cs = nullptr;
    if(ok) {
        n.limits();
        Trace t;
        SlicePolicy sp(w.t);
        drive(n, stepBound(m), [&] { return sp.next(); }, nullptr, t);
        t = finish(n, m, t);
        if(!sameTrace(w, "file-partial", base, t, "from text vs from a file (" + kind + ")")) return;
    } else {
        nkxVmIterate(n.vm, 1000);
        nkxVmExecuteProgram(n.vm);
        if(!n.ev.empty()) { w.fail("file-partial", "a refused file ran"); return; }
    }
    n.destroy();
    w.trivial = kind == "none";
    w.sig(m.p.src);
    w.sig(kind);
    w.sig(w.hash);
}
