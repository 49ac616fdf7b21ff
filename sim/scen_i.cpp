// Scenarios: damaged source text.
#include "life.hpp"

// Splits into words, numbers, strings, runs of blanks and single characters.
static std::vector<Str> words(const Str &s)
{
    std::vector<Str> r;
    auto cls = [](char c) { return isalnum((unsigned char)c) || c == '_' ? 1 : c == ' ' || c == '\n' ? 2 : 0; };
    for(size_t i = 0; i < s.size();) {
        size_t j = i + 1;
        if(s[i] == '"') {
            while(j < s.size() && s[j] != '"' && s[j] != '\n') j++;
            if(j < s.size()) j++;
        } else if(cls(s[i])) {
            while(j < s.size() && cls(s[j]) == cls(s[i])) j++;
        }
        r.push_back(s.substr(i, j - i));
        i = j;
    }
    return r;
}

static const char *const g_soup[] = {
    "(", ")", "{", "}", "[", "]", ";", ",", ".", "->", "=", "==", "===", "!=", "<", ">", "<=", ">=", "&&", "||",
    "+", "-", "*", "/", "%", "!", "++", "--", "var ", "function", "function ", "return ", "if", "else ", "while", "do ", "for",
    "newobject", "nil", "break;", "coroutine", "yield", "resume", "is_finished", "object", "len", "0", "1", "1.5", "1.2.3",
    "99999999999", "\"\"", "\"x\"", "\"", "\\", "gi0", "go0", "ga0", "f1", "x", "#", "\n#line 7\n", "\n#file \"o.nks\"\n",
    "\n#line 12 \"p.nks\"\n", "\n#file \"open\n", "\n#file \"a\\\"\n", "\n#line\n", "\n#file\n", "\n#nonsense 1\n", "\n#line x\n", "\n#\n", "//", "/", "&", "|",
    "@", "$", "\xc3\xa9", "\xff", "\x01", "\r", "\t", "'", "_exec", "_data", "out", "hcall", "a.b.c", "()", "{}", "[]", ";;", "= =", "- -", "-\n-"
};

// One damage to the text; returns its name.
static const char *damage(Tape &t, Str &s)
{
    size_t L = s.size();
    auto at = [&](size_t n) { return n ? (size_t)t.draw((uint32_t)n) : 0; };
    switch(t.draw(20)) {
        case 0: s.resize(at(L + 1)); return "torn";
        case 1: { // part of the file never reached the disk
            size_t a = at(L + 1), n = 1 + at(t.chance(1, 2) ? 8 : 200);
            s.erase(a, n);
            return "lost_block";
        }
        case 2: {
            size_t a = at(L + 1), n = 1 + at(t.chance(1, 2) ? 8 : 200);
            s.insert(a, s.substr(a, n));
            return "duplicated_block";
        }
        case 3: { // blocks written in the wrong order
            size_t a = at(L + 1), n = 1 + at(60), b = at(L + 1), m = 1 + at(60);
            if(a > b) std::swap(a, b);
            if(a + n > b) n = b - a;
            Str x = s.substr(a, n), mid = s.substr(a + n, b - a - n), y = s.substr(b, m);
            s = s.substr(0, a) + y + mid + x + (b + m < L ? s.substr(b + m) : "");
            return "reordered_blocks";
        }
        case 4: { // flipped bits
            int n = 1 + (int)t.draw(3);
            for(int i = 0; i < n && s.size(); i++) {
                size_t a = at(s.size());
                char c = (char)(s[a] ^ (1 << t.draw(8)));
                if(c) s[a] = c;
            }
            return "bit_flips";
        }
        case 5: { // stale contents
            size_t a = at(L + 1), n = 1 + at(60), b = at(L + 1);
            Str x = s.substr(b, n);
            if(a < s.size()) s.replace(a, x.size(), x);
            return "stale_block";
        }
        case 6: {
            auto v = words(s);
            if(v.size()) v.erase(v.begin() + (long)at(v.size()));
            s.clear();
            for(auto &x : v) s += x;
            return "lost_word";
        }
        case 7: {
            auto v = words(s);
            if(v.size()) v[at(v.size())] = g_soup[at(sizeof(g_soup) / sizeof(*g_soup))];
            s.clear();
            for(auto &x : v) s += x;
            return "replaced_word";
        }
        case 8: {
            auto v = words(s);
            int n = 1 + (int)t.draw(3);
            size_t a = at(v.size() + 1);
            for(int i = 0; i < n; i++) v.insert(v.begin() + (long)a, g_soup[at(sizeof(g_soup) / sizeof(*g_soup))]);
            s.clear();
            for(auto &x : v) s += x;
            return "inserted_words";
        }
        case 9: {
            auto v = words(s);
            if(v.size()) std::swap(v[at(v.size())], v[at(v.size())]);
            s.clear();
            for(auto &x : v) s += x;
            return "swapped_words";
        }
        case 10: { // a stuck writer
            auto v = words(s);
            if(!v.size()) return "none";
            size_t a = at(v.size());
            size_t len = 1 + at(t.chance(1, 2) ? 1 : 4);
            Str u;
            for(size_t i = a; i < a + len && i < v.size(); i++) u += v[i];
            uint32_t n = 1 + t.draw(t.chance(1, 4) ? 40000 : t.chance(1, 2) ? 600 : 6);
            if(u.size() * n > 120000) n = (uint32_t)(120000 / u.size());
            Str rep;
            for(uint32_t i = 0; i < n; i++) rep += u;
            size_t pos = 0;
            for(size_t i = 0; i < a; i++) pos += v[i].size();
            s.insert(pos, rep);
            return "repeated_words";
        }
        case 11: {
            static const char *const u[] = { "(", "{", "[", "!", "-", "f1(", "go0[", "go0.k.", "if(1) ", "while(1) ", "do ", "for(;;) ", "function() {", "1 + ", "ga0 = ", "\"a\" ", "gi0.a", "[0]", "()", "else ", "var x; ", "return ", "{ var a; ", "!1 && ", "x", "9", "++", "gi0 + -", "; ", "function(a) { return ", "coroutine(f1, ", "object().k.", "k->m(" };
            Str x = u[at(sizeof(u) / sizeof(*u))];
            uint32_t n = 1 + t.draw(t.chance(1, 3) ? 60000 : t.chance(1, 2) ? 1200 : 300);
            if(x.size() * n > 120000) n = (uint32_t)(120000 / x.size());
            Str rep;
            for(uint32_t i = 0; i < n; i++) rep += x;
            auto v = words(s);
            size_t a = at(v.size() + 1), pos = 0;
            for(size_t i = 0; i < a; i++) pos += v[i].size();
            s.insert(pos, rep);
            return "repeated_construct";
        }
        case 12: { // only noise
            int n = 1 + (int)t.draw(t.chance(1, 2) ? 12 : 200);
            Str x;
            for(int i = 0; i < n; i++) x += g_soup[at(sizeof(g_soup) / sizeof(*g_soup))];
            s = t.chance(1, 3) ? s.substr(0, at(L)) + x : x;
            return "noise";
        }
        case 13: case 14: case 15: case 16: case 17: case 18: { // words replaced by others like them
            auto v = words(s);
            int n = 1 + (int)t.draw(t.chance(1, 3) ? 8 : 2);
            auto cls = [](const Str &x) { return isalpha((unsigned char)x[0]) ? 1 : isdigit((unsigned char)x[0]) ? 2 : x[0] == '"' ? 3 : isspace((unsigned char)x[0]) ? 4 : strchr("()[]{};,", x[0]) ? 5 : 6; };
            static const char *const kw = " var function return if else while do for break ";
            for(int i = 0; i < n && v.size(); i++) {
                size_t a = at(v.size()), b = at(v.size());
                for(size_t k = 0; k < v.size() && (cls(v[a]) > 3 || strstr(kw, (" " + v[a] + " ").c_str())); k++) a = (a + 1) % v.size();
                for(size_t k = 0; k < v.size() && (cls(v[b]) > 3 || strstr(kw, (" " + v[b] + " ").c_str()) || (k < 5 && cls(v[b]) != cls(v[a]))); k++) b = (b + 1) % v.size();
                v[a] = v[b];
            }
            s.clear();
            for(auto &x : v) s += x;
            return "wrong_words";
        }
        default: {
            Str x;
            int n = 1 + (int)t.draw(60);
            for(int i = 0; i < n; i++) x += (char)(1 + t.draw(255));
            s.insert(at(L + 1), x);
            return "noise_bytes";
        }
    }
}

// The text in a block of exactly its own size, gone after the call.
static bool compileText(Node &n, const Str &s, const char *name)
{
    char *b = (char *)malloc(s.size() + 1);
    memcpy(b, s.c_str(), s.size() + 1);
    char *f = strdup(name);
    bool ok = nkxCompilerCompileScript(n.cs, b, f);
    if(memcmp(b, s.c_str(), s.size() + 1)) n.w.fail("text-modified", "the source text was changed by the compiler");
    free(b);
    free(f);
    return ok;
}

// (Error text is assembled in quadratic time.)
static Str firstErrors(Node &n)
{
    return nkxGetErrorCount(n.vm) > 1000 ? strf("sim.nks:1: %u errors", nkxGetErrorCount(n.vm)) : n.errors();
}

void scP31(World &w)
{
    GenOpt g = pickGen(w.t);
    if(w.t.chance(3, 4)) { g.rootStmts = 5; g.bodyStmts = 2; g.maxFns = 3; }
    Model m = makeModel(w, g);
    if(!m.usable) return;
    Str s = m.p.src;
    int nd = w.t.chance(2, 3) ? 1 : 2 + (int)w.t.draw(2);
    Str kinds;
    for(int i = 0; i < nd; i++) {
        Str k = damage(w.t, s);
        w.count("fault.text_" + k);
        kinds += " " + k;
    }
    for(auto &c : s) if(!c) c = ' ';
    // (Some work is quadratic in the number of lines.)
    int lines = 0;
    for(auto &c : s) if(c == '\n' && ++lines > 6000) c = ' ';
    if(s.size() > 250000) s.resize(250000);
    w.setScenario(s.size() > 60000 ? s.substr(0, 60000) + "..." : s);
    w.ev(strf("damage%s, %zu bytes", kinds.c_str(), s.size()));
    NodeOpt o = pickNode(w.t);
    o.instrLimit = 3000;
    o.maxStack = w.t.chance(1, 2) ? 64u << w.t.draw(6) : 4096;
    uint32_t budget = 3000;
    bool repl = w.t.chance(1, 3);
    bool many = w.t.chance(1, 6);
    uint32_t mem = w.t.chance(1, 6) ? 20000 + w.t.draw(400000) : 0;
    int64_t failAt = w.t.chance(1, 8) ? (int64_t)w.t.draw(2000) : -1;

    std::vector<Str> hist[2];
    Str err[2];
    bool okc[2];
    uint64_t used[2] = { 0, 0 };
    uint32_t nl = 1;
    for(char c : s) nl += c == '\n';
    for(int round = 0; round < 2 && !w.bad(); round++) {
        // The same text, with other leftovers in memory and another GC.
        NodeOpt o2 = o;
        if(round) { o2.fill = (unsigned char)~o.fill; o2.place = s.size() < 20000 ? 1 + (int)w.t.draw(3) : 0; }
        Node n(w, o2, strf("c%d", round));
        n.tolerant = true;
        if(!n.create() || !n.setup(true)) { w.fail("compile", "set-up failed: " + n.errors()); return; }
        if(mem) nkxSetMaxAllocatedMemory(n.vm, mem + (uint32_t)n.alloc.held());
        if(failAt >= 0) { n.alloc.failAt = n.alloc.nAllocs + (uint64_t)failAt; n.alloc.failCount = ~0ULL; }
        uint32_t ip = nkxCompilerGetInstructionWriteIndex(n.cs);
        bool ok = compileText(n, s, "sim.nks");
        bool oom = n.oom();
        bool failed = n.alloc.failsFired > 0;
        n.alloc.failAt = ~0ULL;
        okc[round] = ok;
        err[round] = firstErrors(n);
        if(oom) w.count("fault.text_and_memory");
        if(ok == n.hasErr()) { w.fail("text-report", strf("the compiler %s the text but the VM has %s", ok ? "accepted" : "refused", n.hasErr() ? "errors" : "no error")); return; }
        if(oom && !mem && !failed) { w.fail("text-memory", strf("the VM ran out of memory on %zu bytes of text", s.size())); return; }
        n.checkAccounting("after compiling damaged text");
        if(w.bad()) return;
        if(!ok && !oom) {
            // File and line of the mistake.
            Str e = err[round];
            size_t c1 = e.find(':');
            size_t c2 = c1 == Str::npos ? Str::npos : e.find(':', c1 + 1);
            bool good = c2 != Str::npos && c2 > c1 + 1;
            for(size_t i = c1 + 1; good && i < c2; i++) good = isdigit((unsigned char)e[i]);
            if(good && s.find('#') == Str::npos) {
                uint32_t line = (uint32_t)strtoul(e.c_str() + c1 + 1, nullptr, 10);
                good = e.compare(0, c1, "sim.nks") == 0 && line >= 1 && line <= nl;
            }
            if(!good) { w.fail("text-position", strf("the first error does not name a place in the text (%u lines): ", nl) + e); return; }
            w.count("probe.refused");
        }
        if(ok) w.count("probe.accepted");
        if(repl && !ok && !oom) {
            // The compiler still takes the undamaged program.
            nkxCompilerClearReplErrorState(n.cs, ip);
            if(n.hasErr()) { w.fail("text-retry", "the error stayed: " + n.errors()); return; }
            if(mem) nkxSetMaxAllocatedMemory(n.vm, 0xffffffffu);
            if(many && s.size() < 6000) {
                // However often it comes.
                for(int i = 0; i < 300; i++) {
                    if(compileText(n, s, "sim.nks")) { w.fail("text-retry", "a refused text was accepted later"); return; }
                    if(n.oom()) { w.fail("text-retry", "the VM ran out of memory on a text it refused before"); return; }
                    if(firstErrors(n) != err[round]) { w.fail("text-retry", strf("a text was refused with another error the %dth time: ", i + 2) + firstErrors(n) + " / " + err[round]); return; }
                    nkxCompilerClearReplErrorState(n.cs, ip);
                }
                w.count("action.refused_300_times");
            }
            if(!compileText(n, m.p.src, "good.nks")) { w.fail("text-retry", "an undamaged program was refused after a damaged one: " + n.errors()); return; }
            nkxCompilerFinalize(n.cs);
            n.cs = nullptr;
            nkxSetMaxStackSize(n.vm, 65536);
            n.tolerant = false;
            Trace t;
            drive(n, stepBound(m), [&] { return 64u; }, nullptr, t);
            t = finish(n, m, t);
            w.count("action.good_text_after");
            if(!matchesModel(w, "text-retry", m, t, "an undamaged program after a damaged one")) return;
            n.destroy();
            w.sig(w.hash);
            continue;
        }
        nkxCompilerFinalize(n.cs);
        n.cs = nullptr;
        if(!n.vm) return;
        n.limits();
        if(!ok) {
            nkxVmIterate(n.vm, 500);
            if(!n.ev.empty()) { w.fail("text-ran", "refused text ran"); return; }
        } else {
            // Run what came of it, under a budget.
            uint32_t done = 0;
            while(done < budget && !n.hasErr() && !n.ended()) {
                n.iterate(50);
                done += 50;
                if(round) {
                    if(done == 500) n.collect("damaged_text");
                    if(done == 1000) nkxVmShrink(n.vm);
                }
            }
            used[round] = done;
            if(n.oom() && !mem && !failed && n.alloc.peak < (200u << 20)) { w.fail("text-memory", "the VM ran out of memory running the text"); return; }
            if(!n.hasErr() && w.t.chance(1, 2)) {
                Stream st;
                if(n.save(st)) {
                    NodeOpt o3 = o;
                    Node r(w, o3, "loaded");
                    r.tolerant = true;
                    if(!r.create() || !r.setup(false)) { w.fail("compile", "set-up failed"); return; }
                    if(!r.load(st)) { w.fail("text-restore", "a program compiled from damaged text could be saved but not loaded: " + r.errors()); return; }
                    r.iterate(100);
                    r.destroy();
                } else if(!n.oom()) { w.fail("text-restore", "saving failed: " + n.errors()); return; }
            }
            n.iterate(100);
        }
        hist[round] = n.ev;
        n.checkAccounting("after damaged text");
        n.destroy();
        if(w.bad()) return;
        w.sig(w.hash);
    }
    if(w.bad()) return;
    if(okc[0] != okc[1] || err[0] != err[1]) {
        if(!mem) w.fail("text-determinism", "the same text was judged differently: " + err[0] + " / " + err[1]);
        return;
    }
    if(!repl && okc[0] && !mem && failAt < 0) {
        size_t k = std::min(hist[0].size(), hist[1].size());
        for(size_t i = 0; i < k; i++) {
            if(hist[0][i] != hist[1][i]) { w.fail("text-determinism", "the same text ran differently: " + hist[0][i] + " / " + hist[1][i]); return; }
        }
    }
    (void)used;
    w.trivial = false;
    w.sig(kinds);
    w.sig(s);
}
