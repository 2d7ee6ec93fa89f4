// C23: saving and loading when the system calls or allocations they need fail, and on a full disk.
#include "graphfile.hpp"
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <csignal>
#include <new>
#include <sched.h>
#include <sys/mman.h>
#include <sys/mount.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

// ------------------------------------------------------------------------ what can be made to fail
static thread_local bool t_watch = false;       // the library is at work
static thread_local long t_calls = 0, t_fail = 0; // the t_fail-th call fails
static thread_local int t_errno = EIO;
static thread_local char t_failed[40];
static thread_local long t_news = 0, t_fail_new = 0, t_live = 0;
static thread_local bool t_failed_new = false;
static thread_local long t_maps = 0;
static bool fails(const char *what) {
    if (!t_watch) return false;
    if (++t_calls != t_fail) return false;
    snprintf(t_failed, sizeof t_failed, "%s", what);
    errno = t_errno;
    return true;
}
template <class F> static F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) static auto real = next<decltype(&name)>(#name)
extern "C" {
#define OPENER(name)                                                                                                   \
    int name(const char *p, int flags, ...) {                                                                          \
        static auto real = next<int (*)(const char *, int, ...)>(#name);                                               \
        va_list l;                                                                                                     \
        va_start(l, flags);                                                                                            \
        int mode = va_arg(l, int);                                                                                     \
        va_end(l);                                                                                                     \
        if (fails(#name)) return -1;                                                                                   \
        return real(p, flags, mode);                                                                                   \
    }
OPENER(open)
OPENER(open64)
int creat(const char *p, mode_t m) { REAL(creat); return fails("creat") ? -1 : real(p, m); }
FILE *fopen(const char *p, const char *m) { REAL(fopen); return fails("fopen") ? nullptr : real(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); return fails("fopen64") ? nullptr : real(p, m); }
int ftruncate(int f, off_t n) noexcept { REAL(ftruncate); return fails("ftruncate") ? -1 : real(f, n); }
int ftruncate64(int f, off64_t n) noexcept { REAL(ftruncate64); return fails("ftruncate64") ? -1 : real(f, n); }
int truncate(const char *f, off_t n) noexcept { REAL(truncate); return fails("truncate") ? -1 : real(f, n); }
int posix_fallocate(int f, off_t a, off_t n) { REAL(posix_fallocate); return fails("posix_fallocate") ? t_errno : real(f, a, n); }
int posix_fallocate64(int f, off64_t a, off64_t n) { REAL(posix_fallocate64); return fails("posix_fallocate64") ? t_errno : real(f, a, n); }
int fallocate(int f, int m, off_t a, off_t n) { REAL(fallocate); return fails("fallocate") ? -1 : real(f, m, a, n); }
int fstat(int f, struct stat *s) noexcept { REAL(fstat); return fails("fstat") ? -1 : real(f, s); }
int fstat64(int f, struct stat64 *s) noexcept { REAL(fstat64); return fails("fstat64") ? -1 : real(f, s); }
void *mmap(void *a, size_t n, int p, int fl, int f, off_t o) noexcept {
    REAL(mmap);
    if (f < 0) return real(a, n, p, fl, f, o);
    if (fails("mmap")) return MAP_FAILED;
    void *r = real(a, n, p, fl, f, o);
    if (t_watch && r != MAP_FAILED) t_maps++;
    return r;
}
void *mmap64(void *a, size_t n, int p, int fl, int f, off64_t o) noexcept {
    REAL(mmap64);
    if (f < 0) return real(a, n, p, fl, f, o);
    if (fails("mmap64")) return MAP_FAILED;
    void *r = real(a, n, p, fl, f, o);
    if (t_watch && r != MAP_FAILED) t_maps++;
    return r;
}
int munmap(void *a, size_t n) noexcept { REAL(munmap); if (t_watch) t_maps--; return real(a, n); }
int msync(void *a, size_t n, int f) { REAL(msync); return fails("msync") ? -1 : real(a, n, f); }
int fsync(int f) { REAL(fsync); return fails("fsync") ? -1 : real(f); }
int fdatasync(int f) { REAL(fdatasync); return fails("fdatasync") ? -1 : real(f); }
int close(int f) { // is closed all the same
    REAL(close);
    int r = real(f);
    return fails("close") ? -1 : r;
}
ssize_t write(int f, const void *b, size_t n) { REAL(write); return fails("write") ? -1 : real(f, b, n); }
ssize_t pwrite(int f, const void *b, size_t n, off_t o) { REAL(pwrite); return fails("pwrite") ? -1 : real(f, b, n, o); }
ssize_t pwrite64(int f, const void *b, size_t n, off64_t o) { REAL(pwrite64); return fails("pwrite64") ? -1 : real(f, b, n, o); }
ssize_t writev(int f, const struct iovec *v, int n) { REAL(writev); return fails("writev") ? -1 : real(f, v, n); }
ssize_t read(int f, void *b, size_t n) { REAL(read); return fails("read") ? -1 : real(f, b, n); }
ssize_t pread(int f, void *b, size_t n, off_t o) { REAL(pread); return fails("pread") ? -1 : real(f, b, n, o); }
ssize_t readv(int f, const struct iovec *v, int n) { REAL(readv); return fails("readv") ? -1 : real(f, v, n); }
int rename(const char *a, const char *b) noexcept { REAL(rename); return fails("rename") ? -1 : real(a, b); }
}
static void *take(size_t n) {
    if (t_watch && ++t_news == t_fail_new) { t_failed_new = true; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (t_watch) t_live++;
    return p;
}
static void give(void *p) { if (p && t_watch) t_live--; free(p); }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

static int descriptors() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    if (!d) throw HarnessError("cannot list descriptors");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

// ------------------------------------------------------------------------ one attempt
struct Attempt {
    bool raised = false;
    std::string failed; // what was made to fail
    long calls = 0, news = 0, live = 0, maps = 0;
    int fds = 0;
    G loaded;
};
static Attempt attempt(const G &save, const std::string &f, long fail, int err, long fail_new) {
    Attempt a;
    int fds = descriptors();
    t_calls = t_news = t_live = t_maps = 0;
    t_fail = fail;
    t_fail_new = fail_new;
    t_errno = err;
    t_failed[0] = 0;
    t_failed_new = false;
    bool raised = false;
    G g;
    t_watch = true;
    try {
        if (save) GraphSerializer::serialize_to_file(save, f);
        else g = GraphSerializer::deserialize_from_file(f);
    } catch (const std::exception &) {
        raised = true;
    }
    t_watch = false;
    a.raised = raised;
    a.calls = t_calls;
    a.news = t_news;
    a.live = t_live;
    a.maps = t_maps;
    a.failed = t_failed_new ? "allocation" : t_failed;
    a.fds = descriptors() - fds;
    a.loaded = g;
    t_fail = t_fail_new = 0;
    return a;
}
static void judge(const Attempt &a, bool save, const std::string &at) {
    std::string w = save ? "saving " : "loading ";
    if (a.fds != 0) violate("descriptor-leaked", w + at + fmts(": %d descriptors more than before", a.fds));
    if (a.maps != 0) violate("mapping-leaked", w + at + fmts(": %ld file mappings more than before", a.maps));
}
static bool must_raise(const std::string &call) { // nothing else can be done about it
    for (const char *c : {"msync", "fsync", "fdatasync", "write", "pwrite", "pwrite64", "writev", "mmap", "mmap64", "open", "open64", "rename"})
        if (call == c) return true;
    return false;
}
static const int ERRS[] = {EIO, ENOSPC, EMFILE, EACCES, ENOMEM, EDQUOT, EFBIG, EROFS, ENOENT};

static void calls(Rng &r) {
    std::string what, f = ctx().scratch + "/f";
    G g = random_graph(r, r.chance(.1) ? (size_t)r.range(60, 150) : (size_t)r.range(0, 30), what);
    std::string before = content(*g);
    EdgeMap edges = edges_of(*g);
    unlink(f.c_str());
    bool there = r.chance(.6);
    if (there) { std::string w; GraphSerializer::serialize_to_file(random_graph(r, (size_t)r.range(0, 60), w), f); }
    Attempt free_ = attempt(g, f, 0, 0, 0);
    if (free_.raised) { violate("refused", what + ": saved without obstacles to it"); return; }
    judge(free_, true, what);
    auto one = [&](bool save, long k, long kn) {
        int err = ERRS[r.next() % (sizeof ERRS / sizeof *ERRS)];
        Attempt a = attempt(save ? g : nullptr, f, k, err, kn);
        if (a.failed.empty()) return; // it did not come to that
        std::string at = what + ", " + a.failed + (kn ? fmts(" %ld of %ld fails", kn, a.news) : fmts(" fails (call %ld, ", k) + strerror(err) + ")");
        tally(save ? "saves_with_a_fault" : "loads_with_a_fault");
        tally("evaluations");
        tally("fault_in_" + a.failed);
        judge(a, save, at);
        if (a.raised) tally("raised");
        else {
            std::string d;
            if (save && must_raise(a.failed)) violate("fault-passed-over", "saving " + at + ": nothing was raised");
            if (save) {
                Attempt l = attempt(nullptr, f, 0, 0, 0);
                d = l.loaded ? compare(*g, *l.loaded) : "cannot be loaded";
            } else d = a.loaded ? compare(*g, *a.loaded) : "no graph";
            if (!d.empty()) violate("fault-passed-over", (save ? "saving " : "loading ") + at + ": nothing was raised, and " + d);
            tally("did_without");
        }
        if (kn && a.raised && a.live > 0) { // what is made once and kept is no leak
            Attempt b = attempt(save ? g : nullptr, f, k, err, kn), c = attempt(save ? g : nullptr, f, k, err, kn);
            if (b.live > 0 && c.live > 0 && b.failed == a.failed && c.failed == a.failed) violate("memory-leaked", (save ? "saving " : "loading ") + at + fmts(": %ld allocations kept", c.live));
        }
        if (save) {
            if (content(*g) != before || edges_of(*g) != edges) violate("graph-changed", at);
            Attempt again = attempt(g, f, 0, 0, 0), l = attempt(nullptr, f, 0, 0, 0);
            std::string d = again.raised ? "is refused" : !l.loaded ? "cannot be loaded" : compare(*g, *l.loaded);
            if (!d.empty()) violate("not-recovered", "saving " + at + ": the next save, with nothing failing, " + d);
        }
        nontrivial(at + (save ? "s" : "l"));
    };
    for (long k = 1; k <= free_.calls; ++k) one(true, k, 0);
    for (int i = 0; i < 12; ++i) one(true, 0, r.range(1, std::max(1l, free_.news)));
    Attempt l = attempt(nullptr, f, 0, 0, 0);
    if (l.raised || !l.loaded) { violate("refused", what + ": loaded without obstacles to it"); return; }
    judge(l, false, what);
    for (long k = 1; k <= l.calls; ++k) one(false, k, 0);
    for (int i = 0; i < 12; ++i) one(false, 0, r.range(1, std::max(1l, l.news)));
    sample(what + fmts(": %ld calls and %ld allocations to save, %ld and %ld to load", free_.calls, free_.news, l.calls, l.news));
}
// Places at which nothing can be saved, files which cannot be loaded
static void places(Rng &r) {
    std::string what, d = ctx().scratch + "/p", f = ctx().scratch + "/q";
    G g = random_graph(r, (size_t)r.range(0, 40), what);
    rmdir(d.c_str());
    unlink(f.c_str());
    if (mkdir(d.c_str(), 0700) != 0) throw HarnessError("mkdir");
    struct { std::string path, how; } none[] = {{d, "a directory"}, {d + "/no/such/file", "in a missing directory"}, {"", "no name"}, {"/dev/full", "a device"}, {d + "/" + std::string(300, 'x'), "a name too long"}};
    for (auto &n : none) {
        for (bool save : {true, false}) {
            Attempt a = attempt(save ? g : nullptr, n.path, 0, 0, 0);
            if (!a.raised) violate("fault-passed-over", (save ? "saving to " : "loading ") + n.how + ": nothing was raised");
            judge(a, save, n.how);
            tally("unusable_places");
            tally("evaluations");
        }
    }
    // files whose content is refused
    GraphSerializer::serialize_to_file(g, f);
    std::string good = slurp(f);
    for (int k = 0; k < 12; ++k) {
        std::string s = good;
        if (k == 0) s.clear();
        else if (r.chance(.5)) s.resize(r.next() % s.size());
        else for (int i = 0; i < 3; ++i) s[r.next() % s.size()] = (char)r.next();
        spit(f, s);
        long live = -1;
        bool raised = false;
        for (int i = 0; i < 3; ++i) {
            Attempt a = attempt(nullptr, f, 0, 0, 0);
            raised = a.raised;
            judge(a, false, "a damaged file");
            live = i == 0 ? a.live : std::min(live, a.live);
        }
        if (raised && live > 0) violate("memory-leaked", fmts("loading a damaged file: %ld allocations kept", live));
        tally(raised ? "damaged_refused" : "damaged_accepted");
        tally("evaluations");
    }
    unlink(f.c_str());
    rmdir(d.c_str());
    // a link is followed
    std::string t = ctx().scratch + "/target", ln = ctx().scratch + "/link";
    unlink(t.c_str());
    unlink(ln.c_str());
    if (symlink(t.c_str(), ln.c_str()) != 0) throw HarnessError("symlink");
    GraphSerializer::serialize_to_file(g, ln);
    std::string c = compare(*g, *GraphSerializer::deserialize_from_file(ln));
    if (!c.empty()) violate("loaded-differs", what + ": saved to a link: " + c);
    unlink(ln.c_str());
    unlink(t.c_str());
    nontrivial(good);
}
// In a process of its own: a file system of so many pages, mounted where no other process sees it, or a limit to the size
// of files.  Status: 0 raised, 1 saved, 2 returned but differs, 3 not available, 4 no recovery
// earlier at that path: 0 nothing, 1 a file of the length needed without a page of its own, 2 a longer one of that kind,
// 3 a file which takes up space
static int cramped(const G &g, const std::string &dir, long pages, bool disk, bool recover, size_t bytes, int earlier) {
    rlimit was;
    getrlimit(RLIMIT_FSIZE, &was);
    pid_t p = fork();
    if (p < 0) throw HarnessError("fork");
    if (p == 0) {
        rlimit none{0, 0};
        setrlimit(RLIMIT_CORE, &none);
        signal(SIGXFSZ, SIG_IGN);
        alarm(60);
        if (disk) {
            uid_t u = getuid();
            gid_t gr = getgid();
            if (unshare(CLONE_NEWUSER | CLONE_NEWNS) != 0) _exit(3);
            auto put = [](const char *f, const std::string &s) {
                int h = open(f, O_WRONLY);
                bool ok = h >= 0 && write(h, s.data(), s.size()) == (ssize_t)s.size();
                if (h >= 0) close(h);
                return ok;
            };
            put("/proc/self/setgroups", "deny");
            if (!put("/proc/self/uid_map", fmts("0 %u 1", u)) || !put("/proc/self/gid_map", fmts("0 %u 1", gr))) _exit(3);
            if (mount("none", dir.c_str(), "tmpfs", 0, fmts("size=%ldk", pages * 4).c_str()) != 0) _exit(3);
        }
        std::string f = dir + "/g";
        if (earlier) {
            int h = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (h < 0) _exit(3);
            if (earlier < 3 ? ftruncate(h, (off_t)(earlier == 1 ? bytes : bytes + 5000)) != 0 : write(h, std::string(4096, 'x').data(), 4096) != 4096) _exit(3);
            close(h);
        }
        if (!disk) {
            rlimit l{(rlim_t)pages * 4096, was.rlim_max};
            if (setrlimit(RLIMIT_FSIZE, &l) != 0) _exit(3);
        }
        try {
            GraphSerializer::serialize_to_file(g, f);
        } catch (const std::exception &) {
            if (recover) {
                struct stat st;
                if (stat(f.c_str(), &st) == 0 && unlink(f.c_str()) != 0) _exit(4);
                if (!disk) setrlimit(RLIMIT_FSIZE, &was);
                else if (mount("none", dir.c_str(), "tmpfs", MS_REMOUNT, fmts("size=%zuk", bytes / 1024 + 64).c_str()) != 0) _exit(0);
                try {
                    GraphSerializer::serialize_to_file(g, f);
                    _exit(compare(*g, *GraphSerializer::deserialize_from_file(f)).empty() ? 0 : 4);
                } catch (const std::exception &) { _exit(4); }
            }
            _exit(0);
        }
        try {
            _exit(compare(*g, *GraphSerializer::deserialize_from_file(f)).empty() ? 1 : 2);
        } catch (const std::exception &) { _exit(2); }
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
}
static void full(Rng &r) {
    std::string what, f = ctx().scratch + "/size", dir = ctx().scratch + "/mnt";
    G g = random_graph(r, (size_t)r.range(60, 400), what);
    GraphSerializer::serialize_to_file(g, f);
    size_t bytes = slurp(f).size();
    unlink(f.c_str());
    long need = (long)((bytes + 4095) / 4096);
    mkdir(dir.c_str(), 0700);
    for (bool disk : {true, false}) {
        std::vector<long> sizes{need + 2};
        if (need > 1) sizes.push_back(need - 1);
        if (need > 2) sizes.push_back(r.range(1, need - 1));
        for (long s : sizes) {
            int earlier = (int)(r.next() % 4);
            int st = cramped(g, dir, s, disk, r.chance(.5), bytes, earlier);
            unlink((dir + "/g").c_str());
            std::string at = what + fmts(", %zu bytes, %s of %ld pages: ", bytes, disk ? "file system" : "limit", s);
            static const char *const was[] = {"", "an empty file of that length was there, ", "a longer empty file was there, ", "a file was there, "};
            at += was[earlier];
            if (st == 3) { tally("full_disk_not_available"); continue; }
            if (st >= 100) violate("ended", at + (st == 100 + SIGALRM ? "hangs" : fmts("the process ends with signal %d", st - 100)));
            else if (st == 2) violate("fault-passed-over", at + "nothing is raised, and the file does not hold the graph");
            else if (st == 4) violate("not-recovered", at + "the save after that, with room, fails");
            else if (s > need && st != 1) violate("refused", at + "there is room");
            tally(disk ? "small_disks" : "size_limits");
            tally(st == 1 ? "saved" : "raised");
            tally("evaluations");
            nontrivial(at);
        }
    }
    rmdir(dir.c_str());
}

int main(int argc, char **argv) {
    return run(argc, argv, [](long n, Rng &r) {
        threads(1);
        ctx().count_cases = false;
        if (n % 10 == 3) places(r);
        else if (n % 10 == 7) full(r);
        else calls(r);
    });
}
