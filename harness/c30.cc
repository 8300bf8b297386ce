// C30: the file utilities change what they are asked to change, and nothing else
#include "pbt.h"
#include <wreport/utils/sys.h>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <memory>
#include <functional>
#include <set>
#include <system_error>
#include <dirent.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

using namespace wreport;
using namespace pbt;

// Writes on this descriptor take a few bytes at a time, as signals and slow
// devices make them do
static int slow_fd = -1;
static size_t slow_size = 0;
static unsigned slow_count = 0;

extern "C" ssize_t write(int fd, const void* buf, size_t n)
{
    if (fd == slow_fd && fd != -1)
    {
        ++slow_count;
        n = std::min(n, slow_size);
    }
    return syscall(SYS_write, fd, buf, n);
}

namespace {

struct Node
{
    char type;                  // d, f, l, p (fifo)
    unsigned mode;
    std::string data;           // contents, or target of the link
    ino_t ino;
    bool operator==(const Node& o) const { return type == o.type && (type == 'l' || mode == o.mode) && data == o.data && ino == o.ino; }
};
typedef std::map<std::string, Node> Tree;

std::string root;               // directory of the case

std::string slurp(const std::string& path)
{
    std::string res;
    int fd = ::open(path.c_str(), O_RDONLY);
    if (fd == -1) PBT_FAIL("harness: cannot read " << path << ": " << strerror(errno));
    char buf[65536];
    ssize_t n;
    while ((n = ::read(fd, buf, sizeof(buf))) > 0) res.append(buf, (size_t)n);
    ::close(fd);
    return res;
}

void spit(const std::string& path, const std::string& data, unsigned mode = 0644)
{
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, mode);
    if (fd == -1 || ::write(fd, data.data(), data.size()) != (ssize_t)data.size()) throw Discard("cannot write a file");
    ::fchmod(fd, mode);
    ::close(fd);
}

void scan(const std::string& rel, Tree& out)
{
    DIR* d = opendir((root + rel).c_str());
    if (!d) PBT_FAIL("harness: cannot list " << rel);
    while (dirent* e = readdir(d))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = rel + "/" + n;
        struct stat st;
        if (lstat((root + p).c_str(), &st) == -1) continue;
        Node x{'?', (unsigned)(st.st_mode & 07777), "", st.st_ino};
        if (S_ISDIR(st.st_mode)) x.type = 'd';
        else if (S_ISFIFO(st.st_mode)) x.type = 'p';
        else if (S_ISREG(st.st_mode)) { x.type = 'f'; x.data = slurp(root + p); }
        else if (S_ISLNK(st.st_mode))
        {
            x.type = 'l';
            char buf[4096];
            ssize_t l = readlink((root + p).c_str(), buf, sizeof(buf));
            if (l > 0) x.data.assign(buf, (size_t)l);
        }
        out[p] = x;
        if (x.type == 'd') scan(p, out);
    }
    closedir(d);
}

Tree scan() { Tree t; scan("", t); return t; }

std::string show(const Tree& t)
{
    std::string r;
    for (const auto& i: t) r += strf(" %s:%c%o:%s", quote(i.first, 60).c_str(), i.second.type, i.second.mode, quote(i.second.data, 30).c_str());
    return r;
}

// How two trees differ
std::string difference(const Tree& a, const Tree& b)
{
    for (const auto& i: a)
    {
        auto j = b.find(i.first);
        if (j == b.end()) return "lacks " + i.first;
        if (!(j->second == i.second)) return strf("has %s as %c %o %s ino %lu instead of %c %o %s ino %lu", i.first.c_str(), j->second.type, j->second.mode, quote(j->second.data, 60).c_str(), (unsigned long)j->second.ino, i.second.type, i.second.mode, quote(i.second.data, 60).c_str(), (unsigned long)i.second.ino);
    }
    for (const auto& i: b) if (!a.count(i.first)) return "has the unexpected " + i.first;
    return "";
}

unsigned open_fds()
{
    unsigned n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return 0;
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}

enum Outcome { OK, SYSTEM, RUNTIME, OTHER };
template<typename F> Outcome attempt(F f, std::string* msg = nullptr)
{
    try { f(); return OK; }
    catch (std::system_error& e) { if (msg) *msg = e.what(); return SYSTEM; }
    catch (std::runtime_error& e) { if (msg) *msg = e.what(); return RUNTIME; }
    catch (std::exception& e) { if (msg) *msg = e.what(); return OTHER; }
}

std::string parent(const std::string& p) { return p.substr(0, p.rfind('/')); }
bool under(const std::string& p, const std::string& dir) { return p.size() > dir.size() && p.compare(0, dir.size() + 1, dir + "/") == 0; }
bool has_children(const Tree& t, const std::string& d) { for (const auto& i: t) if (under(i.first, d)) return true; return false; }
// The type of p without following links, ' ' if missing
char type_of(const Tree& t, const std::string& p) { if (p.empty()) return 'd'; auto i = t.find(p); return i == t.end() ? ' ' : i->second.type; }

const char* names[] = {"a", "b", "c d", "\xc3\xa9", "..x", ".h", "-f", "looooooooooooooooooooooooooong"};

std::string some_path(Gen& g, const Tree& t)
{
    if (!t.empty() && g.chance(2, 3))
    {
        auto i = t.begin();
        std::advance(i, (long)g.draw(t.size()));
        if (g.chance(3, 4)) return i->first;
        if (i->second.type == 'd') return i->first + "/" + g.pick(names);
        return i->first;
    }
    std::string p;
    for (unsigned n = 1 + g.size(2); n; --n) p += std::string("/") + g.pick(names);
    return p;
}

// true if a component before the last is not a plain directory: outcome of the system
bool odd_parents(const Tree& t, const std::string& p)
{
    for (std::string d = parent(p); !d.empty(); d = parent(d))
        if (type_of(t, d) == 'l') return true;
    return false;
}
bool parent_ok(const Tree& t, const std::string& p) { return type_of(t, parent(p)) == 'd'; }

std::string data(Gen& g)
{
    if (g.chance(1, 20)) { std::string s(g.draw(300000), 'x'); for (size_t i = 0; i < s.size(); i += 1000) s[i] = (char)g.byte(); return s; }
    return g.bytes(g.boolean() ? g.size(30) : (size_t)g.draw(5000));
}

// The code under test runs as a user that owns nothing but the scratch directory
struct Unprivileged
{
    bool on = false;
    Unprivileged()
    {
        signal(SIGXFSZ, SIG_IGN);
        std::string s = scratch_dir();
        if (getuid() != 0) return;
        if (chown(s.c_str(), 65534, 65534) != 0 || setgroups(0, nullptr) != 0 || setresgid(65534, 65534, 0) != 0 || setresuid(65534, 65534, 0) != 0)
        {
            fprintf(stderr, "cannot become an unprivileged user: %s\n", strerror(errno));
            _exit(1);
        }
        on = true;
    }
    ~Unprivileged() { if (on && (setresuid(0, 0, 0) != 0 || setresgid(0, 0, 0) != 0)) _exit(1); }
};

void remove_all()
{
    // Directories that the case made unreadable
    Tree t;
    std::error_code ec;
    std::filesystem::remove_all(root, ec);
}

// Limits the size of files for the duration of a scope
struct Quota
{
    rlimit orig;
    bool on;
    Quota(bool on, rlim_t n) : on(on) { if (on) { getrlimit(RLIMIT_FSIZE, &orig); rlimit r = orig; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); } }
    ~Quota() { if (on) setrlimit(RLIMIT_FSIZE, &orig); }
};

void writes(Ctx& c, const Tree& before, const std::string& p, std::string& log)
{
    Gen& g = c.g;
    bool atomic = g.boolean();
    std::string content = data(g);
    mode_t mode = g.boolean() ? 0777 : (mode_t)(0600 | g.draw(0200) | 0400);
    mode &= 0777;
    mode |= 0600;
    mode_t mask = g.boolean() ? 022 : (mode_t)g.draw(0200) & 077;
    bool limited = g.chance(1, 5);
    rlim_t limit = limited ? g.draw(content.size() + 100) : 0;
    unsigned how = (unsigned)g.draw(4);
    char type = type_of(before, p);
    log += strf(" %s(%s, %zu bytes, %o, umask %o%s)", atomic ? "write_file_atomically" : "write_file", quote(p, 60).c_str(), content.size(), mode, mask, limited ? ", disk full" : "");
    if (odd_parents(before, p)) { log += " skipped"; return; }
    // Where a plain write ends up
    std::string dest = p;
    if (!atomic && type == 'l')
    {
        char* r = realpath((root + p).c_str(), nullptr);
        if (!r) { log += " skipped"; return; }
        dest = r;
        free(r);
        if (!under(dest, root)) { log += " skipped"; return; }
        dest = dest.substr(root.size());
        type = type_of(before, dest);
    }
    if (type == 'p') { log += " skipped"; return; }
    std::string full = root + p;
    mode_t old = umask(mask);
    std::string msg;
    Outcome o;
    {
        Quota quota(limited, limit);
        o = attempt([&] {
            if (atomic)
                switch (how)
                {
                    case 0: sys::write_file_atomically(std::filesystem::path(full), content, mode); break;
                    case 1: sys::write_file_atomically(full, content, mode); break;
                    case 2: sys::write_file_atomically(full.c_str(), content, mode); break;
                    default: sys::write_file_atomically(std::filesystem::path(full), content.data(), content.size(), mode); break;
                }
            else
                switch (how)
                {
                    case 0: sys::write_file(std::filesystem::path(full), content, mode); break;
                    case 1: sys::write_file(full, content, mode); break;
                    case 2: sys::write_file(full.c_str(), content, mode); break;
                    default: sys::write_file(std::filesystem::path(full), content.data(), content.size(), mode); break;
                }
        }, &msg);
    }
    mode_t now = umask(old);
    PBT_CHECK(now == mask, log << ": umask changed from " << mask << " to " << now);
    Tree after = scan(), want = before;
    bool fits = !limited || content.size() <= limit;
    bool allowed = parent_ok(before, p) && type != 'd';
    PBT_CHECK(o == OK || o == SYSTEM, log << ": unexpected exception " << msg);
    PBT_CHECK((o == OK) == (fits && allowed), log << (o == OK ? ": no error" : ": error ") << msg << " in" << show(before));
    if (o == OK)
    {
        Node n{'f', (unsigned)(mode & ~mask), content, 0};
        if (!atomic && type == 'f') n.mode = before.at(dest).mode;
        auto i = after.find(dest);
        PBT_CHECK(i != after.end(), log << ": the file is not there");
        n.ino = i->second.ino;
        if (!atomic && type == 'f') n.ino = before.at(dest).ino;
        // A new file takes the place of the old one
        if (atomic && type == 'f') PBT_CHECK(i->second.ino != before.at(dest).ino, log << ": written in place");
        want[dest] = n;
        c.label(atomic ? "written atomically" : "written");
    }
    else if (!atomic && allowed)
    {
        // No promise on the contents of that file
        if (after.count(dest)) want[dest] = after.at(dest);
        c.label("write failed");
    }
    else
        c.label(atomic ? "atomic write failed" : "write refused");
    std::string d = difference(want, after);
    PBT_CHECK(d.empty(), log << ": " << (o == OK ? "" : "failed, and ") << "the directory " << d);
    if (o == OK)
    {
        std::string back = how == 0 ? sys::read_file(std::filesystem::path(full)) : how == 1 ? sys::read_file(full) : sys::read_file(full.c_str());
        PBT_CHECK(back == content, log << ": read_file gives " << back.size() << " bytes that are not what was written");
    }
}

// The process dies while it writes
void killed(Ctx& c, const Tree& before, const std::string& p, std::string& log)
{
    Gen& g = c.g;
    if (type_of(before, p) != 'f') return;
    std::string content(20000 + g.draw(200000), 'k');
    rlim_t limit = g.draw(content.size());
    log += strf(" write_file_atomically(%s) killed after %lu of %zu bytes", quote(p, 60).c_str(), (unsigned long)limit, content.size());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == -1) throw Discard("cannot fork");
    if (pid == 0)
    {
        signal(SIGXFSZ, SIG_DFL);
        rlimit r = {limit, limit};
        setrlimit(RLIMIT_FSIZE, &r);
        rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        try { sys::write_file_atomically(root + p, content); } catch (...) { _exit(3); }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFSIGNALED(st)) { log += strf(" (status %d)", st); }
    PBT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), log << ": no failure");
    Tree after = scan();
    // What was being written may be left, with a name of its own
    std::vector<std::string> extra;
    for (const auto& i: after) if (!before.count(i.first)) extra.push_back(i.first);
    PBT_CHECK(extra.size() <= 1, log << ": " << extra.size() << " new files");
    for (const auto& e: extra) { ::unlink((root + e).c_str()); after.erase(e); }
    std::string d = difference(before, after);
    PBT_CHECK(d.empty(), log << ": the directory " << d);
    c.label("killed while writing");
}

void looks(Ctx& c, const Tree& before, const std::string& p, std::string& log)
{
    Gen& g = c.g;
    std::string full = root + p;
    log += " look at " + quote(p, 60);
    struct stat st, lst;
    int rc = ::stat(full.c_str(), &st), en = errno;
    int lrc = ::lstat(full.c_str(), &lst);
    if (rc == -1 && en != ENOENT) { log += " skipped"; return; }
    bool there = rc == 0;
    for (int k = 0; k < 3; ++k)
    {
        std::unique_ptr<struct stat> s = k == 0 ? sys::stat(full.c_str()) : k == 1 ? sys::stat(full) : sys::stat(std::filesystem::path(full));
        PBT_CHECK((bool)s == there, log << ": stat " << k << (s ? " found it" : " did not find it"));
        if (s) PBT_CHECK(s->st_ino == st.st_ino && s->st_mode == st.st_mode && s->st_size == st.st_size, log << ": stat " << k << " differs");
        struct stat s2;
        Outcome o = attempt([&] { if (k == 0) sys::stat(full.c_str(), s2); else if (k == 1) sys::stat(full, s2); else sys::stat(std::filesystem::path(full), s2); });
        PBT_CHECK(o == (there ? OK : SYSTEM), log << ": stat with a structure " << k);
        if (there) PBT_CHECK(s2.st_ino == st.st_ino && s2.st_mode == st.st_mode && s2.st_size == st.st_size, log << ": stat with a structure " << k << " differs");
    }
    size_t def = (size_t)g.draw(1000);
    PBT_CHECK(sys::size(full, def) == (there ? (size_t)st.st_size : def), log << ": size " << sys::size(full, def));
    PBT_CHECK(sys::timestamp(full, (time_t)def) == (there ? st.st_mtime : (time_t)def), log << ": timestamp");
    PBT_CHECK(sys::inode(full, (ino_t)def) == (there ? st.st_ino : (ino_t)def), log << ": inode");
    size_t sz = 0; time_t ts = 0; ino_t in = 0;
    Outcome a = attempt([&] { sz = sys::size(full); }), b = attempt([&] { ts = sys::timestamp(full); }), d = attempt([&] { in = sys::inode(full); });
    Outcome e = there ? OK : SYSTEM;
    PBT_CHECK(a == e && b == e && d == e, log << ": size, timestamp, inode give " << a << " " << b << " " << d);
    if (there) PBT_CHECK(sz == (size_t)st.st_size && ts == st.st_mtime && in == st.st_ino, log << ": size, timestamp, inode");
    PBT_CHECK(sys::isdir(full) == (there && S_ISDIR(st.st_mode)), log << ": isdir");
    PBT_CHECK(sys::isreg(full) == (there && S_ISREG(st.st_mode)), log << ": isreg");
    PBT_CHECK(sys::isfifo(full) == (there && S_ISFIFO(st.st_mode)), log << ": isfifo");
    PBT_CHECK(!sys::isblk(full) && !sys::ischr(full) && !sys::issock(full), log << ": taken for a device or a socket");
    PBT_CHECK(sys::islnk(full) == (lrc == 0 && S_ISLNK(lst.st_mode)), log << ": islnk gives " << sys::islnk(full));
    PBT_CHECK(sys::exists(full) == there, log << ": exists");
    static const int modes[] = {F_OK, R_OK, W_OK, X_OK, R_OK | W_OK};
    int m = g.pick(modes);
    PBT_CHECK(sys::access(full, m) == (::access(full.c_str(), m) == 0), log << ": access " << m);
    std::string got, msg;
    if (there && S_ISFIFO(st.st_mode)) return;
    // Only a missing file is not an error
    {
        int flags = g.boolean() ? O_RDONLY : g.boolean() ? O_WRONLY : O_RDWR | O_DIRECTORY;
        int fd = ::open(full.c_str(), flags), en = errno;
        if (fd != -1) ::close(fd);
        sys::File f(std::filesystem::path{full});
        bool res = false;
        Outcome o = attempt([&] { res = f.open_ifexists(flags); });
        PBT_CHECK(o == (fd != -1 || en == ENOENT ? OK : SYSTEM), log << ": open_ifexists gives " << o << " for " << strerror(en));
        if (o == OK) PBT_CHECK(res == (fd != -1) && f.is_open() == res, log << ": open_ifexists gives " << res);
        std::string sub = full + "/x";
        if (there && S_ISREG(st.st_mode))
            PBT_CHECK(attempt([&] { sys::File x(std::filesystem::path{sub}); x.open_ifexists(O_RDONLY); }) == SYSTEM
                   && attempt([&] { sys::stat(sub); }) == SYSTEM, log << ": no error below a file");
    }
    Outcome o = attempt([&] { got = sys::read_file(full); }, &msg);
    PBT_CHECK(o == (there && S_ISREG(st.st_mode) ? OK : SYSTEM), log << ": read_file outcome " << o << " " << msg);
    if (o == OK) PBT_CHECK(got == slurp(full), log << ": read_file gives " << got.size() << " bytes");
    c.label("looked");
    (void)before;
}

void removes(Ctx& c, const Tree& before, const std::string& p, std::string& log)
{
    Gen& g = c.g;
    std::string full = root + p;
    if (odd_parents(before, p)) return;
    char type = type_of(before, p);
    bool pdir = parent_ok(before, p);
    // A component that is a file gives another error
    bool notdir = false;
    for (std::string d = parent(p); !d.empty(); d = parent(d)) if (type_of(before, d) == 'f' || type_of(before, d) == 'p') notdir = true;
    if (notdir) return;
    Tree want = before;
    std::string msg;
    bool res = true, expected = type != ' ';
    Outcome o = OK, eo = OK;
    unsigned k = (unsigned)g.draw(7);
    static const char* what[] = {"unlink_ifexists", "unlink", "rmdir", "rmtree", "rmtree_ifexists", "touch", "Path::rmtree"};
    log += strf(" %s(%s)", what[k], quote(p, 60).c_str());
    switch (k)
    {
        case 0: {
            unsigned h = (unsigned)g.draw(3);
            o = attempt([&] { res = h == 0 ? sys::unlink_ifexists(full.c_str()) : h == 1 ? sys::unlink_ifexists(full) : sys::unlink_ifexists(std::filesystem::path(full)); }, &msg);
            if (type == 'd') eo = SYSTEM; else want.erase(p);
            break;
        }
        case 1:
            o = attempt([&] { sys::unlink(full); }, &msg);
            expected = true;
            if (type == 'd' || type == ' ') eo = SYSTEM; else want.erase(p);
            break;
        case 2:
            o = attempt([&] { sys::rmdir(full); }, &msg);
            expected = true;
            if (type != 'd' || has_children(before, p)) eo = SYSTEM; else want.erase(p);
            break;
        case 3: case 4: case 6: {
            // A link to a directory: not said
            if (type == 'l') { log += " skipped"; return; }
            unsigned h = (unsigned)g.draw(3);
            if (k == 3) { o = attempt([&] { sys::rmtree(full); }, &msg); expected = true; if (type == ' ') eo = SYSTEM; }
            else if (k == 6) { o = attempt([&] { sys::Path x(full); x.rmtree(); }, &msg); expected = true; if (type == ' ') eo = SYSTEM; }
            else o = attempt([&] { res = h == 0 ? sys::rmtree_ifexists(full.c_str()) : h == 1 ? sys::rmtree_ifexists(full) : sys::rmtree_ifexists(std::filesystem::path(full)); }, &msg);
            if (type != 'd' && type != ' ') eo = SYSTEM;
            if (type == 'd')
            {
                for (auto i = want.begin(); i != want.end();)
                    if (i->first == p || under(i->first, p)) i = want.erase(i); else ++i;
                c.label("tree removed");
            }
            break;
        }
        case 5: {
            time_t ts = (time_t)g.edgy(0, 4102444800);
            struct stat st;
            if (::stat(full.c_str(), &st) == -1) eo = SYSTEM;
            o = attempt([&] { sys::touch(full, ts); }, &msg);
            expected = true;
            if (o == OK && eo == OK)
            {
                ::stat(full.c_str(), &st);
                PBT_CHECK(st.st_mtime == ts && st.st_atime == ts, log << ": times " << (long)st.st_mtime << " and " << (long)st.st_atime << " instead of " << (long)ts);
                PBT_CHECK(sys::timestamp(full) == ts && sys::timestamp(full, 1) == ts, log << ": timestamp gives " << (long)sys::timestamp(full));
            }
            break;
        }
    }
    (void)pdir;
    PBT_CHECK(o == eo, log << ": outcome " << o << " instead of " << eo << " " << msg << " in" << show(before));
    if (o == OK) PBT_CHECK(res == expected, log << ": gives " << res);
    std::string d = difference(want, scan());
    PBT_CHECK(d.empty(), log << ": the directory " << d);
    c.label(o == OK ? "removed" : "not removed");
}

void makes(Ctx& c, const Tree& before, const std::string& p, std::string& log)
{
    Gen& g = c.g;
    std::string full = root + p;
    if (odd_parents(before, p)) return;
    char type = type_of(before, p);
    bool file_above = false;
    for (std::string d = parent(p); !d.empty(); d = parent(d)) if (type_of(before, d) == 'f' || type_of(before, d) == 'p') file_above = true;
    unsigned k = (unsigned)g.draw(2);
    log += strf(" %s(%s)", k ? "makedirs" : "mkdir_ifmissing", quote(p, 60).c_str());
    if (type == 'l') { log += " skipped"; return; }
    bool res = false;
    std::string msg;
    Outcome o = attempt([&] { res = k ? sys::makedirs(full) : sys::mkdir_ifmissing(full); }, &msg);
    bool ok = type == 'd' || (type == ' ' && !file_above && (k || parent_ok(before, p)));
    PBT_CHECK((o == OK) == ok && (o == OK || o == SYSTEM), log << ": outcome " << o << " " << msg << " in" << show(before));
    Tree after = scan(), want = before;
    if (o == OK)
    {
        PBT_CHECK(res == (type == ' '), log << ": gives " << res);
        for (std::string d = p; !d.empty(); d = parent(d))
            if (!want.count(d))
            {
                PBT_CHECK(after.count(d) && after.at(d).type == 'd', log << ": " << d << " is not there");
                want[d] = after.at(d);
            }
        c.label("made");
    }
    std::string d = difference(want, after);
    PBT_CHECK(d.empty(), log << ": the directory " << d);
}

void renames(Ctx& c, const Tree& before, const std::string& p, const std::string& q, std::string& log)
{
    Gen& g = c.g;
    if (odd_parents(before, p) || odd_parents(before, q)) return;
    std::string src = root + p, dst = root + q;
    bool ifexists = g.boolean();
    log += strf(" %s(%s, %s)", ifexists ? "rename_ifexists" : "rename", quote(p, 60).c_str(), quote(q, 60).c_str());
    bool res = true;
    std::string msg;
    Outcome o = attempt([&] { if (ifexists) res = sys::rename_ifexists(src, dst); else sys::rename(src, dst); }, &msg);
    Tree after = scan(), want = before;
    char tp = type_of(before, p), tq = type_of(before, q);
    bool moved = o == OK && res;
    if (tp == ' ')
    {
        PBT_CHECK(!moved, log << ": renamed a file that does not exist");
        if (ifexists && parent_ok(before, p) && parent_ok(before, q)) PBT_CHECK(o == OK && !res, log << ": outcome " << o << " " << msg << " for a missing file");
    }
    else if (tp != 'd' && tq != 'd' && parent_ok(before, q))
        PBT_CHECK(moved, log << ": not renamed: " << msg);
    else if ((tp == 'd') != (tq == 'd') && tq != ' ')
        PBT_CHECK(!moved && o == SYSTEM, log << ": a directory and something else exchanged");
    if (moved && p != q)
    {
        for (auto i = want.begin(); i != want.end();)
            if (i->first == q || under(i->first, q)) i = want.erase(i); else ++i;
        Tree moved_nodes;
        for (auto i = want.begin(); i != want.end();)
            if (i->first == p || under(i->first, p)) { moved_nodes[q + i->first.substr(p.size())] = i->second; i = want.erase(i); } else ++i;
        for (auto& i: moved_nodes) want[i.first] = i.second;
        c.label("renamed");
    }
    std::string d = difference(want, after);
    PBT_CHECK(d.empty(), log << ": the directory " << d);
}

// Directories through Path
void listing(Ctx& c, const Tree& before, const std::string& p, std::string& log)
{
    Gen& g = c.g;
    if (odd_parents(before, p) || type_of(before, p) != 'd') return;
    std::string full = root + p;
    log += " list " + quote(p, 60);
    sys::Path dir(full);
    PBT_CHECK(dir.is_open() && dir.path() == full && dir.name() == full, log << ": path " << dir.path());
    std::set<std::string> got, want;
    for (const auto& i: before) if (parent(i.first) == p) want.insert(i.first.substr(p.size() + 1));
    auto check = [&](sys::Path::iterator& i) {
        std::string n = i->d_name;
        PBT_CHECK(n == (*i).d_name, log << ": * and -> differ");
        PBT_CHECK(got.insert(n).second, log << ": " << n << " is given twice");
        if (n == "." || n == "..") return;
        char t = type_of(before, p + "/" + n);
        PBT_CHECK(t != ' ', log << ": " << n << " is not there");
        PBT_CHECK(i.isdir() == (t == 'd') && i.isreg() == (t == 'f') && i.islnk() == (t == 'l') && i.isfifo() == (t == 'p'), log << ": kind of " << n);
        PBT_CHECK(!i.isblk() && !i.ischr() && !i.issock(), log << ": " << n << " taken for a device or a socket");
        if (t == 'd' || t == 'f')
        {
            sys::Path sub = i.open_path();
            struct stat st;
            sub.fstat(st);
            PBT_CHECK(st.st_ino == before.at(p + "/" + n).ino && sub.path() == full + "/" + n, log << ": open_path of " << n);
        }
    };
    if (g.boolean())
    {
        for (auto i = dir.begin(); i != dir.end(); ++i) check(i);
    }
    else
    {
        // Through an iterator that was moved
        auto first = dir.begin();
        if (g.boolean() && first != dir.end()) { check(first); ++first; }
        sys::Path::iterator i(std::move(first));
        for (; !(i == dir.end()); ++i) check(i);
        c.label("moved iterator");
    }
    PBT_CHECK(got.erase(".") && got.erase(".."), log << ": . or .. is missing");
    PBT_CHECK(got == want, log << ": " << got.size() << " entries instead of " << want.size());
    // Entries through the directory
    std::string n = want.empty() || g.boolean() ? g.pick(names) : *std::next(want.begin(), (long)g.draw(want.size()));
    std::string q = p + "/" + n;
    char t = type_of(before, q);
    struct stat st, ref, linked;
    bool there = ::stat((root + q).c_str(), &ref) == 0;
    if (!there && errno != ENOENT) return;
    linked = ref;
    Outcome o = attempt([&] { dir.fstatat(n.c_str(), st); });
    PBT_CHECK(o == (there ? OK : SYSTEM) && (!there || (st.st_ino == ref.st_ino && st.st_mode == ref.st_mode)), log << ": fstatat of " << n);
    bool r = false;
    o = attempt([&] { r = dir.fstatat_ifexists(n.c_str(), st); });
    PBT_CHECK(o == OK && r == there && (!there || st.st_ino == ref.st_ino), log << ": fstatat_ifexists of " << n);
    bool lthere = ::lstat((root + q).c_str(), &ref) == 0;
    o = attempt([&] { dir.lstatat(n.c_str(), st); });
    PBT_CHECK(o == (lthere ? OK : SYSTEM) && (!lthere || (st.st_ino == ref.st_ino && st.st_mode == ref.st_mode)), log << ": lstatat of " << n);
    o = attempt([&] { r = dir.lstatat_ifexists(n.c_str(), st); });
    PBT_CHECK(o == OK && r == lthere && (!lthere || (st.st_ino == ref.st_ino && st.st_mode == ref.st_mode)), log << ": lstatat_ifexists of " << n);
    PBT_CHECK(dir.faccessat(n.c_str(), R_OK) == (faccessat(dir, n.c_str(), R_OK, 0) == 0), log << ": faccessat of " << n);
    std::string target;
    o = attempt([&] { target = dir.readlinkat(n.c_str()); });
    PBT_CHECK(o == (t == 'l' ? OK : SYSTEM) && (t != 'l' || target == before.at(q).data), log << ": readlinkat of " << n << " gives " << quote(target, 80));
    if (t != 'p' && !(there && S_ISFIFO(linked.st_mode)))
    {
        int fd = -1;
        o = attempt([&] { fd = dir.openat_ifexists(n.c_str(), O_RDONLY); });
        PBT_CHECK(o == OK && (fd != -1) == there, log << ": openat_ifexists of " << n << " gives " << fd);
        if (fd != -1) ::close(fd);
        fd = -1;
        o = attempt([&] { fd = dir.openat(n.c_str(), O_RDONLY); });
        PBT_CHECK(o == (there ? OK : SYSTEM), log << ": openat of " << n);
        if (fd != -1) { ::fstat(fd, &st); ::close(fd); ::stat((root + q).c_str(), &ref); PBT_CHECK(st.st_ino == ref.st_ino, log << ": openat opened something else"); }
    }
    // Changes through the directory
    Tree want_tree = before;
    std::string what;
    switch (g.draw(5))
    {
        case 0:
            what = "unlinkat";
            o = attempt([&] { dir.unlinkat(n.c_str()); });
            PBT_CHECK(o == (t == ' ' || t == 'd' ? SYSTEM : OK), log << ": unlinkat of " << n);
            if (o == OK) want_tree.erase(q);
            break;
        case 1:
            what = "rmdirat";
            o = attempt([&] { dir.rmdirat(n.c_str()); });
            PBT_CHECK(o == (t == 'd' && !has_children(before, q) ? OK : SYSTEM), log << ": rmdirat of " << n);
            if (o == OK) want_tree.erase(q);
            break;
        case 2:
            what = "mkdirat";
            o = attempt([&] { dir.mkdirat(n.c_str(), 0711); });
            PBT_CHECK(o == (t == ' ' ? OK : SYSTEM), log << ": mkdirat of " << n);
            if (o == OK) { lstat((root + q).c_str(), &st); want_tree[q] = Node{'d', 0711, "", st.st_ino}; }
            break;
        case 3: {
            what = "symlinkat";
            std::string to = g.chance(1, 3) ? std::string(g.range(250, 1030), 't') : std::string(g.pick(names));
            o = attempt([&] { dir.symlinkat(to.c_str(), n.c_str()); });
            PBT_CHECK(o == (t == ' ' ? OK : SYSTEM), log << ": symlinkat of " << n);
            if (o == OK)
            {
                lstat((root + q).c_str(), &st);
                want_tree[q] = Node{'l', 0777, to, st.st_ino};
                PBT_CHECK(dir.readlinkat(n.c_str()) == to, log << ": readlinkat gives " << quote(dir.readlinkat(n.c_str()), 80) << " of the target of " << to.size());
            }
            break;
        }
        default: return;
    }
    std::string d = difference(want_tree, scan());
    PBT_CHECK(d.empty(), log << " " << what << " " << n << ": the directory " << d);
    c.label(what);
}

// Contents through a file descriptor
void contents(Ctx& c, const Tree& before, const std::string& p, std::string& log)
{
    Gen& g = c.g;
    if (odd_parents(before, p) || !parent_ok(before, p)) return;
    char t = type_of(before, p);
    if (t != 'f' && t != ' ') return;
    std::string full = root + p, want = t == 'f' ? before.at(p).data : "";
    log += " file " + quote(p, 60);
    Tree want_tree = before;
    sys::File f(std::filesystem::path{full});
    PBT_CHECK(!f.is_open() && f.path() == full, log << ": a file just named is open");
    bool there = f.open_ifexists(O_RDWR);
    PBT_CHECK(there == (t == 'f') && f.is_open() == there, log << ": open_ifexists gives " << there);
    if (!there)
    {
        PBT_CHECK(attempt([&] { f.open(O_RDWR); }) == SYSTEM && !f.is_open(), log << ": opened a missing file");
        mode_t old = umask(022);
        f.open(O_RDWR | O_CREAT | O_EXCL, 0666);
        umask(old);
    }
    size_t pos = 0;
    for (unsigned n = 1 + g.size(8); n; --n)
    {
        std::string buf;
        switch (g.draw(11))
        {
            case 0: case 1: {
                buf = data(g);
                bool retry = g.boolean();
                log += strf(" write %zu", buf.size());
                if (retry && g.boolean())
                {
                    // A part at a time
                    slow_size = 1 + g.draw(buf.size() / 4 + 1);
                    slow_count = 0;
                    slow_fd = f;
                    log += strf(" by %zu", slow_size);
                    Outcome o = attempt([&] { f.write_all_or_retry(buf.data(), buf.size()); });
                    slow_fd = -1;
                    PBT_CHECK(o == OK, log << ": outcome " << o);
                    if (slow_count > 1) c.label("partial writes");
                }
                else if (retry) f.write_all_or_retry(buf); else if (g.boolean()) f.write_all_or_throw(buf); else PBT_CHECK(f.write(buf.data(), buf.size()) == buf.size(), log << ": partial write");
                if (pos > want.size() && !buf.empty()) want.resize(pos, 0);
                if (!buf.empty()) want.replace(pos, std::min(buf.size(), want.size() - pos), buf);
                pos += buf.size();
                break;
            }
            case 2: {
                size_t k = g.draw(want.size() + 10);
                buf.resize(k);
                log += strf(" read %zu", k);
                size_t avail = pos < want.size() ? std::min(k, want.size() - pos) : 0;
                PBT_CHECK(f.read(&buf[0], k) == avail && buf.compare(0, avail, want, std::min(pos, want.size()), avail) == 0, log << ": read");
                pos += avail;
                break;
            }
            case 3: case 4: {
                size_t k = g.draw(want.size() + 10), avail = pos < want.size() ? std::min(k, want.size() - pos) : 0;
                bool retry = g.boolean();
                buf.resize(k);
                log += strf(" read_all %zu of %zu", k, avail);
                bool res = true;
                Outcome o = attempt([&] { if (retry) res = f.read_all_or_retry(&buf[0], k); else f.read_all_or_throw(&buf[0], k); });
                if (avail == k) PBT_CHECK(o == OK && res, log << ": outcome " << o << " with all the data there");
                else if (retry && avail == 0) PBT_CHECK(o == OK && !res, log << ": outcome " << o << " " << res << " at the end of the file");
                else PBT_CHECK(o == RUNTIME, log << ": outcome " << o << " with part of the data there");
                PBT_CHECK(buf.compare(0, avail, want, std::min(pos, want.size()), avail) == 0, log << ": other data");
                pos += avail;
                break;
            }
            case 5: {
                int whence = (int)g.draw(3);
                off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off_t)pos : (off_t)want.size();
                off_t off = (off_t)g.range(-5, 40) - (whence == SEEK_SET ? 0 : (off_t)g.draw(30));
                log += strf(" lseek %ld %d", (long)off, whence);
                off_t res = -1;
                Outcome o = attempt([&] { res = whence == SEEK_SET && g.boolean() ? f.lseek(off) : f.lseek(off, whence); });
                PBT_CHECK(o == (base + off < 0 ? SYSTEM : OK), log << ": outcome " << o);
                if (o == OK) { PBT_CHECK(res == base + off, log << ": gives " << (long)res); pos = (size_t)res; }
                break;
            }
            case 6: {
                size_t k = g.draw(100), off = g.draw(want.size() + 20);
                buf.resize(k);
                log += strf(" pread %zu at %zu", k, off);
                size_t avail = off < want.size() ? std::min(k, want.size() - off) : 0;
                PBT_CHECK(f.pread(&buf[0], k, (off_t)off) == avail && buf.compare(0, avail, want, std::min(off, want.size()), avail) == 0, log << ": pread");
                break;
            }
            case 7: {
                size_t off = g.draw(want.size() + 20);
                buf = g.bytes(1 + g.draw(50));
                log += strf(" pwrite %zu at %zu", buf.size(), off);
                size_t k = g.boolean() ? f.pwrite(buf, (off_t)off) : f.pwrite(buf.data(), buf.size(), (off_t)off);
                PBT_CHECK(k == buf.size(), log << ": pwrite wrote " << k);
                if (want.size() < off) want.resize(off, 0);
                want.replace(off, std::min(buf.size(), want.size() - off), buf);
                break;
            }
            case 8: {
                size_t k = g.draw(want.size() + 20);
                log += strf(" ftruncate %zu", k);
                f.ftruncate((off_t)k);
                want.resize(k, 0);
                break;
            }
            case 9: {
                if (want.empty()) break;
                log += " mmap";
                sys::MMap m = f.mmap(want.size(), PROT_READ, MAP_SHARED);
                PBT_CHECK(m.size() == want.size() && memcmp((const char*)m, want.data(), want.size()) == 0, log << ": mapped data differ");
                sys::MMap m2(std::move(m));
                PBT_CHECK(m.size() == 0 && m2.size() == want.size() && memcmp((const char*)m2, want.data(), want.size()) == 0, log << ": moved map");
                // Back to the one that was left empty
                m = std::move(m2);
                PBT_CHECK(m2.size() == 0 && m.size() == want.size() && memcmp((const char*)m, want.data(), want.size()) == 0, log << ": map moved back");
                if (g.boolean()) m.munmap();
                break;
            }
            default: {
                // The descriptor goes from one object to the other
                log += " moved";
                int fd = f;
                sys::File o(std::move(f));
                PBT_CHECK(!f.is_open() && (int)o == fd && o.path() == full, log << ": move left " << (int)f << " and " << (int)o);
                f = std::move(o);
                PBT_CHECK(!o.is_open() && (int)f == fd && f.path() == full, log << ": moving back left " << (int)o << " and " << (int)f);
                // The file that was open in the destination is closed
                sys::File null("/dev/null", O_RDWR);
                int nfd = null;
                null = std::move(f);
                PBT_CHECK(!f.is_open() && (int)null == fd && null.path() == full && fcntl(nfd, F_GETFD) == -1, log << ": moving over an open file left " << (int)f << " and " << (int)null);
                f = std::move(null);
                int dup = f.dup();
                PBT_CHECK(dup != fd && dup >= 0, log << ": dup gives " << dup);
                ::close(dup);
                PBT_CHECK((f.getfl() & O_ACCMODE) == O_RDWR, log << ": getfl");
                f.setfl(f.getfl() | O_APPEND);
                PBT_CHECK(fcntl(fd, F_GETFL) & O_APPEND, log << ": setfl");
                f.setfl(f.getfl() & ~O_APPEND);
                break;
            }
        }
    }
    if (g.boolean())
    {
        // Times are the ones of before, whatever is done in the middle
        struct timespec ts[2] = {{(time_t)g.draw(2000000000), (long)g.draw(1000000000)}, {(time_t)g.draw(2000000000), (long)g.draw(1000000000)}};
        f.futimens(ts);
        {
            sys::PreserveFileTimes keep(f);
            f.pwrite("x", 1, 0);
            want.replace(0, want.empty() ? 0 : 1, "x");
        }
        struct stat st;
        f.fstat(st);
        PBT_CHECK(st.st_mtim.tv_sec == ts[1].tv_sec && st.st_mtim.tv_nsec == ts[1].tv_nsec && st.st_atim.tv_sec == ts[0].tv_sec && st.st_atim.tv_nsec == ts[0].tv_nsec, log << ": file times are not preserved");
    }
    unsigned mode = (unsigned)(0600 | g.draw(0200));
    f.fchmod(mode);
    f.fsync();
    f.fdatasync();
    struct stat st;
    f.fstat(st);
    if (g.boolean())
    {
        f.close();
        PBT_CHECK(!f.is_open(), log << ": closed and open");
        f.close();
        // Nothing works on a file that is not open, however it came to be so
        sys::File by_name(full.c_str()), by_path(std::filesystem::path{full});
        sys::File& n = g.boolean() ? f : g.boolean() ? by_name : by_path;
        PBT_CHECK(!n.is_open() && (int)n == -1 && n.path() == full, log << ": a file that is not open has descriptor " << (int)n);
        char buf[4];
        struct stat nst;
        struct timespec nts[2] = {{1, 1}, {1, 1}};
        flock lk{};
        lk.l_type = F_RDLCK;
        lk.l_whence = SEEK_SET;
        struct Op { const char* name; std::function<void()> f; };
        Op ops[] = {
            {"read", [&] { n.read(buf, 1); }}, {"write", [&] { n.write("x", 1); }}, {"pread", [&] { n.pread(buf, 1, 0); }}, {"pwrite", [&] { n.pwrite("x", 1, 0); }},
            {"read_all_or_retry", [&] { n.read_all_or_retry(buf, 1); }}, {"read_all_or_throw", [&] { n.read_all_or_throw(buf, 1); }},
            {"write_all_or_retry", [&] { n.write_all_or_retry("x", 1); }}, {"write_all_or_throw", [&] { n.write_all_or_throw("x", 1); }},
            {"lseek", [&] { n.lseek(0); }}, {"ftruncate", [&] { n.ftruncate(0); }}, {"mmap", [&] { n.mmap(1, PROT_READ, MAP_SHARED); }},
            {"fstat", [&] { n.fstat(nst); }}, {"fchmod", [&] { n.fchmod(0644); }}, {"futimens", [&] { n.futimens(nts); }}, {"fsync", [&] { n.fsync(); }}, {"fdatasync", [&] { n.fdatasync(); }},
            {"dup", [&] { n.dup(); }}, {"ofd_setlk", [&] { n.ofd_setlk(lk); }}, {"ofd_setlkw", [&] { n.ofd_setlkw(lk); }}, {"ofd_getlk", [&] { n.ofd_getlk(lk); }},
            {"getfl", [&] { n.getfl(); }}, {"setfl", [&] { n.setfl(0); }},
        };
        for (auto& op: ops) PBT_CHECK(attempt(op.f) == SYSTEM, log << ": " << op.name << " on a file that is not open is not an error");
    }
    want_tree[p] = Node{'f', mode, want, t == 'f' ? before.at(p).ino : st.st_ino};
    std::string d = difference(want_tree, scan());
    PBT_CHECK(d.empty(), log << ": the directory " << d);
    c.label("contents");
}

void temporaries(Ctx& c, const Tree& before, const std::string& p, std::string& log)
{
    Gen& g = c.g;
    if (odd_parents(before, p) || !parent_ok(before, p)) return;
    std::string prefix = root + p;
    bool keep = g.chance(1, 3);
    std::string name;
    unsigned h = (unsigned)g.draw(3);
    Tree want = before;
    if (g.boolean())
    {
        log += " temporary file " + quote(p, 60) + (keep ? " kept" : "");
        std::string content = data(g);
        bool gone = false;
        {
            std::unique_ptr<sys::Tempfile> t(h == 0 ? new sys::Tempfile(std::filesystem::path(prefix)) : h == 1 ? new sys::Tempfile(prefix) : new sys::Tempfile(prefix.c_str()));
            name = t->path().string();
            PBT_CHECK(name.compare(0, prefix.size(), prefix) == 0 && parent(name) == parent(prefix), log << ": is " << name);
            PBT_CHECK(!before.count(name.substr(root.size())), log << ": took the place of an existing file");
            Tree mid = scan();
            PBT_CHECK(mid.size() == before.size() + 1 && type_of(mid, name.substr(root.size())) == 'f', log << ": not there");
            PBT_CHECK((mid.at(name.substr(root.size())).mode & 077) == 0, log << ": open to others");
            t->write_all_or_retry(content);
            if (g.boolean()) t->close();
            if (keep) t->unlink_on_exit(false);
            if (g.chance(1, 4)) { t->unlink(); gone = true; PBT_CHECK(::access(name.c_str(), F_OK) != 0, log << ": unlinked and still there"); }
        }
        if (keep && !gone)
        {
            PBT_CHECK(slurp(name) == content, log << ": other contents");
            ::unlink(name.c_str());
        }
    }
    else
    {
        log += " temporary directory " + quote(p, 60) + (keep ? " kept" : "");
        {
            std::unique_ptr<sys::Tempdir> t(h == 0 ? new sys::Tempdir(std::filesystem::path(prefix)) : h == 1 ? new sys::Tempdir(prefix) : new sys::Tempdir(prefix.c_str()));
            name = t->path().string();
            PBT_CHECK(name.compare(0, prefix.size(), prefix) == 0 && parent(name) == parent(prefix), log << ": is " << name);
            PBT_CHECK(!before.count(name.substr(root.size())), log << ": took the place of an existing file");
            if (g.boolean())
            {
                mkdir((name + "/sub").c_str(), 0755);
                spit(name + "/sub/x", "x");
                // Links are removed, what they point to is not
                if (symlink(root.c_str(), (name + "/up").c_str()) != 0) {}
                if (symlink("nowhere", (name + "/sub/dangling").c_str()) != 0) {}
                if (mkfifo((name + "/sub/pipe").c_str(), 0600) != 0) {}
            }
            if (keep) t->rmtree_on_exit(false);
        }
        if (keep)
        {
            PBT_CHECK(::access(name.c_str(), F_OK) == 0, log << ": removed");
            std::error_code ec;
            std::filesystem::remove_all(name, ec);
        }
    }
    std::string d = difference(want, scan());
    PBT_CHECK(d.empty(), log << ": the directory " << d);
    c.label("temporary");
}

// Data that come in pieces
void pieces(Ctx& c, std::string& log)
{
    Gen& g = c.g;
    int fds[2];
    if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, fds) != 0) throw Discard("no sockets");
    std::string all;
    std::vector<size_t> sizes;
    for (unsigned n = g.size(6); n; --n)
    {
        std::string piece = g.bytes(1 + g.draw(40));
        if (::send(fds[1], piece.data(), piece.size(), 0) != (ssize_t)piece.size()) break;
        sizes.push_back(piece.size());
        all += piece;
    }
    ::close(fds[1]);
    // A count that ends where a piece ends, or that is never reached
    size_t count = 0, k = g.draw(sizes.size() + 1);
    for (size_t i = 0; i < k; ++i) count += sizes[i];
    bool too_much = g.chance(1, 3);
    if (too_much) count = all.size() + 1 + g.draw(10);
    std::string buf(count, 0);
    bool retry = g.chance(2, 3), res = true;
    log += strf(" read %zu bytes %s of", count, retry ? "retrying" : "at once");
    for (auto s: sizes) log += strf(" %zu", s);
    sys::NamedFileDescriptor fd(fds[0], "socket");
    std::string msg;
    Outcome o = attempt([&] { if (retry) res = fd.read_all_or_retry(&buf[0], count); else fd.read_all_or_throw(&buf[0], count); }, &msg);
    ::close(fds[0]);
    if (retry)
    {
        if (count <= all.size()) PBT_CHECK(o == OK && res && buf == all.substr(0, count), log << ": outcome " << o << " " << msg);
        else if (all.empty()) PBT_CHECK(o == OK && !res, log << ": outcome " << o << " " << res << " at the end");
        else PBT_CHECK(o == RUNTIME && msg.find("socket") != std::string::npos, log << ": outcome " << o << " " << msg << " with part of the data");
    }
    else
    {
        bool ok = count == 0 || (!sizes.empty() && sizes[0] == count);
        PBT_CHECK(o == (ok ? OK : RUNTIME), log << ": outcome " << o << " " << msg);
        if (ok) PBT_CHECK(buf == all.substr(0, count), log << ": other data");
    }
    // A pipe that takes a part of the data
    int pp[2];
    if (pipe2(pp, O_NONBLOCK) != 0) throw Discard("no pipes");
    int cap = fcntl(pp[1], F_SETPIPE_SZ, 4096);
    size_t n = g.draw(3 * 4096);
    std::string big(n, 'p');
    sys::FileDescriptor w(pp[1]);
    o = attempt([&] { w.write_all_or_throw(big); });
    if (cap == 4096) PBT_CHECK(o == (n <= 4096 ? OK : RUNTIME), log << ": write_all_or_throw of " << n << " bytes in a pipe of 4096: outcome " << o);
    std::string back(n + 1, 0);
    ssize_t r = ::read(pp[0], &back[0], back.size());
    if (cap == 4096 && n) PBT_CHECK(r == (ssize_t)std::min<size_t>(n, 4096), log << ": " << r << " bytes in the pipe");
    o = attempt([&] { w.write_all_or_retry(big); });
    if (cap == 4096) PBT_CHECK(o == (n <= 4096 ? OK : SYSTEM), log << ": write_all_or_retry of " << n << " bytes in a pipe of 4096: outcome " << o);
    ::close(pp[0]);
    ::close(pp[1]);
    c.label("pieces");
}

// Locks of open file descriptions
void locks(Ctx& c, const Tree& before, const std::string& p, std::string& log)
{
    Gen& g = c.g;
    if (odd_parents(before, p) || type_of(before, p) != 'f') return;
    std::string full = root + p;
    log += " locks on " + quote(p, 60);
    sys::File f[2] = {sys::File(std::filesystem::path(full), O_RDWR), sys::File(std::filesystem::path(full), O_RDWR)};
    char held[2][10];
    memset(held, 0, sizeof(held));
    for (unsigned n = 1 + g.size(8); n; --n)
    {
        unsigned who = (unsigned)g.draw(2), start = (unsigned)g.draw(9), len = 1 + (unsigned)g.draw(10 - start - 1);
        static const short kinds[] = {F_RDLCK, F_WRLCK, F_UNLCK};
        unsigned k = (unsigned)g.draw(3), op = (unsigned)g.draw(3);
        if (op == 2 && k == 2) continue;
        bool conflict = false;
        for (unsigned i = start; i < start + len; ++i)
            if (k < 2 && held[1 - who][i] && (k == 1 || held[1 - who][i] == 2)) conflict = true;
        if (op == 1 && conflict) op = 0;
        struct flock lk;
        memset(&lk, 0, sizeof(lk));
        lk.l_type = kinds[k];
        lk.l_whence = SEEK_SET;
        lk.l_start = start;
        lk.l_len = len;
        log += strf(" %s %u %u %u+%u", op == 0 ? "setlk" : op == 1 ? "setlkw" : "getlk", who, k, start, len);
        bool res = op == 0 ? f[who].ofd_setlk(lk) : op == 1 ? f[who].ofd_setlkw(lk) : f[who].ofd_getlk(lk);
        PBT_CHECK(res == !conflict, log << ": gives " << res);
        if (res && op < 2)
            for (unsigned i = start; i < start + len; ++i) held[who][i] = (char)(k == 2 ? 0 : k + 1);
    }
    c.label("locks");
}

void others(Ctx& c, std::string& log)
{
    Gen& g = c.g;
    switch (g.draw(5))
    {
        case 0: {
            std::string dir = g.boolean() ? "" : g.boolean() ? "/a/b/" : "rel/", name = g.chance(1, 4) ? "" : g.pick(names), suffix = g.boolean() ? ".tmp" : g.ascii(g.size(6));
            if (suffix.find('/') != std::string::npos) return;
            std::string res;
            Outcome o = attempt([&] { res = sys::with_suffix(dir + name, suffix).string(); });
            log += " with_suffix " + quote(dir + name) + " " + quote(suffix);
            PBT_CHECK(o == (name.empty() ? OTHER : OK), log << ": outcome " << o);
            if (o == OK) PBT_CHECK(res == dir + name + suffix, log << ": gives " << quote(res));
            break;
        }
        case 1: {
            // Time between two instants, none if they go backwards
            timespec a = {(time_t)g.draw(g.boolean() ? 3 : 2000000000), (long)g.edgy(0, 999999999)}, b = {(time_t)g.draw(g.boolean() ? 3 : 2000000000), (long)g.edgy(0, 999999999)};
            __int128 d = ((__int128)b.tv_sec - a.tv_sec) * 1000000000 + b.tv_nsec - a.tv_nsec;
            unsigned long long want = d < 0 ? 0 : (unsigned long long)d, got = sys::timesec_elapsed(a, b);
            log += strf(" elapsed %ld.%09ld %ld.%09ld", (long)a.tv_sec, a.tv_nsec, (long)b.tv_sec, b.tv_nsec);
            PBT_CHECK(got == want, log << ": gives " << got << " instead of " << want);
            break;
        }
        case 2: {
            rlimit was, now, mid;
            getrlimit(RLIMIT_CORE, &was);
            rlim_t n = was.rlim_max == RLIM_INFINITY ? g.draw(100000) : g.draw(was.rlim_max + 1), n2 = was.rlim_max == RLIM_INFINITY ? g.draw(100000) : g.draw(was.rlim_max + 1);
            {
                sys::OverrideRlimit o(RLIMIT_CORE, n);
                getrlimit(RLIMIT_CORE, &mid);
                PBT_CHECK(mid.rlim_cur == n && mid.rlim_max == was.rlim_max, "limit of " << n << ": is " << mid.rlim_cur << " of " << mid.rlim_max);
                o.set(n2);
                getrlimit(RLIMIT_CORE, &mid);
                PBT_CHECK(mid.rlim_cur == n2 && mid.rlim_max == was.rlim_max, "limit set to " << n2 << ": is " << mid.rlim_cur << " of " << mid.rlim_max);
            }
            getrlimit(RLIMIT_CORE, &now);
            PBT_CHECK(now.rlim_cur == was.rlim_cur && now.rlim_max == was.rlim_max, "limit not restored");
            log += " rlimit";
            break;
        }
        case 3: {
            // Search of executables in the directories of PATH
            std::string dirs[3], path;
            const char* old = getenv("PATH");
            std::string saved = old ? old : "", found;
            for (unsigned i = 0; i < 3; ++i)
            {
                dirs[i] = root + strf("/.bin%u", i);
                mkdir(dirs[i].c_str(), 0755);
                if (i || g.boolean()) path += (path.empty() && !g.chance(1, 4) ? "" : ":") + dirs[i];
                if (g.chance(1, 4)) path += ":";
            }
            for (unsigned i = 0; i < 3; ++i)
            {
                unsigned k = (unsigned)g.draw(3);
                if (k == 0) continue;
                spit(dirs[i] + "/prog", "", k == 1 ? 0644 : 0755);
                if (k == 2 && found.empty() && path.find(dirs[i]) != std::string::npos) found = dirs[i] + "/prog";
            }
            setenv("PATH", path.c_str(), 1);
            std::string got = sys::which("prog").string(), abs = sys::which("/x/prog").string(), rel = sys::which("./prog").string();
            setenv("PATH", saved.c_str(), 1);
            for (unsigned i = 0; i < 3; ++i) { ::unlink((dirs[i] + "/prog").c_str()); ::rmdir(dirs[i].c_str()); }
            log += " which in " + path;
            PBT_CHECK(got == (found.empty() ? "prog" : found), log << ": gives " << got << " instead of " << found);
            char cwd[4096];
            if (!::getcwd(cwd, sizeof(cwd))) return;
            PBT_CHECK(abs == "/x/prog", log << ": the absolute /x/prog gives " << abs);
            PBT_CHECK(rel[0] == '/' && rel.compare(0, strlen(cwd), cwd) == 0 && rel.substr(rel.rfind('/')) == "/prog", log << ": ./prog gives " << rel);
            break;
        }
        default: {
            sys::Clock clock(CLOCK_MONOTONIC);
            unsigned long long a = clock.elapsed(), b = clock.elapsed();
            PBT_CHECK(a <= b && b < 100000000000ull, "clock: " << a << " then " << b);
            char cwd[4096];
            if (!::getcwd(cwd, sizeof(cwd))) return;
            PBT_CHECK(sys::getcwd() == cwd, "getcwd gives " << sys::getcwd());
            sys::chdir(root);
            std::string now = sys::getcwd(), rel = sys::abspath("a/../b"), abs = sys::abspath("/x/./y/../z");
            PBT_CHECK(attempt([&] { sys::chdir(root + "/missing-directory"); }) == SYSTEM && sys::getcwd() == now, "chdir to a missing directory");
            if (::chdir(cwd) != 0) throw Discard("cannot go back");
            char* real = realpath(root.c_str(), nullptr);
            std::string want = real ? real : "";
            free(real);
            PBT_CHECK(now == want, "chdir: the current directory is " << now << " instead of " << want);
            PBT_CHECK(rel == want + "/b" && abs == "/x/z", "abspath gives " << rel << " and " << abs);
            log += " directory";
            break;
        }
    }
    c.label("others");
}

void run(Ctx& c)
{
    Gen& g = c.g;
    Unprivileged user;
    static unsigned long serial = 0;
    root = scratch_dir() + strf("/w%lu", serial++);
    if (mkdir(root.c_str(), 0755) != 0) throw Discard("no scratch directory");
    struct Clean { ~Clean() { remove_all(); } } clean;
    mode_t old = umask(022);
    struct Mask { mode_t m; ~Mask() { umask(m); } } mask{old};
    // Something to start from
    Tree t;
    for (unsigned n = g.size(8); n; --n)
    {
        std::string p = some_path(g, t);
        if (type_of(t, p) != ' ' || !parent_ok(t, p)) continue;
        switch (g.draw(6))
        {
            case 0: case 1: mkdir((root + p).c_str(), 0755); break;
            case 2: case 3: spit(root + p, data(g), (unsigned)(0600 | g.draw(0200))); break;
            // Links to what is in the scratch directory only
            case 4: if (symlink(g.pick(names), (root + p).c_str()) != 0) continue; break;
            default: if (mkfifo((root + p).c_str(), 0600) != 0) continue; break;
        }
        t = scan();
    }
    std::string log = "in" + show(t) + ":";
    unsigned fds = open_fds();
    unsigned nops = 1 + g.size(6);
    for (unsigned n = 0; n < nops; ++n)
    {
        t = scan();
        std::string p = some_path(g, t);
        log += ";";
        switch (g.draw(11))
        {
            case 0: case 1: writes(c, t, p, log); break;
            case 2: looks(c, t, p, log); break;
            case 3: removes(c, t, p, log); break;
            case 4: makes(c, t, p, log); break;
            case 5: renames(c, t, p, some_path(g, t), log); break;
            case 6: listing(c, t, g.boolean() ? p : "", log); break;
            case 7: contents(c, t, p, log); break;
            case 8: temporaries(c, t, p, log); break;
            case 9: if (g.boolean()) pieces(c, log); else locks(c, t, p, log); break;
            default: if (g.chance(1, 4)) killed(c, t, p, log); else others(c, log); break;
        }
        unsigned now = open_fds();
        PBT_CHECK(now == fds, log << ": " << (int)(now - fds) << " file descriptors left open");
    }
    c.set_sample(log);
    if (nops > 1) c.nontrivial(log);
}

Register r({"C30", "histories of operations of the file utilities over a random directory tree with files, links, fifos and directories, with full disks and deaths while writing, as an unprivileged user in a scratch directory; the whole tree is compared after each with what the operation should have changed, and the results with the ones of the system calls; non trivial: more than one operation; distinct: tree and operations",
        run, nullptr, 150000, 1200000, true});
}
