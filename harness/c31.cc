// C31: child processes get what they were asked to get, and their end is reported
#include "pbt.h"
#include <wreport/utils/subprocess.h>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <memory>
#include <set>
#include <stdexcept>
#include <system_error>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sysexits.h>
#include <time.h>
#include <unistd.h>

using namespace wreport;
using namespace pbt;
using subprocess::Redirect;

namespace {

std::string root;

struct Unprivileged
{
    bool on = false;
    Unprivileged()
    {
        std::string s = scratch_dir();
        rlimit r;
        getrlimit(RLIMIT_NOFILE, &r);
        if (r.rlim_cur > 200) { r.rlim_cur = 200; setrlimit(RLIMIT_NOFILE, &r); }
        if (getuid() != 0) return;
        if (chown(s.c_str(), 65534, 65534) != 0 || setgroups(0, nullptr) != 0 || setresgid(65534, 65534, 0) != 0 || setresuid(65534, 65534, 0) != 0)
        {
            fprintf(stderr, "cannot become an unprivileged user: %s\n", strerror(errno));
            _exit(1);
        }
        on = true;
    }
    ~Unprivileged() { if (on && (setresuid(0, 0, 0) != 0 || setresgid(0, 0, 0) != 0)) _exit(1); }
};

std::set<int> open_fds()
{
    std::set<int> res;
    for (int i = 0; i < 200; ++i) if (fcntl(i, F_GETFD) != -1) res.insert(i);
    return res;
}

std::string slurp(int fd)
{
    std::string res;
    char buf[4096];
    ssize_t n;
    while ((n = ::read(fd, buf, sizeof(buf))) > 0 || (n == -1 && errno == EINTR)) if (n > 0) res.append(buf, (size_t)n);
    return res;
}

struct Fd
{
    int fd;
    explicit Fd(int fd) : fd(fd) { if (fd == -1) throw Discard("cannot open a file"); }
    Fd(const Fd&) = delete;
    ~Fd() { ::close(fd); }
};

std::string contents(int fd) { lseek(fd, 0, SEEK_SET); return slurp(fd); }

template<typename F> std::string thrown(F f)
{
    try { f(); } catch (std::system_error&) { return "system"; } catch (std::runtime_error&) { return "runtime"; } catch (std::exception&) { return "other"; }
    return "";
}

std::string word(Gen& g, unsigned max) { std::string s = g.boolean() ? g.ascii(g.size(max)) : std::string(g.size(max), 'w'); for (auto& c: s) if (c == 0) c = 'z'; return s; }

// Prints all that it was given
const char* SCRIPT =
    "for a in \"$@\"; do printf '<%s>' \"$a\"; done\n"
    "printf '|%s|%s|%s|' \"${WRA-unset}\" \"${WRB-unset}\" \"${WRC-unset}\"\n"
    "pwd\n"
    "for n in $FDS; do if [ -e /proc/$$/fd/$n ]; then printf '+%s' $n; else printf -- '-%s' $n; fi; done\n"
    "read -r l < /proc/$$/stat; l=${l##*)}; set -- $l; printf '|%s %s|' \"$2\" \"$4\"\n"
    "printf 'complaint' >&2\n"
    "cat\n";

void check_end(subprocess::Child& p, int code, int sig, const std::string& log)
{
    int raw = p.raw_returncode();
    PBT_CHECK(p.terminated() && p.started(), log << ": ended, and not terminated");
    if (sig)
    {
        PBT_CHECK(WIFSIGNALED(raw) && WTERMSIG(raw) == sig, log << ": raw status " << raw << " instead of signal " << sig);
        std::string t = subprocess::Child::format_raw_returncode(raw);
        PBT_CHECK(t.find("signal " + std::to_string(sig)) != std::string::npos, log << ": signal " << sig << " is described as " << t);
    }
    else
    {
        PBT_CHECK(WIFEXITED(raw) && WEXITSTATUS(raw) == code && p.returncode() == code, log << ": raw status " << raw << " and code " << p.returncode() << " instead of " << code);
        std::string t = subprocess::Child::format_raw_returncode(raw);
        PBT_CHECK(code ? t.find(std::to_string(code)) != std::string::npos && t.find("success") == std::string::npos : t.find("success") != std::string::npos, log << ": code " << code << " is described as " << t);
    }
    // Asking again gives the same answer
    PBT_CHECK(p.poll(), log << ": poll of a process that ended");
    PBT_CHECK(p.wait(0) && p.wait(10), log << ": wait with a timeout of a process that ended");
    if (!sig) PBT_CHECK(p.wait() == code, log << ": wait again gives " << p.wait());
    PBT_CHECK(p.raw_returncode() == raw, log << ": the status changed");
}

// Wait in one of the ways there are
void wait_end(Gen& g, subprocess::Child& p, int code, int sig, std::string& log)
{
    switch (g.draw(3))
    {
        case 0: {
            int r = p.wait();
            if (!sig) PBT_CHECK(r == code, log << ": wait gives " << r << " instead of " << code);
            break;
        }
        case 1: {
            // That it does not give up too early is in ends(), where it does not depend on timing
            bool r = false;
            for (unsigned n = 0; n < 1000 && !r; ++n) r = p.wait(1000);
            PBT_CHECK(r, log << ": wait gives up");
            break;
        }
        default: {
            for (unsigned n = 0; !p.poll(); ++n)
            {
                if (n > 300000) PBT_FAIL(log << ": poll never sees the end");
                usleep(100);
            }
            break;
        }
    }
    check_end(p, code, sig, log);
}

void popen(Ctx& c)
{
    Gen& g = c.g;
    std::string log = "run";
    // Files that the child may get
    Fd in(::open((root + "/in").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600)), out(::open((root + "/out").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600)), err(::open((root + "/err").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600));
    std::set<int> before = open_fds();
    {
        std::string input = g.boolean() ? word(g, 30) : std::string(g.draw(20000), 'i');
        subprocess::Popen p;
        int code = (int)g.draw(256);
        bool named = g.boolean();
        unsigned how = (unsigned)g.draw(3);
        // Which program
        if (how == 0) { p.args = {"/bin/sh", "-c"}; }
        else if (how == 1) { p.args = {"sh", "-c"}; }
        else { p.executable = "/bin/sh"; p.args = {word(g, 5), "-c"}; }
        p.args.push_back(std::string(SCRIPT) + strf("exit %d\n", code));
        p.args.push_back("name");
        std::string want;
        for (unsigned n = g.size(4); n; --n)
        {
            std::string a = word(g, 8);
            p.args.push_back(a);
            want += "<" + a + ">";
        }
        (void)named;
        // Environment: as it is, or changed
        ::setenv("WRA", "parent a", 1);
        ::setenv("WRB", "parent b", 1);
        ::unsetenv("WRC");
        std::string a = "parent a", b = "parent b", cc = "unset", fdnames;
        std::set<int> watched = {in.fd, out.fd, err.fd};
        for (int f: watched) fdnames += strf("%s%d", fdnames.empty() ? "" : " ", f);
        ::setenv("FDS", fdnames.c_str(), 1);
        unsigned envkind = (unsigned)g.draw(3);
        if (envkind)
        {
            if (envkind == 2)
            {
                // What was there before is forgotten
                if (g.boolean()) p.setenv("WRA", "old");
                if (g.boolean()) p.env.push_back("WRC=gone");
                p.copy_env_from_parent();
            }
            else
            {
                p.env.push_back(std::string("PATH=") + (getenv("PATH") ? getenv("PATH") : "/bin:/usr/bin"));
                p.setenv("FDS", fdnames);
                a = b = "unset";
            }
            for (unsigned n = g.size(4); n; --n)
            {
                std::string v = word(g, 6);
                // Names that begin with the others
                switch (g.draw(5))
                {
                    case 0: p.setenv("WRA", v); a = v; break;
                    case 1: p.setenv("WRB", v); b = v; break;
                    case 2: p.setenv("WRC", v); cc = v; break;
                    case 3: p.setenv("WR", v); break;
                    default: p.setenv("WRAB", v); break;
                }
            }
            log += strf(" env %u", envkind);
        }
        want += "|" + a + "|" + b + "|" + cc + "|";
        // Directory
        char cwd[4096];
        if (!getcwd(cwd, sizeof(cwd))) throw Discard("no directory");
        if (g.boolean()) { p.cwd = root; want += root; log += " cwd"; } else want += cwd;
        want += "\n";
        p.start_new_session = g.boolean();
        // Redirections
        unsigned ri = (unsigned)g.draw(3), ro = (unsigned)g.draw(3), re = (unsigned)g.draw(5);
        std::string data;
        if (ri == 0) { p.set_stdin(Redirect::PIPE); data = input; }
        else if (ri == 1) { p.set_stdin(Redirect::DEVNULL); }
        else
        {
            if (::write(in.fd, input.data(), input.size()) != (ssize_t)input.size() || lseek(in.fd, 0, SEEK_SET) != 0) throw Discard("cannot write the input");
            p.set_stdin(in.fd);
            data = input;
        }
        if (ro == 0) p.set_stdout(Redirect::PIPE);
        else if (ro == 1) p.set_stdout(Redirect::DEVNULL);
        else p.set_stdout(out.fd);
        if (re == 0) p.set_stderr(Redirect::PIPE);
        else if (re == 1) p.set_stderr(Redirect::DEVNULL);
        else if (re == 2) p.set_stderr(err.fd);
        else if (re == 3) p.set_stderr(Redirect::STDOUT);
        else { if (ro == 2) p.set_stderr(out.fd); else { p.set_stderr(err.fd); re = 2; } }
        // Descriptors
        unsigned closing = (unsigned)g.draw(3);
        std::set<int> passed;
        if (closing == 0) p.close_fds = true;
        else if (closing == 1) { p.close_fds = false; passed = watched; }
        else
        {
            p.close_fds = g.boolean();
            for (int f: watched) if (g.boolean()) { p.pass_fds.push_back(f); passed.insert(f); }
            if (p.pass_fds.empty()) p.close_fds = true;
        }
        log += strf(" in %u out %u err %u close %u session %d code %d", ri, ro, re, closing, p.start_new_session, code);
        // Before the start
        PBT_CHECK(!p.started() && p.pid() == 0 && !p.terminated(), log << ": started before it started");
        PBT_CHECK(thrown([&] { p.wait(); }) == "runtime" && thrown([&] { p.poll(); }) == "runtime" && thrown([&] { p.wait(1); }) == "runtime", log << ": waiting for a process that has not started is not an error");
        // Signal 0 is sent to nobody, whoever it is sent to
        PBT_CHECK(thrown([&] { p.send_signal(0); }) == "runtime", log << ": a signal for a process that has not started is not an error");
        p.fork();
        PBT_CHECK(p.started() && p.pid() > 0 && !p.terminated(), log << ": not started");
        PBT_CHECK(thrown([&] { p.set_stdin(Redirect::PIPE); }) == "runtime" && thrown([&] { p.set_stdout(out.fd); }) == "runtime" && thrown([&] { p.set_stderr(Redirect::STDOUT); }) == "runtime"
               && thrown([&] { p.set_stdin(in.fd); }) == "runtime" && thrown([&] { p.set_stdout(Redirect::PIPE); }) == "runtime" && thrown([&] { p.set_stderr(err.fd); }) == "runtime", log << ": redirected after the start");
        PBT_CHECK((p.get_stdin() != -1) == (ri == 0) && (p.get_stdout() != -1) == (ro == 0) && (p.get_stderr() != -1) == (re == 0), log << ": pipes " << p.get_stdin() << " " << p.get_stdout() << " " << p.get_stderr());
        if (ri == 0)
        {
            // The child waits for its input
            if (g.chance(1, 4))
            {
                PBT_CHECK(!p.wait((int)g.draw(8)), log << ": ended before its input");
                PBT_CHECK(!p.poll() && !p.terminated(), log << ": poll sees an end that was not");
            }
            size_t done = 0;
            std::string all;
            // Both ways at once: neither side waits for the other
            fcntl(p.get_stdin(), F_SETFL, O_NONBLOCK);
            std::string got;
            while (done < data.size())
            {
                pollfd pf[2] = {{p.get_stdin(), POLLOUT, 0}, {ro == 0 ? p.get_stdout() : -1, POLLIN, 0}};
                if (::poll(pf, 2, 30000) <= 0) PBT_FAIL(log << ": the child does not read its input");
                if (pf[1].revents & POLLIN)
                {
                    char buf[4096];
                    ssize_t r = ::read(p.get_stdout(), buf, sizeof(buf));
                    if (r > 0) got.append(buf, (size_t)r);
                }
                if (pf[0].revents & (POLLERR | POLLHUP)) PBT_FAIL(log << ": the child closed its input");
                if (pf[0].revents & POLLOUT)
                {
                    ssize_t w = ::write(p.get_stdin(), data.data() + done, data.size() - done);
                    if (w > 0) done += (size_t)w;
                }
            }
            p.close_stdin();
            PBT_CHECK(p.get_stdin() == -1, log << ": closed and not -1");
            if (ro == 0) { got += slurp(p.get_stdout()); lseek(out.fd, 0, SEEK_SET); if (ftruncate(out.fd, 0) != 0 || ::write(out.fd, got.data(), got.size()) != (ssize_t)got.size()) throw Discard("cannot keep the output"); }
        }
        else if (ro == 0)
        {
            std::string got = slurp(p.get_stdout());
            if (::write(out.fd, got.data(), got.size()) != (ssize_t)got.size()) throw Discard("cannot keep the output");
        }
        std::string errors;
        if (re == 0) errors = slurp(p.get_stderr());
        if (ro == 0 && g.boolean()) { p.close_stdout(); PBT_CHECK(p.get_stdout() == -1, log << ": closed and not -1"); }
        if (re == 0 && g.boolean()) { p.close_stderr(); PBT_CHECK(p.get_stderr() == -1, log << ": closed and not -1"); }
        pid_t pid = p.pid();
        wait_end(g, p, code, 0, log);
        std::string output = contents(out.fd);
        if (re == 2) errors = contents(err.fd);
        // What the child saw: its parent and its session
        std::string middle, tail;
        for (int f: watched) middle += strf("%c%d", passed.count(f) ? '+' : '-', f);
        pid_t sid = p.start_new_session ? pid : getsid(0);
        middle += strf("|%d %d|", (int)getpid(), (int)sid);
        want += middle;
        if (re == 3 || re == 4) want += "complaint";
        want += data;
        if (ro == 1) want = re == 4 ? "complaint" : "";
        PBT_CHECK(output == want, log << ": the output is " << quote(output, 300) << " instead of " << quote(want, 300) << " errors " << quote(errors, 200));
        if (re == 0 || re == 2) PBT_CHECK(errors == "complaint", log << ": the errors are " << quote(errors, 300));
        c.nontrivial(log + want);
    }
    std::set<int> after = open_fds();
    PBT_CHECK(before == after, log << ": descriptors left open or closed: " << before.size() << " became " << after.size());
    c.set_sample(log);
    c.label("program");
}

struct Function : public subprocess::Child
{
    int code = 0;
    int sig = 0;
    bool block = false;
    unsigned late = 0;
    bool signal_parent = false;
    std::string say;
    int main() noexcept override
    {
        // The sanitizer's handlers are not part of what is tested
        for (int s: {SIGTERM, SIGINT, SIGUSR1, SIGSEGV, SIGABRT}) signal(s, SIG_DFL);
        rlimit nocore = {0, 0};
        setrlimit(RLIMIT_CORE, &nocore);
        if (!say.empty() && ::write(1, say.data(), say.size()) != (ssize_t)say.size()) return 99;
        if (block) { char x; while (::read(0, &x, 1) > 0) ; }
        if (late)
        {
            usleep(late * 500);
            if (signal_parent) ::kill(getppid(), SIGUSR2);
            usleep(late * 500);
        }
        if (sig) ::kill(getpid(), sig);
        return code;
    }
};

void ends(Ctx& c)
{
    Gen& g = c.g;
    std::string log = "function";
    std::set<int> before = open_fds();
    {
        static const int sigs[] = {SIGTERM, SIGKILL, SIGINT, SIGUSR1, SIGSEGV, SIGABRT};
        Function f;
        f.code = (int)g.draw(256);
        f.say = "!" + word(g, 20);
        f.set_stdout(Redirect::PIPE);
        f.set_stdin(Redirect::PIPE);
        int sig = 0;
        unsigned kind = (unsigned)g.draw(5);
        // Ends while the parent waits with a timeout, that other signals interrupt
        if (kind == 4) { f.late = 15 + (unsigned)g.draw(20); f.signal_parent = g.boolean(); if (g.boolean()) f.sig = sig = g.pick(sigs); }
        if (kind == 1) f.sig = sig = g.pick(sigs);
        if (kind == 2 || kind == 3) f.block = true;
        f.fork();
        std::string said(f.say.size(), 0);
        size_t n = 0;
        while (n < said.size()) { ssize_t r = ::read(f.get_stdout(), &said[n], said.size() - n); if (r <= 0) break; n += (size_t)r; }
        PBT_CHECK(n == said.size() && said == f.say, log << ": said " << quote(said) << " instead of " << quote(f.say));
        if (kind == 4)
        {
            bool r = f.wait(5000);
            PBT_CHECK(r && f.terminated(), log << ": ended after " << f.late << " ms, but the wait of 5 s gives up" << (f.signal_parent ? " after a signal" : ""));
        }
        if (kind == 2 || kind == 3)
        {
            unsigned ms = (unsigned)g.draw(20);
            timespec a, b;
            clock_gettime(CLOCK_MONOTONIC, &a);
            bool r = f.wait((int)ms);
            clock_gettime(CLOCK_MONOTONIC, &b);
            double took = (double)(b.tv_sec - a.tv_sec) * 1000 + (double)(b.tv_nsec - a.tv_nsec) / 1e6;
            PBT_CHECK(!r && !f.terminated() && !f.poll(), log << ": a process that waits is seen as ended");
            PBT_CHECK(took >= (double)ms - 0.5, log << ": gave up after " << took << " ms instead of " << ms);
            if (kind == 2) f.close_stdin();
            else switch (g.draw(3))
            {
                case 0: f.terminate(); sig = SIGTERM; break;
                case 1: f.kill(); sig = SIGKILL; break;
                default: sig = g.pick(sigs); f.send_signal(sig); break;
            }
        }
        log += strf(" kind %u code %d signal %d", kind, f.code, sig);
        wait_end(g, f, f.code, sig, log);
        c.nontrivial(log + f.say);
    }
    PBT_CHECK(before == open_fds(), log << ": descriptors left open");
    c.set_sample(log);
    c.label("function");
}

void failures(Ctx& c)
{
    Gen& g = c.g;
    std::string log = "failure";
    std::set<int> before = open_fds();
    {
        subprocess::Popen p({"/bin/sh", "-c", "echo run; exit 3"});
        p.set_stdout(Redirect::PIPE);
        p.set_stderr(Redirect::PIPE);
        switch (g.draw(3))
        {
            case 0: p.args[0] = "/no/such/program"; break;
            case 1: p.executable = root; break;
            default: p.cwd = root + "/missing"; break;
        }
        if (g.boolean()) p.copy_env_from_parent();
        p.fork();
        std::string out = slurp(p.get_stdout()), err = slurp(p.get_stderr());
        int code = p.wait();
        PBT_CHECK(out.empty() && code != 0 && code != 3 && !err.empty(), log << ": code " << code << " output " << quote(out) << " errors " << quote(err));
        c.nontrivial(strf("failure %s %s %s", p.args[0].c_str(), p.executable.c_str(), p.cwd.c_str()));
    }
    PBT_CHECK(before == open_fds(), log << ": descriptors left open");
    // Descriptions of statuses
    int code = (int)g.draw(256), sig = 1 + (int)g.draw(31);
    bool core = g.boolean();
    std::string a = subprocess::Child::format_raw_returncode(code << 8), b = subprocess::Child::format_raw_returncode(sig | (core ? 128 : 0));
    PBT_CHECK(code ? a.find("code " + std::to_string(code)) != std::string::npos : a.find("success") != std::string::npos, "exit code " << code << " is described as " << a);
    PBT_CHECK(b.find("signal " + std::to_string(sig)) != std::string::npos && (b.find("core") != std::string::npos) == core, "signal " << sig << " core " << core << " is described as " << b);
    c.label("failure");
}

void run(Ctx& c)
{
    Unprivileged user;
    static unsigned long serial = 0;
    root = scratch_dir() + strf("/w%lu", serial++);
    if (mkdir(root.c_str(), 0755) != 0) throw Discard("no scratch directory");
    struct Clean { ~Clean() { for (auto f: {"/in", "/out", "/err"}) ::unlink((root + f).c_str()); ::rmdir(root.c_str()); } } clean;
    signal(SIGPIPE, SIG_IGN);
    signal(SIGUSR2, [](int) {});
    switch (c.g.draw(5))
    {
        case 0: case 1: case 2: popen(c); break;
        case 3: ends(c); break;
        default: failures(c); break;
    }
}

Register r({"C31", "child processes with random arguments, environments, directories, sessions, redirections and inherited descriptors, that end with any code or signal and are waited for in any way, as an unprivileged user; a script reports what it was given; non trivial: all; distinct: configuration and output",
        run, nullptr, 12000, 300000, true});
}
