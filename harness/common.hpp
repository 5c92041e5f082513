// Shared harness code: reads scenario scripts, runs each in a forked child, writes one JSON trace per line.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace H {
    constexpr long NANV = 2000000001L;   // not finite
    constexpr long BIGV = 2000000000L;   // out of range

    inline long scaled(double x, double s) {
        if (!std::isfinite(x)) { return NANV; }
        double v = std::round(x * s);
        if (v > 1.9e9) { return BIGV; }
        if (v < -1.9e9) { return -BIGV; }
        return (long)v;
    }

    // Minimal JSON object writer
    struct Obj {
        std::string s = "{";
        bool first = true;
        Obj &raw(const char *k, const std::string &v) {
            s += (first ? "\"" : ",\""); first = false; s += k; s += "\":"; s += v; return *this;
        }
        Obj &i(const char *k, long v) { return raw(k, std::to_string(v)); }
        Obj &b(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
        Obj &str(const char *k, const std::string &v) { return raw(k, "\"" + v + "\""); }
        std::string end() const { return s + "}"; }
    };
    inline std::string arr(const std::vector<long> &v) {
        std::string s = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); }
        return s + "]";
    }
    inline std::string arrS(const std::vector<std::string> &v) {
        std::string s = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i]; }
        return s + "]";
    }

    struct Op {
        std::string name;
        std::vector<long> a;
        mutable size_t pos = 0;
        long next() const { if (pos >= a.size()) { fprintf(stderr, "op %s: too few arguments\n", name.c_str()); _exit(99); } return a[pos++]; }
        bool more() const { return pos < a.size(); }
    };

    // A runner executes one op and returns the observation as a JSON object string.
    using Runner = std::function<std::string(const Op &)>;
    using Factory = std::function<Runner()>;

    inline int runAll(int argc, char **argv, Factory make, int timeoutMs = 20000) {
        if (argc < 3) { fprintf(stderr, "usage: driver IN OUT\n"); return 2; }
        std::ifstream in(argv[1]);
        FILE *out = fopen(argv[2], "w");
        if (!in || !out) { return 2; }
        std::string line;
        int hangs = 0;
        while (std::getline(in, line)) {
            if (line.empty()) continue;
            std::istringstream hs(line);
            std::string tag, id; size_t n;
            hs >> tag >> id >> n;
            if (tag != "S") { fprintf(stderr, "bad scenario header: %s\n", line.c_str()); return 2; }
            std::vector<Op> ops(n);
            for (size_t i = 0; i < n; ++i) {
                std::getline(in, line);
                std::istringstream ls(line);
                ls >> ops[i].name;
                long v;
                while (ls >> v) ops[i].a.push_back(v);
            }
            if (hangs >= 2) {      // the verdict is clear: do not spend the time on the rest
                fputs(("{\"id\":\"" + id + "\",\"ev\":[]}\n").c_str(), out);
                continue;
            }
            int fd[2];
            if (pipe(fd)) return 2;
            fflush(out);
            pid_t pid = fork();
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                struct rlimit lim = {2ul << 30, 2ul << 30};     // a runaway loop ends here, not the machine
                setrlimit(RLIMIT_AS, &lim);
                close(fd[0]);
                int dn = open("/dev/null", O_WRONLY);
                dup2(dn, 1);
                if (!getenv("H_DEBUG")) dup2(dn, 2);
                FILE *w = fdopen(fd[1], "w");
                Runner r = make();
                for (auto &op : ops) {
                    std::string o = r(op);
                    std::string e = Obj().str("op", op.name).raw("a", arr(op.a)).raw("o", o).end();
                    fputs(e.c_str(), w); fputc('\n', w); fflush(w);
                }
                fflush(w);
                _exit(0);
            }
            close(fd[1]);
            std::string buf;
            bool timedOut = false;
            struct pollfd pf = {fd[0], POLLIN, 0};
            char tmp[65536];
            while (true) {
                int pr = poll(&pf, 1, timeoutMs);
                if (pr == 0) { timedOut = true; ++hangs; kill(pid, SIGKILL); break; }
                if (pr < 0) break;
                ssize_t k = read(fd[0], tmp, sizeof tmp);
                if (k <= 0) break;
                buf.append(tmp, k);
            }
            close(fd[0]);
            int st = 0;
            waitpid(pid, &st, 0);
            std::vector<std::string> ev;
            size_t p = 0;
            while (true) {
                size_t q = buf.find('\n', p);
                if (q == std::string::npos) break;
                ev.push_back(buf.substr(p, q - p));
                p = q + 1;
            }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(stderr, "scenario %s is malformed\n", id.c_str()); return 2; }
            if (ev.size() < ops.size()) {
                // the code under test crashed or hung in this op
                const Op &op = ops[ev.size()];
                ev.push_back(Obj().str("op", "crash").raw("a", "[]").raw("o", Obj().str("in", op.name).b("hang", timedOut).i("status", st).end()).end());
            }
            std::string t = "{\"id\":\"" + id + "\",\"ev\":" + arrS(ev) + "}\n";
            fputs(t.c_str(), out);
        }
        fclose(out);
        return 0;
    }
}
