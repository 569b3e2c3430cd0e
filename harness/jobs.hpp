// Shared helpers of the drivers: a job list is processed with one forked child per job, so that a crash or a hang of the
// code under test is an observation of that job ("crash"/"hang") and never reaches another one.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

static inline std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static inline std::string jnum(double v)
{
    char b[64];
    if (v != v) return "\"nan\"";
    if (v > 1e300 || v < -1e300) return "\"inf\"";
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}

// argv: <list file> <output dir>.  Each line of the list file is one job; fn(fields, out) runs it in a child whose cwd is a
// private scratch directory; what it writes to out goes to <output dir>/<job number>.json
static inline int run_jobs(int argc, char** argv, std::function<void(const std::vector<std::string>&, FILE*)> fn, unsigned limit_s = 60)
{
    if (argc < 3) { fprintf(stderr, "usage: %s jobs outdir [nproc]\n", argv[0]); return 2; }
    std::ifstream            in(argv[1]);
    std::string              line, outdir = argv[2];
    int                      nproc = argc > 3 ? atoi(argv[3]) : 8;
    std::vector<std::string> jobs;
    while (std::getline(in, line))
        if (!line.empty()) jobs.push_back(line);
    std::vector<pid_t> pid(jobs.size(), 0);
    size_t             next = 0, running = 0, done = 0;
    while (done < jobs.size())
    {
        while (running < (size_t)nproc && next < jobs.size())
        {
            size_t n = next++;
            pid_t  p = fork();
            if (p == 0)
            {
                std::string base = outdir + "/" + std::to_string(n);
                std::string wd   = base + ".wd";
                mkdir(wd.c_str(), 0755);
                if (chdir(wd.c_str()) != 0) _exit(3);
                struct rlimit nocore = {0, 0};
                setrlimit(RLIMIT_CORE, &nocore);
                alarm(limit_s);
                if (!freopen("/dev/null", "w", stdout)) _exit(3);
                FILE*                    out = fopen((base + ".json").c_str(), "w");
                std::vector<std::string> f;
                std::stringstream        ss(jobs[n]);
                std::string              tok;
                while (std::getline(ss, tok, '\t')) f.push_back(tok);
                fn(f, out);
                fclose(out);
                _exit(0);
            }
            pid[n] = p;
            running++;
        }
        int   status = 0;
        pid_t p      = waitpid(-1, &status, 0);
        for (size_t n = 0; n < next; n++)
            if (pid[n] == p)
            {
                running--;
                done++;
                pid[n] = -1;
                FILE* st = fopen((outdir + "/" + std::to_string(n) + ".rc").c_str(), "w");
                if (WIFSIGNALED(status)) fprintf(st, "%s\n", WTERMSIG(status) == SIGALRM ? "hang" : ("signal " + std::to_string(WTERMSIG(status))).c_str());
                else if (WEXITSTATUS(status)) fprintf(st, "exit %d\n", WEXITSTATUS(status));
                else fprintf(st, "ok\n");
                fclose(st);
            }
    }
    return 0;
}
