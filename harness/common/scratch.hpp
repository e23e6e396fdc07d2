/* scratch directories and dropping of privileges for file system harnesses */
#ifndef VERIF_SCRATCH_HPP
#define VERIF_SCRATCH_HPP
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <string>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "mc.hpp"

namespace scratch {
/* removes what is below an open directory, never following links */
static inline void wipe_at(int dfd)
{
    int d2 = dup(dfd);
    if (d2 < 0)
        return;
    DIR *d = fdopendir(d2);
    if (!d) {
        close(d2);
        return;
    }
    rewinddir(d);
    while (struct dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        if (unlinkat(dfd, n.c_str(), 0) == 0)
            continue;
        fchmodat(dfd, n.c_str(), 0700, 0);
        int s = openat(dfd, n.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
        if (s >= 0) {
            wipe_at(s);
            close(s);
            unlinkat(dfd, n.c_str(), AT_REMOVEDIR);
        }
    }
    closedir(d);
}
static inline void wipe(const std::string &p)
{
    int s = open(p.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
    if (s >= 0) {
        wipe_at(s);
        close(s);
    }
}
/* one root per run, one directory per worker below it */
struct Root {
    std::string root;
    pid_t owner;
    explicit Root()
    {
        const char *base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        std::string t = std::string(base) + "/verif-fs-XXXXXX";
        if (!mkdtemp(&t[0])) {
            perror("mkdtemp");
            exit(2);
        }
        chmod(t.c_str(), 0711);
        root = t;
        owner = getpid();
    }
    ~Root() { done(); }
    void done()
    {
        if (getpid() != owner || root.empty())
            return;
        wipe(root);
        rmdir(root.c_str());
        root.clear();
    }
    /* the worker's own directory; afterwards the worker is unprivileged */
    std::string enter(int w)
    {
        umask(022);
        std::string d = root + mc::fmt("/w%d", w);
        mkdir(d.c_str(), 0700);
        wipe(d);
        if (getuid() == 0) {
            if (chown(d.c_str(), 65534, 65534) != 0)
                abort();
            if (setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0)
                abort();
            prctl(PR_SET_DUMPABLE, 1);
        }
        std::string cwd = d + "/cwd";
        mkdir(cwd.c_str(), 0700);
        if (chdir(cwd.c_str()) != 0)
            abort();
        return d;
    }
};
} // namespace scratch
#endif
