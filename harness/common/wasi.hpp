/*
 * A guest with one wrapper function per WASI function, and helpers to lay out
 * arguments in its memory.
 */
#ifndef VERIF_WASI_HPP
#define VERIF_WASI_HPP
#include <cerrno>
#include <initializer_list>
#include <string>
#include <vector>
#include "mc.hpp"
#include "wasic.h"
#include "wb.hpp"

namespace ws {
using namespace wb;

/* name, parameters (i = i32, I = i64); all but proc_exit return an i32 */
#define WS_FUNCS(F)                                                           \
    F(args_get, "ii") F(args_sizes_get, "ii") F(clock_res_get, "ii")          \
    F(clock_time_get, "iIi") F(environ_get, "ii") F(environ_sizes_get, "ii")  \
    F(fd_advise, "iIIi") F(fd_allocate, "iII") F(fd_close, "i")               \
    F(fd_datasync, "i") F(fd_fdstat_get, "ii") F(fd_fdstat_set_flags, "ii")   \
    F(fd_fdstat_set_rights, "iII") F(fd_filestat_get, "ii")                   \
    F(fd_filestat_set_size, "iI") F(fd_filestat_set_times, "iIIi")            \
    F(fd_pread, "iiiIi") F(fd_prestat_dir_name, "iii")                        \
    F(fd_prestat_get, "ii") F(fd_pwrite, "iiiIi") F(fd_read, "iiii")          \
    F(fd_readdir, "iiiIi") F(fd_renumber, "ii") F(fd_seek, "iIii")            \
    F(fd_sync, "i") F(fd_tell, "ii") F(fd_write, "iiii")                      \
    F(path_create_directory, "iii") F(path_filestat_get, "iiiii")             \
    F(path_filestat_set_times, "iiiiIIi") F(path_link, "iiiiiii")             \
    F(path_open, "iiiiiIIii") F(path_readlink, "iiiiii")                      \
    F(path_remove_directory, "iii") F(path_rename, "iiiiii")                  \
    F(path_symlink, "iiiii") F(path_unlink_file, "iii")                       \
    F(poll_oneoff, "iiii") F(proc_exit, "i") F(random_get, "ii")              \
    F(sched_yield, "") F(sock_accept, "iii") F(sock_recv, "iiiiii")           \
    F(sock_send, "iiiii") F(sock_shutdown, "ii")

enum Fn {
#define F(n, s) n,
    WS_FUNCS(F)
#undef F
    NFN
};
static const char *const fn_name[] = {
#define F(n, s) #n,
    WS_FUNCS(F)
#undef F
};
static const char *const fn_sig[] = {
#define F(n, s) s,
    WS_FUNCS(F)
#undef F
};

/* errno numbers of the WASI ABI */
enum {
    E_SUCCESS = 0, E_ACCES = 2, E_AGAIN = 6, E_BADF = 8, E_BUSY = 10,
    E_CONNRESET = 15, E_DQUOT = 19, E_EXIST = 20, E_FAULT = 21, E_FBIG = 22,
    E_INTR = 27, E_INVAL = 28, E_IO = 29, E_ISDIR = 31, E_LOOP = 32,
    E_MFILE = 33, E_MLINK = 34, E_NAMETOOLONG = 37, E_NFILE = 41,
    E_NODEV = 43, E_NOENT = 44, E_NOMEM = 48, E_NOSPC = 51, E_NOSYS = 52,
    E_NOTCONN = 53, E_NOTDIR = 54, E_NOTEMPTY = 55, E_NOTSOCK = 57,
    E_NOTSUP = 58, E_NOTTY = 59, E_NXIO = 60, E_OVERFLOW = 61, E_PERM = 63,
    E_PIPE = 64, E_RANGE = 68, E_ROFS = 69, E_SPIPE = 70, E_TXTBSY = 74,
    E_XDEV = 75,
};
static inline int werrno(int e)
{
    switch (e) {
    case 0: return 0;
    case EACCES: return E_ACCES;
    case EAGAIN: return E_AGAIN;
    case EBADF: return E_BADF;
    case EBUSY: return E_BUSY;
    case ECONNRESET: return E_CONNRESET;
    case EEXIST: return E_EXIST;
    case EFAULT: return E_FAULT;
    case EFBIG: return E_FBIG;
    case EINTR: return E_INTR;
    case EINVAL: return E_INVAL;
    case EIO: return E_IO;
    case EISDIR: return E_ISDIR;
    case ELOOP: return E_LOOP;
    case EMFILE: return E_MFILE;
    case EMLINK: return E_MLINK;
    case ENAMETOOLONG: return E_NAMETOOLONG;
    case ENODEV: return E_NODEV;
    case ENOENT: return E_NOENT;
    case ENOMEM: return E_NOMEM;
    case ENOSPC: return E_NOSPC;
    case ENOSYS: return E_NOSYS;
    case ENOTCONN: return E_NOTCONN;
    case ENOTDIR: return E_NOTDIR;
    case ENOTEMPTY: return E_NOTEMPTY;
    case ENOTSOCK: return E_NOTSOCK;
    case EOPNOTSUPP: return E_NOTSUP;
    case ENOTTY: return E_NOTTY;
    case ENXIO: return E_NXIO;
    case EOVERFLOW: return E_OVERFLOW;
    case EPERM: return E_PERM;
    case EPIPE: return E_PIPE;
    case ERANGE: return E_RANGE;
    case EROFS: return E_ROFS;
    case ESPIPE: return E_SPIPE;
    case ETXTBSY: return E_TXTBSY;
    case EXDEV: return E_XDEV;
    }
    return E_IO;
}
/*
 * Host errors that the implementation is known to translate one to one; the
 * others may also be reported as an unspecific I/O error.
 */
static inline bool err_matches(int got, int host)
{
    if (got == werrno(host))
        return true;
    switch (host) {
    case 0: case EACCES: case EAGAIN: case EBADF: case ECONNRESET: case EEXIST:
    case EINTR: case EINVAL: case EIO: case EISDIR: case ELOOP: case ENOENT:
    case ENOMEM: case ENOSPC: case ENOTDIR: case ENOTEMPTY: case ENOTSOCK:
    case EOPNOTSUPP: case EOVERFLOW: case EPERM: case EPIPE: case ERANGE:
    case ESPIPE:
        return false;
    }
    return got == E_IO;
}

enum { FT_UNKNOWN = 0, FT_BLOCK = 1, FT_CHAR = 2, FT_DIR = 3, FT_REG = 4,
       FT_DGRAM = 5, FT_STREAM = 6, FT_LINK = 7 };
enum { LOOKUP_FOLLOW = 1 };
enum { FST_ATIM = 1, FST_ATIM_NOW = 2, FST_MTIM = 4, FST_MTIM_NOW = 8 };
enum { FD_APPEND = 1, FD_DSYNC = 2, FD_NONBLOCK = 4, FD_RSYNC = 8, FD_SYNC = 16 };
enum { O_W_CREAT = 1, O_W_DIRECTORY = 2, O_W_EXCL = 4, O_W_TRUNC = 8 };
static const uint64_t R_READ = 2, R_WRITE = 64;

/* wrappers 0..NFN-1 are preview1, NFN..2*NFN-1 unstable, then exit_and_store */
static inline Module guest_module(Lim mem)
{
    Module m;
    for (int u = 0; u < 2; u++)
        for (int f = 0; f < NFN; f++) {
            FT t;
            for (const char *s = fn_sig[f]; *s; s++)
                t.p.push_back(*s == 'i' ? T_I32 : T_I64);
            if (f != proc_exit)
                t.r.push_back(T_I32);
            Import i;
            i.mod = u ? "wasi_unstable" : "wasi_snapshot_preview1";
            i.name = fn_name[f];
            i.kind = 0;
            i.typeidx = m.type(t);
            m.imports.push_back(i);
        }
    for (int u = 0; u < 2; u++)
        for (int f = 0; f < NFN; f++) {
            uint32_t idx = (uint32_t)(u * NFN + f);
            Bytes b;
            FT t = m.types[m.imports[idx].typeidx];
            for (uint32_t k = 0; k < t.p.size(); k++)
                lget(b, k);
            u8(b, 0x10), uleb(b, idx);
            m.func(t, b);
        }
    {
        Bytes b;
        lget(b, 0);
        u8(b, 0x10), uleb(b, proc_exit);
        i32c(b, 0), i32c(b, 0x600df00d);
        u8(b, 0x36), u8(b, 2), u8(b, 0);
        m.func({{T_I32}, {}}, b);
    }
    {
        Bytes b;
        lget(b, 0);
        u8(b, 0x40), u8(b, 0);
        m.func({{T_I32}, {T_I32}}, b);
    }
    m.mems.push_back(mem);
    m.exp("memory", 2, 0);
    return m;
}

struct Res {
    int rc = 0;   /* tw_call result */
    int trap = 0; /* TWT_ */
    int err = -1; /* WASI errno when rc is 0 */
    bool ok() const { return rc == 0 && err == 0; }
    std::string str() const
    {
        if (rc == 0)
            return mc::fmt("errno %d", err);
        if (rc == TW_TRAP)
            return mc::fmt("trap %s", tw_trap_name(trap));
        return mc::fmt("host error %d", rc);
    }
};

struct Guest {
    tw_env *env = nullptr;
    tw_mod *mod = nullptr;
    bool own_mod = false;
    tw_imports *im = nullptr;
    tw_inst *in = nullptr;
    wz *w = nullptr;
    uint32_t nimp = 2 * NFN;

    /* a module loaded once per process may be shared through its env */
    static tw_mod *load(tw_env *env, Lim mem)
    {
        Bytes b = guest_module(mem).encode();
        int err;
        char msg[200];
        tw_mod *m = tw_load(env, b.data(), b.size(), 0, &err, msg, sizeof(msg));
        if (!m) {
            fprintf(stderr, "guest module does not load: %d %s\n", err, msg);
            abort();
        }
        return m;
    }
    std::string start(tw_env *e, tw_mod *m)
    {
        int err;
        env = e;
        mod = m;
        w = wz_new(env, &err);
        if (!w)
            return mc::fmt("cannot create a wasi instance: %d", err);
        return "";
    }
    std::string link()
    {
        int err, trap;
        im = tw_imports_new(env);
        err = wz_imports(w, im);
        if (err)
            return mc::fmt("cannot create wasi imports: %d", err);
        in = tw_instantiate(mod, im, &err, &trap);
        if (!in)
            return mc::fmt("cannot instantiate: %d", err);
        wz_memory(w, in, 0);
        return "";
    }
    void stop_inst()
    {
        if (in)
            tw_inst_destroy(in);
        in = nullptr;
        if (im)
            tw_imports_free(im);
        im = nullptr;
    }
    void stop()
    {
        stop_inst();
        if (w)
            wz_free(w);
        w = nullptr;
    }
    ~Guest() { stop(); }

    Res call(int f, std::initializer_list<uint64_t> a, bool unstable = false, struct tw_exec *x = nullptr)
    {
        return callv(f, std::vector<uint64_t>(a), unstable, x);
    }
    Res callv(int f, const std::vector<uint64_t> &a, bool unstable = false, struct tw_exec *x = nullptr)
    {
        twv v[12], r[1];
        size_t n = 0;
        for (uint64_t k : a)
            v[n++] = {k, 0};
        if (n != strlen(fn_sig[f]))
            abort();
        Res s;
        r[0] = {0, 0};
        s.rc = tw_call(in, nimp + (uint32_t)(unstable ? NFN : 0) + (uint32_t)f, v, r, x, &s.trap);
        if (s.rc == 0)
            s.err = (int)r[0].lo;
        return s;
    }
    Res exit_and_store(uint32_t code)
    {
        twv v{code, 0}, r;
        Res s;
        s.rc = tw_call(in, nimp + 2 * NFN, &v, &r, nullptr, &s.trap);
        return s;
    }
    uint32_t grow(uint32_t d)
    {
        twv v{d, 0}, r{0, 0};
        int trap;
        tw_call(in, nimp + 2 * NFN + 1, &v, &r, nullptr, &trap);
        return (uint32_t)r.lo;
    }
    void put(uint32_t off, const void *p, size_t n)
    {
        if (tw_mem_write(in, 0, off, p, n) != 0)
            abort();
    }
    void put(uint32_t off, const std::string &s) { put(off, s.data(), s.size()); }
    void put32(uint32_t off, uint32_t v) { put(off, &v, 4); }
    void put64(uint32_t off, uint64_t v) { put(off, &v, 8); }
    void get(uint32_t off, void *p, size_t n)
    {
        if (tw_mem_read(in, 0, off, p, n) != 0)
            abort();
    }
    std::string gets(uint32_t off, size_t n)
    {
        std::string s(n, 0);
        get(off, &s[0], n);
        return s;
    }
    uint8_t get8(uint32_t off) { uint8_t v; get(off, &v, 1); return v; }
    uint16_t get16(uint32_t off) { uint16_t v; get(off, &v, 2); return v; }
    uint32_t get32(uint32_t off) { uint32_t v; get(off, &v, 4); return v; }
    uint64_t get64(uint32_t off) { uint64_t v; get(off, &v, 8); return v; }
    void fill(uint32_t off, uint8_t c, size_t n)
    {
        std::string s(n, (char)c);
        put(off, s);
    }
};

struct FileStat {
    uint64_t dev, ino, type, nlink, size, atim, mtim, ctim;
};
static inline FileStat get_filestat(Guest &g, uint32_t off, bool unstable = false)
{
    FileStat s;
    s.dev = g.get64(off);
    s.ino = g.get64(off + 8);
    s.type = g.get8(off + 16);
    if (unstable) {
        s.nlink = g.get32(off + 20);
        off -= 8;
    } else
        s.nlink = g.get64(off + 24);
    s.size = g.get64(off + 32);
    s.atim = g.get64(off + 40);
    s.mtim = g.get64(off + 48);
    s.ctim = g.get64(off + 56);
    return s;
}
} // namespace ws
#endif
