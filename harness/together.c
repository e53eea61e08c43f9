// Preloaded into programs that run at the same time, or read from a device that
// fails: accesses to files under
// /tmp that are not the check's own go to the scratch directory VF_STANDIN,
// shell commands are recorded and their removals done in there only, and every
// file is opened and closed after a random delay. VF_BAD=kind:place:file makes
// reading from that file fail from there on (e), seeking in it fail (s), or
// opening it for reading fail the place-th time (o).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = (type (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

static void pause_a_while(void) {
    static unsigned long s;
    const char* e = getenv("VF_DELAY");
    if (!e) return;
    if (!s) s = strtoul(e, 0, 10) * 2654435761u + getpid() * 40503u + 1;
    s = s * 6364136223846793005ul + 1442695040888963407ul;
    unsigned k = (unsigned) (s >> 40) % 8;
    if (k >= 3) {
        struct timespec t = {0, (long) (1 << (k - 3)) * 1000000};      // 1 to 16 ms
        nanosleep(&t, 0);
    }
}

static const char* redirect(const char* path, char* out, size_t n) {
    const char* b = getenv("VF_STANDIN");
    if (!b || !path || strncmp(path, "/tmp", 4) || (path[4] && path[4] != '/')) return path;
    // the check's own directory is the first one below /tmp
    const char* own = getenv("VF_OWN");
    size_t k = own ? strlen(own) : 0;
    if (k && !strncmp(path, own, k)) return path;
    snprintf(out, n, "%s/", b);
    size_t at = strlen(out);
    for (; *path && at + 1 < n; path++) {
        if (*path == '/' && path[1] == '/') continue;
        out[at++] = *path == '/' ? '_' : *path;
    }
    while (at && out[at - 1] == '_') at--;
    out[at] = 0;
    return out;
}

static void note(const char* what, const char* s) {
    const char* b = getenv("VF_STANDIN");
    char p[8192];
    if (!b) return;
    snprintf(p, sizeof p, "%s/commands", b);
    int f = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (f < 0) return;
    int k = snprintf(p, sizeof p, "%s %s\n", what, s);
    if (write(f, p, k > (int) sizeof p ? (int) sizeof p : k) < 0) { }
    close(f);
}

struct bad { int fd; size_t at; };
static char bad_kind; static size_t bad_at;
static void fired(void) {
    const char* e = getenv("VF_FIRED");
    if (!e) return;
    int f = open(e, O_WRONLY | O_CREAT, 0600);
    if (f >= 0) close(f);
}
static ssize_t bad_read(void* c, char* b, size_t n) {
    struct bad* d = c;
    if (bad_kind == 'e') {
        if (d->at >= bad_at && n) { fired(); errno = EIO; return -1; }
        if (n > bad_at - d->at) n = bad_at - d->at;
    }
    ssize_t k = pread(d->fd, b, n, (off_t) d->at);
    if (k > 0) d->at += k;
    return k;
}
static int bad_seek(void* c, off64_t* o, int whence) {
    struct bad* d = c;
    if (bad_kind == 's') { fired(); errno = ESPIPE; return -1; }
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t) d->at : lseek(d->fd, 0, SEEK_END);
    if (base + *o < 0) { errno = EINVAL; return -1; }
    d->at = (size_t) (*o += base);
    return 0;
}
static int bad_close(void* c) { struct bad* d = c; close(d->fd); free(d); return 0; }
// 1: the stream or the failure is in *f
static int bad_open(const char* path, const char* mode, FILE** f) {
    static size_t opened;
    const char* e = getenv("VF_BAD");
    if (!e || mode[0] != 'r' || !path) return 0;
    bad_kind = e[0];
    char* rest;
    bad_at = strtoul(e + 2, &rest, 10);
    if (strcmp(rest + 1, path)) return 0;
    if (bad_kind == 'o') {
        if (opened++ != bad_at) return 0;
        fired(); errno = EMFILE; *f = NULL;
        return 1;
    }
    int fd = open(path, O_RDONLY);
    if (fd < 0) return 0;
    struct bad* d = malloc(sizeof *d);
    d->fd = fd; d->at = 0;
    cookie_io_functions_t io = {bad_read, NULL, bad_seek, bad_close};
    *f = fopencookie(d, mode, io);
    return 1;
}

FILE* fopen(const char* path, const char* mode) {
    REAL(FILE*, "fopen", const char*, const char*);
    char b[8192];
    FILE* f;
    if (bad_open(path, mode, &f)) return f;
    pause_a_while();
    return real(redirect(path, b, sizeof b), mode);
}
FILE* fopen64(const char* path, const char* mode) {
    REAL(FILE*, "fopen64", const char*, const char*);
    char b[8192];
    pause_a_while();
    return real(redirect(path, b, sizeof b), mode);
}
int fclose(FILE* f) {
    REAL(int, "fclose", FILE*);
    int r = real(f);
    pause_a_while();
    return r;
}
int mkdir(const char* path, mode_t m) { REAL(int, "mkdir", const char*, mode_t); char b[8192]; return real(redirect(path, b, sizeof b), m); }
int rmdir(const char* path) { REAL(int, "rmdir", const char*); char b[8192]; return real(redirect(path, b, sizeof b)); }
int unlink(const char* path) { REAL(int, "unlink", const char*); char b[8192]; return real(redirect(path, b, sizeof b)); }
int remove(const char* path) { REAL(int, "remove", const char*); char b[8192]; return real(redirect(path, b, sizeof b)); }
int rename(const char* x, const char* y) { REAL(int, "rename", const char*, const char*); char b[8192], c[8192]; return real(redirect(x, b, sizeof b), redirect(y, c, sizeof c)); }
char* mkdtemp(char* t) {
    REAL(char*, "mkdtemp", char*);
    char b[8192];
    const char* p = redirect(t, b, sizeof b);
    if (p == t) return real(t);
    if (!real(b)) return 0;
    memcpy(t + strlen(t) - 6, b + strlen(b) - 6, 6);
    return t;
}
int mkstemp(char* t) {
    REAL(int, "mkstemp", char*);
    char b[8192];
    const char* p = redirect(t, b, sizeof b);
    if (p == t) return real(t);
    int f = real(b);
    if (f >= 0) memcpy(t + strlen(t) - 6, b + strlen(b) - 6, 6);
    return f;
}

// What the commands remove is removed from the scratch directory, by name
static void removed(const char* path) {
    char b[8192];
    const char* base = getenv("VF_STANDIN");
    const char* p = redirect(path, b, sizeof b);
    if (p == path || !base || strlen(b) <= strlen(base) + 5) return;
    const char* name = b + strlen(base) + 1;
    size_t k = strlen(name);
    DIR* d = opendir(base);
    if (!d) return;
    struct dirent* e;
    REAL(int, "unlink", const char*);
    while ((e = readdir(d)))
        if (!strncmp(e->d_name, name, k) && (!e->d_name[k] || e->d_name[k] == '_')) {
            char full[8192];
            snprintf(full, sizeof full, "%s/%s", base, e->d_name);
            if (real(full)) {
                static int (*rd)(const char*);
                if (!rd) rd = (int (*)(const char*)) dlsym(RTLD_NEXT, "rmdir");
                rd(full);
            }
        }
    closedir(d);
}
int system(const char* cmd) {
    if (!cmd) return 1;
    note("system", cmd);
    pause_a_while();
    if (strncmp(cmd, "rm ", 3) == 0) {
        char* c = strdup(cmd + 3);
        for (char* t = strtok(c, " \t\n;&|"); t; t = strtok(0, " \t\n;&|"))
            if (*t == '/') removed(t);
        free(c);
    }
    pause_a_while();
    return 0;
}
