// Stand-ins for the shell commands and fixed temporary paths of the prepare
// tool: everything under /tmp that is not the check's own goes to the scratch
// directory named by VF_STANDIN, and commands are only recorded.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/stat.h>

static std::string base() { const char* b = getenv("VF_STANDIN"); return b ? b : "."; }
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" FILE* __wrap_fopen(const char* path, const char* mode) {
    std::string b = base(), own = b.substr(0, b.rfind('/') + 1), p = path;
    if (p.compare(0, 5, "/tmp/") == 0 && p.compare(0, own.size(), own) != 0) {
        for (char& c : p) if (c == '/') c = '_';
        p = b + "/" + p;
    }
    return __real_fopen(p.c_str(), mode);
}
extern "C" int __wrap_system(const char* cmd) {
    if (FILE* f = __real_fopen((base() + "/commands").c_str(), "a")) { fprintf(f, "%s\n", cmd); fclose(f); }
    return 0;
}
extern "C" char* __wrap_mkdtemp(char* name) {
    static unsigned n = 0;
    char x[16];
    snprintf(x, sizeof x, "%06u", n++ % 1000000);
    memcpy(name + strlen(name) - 6, x, 6);
    return name;
}
