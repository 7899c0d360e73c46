/* Fixed driver of the linked-program checks: walks the tables of the emitted objects and
   reports addresses, memory and the results of calling every function. It judges nothing. */
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
extern unsigned char fm_root[];
extern const char __ehdr_start[] __attribute__((weak));
static void put(const void *p, uint64_t n) {
    const char *c = p;
    while (n) {
        ssize_t k = write(1, c, n);
        if (k <= 0) _exit(90);
        c += k; n -= k;
    }
}
static void num(uint64_t v) { put(&v, 8); }
static void maps(void) {
    static char b[1 << 18];
    uint64_t n = 0; ssize_t k;
    int f = open("/proc/self/maps", O_RDONLY);
    if (f < 0) _exit(91);
    while ((k = read(f, b + n, sizeof b - n)) > 0) n += k;
    close(f);
    num(n); put(b, n);
}
int main(int argc, char **argv) {
    if (argc < 2) return 92;
    int f = open(argv[1], O_RDONLY);
    struct stat s;
    if (f < 0 || fstat(f, &s)) return 93;
    uint64_t *q = malloc(s.st_size + 8), *p = q;
    if (read(f, q, s.st_size) != s.st_size) return 94;
    close(f);
    num(0x464d4f4e);
    maps();
    num((uint64_t)__ehdr_start);
    num((uint64_t)fm_root);
    num((uint64_t)&p);
    void ***root = (void ***)fm_root;
    uint64_t nu = *p++, *tab = p;
    for (uint64_t u = 0; u < nu; u++) {
        uint64_t n = *p++;
        void **t = root[u];
        num((uint64_t)t);
        for (uint64_t k = 0; k < n; k++, p++) { num((uint64_t)t[k]); put(t[k], *p); }
    }
    uint64_t np = *p++;
    num(0x50524f42);
    for (uint64_t i = 0; i < np; i++, p += 2) {
        uint64_t (*fn)(void) = (uint64_t (*)(void))root[p[0]][p[1]];
        num(fn());
    }
    num(0x41465452);
    for (uint64_t u = 0; u < nu; u++) {
        uint64_t n = *tab++;
        void **t = root[u];
        for (uint64_t k = 0; k < n; k++, tab++) { num((uint64_t)t[k]); put(t[k], *tab); }
    }
    num(0x454e44);
    return 0;
}
