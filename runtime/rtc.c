/* libc for symbolic execution (C, freestanding) */
#include <stddef.h>
#include <limits.h>
typedef struct { int quot, rem; } div_t; typedef struct { long quot, rem; } ldiv_t; typedef struct { long long quot, rem; } lldiv_t;
extern int* __errno_location(void); extern void* malloc(size_t); extern void free(void*); extern void* memcpy(void*, const void*, size_t); extern void* jsym_zalloc(size_t, size_t);
#define errno (*__errno_location())
#define ERANGE 34
#define nullptr 0
#define bool int
#define true 1
#define false 0

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b || !*a) return (int)(unsigned char)*a - (int)(unsigned char)*b; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (strncmp(h, n, l) == 0) return (char*)h; if (!*h) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strdup(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = n; i-- > 0;) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isdigit(int c) { return c >= '0' && c <= '9'; } int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } int isalnum(int c) { return isdigit(c) || isalpha(c); } int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; } int toupper(int c) { return islower(c) ? c - 32 : c; } int tolower(int c) { return isupper(c) ? c + 32 : c; } int isprint(int c) { return c >= 32 && c < 127; } int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; } int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); } int isgraph(int c) { return c > 32 && c < 127; } int isblank(int c) { return c == ' ' || c == '\t'; }
static unsigned long long sto(const char* s, char** e, int base, int* neg, int* ovf) { const char* p = s; while (isspace((unsigned char)*p)) p++; *neg = 0; *ovf = 0; if (*p == '-' || *p == '+') { *neg = *p == '-'; p++; } if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10; unsigned long long v = 0; bool any = false; for (;; p++) { int d; unsigned char c = (unsigned char)*p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = true; unsigned long long nv; if (__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)d, &nv)) *ovf = 1; else v = nv; } if (e) *e = (char*)(any ? p : s); return v; }
long strtol(const char* s, char** e, int b) { bool n, o; unsigned long long v = sto(s, e, b, &n, &o); if (o || v > (unsigned long long)LONG_MAX + (n ? 1 : 0)) { errno = ERANGE; return n ? LONG_MIN : LONG_MAX; } return n ? (long)(0 - v) : (long)v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { bool n, o; unsigned long long v = sto(s, e, b, &n, &o); if (o) { errno = ERANGE; return ULONG_MAX; } return n ? 0 - v : v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); } long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); } unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); } long atol(const char* s) { return strtol(s, nullptr, 10); }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
ldiv_t ldiv(long a, long b) { ldiv_t r = {a / b, a % b}; return r; } div_t div(int a, int b) { div_t r = {a / b, a % b}; return r; } lldiv_t lldiv(long long a, long long b) { lldiv_t r = {a / b, a % b}; return r; }
__attribute__((weak)) int numa_node_of_cpu(int a) { return 0; } __attribute__((weak)) int sched_getcpu(void) { return 0; } int numa_max_node(void) { return 0; } int getpid(void) { return 1; } long sysconf(int a) { return 8; }
void* mmap(void* a, size_t n, int p, int f, int d, long o) { return jsym_zalloc(n, n >= (1 << 21) ? (size_t)1 << 21 : 4096); }
void* mmap64(void* a, size_t n, int p, int f, int d, long o) { return mmap(a, n, p, f, d, o); }
int munmap(void* p, size_t n) { free(p); return 0; }
#include <locale.h>
struct lconv* localeconv(void) { static struct lconv lc; lc.decimal_point = "."; lc.thousands_sep = ""; lc.grouping = ""; return &lc; }
