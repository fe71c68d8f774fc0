/* libc subset for symbolic execution; freestanding so that no header gets in the way */
#define nullptr ((void*)0)
#define bool _Bool
#define false 0
#define true 1
#define ERANGE 34
typedef unsigned long size_t; typedef long time_t;
struct timeval { long tv_sec, tv_usec; };
struct tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; long tm_gmtoff; const char* tm_zone; };
void* malloc(size_t); void* memcpy(void*, const void*, size_t); int memcmp(const void*, const void*, size_t); size_t strlen(const char*);
int isspace(int); int isdigit(int); int isxdigit(int); int tolower(int); int toupper(int);
char __libc_single_threaded = 1;
static int vs_errno; int* __errno_location(void) { return &vs_errno; }
size_t __rt_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) { a++; b++; } return lc((unsigned char)*a) - lc((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while (n && *a && lc((unsigned char)*a) == lc((unsigned char)*b)) { a++; b++; n--; } return n ? lc((unsigned char)*a) - lc((unsigned char)*b) : 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return nullptr; } }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* b = (const unsigned char*)p; while (n--) if (b[n] == (unsigned char)c) return (void*)(b + n); return nullptr; }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { if (nn > hn) return nullptr; const char* b = (const char*)h; for (size_t i = 0; i + nn <= hn; i++) if (!memcmp(b + i, n, nn)) return (void*)(b + i); return nullptr; }

int isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isblank(int c) { return c == 32 || c == 9; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int lowTab[384], upTab[384]; static const int *lowP, *upP;
const int** __ctype_tolower_loc(void) { if (!lowP) { for (int i = -128; i < 256; i++) lowTab[i + 128] = tolower(i); lowP = lowTab + 128; } return &lowP; }
const int** __ctype_toupper_loc(void) { if (!upP) { for (int i = -128; i < 256; i++) upTab[i + 128] = toupper(i); upP = upTab + 128; } return &upP; }

unsigned long long strtoull(const char* s, char** e, int base) {
	const char* p = s; while (isspace((unsigned char)*p)) p++;
	bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
	if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long long v = 0; bool any = false, ov = false;
	for (;; p++) { int d; if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10; else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10; else break; if (d >= base) break; any = true; if (v > (~0ull - d) / base) ov = true; else v = v * base + d; }
	if (e) *e = (char*)(any ? p : s);
	if (ov) { vs_errno = ERANGE; return ~0ull; }
	return neg ? 0 - v : v;
}
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
long long strtoll(const char* s, char** e, int base) {
	const char* p = s; while (isspace((unsigned char)*p)) p++;
	bool neg = false; const char* q = p; if (*q == '+' || *q == '-') neg = *q++ == '-';
	int old = vs_errno; vs_errno = 0; unsigned long long v = strtoull(p, e, base); bool ov = vs_errno == ERANGE; if (!ov) vs_errno = old;
	if (e && *e == p) *e = (char*)s;
	unsigned long long mag = neg ? 0 - v : v;
	if (ov || (!neg && mag > 0x7fffffffffffffffull) || (neg && mag > 0x8000000000000000ull)) { vs_errno = ERANGE; return neg ? (long long)0x8000000000000000ull : 0x7fffffffffffffffll; }
	return (long long)v;
}
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
int abs(int x) { return x < 0 ? -x : x; }
double strtod(const char* s, char** e) { double v = 0; const char* p = s; bool n = false; if (*p == '-') { n = true; p++; } while (isdigit((unsigned char)*p)) v = v * 10 + (*p++ - '0'); if (*p == '.') { p++; double f = 0.1; while (isdigit((unsigned char)*p)) { v += f * (*p++ - '0'); f /= 10; } } if (e) *e = (char*)p; return n ? -v : v; }

// environment: fixed unless a harness supplies its own
__attribute__((weak)) time_t time(time_t* t) { if (t) *t = 1000000000; return 1000000000; }
__attribute__((weak)) int gettimeofday(struct timeval* tv, void* z) { tv->tv_sec = 1000000000; tv->tv_usec = 1234; return 0; }
__attribute__((weak)) int getpid(void) { return 4242; }
__attribute__((weak)) long syscall(long n, ...) { return 4243; }
__attribute__((weak)) int gettid(void) { return 4243; }
__attribute__((weak)) int gethostname(char* b, size_t n) { strncpy(b, "host", n); return 0; }
static unsigned rstate = 1; void srand(unsigned s) { rstate = s; } __attribute__((weak)) int rand(void) { rstate = rstate * 1103515245u + 12345u; return (rstate >> 1) & 0x7fffffff; }
__attribute__((weak)) char* getenv(const char* n) { return nullptr; }
__attribute__((weak)) char* setlocale(int c, const char* l) { return (char*)"C"; }
__attribute__((weak)) char* nl_langinfo(int i) { return (char*)"UTF-8"; }
static void civil(long days, int* py, int* pm, int* pd) { int y, m, d; long z = days + 719468; long era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = (int)((long)yoe + era * 400); unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; if (m <= 2) y++; *py = y; *pm = m; *pd = d; }
static long daysOf(long y, int m, int d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long)doe - 719468; }
struct tm* gmtime_r(const time_t* t, struct tm* r) { long s = *t, days = s / 86400, rem = s % 86400; if (rem < 0) { rem += 86400; days--; } int y, m, d; civil(days, &y, &m, &d); r->tm_year = y - 1900; r->tm_mon = m - 1; r->tm_mday = d; r->tm_hour = rem / 3600; r->tm_min = rem / 60 % 60; r->tm_sec = rem % 60; r->tm_wday = (int)(((days + 4) % 7 + 7) % 7); r->tm_yday = (int)(days - daysOf(y, 1, 1)); r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "GMT"; return r; }
struct tm* localtime_r(const time_t* t, struct tm* r) { return gmtime_r(t, r); }
struct tm* gmtime(const time_t* t) { static struct tm r; return gmtime_r(t, &r); }
struct tm* localtime(const time_t* t) { static struct tm r; return gmtime_r(t, &r); }
time_t mktime(struct tm* t) { return daysOf(t->tm_year + 1900L, t->tm_mon + 1, t->tm_mday) * 86400 + t->tm_hour * 3600L + t->tm_min * 60 + t->tm_sec; }
time_t timegm(struct tm* t) { return mktime(t); }
int pthread_mutex_init(void* m, const void* a) { return 0; } int pthread_mutex_destroy(void* m) { return 0; } int pthread_mutex_lock(void* m) { return 0; } int pthread_mutex_unlock(void* m) { return 0; } int pthread_mutex_trylock(void* m) { return 0; }
int pthread_once(int* o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
unsigned long pthread_self(void) { return 1; }
int __xpg_strerror_r(int e, char* b, size_t n) { if (n) b[0] = 0; return 0; }
