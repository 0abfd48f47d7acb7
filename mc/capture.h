// Everything the library prints (to stdout or to its log file) is collected here, line by line.
// Not instrumented: printing is thread safe. The whole of stdio's formatted and unformatted output is
// covered, so that how a message is printed makes no difference. Link with kCaptureLink of checks.py.
#pragma once
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MCE __attribute__((section("mcengine")))
#define RAW __attribute__((no_sanitize("thread"), noinline))
struct Line {
    bool file;
    char text[240];
};
static Line lines[1024] MCE;
static int nlines MCE;
static bool capture MCE;
static const int kLine = 1 << 19; // longest line kept whole
static char partial[2][kLine] MCE;
static int last_len[2] MCE; // of the last line, which is still in partial[]
static int npartial[2] MCE;

RAW static void put_bytes(bool file, const char* s, size_t n) {
    for(size_t i = 0; i < n; i++) {
        int& k = npartial[file];
        if(s[i] == '\n') {
            if(nlines < 1024) {
                lines[nlines].file = file;
                size_t len = (size_t)k < sizeof lines[0].text - 1 ? (size_t)k : sizeof lines[0].text - 1;
                memcpy(lines[nlines].text, partial[file], len);
                lines[nlines].text[len] = 0;
                nlines++;
            }
            last_len[file] = k;
            k = 0;
        } else if(k < kLine) partial[file][k++] = s[i];
    }
}
RAW static void put(bool file, const char* f, va_list ap) {
    static char b[kLine] MCE; // the engine runs one thread at a time, and this is not instrumented
    int n = vsnprintf(b, sizeof b, f, ap);
    put_bytes(file, b, n < 0 ? 0 : (size_t)n < sizeof b ? (size_t)n : sizeof b - 1);
}
extern "C" {
int __real_vfprintf(FILE*, const char*, va_list);
RAW int __wrap_vfprintf(FILE* o, const char* f, va_list ap) {
    if(capture && o != stderr) return put(o != stdout, f, ap), 1;
    return __real_vfprintf(o, f, ap);
}
RAW int __wrap_vprintf(const char* f, va_list ap) {
    return __wrap_vfprintf(stdout, f, ap);
}
RAW int __wrap_printf(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = __wrap_vfprintf(stdout, f, ap);
    va_end(ap);
    return r;
}
RAW int __wrap_fprintf(FILE* o, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = __wrap_vfprintf(o, f, ap);
    va_end(ap);
    return r;
}
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
RAW size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* o) {
    if(!capture || o == stderr) return __real_fwrite(p, s, n, o);
    put_bytes(o != stdout, (const char*)p, s * n);
    return n;
}
int __real_fputs(const char*, FILE*);
RAW int __wrap_fputs(const char* s, FILE* o) {
    if(!capture || o == stderr) return __real_fputs(s, o);
    put_bytes(o != stdout, s, strlen(s));
    return 1;
}
int __real_puts(const char*);
RAW int __wrap_puts(const char* s) {
    if(!capture) return __real_puts(s);
    put_bytes(false, s, strlen(s));
    put_bytes(false, "\n", 1);
    return 1;
}
int __real_fputc(int, FILE*);
RAW int __wrap_fputc(int ch, FILE* o) {
    if(!capture || o == stderr) return __real_fputc(ch, o);
    char b = (char)ch;
    put_bytes(o != stdout, &b, 1);
    return ch;
}
RAW int __wrap_putc(int ch, FILE* o) {
    return __wrap_fputc(ch, o);
}
RAW int __wrap_putchar(int ch) {
    return __wrap_fputc(ch, stdout);
}
int __real_fflush(FILE*);
RAW int __wrap_fflush(FILE* f) {
    return capture ? 0 : __real_fflush(f);
}
}
RAW static void start() {
    nlines = npartial[0] = npartial[1] = last_len[0] = last_len[1] = 0;
    capture = true;
}
RAW static int count_lines(const char* what, bool file) {
    int n = 0;
    for(int i = 0; i < nlines; i++) n += lines[i].file == file && strstr(lines[i].text, what);
    return n;
}
RAW static int line_of(const char* what, bool file, int from = 0) {
    for(int i = from; i < nlines; i++)
        if(lines[i].file == file && strstr(lines[i].text, what)) return i;
    return -1;
}
RAW static bool has(int i, const char* s) {
    return i >= 0 && strstr(lines[i].text, s);
}
