/* helpers shared by the harness programs: case protocol, JSON output, one process per case */
#ifndef VERIF_UTIL_H
#define VERIF_UTIL_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>

static FILE* vout;              /* results; the code under test prints to /dev/null */
static char vtmp[256];          /* scratch directory of this process */

static void v_unesc(char* s)
{
    char* d = s;
    for (; *s; ) {
        if (*s == '\\' && s[1]) { s++; *d++ = *s == 'n' ? '\n' : *s == 't' ? '\t' : *s == 'r' ? '\r' : *s; s++; }
        else *d++ = *s++;
    }
    *d = 0;
}

static void v_str(const char* s)
{
    if (!s) { fputs("null", vout); return; }
    fputc('"', vout);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') { fputc('\\', vout); fputc(c, vout); }
        else if (c < 32 || c > 126) fprintf(vout, "\\u%04x", c);
        else fputc(c, vout);
    }
    fputc('"', vout);
}

static char* v_file(const char* name, const char* text)
{
    static char path[8][320]; static int k = 0;
    char* p = path[k++ % 8];
    snprintf(p, 320, "%s/%s", vtmp, name);
    FILE* f = fopen(p, "wb");
    if (!f) { _exit(99); }
    fwrite(text, 1, strlen(text), f);
    fclose(f);
    return p;
}

/* splits a line at tabs */
static int v_split(char* line, char** field, int max)
{
    int n = 0;
    char* p = line;
    while (n < max) {
        field[n++] = p;
        p = strchr(p, '\t');
        if (!p) break;
        *p++ = 0;
    }
    return n;
}

/* a case is a list of lines that ends with an empty line; the first line is "id seconds" */
typedef struct { char** line; int n, cap; } VCase;
static int v_read_case(FILE* in, VCase* c)
{
    char* line = NULL; size_t cap = 0; ssize_t len;
    for (int i = 0; i < c->n; i++) free(c->line[i]);
    c->n = 0;
    while ((len = getline(&line, &cap, in)) > 0) {
        if (line[len - 1] == '\n') line[--len] = 0;
        if (len == 0) { if (c->n) break; else continue; }
        if (c->n == c->cap) { c->cap = c->cap ? 2 * c->cap : 64; c->line = (char**)realloc(c->line, c->cap * sizeof(char*)); }
        c->line[c->n++] = strdup(line);
    }
    free(line);
    return c->n > 0;
}

/* Runs every case in a process of its own.  A case writes {"id":..,"ev":[...  itself; the
   parent closes the record with the way the process ended. */
static int v_main(int argc, char** argv, void (*run)(VCase*))
{
    snprintf(vtmp, sizeof vtmp, "%s", argc > 1 ? argv[1] : ".");
    mkdir(vtmp, 0700);
    vout = fdopen(dup(1), "w");
    int null = open("/dev/null", O_RDWR);
    FILE* in = fdopen(dup(0), "r");
    dup2(null, 0); dup2(null, 1);
    if (!getenv("VERIF_STDERR")) dup2(null, 2);
    VCase c; memset(&c, 0, sizeof c);
    int bad = 0;
    while (bad < 6 && v_read_case(in, &c)) {
        int id = 0, sec = 20;
        sscanf(c.line[0], "%d %d", &id, &sec);
        fprintf(vout, "{\"id\":%d,\"ev\":[", id); fflush(vout);
        pid_t p = fork();
        if (p == 0) {
            alarm(sec);
            run(&c);
            fflush(vout);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        const char* end = "ok";
        if (WIFSIGNALED(st)) end = WTERMSIG(st) == SIGALRM ? "hang" : "crash";
        else if (WEXITSTATUS(st)) end = WEXITSTATUS(st) == 1 ? "exit" : "crash";
        if (strcmp(end, "ok")) bad++;
        /* the last event is one that says how the case ended */
        fprintf(vout, "\n{\"e\":\"end\",\"st\":\"%s\"}]}\n", end); fflush(vout);
    }
    return 0;
}
#endif
