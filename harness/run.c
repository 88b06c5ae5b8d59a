/* Runs histories of API calls: processors, serial, parallel and constrained runs, contexts
   that are fed piece by piece.  One line per call, one event per call. */
#include "verif_util.h"
#include <pthread.h>
int jpstream_verif_memory_footprint = 250000000;
#include "path_processor.h"
#ifdef VERIF_SCHED
#include "verif_sched.h"
#endif

static void put_output(Output* o)
{
    int i, n = o ? getOutputSize(o) : 0;
    fputs("\"out\":[", vout);
    for (i = 0; i < n; i++) { if (i) fputc(',', vout); v_str(getOutputElement(o, i)); }
    fputs("]", vout);
}
static void begin(const char* e, int a) { fprintf(vout, "{\"e\":\"%s\",\"h\":%d,", e, a); }
static void end(void) { fputs("},\n", vout); fflush(vout); }

#ifdef VERIF_STAGES
#include "jsonpath_parser.h"
/* the stages of a run, called one by one as the documentation shows */
static void put_stages(const char* e, int h, TupleList* tl, JSONQueryDFAContext* ctx)
{
    int i, n = getTupleListSize(tl);
    begin(e, h);
    fputs("\"tuples\":[", vout);
    for (i = 0; i < n; i++) { Tuple t = getTuple(tl, i); if (i) fputc(',', vout); v_str(t.text); }
    fputs("],", vout);
    PredicateFilter pf;
    initPredicateFilter(&pf, tl, ctx);
    put_output(generateFinalOutput(&pf));
    destroyPredicateFilter(&pf);
    end();
}
/* text cut at the positions of a list "3,8,..." */
static PartitionInfo cut(const char* text, const char* at)
{
    PartitionInfo p;
    int n = 1, last = 0, len = strlen(text);
    for (const char* c = at; *c; c++) n += *c == ',';
    p.stream = (char**)malloc((n + 1) * sizeof(char*));
    p.num_chunk = 0;
    while (1) {
        int next = *at ? (int)strtol(at, (char**)&at, 10) : len;
        if (*at == ',') at++;
        char* s = (char*)malloc(next - last + 1);
        memcpy(s, text + last, next - last); s[next - last] = 0;
        p.stream[p.num_chunk++] = s;
        last = next;
        if (next == len) break;
    }
    return p;
}
static void put_parallel(const char* e, int h, PathProcessor* pp, PartitionInfo pi, ConstraintTable* ct)
{
    ParallelAutomata pa;
    initParallelAutomata(&pa, pp->query_automaton);
    executeParallelAutomata(&pa, pi, ct);
    freeInputChunks(pi);
    put_stages(e, h, pa.tuple_list, pp->query_context);
}
#endif

#define NH 64
static PathProcessor* proc[NH];
static ConstraintTable* table[NH];
static StreamingContext ctx[NH];

static void run(VCase* c)
{
    char* f[8];
    for (int i = 1; i < c->n; i++) {
        int n = v_split(c->line[i], f, 8);
        char op = f[0][0];
        int h = n > 1 ? atoi(f[1]) : 0, a = n > 2 ? atoi(f[2]) : 0;
        char* text = n > 2 ? f[n - 1] : NULL;
        switch (op) {
        case 'M': jpstream_verif_memory_footprint = h; begin("bound", 0); fputs("\"ok\":true", vout); end(); break;
        case 'P': v_unesc(text); proc[h] = createPathProcessor(text);
                  begin("create", h); fprintf(vout, "\"ok\":%s", proc[h] ? "true" : "false"); end(); break;
        case 'F': freePathProcessor(proc[h]); proc[h] = NULL; begin("free", h); fputs("\"ok\":true", vout); end(); break;
        case 's': { v_unesc(text); char* p = v_file("in", text); Output* o = serialRun(proc[h], p);
                  begin("serial", h); put_output(o); end(); break; }
        case 'p': { v_unesc(text); char* p = v_file("in", text); Output* o = parallelRun(proc[h], p, a);
                  begin("parallel", h); put_output(o); end(); break; }
        case 'T': { v_unesc(text); char* p = v_file("tr", text); table[a] = collectDataConstraints(proc[h], p);
                  begin("learn", h); fputs("\"ok\":true", vout); end(); break; }
        case 'o': { v_unesc(text); char* p = v_file("in", text); Output* o = parallelRunOpt(proc[h], p, a, table[atoi(f[3])]);
                  begin("opt", h); put_output(o); end(); break; }
#ifdef VERIF_STAGES
        /* B handle query, z handle table text, x handle table cuts text, f handle table cores text; table -1: none */
        case 'B': v_unesc(text); proc[h] = (PathProcessor*)calloc(1, sizeof(PathProcessor));
                  proc[h]->query_context = (JSONQueryDFAContext*)malloc(sizeof(JSONQueryDFAContext));
                  proc[h]->query_automaton = buildJSONQueryDFAFromAST(analysisJSONPath(text), proc[h]->query_context);
                  begin("create", h); fprintf(vout, "\"ok\":%s", proc[h]->query_automaton ? "true" : "false"); end(); break;
        case 'z': { v_unesc(text); char* p = v_file("in", text); char* d = loadInputStream(p);
                  StreamingAutomaton sa; initStreamingAutomaton(&sa, proc[h]->query_automaton);
                  executeAutomaton(&sa, d, CLOSE);
                  put_stages("serial", h, sa.tuple_list, proc[h]->query_context);
                  if (a >= 0) {
                      /* as the documentation shows: the automaton goes on, and learns */
                      executeAutomaton(&sa, d, OPEN); table[a] = sa.constraint_table;
                      put_stages("again", h, sa.tuple_list, proc[h]->query_context);
                  }
                  free(d); break; }
        case 'x': { v_unesc(text); PartitionInfo pi = cut(text, f[3]);
                  put_parallel(a < 0 ? "parallel" : "opt", h, proc[h], pi, a < 0 ? NULL : table[a]); break; }
        case 'f': { v_unesc(text); char* p = v_file("in", text);
                  put_parallel(a < 0 ? "parallel" : "opt", h, proc[h], partitionFile(p, atoi(f[3])), a < 0 ? NULL : table[a]); break; }
#endif
        case 'I': initStreamingContext(&ctx[h]); begin("open", h); fputs("\"ok\":true", vout); end(); break;
        case 'a': { v_unesc(text); Output* o = serialPartialRun(proc[a], text, &ctx[h]);
                  begin("feed", h); put_output(o); end(); break; }
        case 'b': { v_unesc(text); Output* o = parallelPartialRun(proc[a], text, atoi(f[3]), &ctx[h]);
                  begin("feed", h); put_output(o); end(); break; }
        case 'c': { v_unesc(text); Output* o = parallelPartialRunOpt(proc[a], text, atoi(f[3]), table[atoi(f[4])], &ctx[h]);
                  begin("feed", h); put_output(o); end(); break; }
        case 'D': destroyStreamingContext(&ctx[h]); begin("close", h); fputs("\"ok\":true", vout); end(); break;
#ifdef VERIF_SCHED
        case 'W': sched_setup(f[1]); begin("sched", 0); fputs("\"ok\":true", vout); end(); break;
        case 'w': begin("trace", 0); sched_report(vout); end(); break;
#endif
        }
    }
}
int main(int argc, char** argv) { return v_main(argc, argv, run); }
