/* Query automata and learned constraints.
   "Q text"     compile
   "W labels"   walk: labels separated by tabs, "[" is an array, "k..." the name ...
   "T doc"      learn from a document, then "U [" or "U kname": look up */
#include "verif_util.h"
int jpstream_verif_memory_footprint = 250000000;
#include "path_processor.h"
static PathProcessor* pp;
static ConstraintTable* ct;
static void run(VCase* c)
{
    char* f[128];
    for (int i = 1; i < c->n; i++) {
        int n = v_split(c->line[i], f, 128);
        for (int j = 1; j < n; j++) v_unesc(f[j]);
        switch (f[0][0]) {
        case 'Q': pp = createPathProcessor(f[1]); fprintf(vout, "{\"e\":\"create\",\"ok\":%s},\n", pp ? "true" : "false"); break;
        case 'W': {
            JSONQueryDFA* a = pp->query_automaton; JSONQueryDFAContext* x = pp->query_context;
            int path[130], s = 1, d = 0;
            path[d++] = s;
            for (int j = 1; j < n; j++) {
                if (s) s = dfaNextStateByStr(a, s, f[j][0] == '[' ? DFA_ARRAY : f[j] + 1);
                path[d++] = s;
            }
            int t = getDFAAcceptType(a, s);
            JSONQueryIndexPair p = getDFAArrayIndex(a, s);
            fprintf(vout, "{\"e\":\"walk\",\"state\":%d,\"output\":%s,\"filter\":%s,\"bounded\":%s,\"lo\":%d,\"hi\":%d,\"reads\":[", s,
                    s && isObjectOutput(t) ? "true" : "false", s && isObjectPredicate(t) ? "true" : "false",
                    s && (p.lower || p.upper) ? "true" : "false", p.lower < 0 ? 0 : p.lower, p.upper > 1000000000 ? 1000000000 : p.upper);
            /* conditions of the filters on the way that are read here */
            int first = 1;
            for (int k = 0; k < d; k++) {
                if (!path[k] || !isObjectPredicate(getDFAAcceptType(a, path[k]))) continue;
                for (int m = 0; m < getContextSizeOfMapping(x, path[k]); m++)
                    if (s && getContextValueOfMapping(x, path[k], m) == s) {
                        if (!first) fputc(',', vout);
                        first = 0;
                        fprintf(vout, "{\"at\":%d,\"name\":", k); v_str(getContextSubtree(x, s)->string); fputc('}', vout);
                    }
            }
            fputs("]},\n", vout);
            break; }
        case 'T': ct = collectDataConstraints(pp, v_file("tr", f[1])); fputs("{\"e\":\"learn\",\"ok\":true},\n", vout); break;
        case 'U': {
            ConstraintInfo q; memset(&q, 0, sizeof q);
            q.type = f[1][0] == '[' ? LB : KY;
            q.token_name = f[1][0] == '[' ? NULL : f[1] + 1;
            updateStateInfo(ct, &q);
            fprintf(vout, "{\"e\":\"lookup\",\"known\":%s,\"states\":[", q.num_state == INVALID ? "false" : "true");
            for (int j = 0; j < q.num_state; j++) fprintf(vout, "%s%d", j ? "," : "", q.state_set[j]);
            fputs("]},\n", vout);
            break; }
        }
        fflush(vout);
    }
}
int main(int argc, char** argv) { return v_main(argc, argv, run); }
