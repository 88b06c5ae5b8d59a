/* "A text"   syntax tree of a query
   "R text"   what happens to a text that may be none: tree or exit code, whether something is printed,
              whether an automaton is made of a refused text
   "E text pairs..."  value of the filter expression of the query $[?(text)] with name=value pairs:
   name <TAB> value, value empty = no value */
#include "verif_util.h"
#include <math.h>
#include "jsonpath_model.h"
#include "jsonpath_parser.h"
#include "jsonpath_evaluator.h"
#include "dfa_builder.h"
static const char* opname(JSONPathOperatorType o)
{
    switch (o) {
    case jot_or: return "||"; case jot_and: return "&&"; case jot_not: return "!"; case jot_equal: return "==";
    case jot_less: return "<"; case jot_greater: return ">"; case jot_neq: return "!="; case jot_leq: return "<=";
    case jot_geq: return ">="; case jot_add: return "+"; case jot_minus: return "-"; case jot_multiply: return "*";
    case jot_div: return "/"; case jot_mod: return "%"; default: return "?";
    }
}
static void leaf(const char* t, const char* v) { fprintf(vout, "{\"t\":\"%s\",\"v\":", t); v_str(v); fputs("}", vout); }
/* numbers are reported in 1/1000000 when that is exact, as text otherwise */
static void tree(ASTNode* n)
{
    if (!n) { fputs("{\"t\":\"none\"}", vout); return; }
    switch (n->node_type) {
    case jnt_id: leaf("id", n->string); return;
    case jnt_string: leaf("string", n->string); return;
    case jnt_variable: leaf("var", n->string); return;
    case jnt_root: fputs("{\"t\":\"root\"}", vout); return;
    case jnt_wildcard: fputs("{\"t\":\"star\"}", vout); return;
    case jnt_reference: fputs("{\"t\":\"ref\"}", vout); return;
    case jnt_number: fprintf(vout, "{\"t\":\"number\",\"whole\":\"%.0f\",\"micro\":%.0f,\"neg\":%s}",
                             floor(fabs(n->number)), (fabs(n->number) - floor(fabs(n->number))) * 1e6, n->number < 0 ? "true" : "false"); return;
    default: break;
    }
    const char* t = n->node_type == jnt_concat ? "child" : n->node_type == jnt_parent_concat ? "descendant" :
        n->node_type == jnt_predicate ? "bracket" : n->node_type == jnt_fliter ? "filter" : n->node_type == jnt_range ? "range" :
        n->node_type == jnt_operator ? "op" : n->node_type == jnt_script ? "script" : "?";
    fprintf(vout, "{\"t\":\"%s\",", t);
    if (n->node_type == jnt_operator) fprintf(vout, "\"o\":\"%s\",", opname(n->opt));
    fputs("\"l\":", vout); tree(n->left); fputs(",\"r\":", vout); tree(n->right); fputs("}", vout);
}
/* runs one call in a process of its own, that prints into a file; exit code, or -1 after a signal */
static int apart(const char* text, int make, long* printed)
{
    char path[300];
    snprintf(path, sizeof path, "%s/said", vtmp);
    fflush(vout);
    pid_t p = fork();
    if (p == 0) {
        int f = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
        dup2(f, 1); dup2(f, 2);
        alarm(20);
        if (make) { JSONQueryDFAContext x; memset(&x, 0, sizeof x); buildJSONQueryDFA(text, &x); }
        else { tree(analysisJSONPath(text)); fflush(vout); }
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    struct stat b;
    waitpid(p, &st, 0);
    *printed = stat(path, &b) == 0 ? (long)b.st_size : 0;
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static void refuse(const char* text)
{
    long printed, more;
    fputs("{\"e\":\"text\",\"tree\":", vout);
    int code = apart(text, 0, &printed), made = 0;
    if (code) { fputs("{\"t\":\"none\"}", vout); made = apart(text, 1, &more) == 0; }
    fprintf(vout, ",\"code\":%d,\"said\":%s,\"made\":%s},\n", code, printed ? "true" : "false", made ? "true" : "false");
    fflush(vout);
}
static void run(VCase* c)
{
    char* f[64];
    for (int i = 1; i < c->n; i++) {
        int n = v_split(c->line[i], f, 64);
        for (int j = 1; j < n; j++) v_unesc(f[j]);
        if (f[0][0] == 'A') {
            ASTNode* r = analysisJSONPath(f[1]);
            fputs("{\"e\":\"ast\",\"tree\":", vout); tree(r); fputs("},\n", vout); fflush(vout);
            continue;
        }
        if (f[0][0] == 'R') { refuse(f[1]); continue; }
        char* q = (char*)malloc(strlen(f[1]) + 32);
        sprintf(q, "$[?(%s)]", f[1]);
        ASTNode* r = analysisJSONPath(q);
        evaluatorModifyReference(r);
        PredicateCondition table[40];
        int k = 0;
        for (int j = 2; j + 1 < n; j += 2) {
            table[k].name = strdup(f[j]);
            table[k].text = f[j + 1][0] ? strdup(f[j + 1]) : NULL;
            k++;
        }
        table[k].name = NULL; table[k].text = NULL;
        bool v = evaluateExpression(r->right->left, table);
        bool w = evaluateExpression(r->right->left, table);
        fprintf(vout, "{\"e\":\"val\",\"v\":%s,\"again\":%s},\n", v ? "true" : "false", w ? "true" : "false"); fflush(vout);
    }
}
int main(int argc, char** argv) { return v_main(argc, argv, run); }
