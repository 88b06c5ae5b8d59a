/* Token sequence of a text: "L <text>" */
#include "verif_util.h"
#include "lexing.h"
static void run(VCase* c)
{
    char* f[3];
    for (int i = 1; i < c->n; i++) {
        v_split(c->line[i], f, 2);
        v_unesc(f[1]);
        /* a private copy that ends where the text ends */
        size_t n = strlen(f[1]);
        char* text = (char*)malloc(n + 1);
        memcpy(text, f[1], n + 1);
        Lexer lx;
        initLexer(&lx, text);
        long limit = 3 * (long)n + 10;
        while (1) {
            Token t = nextToken(&lx);
            long at = lx.next_start - lx.begin_stream;
            const char* name = t.token_type == LCB ? "{" : t.token_type == RCB ? "}" : t.token_type == LB ? "[" :
                t.token_type == RB ? "]" : t.token_type == COM ? "," : t.token_type == KY ? "k" : t.token_type == PRI ? "p" :
                t.token_type == END ? "end of text" : "?";
            if (t.token_type == END || limit-- < 0) { fprintf(vout, "{\"e\":\"eot\",\"t\":\"%s\"},\n", name); break; }
            fprintf(vout, "{\"e\":\"tok\",\"t\":\"%s\",\"at\":%ld", name, at);
            if (t.token_type == KY || t.token_type == PRI) { fputs(",\"v\":", vout); v_str(t.content); }
            fputs("},\n", vout);
        }
        destroyLexer(&lx);
        free(text);
    }
}
int main(int argc, char** argv) { return v_main(argc, argv, run); }
