/* "X 123 ..." walks words of one-digit characters, compactly: per step -1 if dead, else the stop */
/* "E" use equivalence classes; "V a b c" walk with the C runtime of the tables */
/* "M max"  begin a model; "R expression" add an expression in prefix notation; "W a b c" walk */
#include "verif_util.h"
#include "Lexer/regex_model.hpp"
#include "Lexer/dfa_compressed.hpp"
#include "Lexer/regex_builder.hpp"
#include "Lexer/model_core.hpp"
#include "Lexer/dfa_mixer.hpp"
#include "Lexer/set_converter.hpp"
#include "Lexer/ecset_converter.hpp"
#include "Lexer/equivalence_class.hpp"
#include "dragontooth.h"
using namespace dragontooth;
/* c<char>o | s<data>o | q<text>o (a sequence given as text) | l<n>o items | a<n>o items, fields separated by blanks; o in - ? * + */
static RegexItem* item(char*& p)
{
    char kind = *p++;
    RegexItem* r;
    if (kind == 'c') { long v = strtol(p, &p, 10); r = new RegexChar((regex_char)v); }
    else if (kind == 's' || kind == 'q') {
        std::string d;
        long n = strtol(p, &p, 10);
        for (long i = 0; i < n; i++) { p++; long v = strtol(p, &p, 10); d += (char)v; }
        if (kind == 's') r = new RegexSet(d.c_str());
        else r = new RegexList(d.c_str());
    } else {
        long n = strtol(p, &p, 10);
        RegexList* l = new RegexList(kind == 'a');
        char o = *p++;
        for (long i = 0; i < n; i++) { p++; l->Add(item(p)); }
        r = l;
        p--; *p = o;
    }
    char o = *p++;
    r->setOpt(o == '?' ? RegexItem::re_optional : o == '*' ? RegexItem::re_repetition : o == '+' ? RegexItem::re_nonzero_repetition : RegexItem::re_none);
    return r;
}
static void run(VCase* c)
{
    RegexModel* model = NULL;
    DFA* dfa = NULL;
    bool classes = false;
    for (int i = 1; i < c->n; i++) {
        char* l = c->line[i];
        if (*l == 'M') { model = new RegexModel(); model->input_max = atoi(l + 2); dfa = NULL; classes = false; }
        else if (*l == 'E') classes = true;
        else if (*l == 'R') { char* p = l + 2; model->Add(item(p)); }
        else {
            if (!dfa) {
                Pass* start = classes ? (Pass*)new ECSetConverter() : (Pass*)new SetConverter();
                RegexBuilder* b = new RegexBuilder(); DFAMixer* m = new DFAMixer();
                start->next(b)->next(m);
                dfa = start->ExecuteAll<RegexModel>(model)->main_dfa;
            }
            if (*l == 'X') {
                fputs("{\"e\":\"walks\",\"w\":[", vout);
                for (char* p = l + 1; *p;) {
                    int s = 1;
                    fprintf(vout, "%s[%d", p == l + 1 ? "" : ",", dfa->isStopState(s));
                    for (p++; *p && *p != ' '; p++) {
                        if (s) s = dfa->nextState(s, *p - '0');
                        fprintf(vout, ",%d", s ? dfa->isStopState(s) : -1);
                    }
                    fputc(']', vout);
                }
                fputs("]},\n", vout);
                fflush(vout);
                continue;
            }
            int s = 1;
            char* p = l + 1;
            fputs("{\"e\":\"walk\",\"steps\":[", vout);
            fprintf(vout, "{\"dead\":false,\"stop\":%d}", dfa->isStopState(s));
            while (*p) {
                long a = strtol(p, &p, 10);
                if (classes) a = model->ec->getClass(a);
                if (*l == 'V') {
                    DFACompressed* d = (DFACompressed*)dfa;
                    DTLexerState ls;
                    memset(&ls, 0, sizeof(ls));
                    ls.m_base = d->m_base.data(); ls.m_next = d->m_next.data(); ls.m_check = d->m_check.data();
                    ls.m_default = d->m_default.data(); ls.m_stop_state = d->getStopState().data(); ls.bottom = d->getBottom();
                    s = dtl_nextState(&ls, s, a);
                    fprintf(vout, ",{\"dead\":%s,\"stop\":%d}", s ? "false" : "true", s ? dtl_isStopState(&ls, s) : 0);
                    continue;
                }
                if (s) s = dfa->nextState(s, a);
                fprintf(vout, ",{\"dead\":%s,\"stop\":%d}", s ? "false" : "true", s ? dfa->isStopState(s) : 0);
            }
            fputs("]},\n", vout);
        }
        fflush(vout);
    }
}
int main(int argc, char** argv) { return v_main(argc, argv, run); }
