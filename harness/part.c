/* Partitioning and bounded loading.
   "S n text"  splitStream    "I n text"  partitionInputStream   "F n text"  partitionFile
   "L bound text"  loadBoundedInputStream until there is nothing left */
#include "verif_util.h"
int jpstream_verif_memory_footprint = 250000000;
#include "path_processor.h"
static void put(PartitionInfo p)
{
    for (int i = 0; i < p.num_chunk; i++) { if (i) fputc(',', vout); v_str(p.stream[i]); }
}
static void run(VCase* c)
{
    char* f[4];
    for (int i = 1; i < c->n; i++) {
        v_split(c->line[i], f, 3);
        int n = atoi(f[1]);
        v_unesc(f[2]);
        if (f[0][0] == 'L') {
            char* p = v_file("in", f[2]);
            jpstream_verif_memory_footprint = n;
            int pos = 0, limit = 2 * strlen(f[2]) + 10;
            while (limit-- > 0) {
                char* s = loadBoundedInputStream(p, &pos);
                fprintf(vout, "{\"e\":\"load\",\"pos\":%d,\"text\":", pos);
                v_str(s ? s : ""); fprintf(vout, ",\"more\":%s},\n", s ? "true" : "false");
                if (!s) break;
                free(s);
            }
            continue;
        }
        PartitionInfo p;
        if (f[0][0] == 'F') p = partitionFile(v_file("in", f[2]), n);
        else {
            size_t len = strlen(f[2]);
            char* text = (char*)malloc(len + 1);
            memcpy(text, f[2], len + 1);
            p = f[0][0] == 'S' ? splitStream(text, n) : partitionInputStream(text, n);
            free(text);
        }
        fprintf(vout, "{\"e\":\"split\",\"by\":\"%c\",\"n\":%d,\"num\":%d,\"chunks\":[", f[0][0], n, p.num_chunk);
        put(p);
        fputs("]},\n", vout);
        freeInputChunks(p);
    }
}
int main(int argc, char** argv) { return v_main(argc, argv, run); }
