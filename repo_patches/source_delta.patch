From 351ad952668ccca221be6c37de7c310c9aa64d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 01/33] fix: lexer primitives carry exactly their own text (no
 delimiter, keep the minus sign, end at newline)

---
 JSONQuery/lexing.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index ee95f2e..2b6ded1 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -86,7 +86,11 @@ Token nextToken(Lexer* lexer)
                         state = 0;
                         break;
                     default: //it might be a single primitive
-                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
+                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')||*p=='-')
+                        {
+                            token_pointer = p;
+                            state = 2;
+                        }
                         else
                         {
                             token_len = p - start + 1;
@@ -171,14 +175,11 @@ Token nextToken(Lexer* lexer)
                     case ',':
                     case ' ':
                     case '\t':
+                    case '\n':
+                    case '\r':
                    	{
-                        int tempcount = p-start;
-                        templen = tempcount; 
-                        if(p[0]=='"')
-                            substring_in_place(sub1, start, 1 ,tempcount); 
-                        else if(token_pointer[tempcount-1]==',') 
-                            substring_in_place(sub1, token_pointer, 0, tempcount-1);
-                        else substring_in_place(sub1, token_pointer, 0, tempcount);
+                        //token_pointer points to the first character of the primitive
+                        substring_in_place(sub1, token_pointer, 0, p-token_pointer);
                         strcopy(sub1,lexer->content);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
-- 
2.43.0


From 27650738997373384aebecb32941cb3b3803d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 02/33] fix: recognise a key whose colon is on the next line

---
 JSONQuery/lexing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 2b6ded1..5e79d76 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -124,7 +124,7 @@ Token nextToken(Lexer* lexer)
                         token_pointer = start + token_len;
                         start = token_pointer;
 
-                        while(*(p+1)==' '||*(p+1)=='\t') //ignore space
+                        while(*(p+1)==' '||*(p+1)=='\t'||*(p+1)=='\n'||*(p+1)=='\r') //ignore space
                         {
                             p++;
                             token_len = p - start + 1;
-- 
2.43.0


From 6e5dac4459605c18fc64f090afdb4be590d33b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 03/33] fix: initialise the streaming context and finish flags
 before they are read

---
 JSONQuery/parallel_automata_execution.h | 1 +
 JSONQuery/path_processor.h              | 2 ++
 JSONQuery/streaming_automaton.h         | 1 +
 3 files changed, 4 insertions(+)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 0419465..a0e7ae2 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -46,6 +46,7 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
     pa->query_automaton = qa;
     pa->tuple_list = NULL;
     pa->major_automaton = NULL;
+    pa->finish_flag = INPROGRESS;
 }
 
 static inline void destroyParallelAutomata(ParallelAutomata* pa)
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 4da0a57..d0088ed 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -180,6 +180,8 @@ typedef struct StreamingContext{
 
 static inline void initStreamingContext(StreamingContext* ci)
 {
+    //components that are never started must stay empty for destroyStreamingContext
+    memset(ci, 0, sizeof(StreamingContext));
     ci->context_flag = NOCONTEXT;
     ci->finish_flag = INPROGRESS;
 }
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 58eac63..12613e6 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -44,6 +44,7 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
     //by default don't generate any data constraints
     sa->constraint_flag = CLOSE;
     sa->constraint_table = NULL;
+    sa->finish_flag = INPROGRESS;
 }
 
 static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
-- 
2.43.0


From 80b6cfbc2e8631a6cbe24f21302e138564028e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 04/33] fix: serial context keeps the live tuple list between
 input chunks

---
 JSONQuery/path_processor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index d0088ed..2477679 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -209,7 +209,6 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //run streaming automaton
     executeAutomaton(&streaming_automaton, input_stream, CLOSE);
-    ci->sa = streaming_automaton;
 
     //predicate filtering
     PredicateFilter pf;
@@ -220,6 +219,8 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //free up dynamic memories
     destroyStreamingAutomaton(&streaming_automaton);
+    //the context must own the fresh tuple list, not the one that has just been freed
+    ci->sa = streaming_automaton;
 
     //set context flag
     ci->context_flag = CONTEXT;
-- 
2.43.0


From 1a56801883ed43be84726572f4be9e1f5250a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 05/33] fix: [index] selects the element instead of being
 ignored

---
 DFABuilder/src/dfa_builder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index ffa8f92..23b021f 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -246,6 +246,14 @@ struct StackContext {
                     array_range[model->size()-1] = {begin, end};
                     break;
                 }
+                // [index]
+                case jnt_number: {
+                    int index = p->number;
+                    push({set_array_index, index, index+1});
+                    create_dfa();
+                    array_range[model->size()-1] = {index, index+1};
+                    break;
+                }
                 // [*]
                 case jnt_wildcard: {
                     push({set_array_all});
-- 
2.43.0


From 92a573cd32e0188299abf7cdb1e57dfa37879f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 06/33] fix: substring keeps its offsets when the text starts
 with spaces

---
 JSONQuery/utility.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 2bf6487..2225c39 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -28,7 +28,6 @@ char* substring(char *pText, int begin, int end)
 {
     int i,j;
     char * temp=pText;
-    temp = ltrim(pText);
     char* temp1=NULL; 
     temp1=(char*)malloc((end-begin+1)*sizeof(char));
     for (j = 0,i = begin; i < end; i++,j++)
@@ -48,7 +47,6 @@ void substring_in_place(char* desc, char *pText, int begin, int end)
 {
     int i,j;
     char * temp=pText;
-    temp = ltrim(pText);
     for (j = 0,i = begin; i < end; i++,j++)
     {
         desc[j]=temp[i];
-- 
2.43.0


From 9af715bd3682306774041f605dca5bdbf4bd28cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 07/33] fix: results, strings and keys of any length and number
 fit the tuple list, the output and the lexer

---
 JSONQuery/lexing.c                      | 18 ++++++---------
 JSONQuery/lexing.h                      | 14 ++++++++++--
 JSONQuery/output.h                      | 29 +++++++++++++++---------
 JSONQuery/parallel_automata_execution.h |  7 +++---
 JSONQuery/predicate.h                   |  2 +-
 JSONQuery/tuple_list.h                  | 30 ++++++++++++++++++++-----
 6 files changed, 66 insertions(+), 34 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 5e79d76..9a9b107 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -5,8 +5,6 @@
 #include "utility.h"
 #include "lexing.h"
 
-#define MAX_PRIMITIVE 40000
-
 Token nextToken(Lexer* lexer)
 {
     char* start = lexer->current_pointer; 
@@ -18,8 +16,8 @@ Token nextToken(Lexer* lexer)
     int token_len = 0;
     char* token_pointer = p; 
     int tempcount;
+    char* quote;
     Token token;
-    char sub1[MAX_PRIMITIVE];
     for (; p < end; p++)
     {   
         switch(state)
@@ -119,7 +117,8 @@ Token nextToken(Lexer* lexer)
                         //string is found 
                         tempcount = p-start;
                         templen = tempcount; 
-                        substring_in_place(sub1, start , 1, tempcount);     
+                        quote = start;  //opening quote of the string
+                        reserveContent(lexer, tempcount+1);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         start = token_pointer;
@@ -133,7 +132,7 @@ Token nextToken(Lexer* lexer)
                         } 
                         if(*(p+1)==':') //it is a key field
                         {
-                            strcopy(sub1,lexer->content);
+                            substring_in_place(lexer->content, quote, 1, tempcount);
                             token_len = p - start+1;
                             token_pointer = start + token_len;
                             lexer->current_start = lexer->current_pointer+1; 
@@ -147,10 +146,7 @@ Token nextToken(Lexer* lexer)
                         }
                         else //primitive value
                         {
-                            lexer->content[0]='"';
-                            strcopy(sub1, lexer->content+1);
-                            lexer->content[strlen(lexer->content)]='"'; 
-                            lexer->content[strlen(lexer->content)+1]='\0'; 
+                            substring_in_place(lexer->content, quote, 0, tempcount+1);
                             lexer->current_start = lexer->current_pointer+1; 
                             lexer->lex_state = 0; 
                             lexer->next_start = p+1; 
@@ -179,8 +175,8 @@ Token nextToken(Lexer* lexer)
                     case '\r':
                    	{
                         //token_pointer points to the first character of the primitive
-                        substring_in_place(sub1, token_pointer, 0, p-token_pointer);
-                        strcopy(sub1,lexer->content);
+                        reserveContent(lexer, p-token_pointer);
+                        substring_in_place(lexer->content, token_pointer, 0, p-token_pointer);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         lexer->current_pointer = token_pointer;
diff --git a/JSONQuery/lexing.h b/JSONQuery/lexing.h
index 703b90f..ed66c30 100644
--- a/JSONQuery/lexing.h
+++ b/JSONQuery/lexing.h
@@ -15,7 +15,7 @@
 #define ARRAY 9 //[]
 #define END -1  //ends
 
-#define MAX_SIZE_PRIMITIVE 4000
+#define INIT_SIZE_PRIMITIVE 4000
 
 /* structure for tokens */
 typedef struct Lexer{
@@ -26,6 +26,7 @@ typedef struct Lexer{
     char* end_stream;         //ending position of input json
     int lex_state;       
     char* content;           //content of the current symbol
+    int content_size;        //allocated size of content
 }Lexer; 
 
 
@@ -37,7 +38,16 @@ static inline void initLexer(Lexer* lexer, char* json_stream)
     lexer->begin_stream = json_stream;
     lexer->end_stream = json_stream + strlen(json_stream);
     lexer->lex_state = 0;
-    lexer->content = (char*)malloc(MAX_SIZE_PRIMITIVE*sizeof(char));
+    lexer->content_size = INIT_SIZE_PRIMITIVE;
+    lexer->content = (char*)malloc(lexer->content_size*sizeof(char));
+}
+
+//make room for a symbol of the given length
+static inline void reserveContent(Lexer* lexer, int length)
+{
+    if(length<lexer->content_size) return;
+    lexer->content_size = 2*length+2;
+    lexer->content = (char*)realloc(lexer->content, lexer->content_size*sizeof(char));
 }
 
 static inline void destroyLexer(Lexer* lexer)
diff --git a/JSONQuery/output.h b/JSONQuery/output.h
index d2bed6a..3ea3419 100644
--- a/JSONQuery/output.h
+++ b/JSONQuery/output.h
@@ -1,31 +1,28 @@
 #ifndef __OUTPUT_H__
 #define __OUTPUT_H__
 
+#include <stdlib.h>
 #include "utility.h"
 
-#define MAX_OUTPUT 800000 //290000
-#define MAX_STRING 1000
+#define INIT_OUTPUT 1024
 
 typedef struct Output{
     char** element;
+    int capacity;
     int count;
 }Output;
 
 static inline void initOutput(Output* output)
 {
-    output->element = (char**)malloc(MAX_OUTPUT*sizeof(char*));
-    int i;
-    for(i=0; i<MAX_OUTPUT; i++)
-    {
-        output->element[i] = (char*)malloc(MAX_STRING*sizeof(char));
-    }
+    output->element = (char**)malloc(INIT_OUTPUT*sizeof(char*));
+    output->capacity = INIT_OUTPUT;
     output->count = -1;
 }
 
 static inline void destroyOutput(Output* output)
 {
     int i;
-    for(i=0; i<MAX_OUTPUT; i++)
+    for(i=0; i<=output->count; i++)
     {
         if(output->element[i]!=NULL) free(output->element[i]);
     }
@@ -48,7 +45,12 @@ static inline void freeOutput(Output* output)
 static inline void addOutputElement(Output* output, char* text)
 {
     int index = (++output->count);
-    strcopy(text, output->element[index]); //printf("text %s %d\n", text, index);
+    if(index==output->capacity)
+    {
+        output->capacity *= 2;
+        output->element = (char**)realloc(output->element, output->capacity*sizeof(char*));
+    }
+    output->element[index] = allocate_and_copy(text); //printf("text %s %d\n", text, index);
 }
 
 static inline char* getOutputElement(Output* output, int index)
@@ -58,7 +60,12 @@ static inline char* getOutputElement(Output* output, int index)
 
 static inline void removeOutputElement(Output* output, int number)
 {
-    output->count-=number; 
+    int i;
+    for(i=0; i<number; i++)
+    {
+        free(output->element[output->count]);
+        output->count--;
+    }
 }
 
 static inline int getOutputSize(Output* output)
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index a0e7ae2..1805ad8 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -319,7 +319,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 //check array indexes
                 if(!(lower==0&&upper==0))
                 {
-                    if(strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0) { 
+                    if(tuple.text!=NULL && (strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0)) { 
                         qs.node[qs_elt.start].count++; 
                         if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
                         continue;
@@ -339,8 +339,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     addTuple(tuple_list, tuple.state, tuple.text);
                 else
                 {   
-                    substring_in_place(tuple.text, thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
-                    addTuple(tuple_list, tuple.state, tuple.text); 
+                    char* text = substring(thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
+                    addTuple(tuple_list, tuple.state, text); 
+                    free(text);
                 }
                 sum++;
             }
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index c750410..52a4a47 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -103,7 +103,7 @@ static inline void destroyPredicateFilter(PredicateFilter* pf)
             free(pf->predicate_conditions[i]);
         }
     } 
-    if(pf->buffer!=NULL) free(pf->buffer);
+    if(pf->buffer!=NULL) freeOutput(pf->buffer);
 }
 
 Output* generateFinalOutput(PredicateFilter* pf);
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 4eab925..e4767bc 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -1,10 +1,10 @@
 #ifndef __TUPLE_LIST_H__
 #define __TUPLE_LIST_H__
 
+#include <stdlib.h>
 #include "utility.h"
 
-#define MAX_TUPLE_LIST 5000000
-#define MAX_TEXT 1000
+#define INIT_TUPLE_LIST 1024
 
 typedef struct Tuple{
     //starting index for string text
@@ -12,18 +12,21 @@ typedef struct Tuple{
     //ending index for string text
     int end_position;
     int state;
-    char text[MAX_TEXT];
+    //text content, NULL for virtual tuples
+    char* text;
     int next_index;
 }Tuple;
 
 typedef struct TupleList{
-    Tuple element[MAX_TUPLE_LIST];
+    Tuple* element;
+    int capacity;
     int count;
 }TupleList;
 
 static inline void initTupleList(TupleList* tl)
 {
-    //tl->element = (Tuple*)malloc(MAX_TUPLE_LIST*sizeof(Tuple));
+    tl->element = (Tuple*)malloc(INIT_TUPLE_LIST*sizeof(Tuple));
+    tl->capacity = INIT_TUPLE_LIST;
     tl->count = -1;
 }
 
@@ -36,24 +39,39 @@ static inline TupleList* createTupleList()
 
 static inline void freeTupleList(TupleList* tl)
 {
+    int i;
+    for(i = 0; i<=tl->count; i++)
+        if(tl->element[i].text!=NULL) free(tl->element[i].text);
+    free(tl->element);
     free(tl);
 }
 
+//make room for one more tuple
+static inline void growTupleList(TupleList* tl)
+{
+    if(tl->count+1<tl->capacity) return;
+    tl->capacity *= 2;
+    tl->element = (Tuple*)realloc(tl->element, tl->capacity*sizeof(Tuple));
+}
+
 static inline void addTuple(TupleList* tl, int state, char* text)
 { 
+    growTupleList(tl);
     int index = (++tl->count);
     tl->element[index].state = state;
     tl->element[index].start_position = -1;
-    strcopy(text, tl->element[index].text); 
+    tl->element[index].text = allocate_and_copy(text);
     tl->element[index].next_index  = -1;
 }
 
 static inline void addVirtualTuple(TupleList* tl, int state, int start_position, int end_position)
 {
+    growTupleList(tl);
     int index = (++tl->count);
     tl->element[index].state = state;
     tl->element[index].start_position = start_position; 
     tl->element[index].end_position = end_position;
+    tl->element[index].text = NULL;
     tl->element[index].next_index  = -1;
 }
 
-- 
2.43.0


From 401ea0c5db0b5ea0017a8e02c59bf91a78ee2c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 08/33] fix: input is only split in front of complete string
 tokens, and always inside of its bounds

---
 JSONQuery/file_partition.c | 110 ++++++++++++-------------------------
 JSONQuery/file_partition.h |  41 ++++++++++++++
 JSONQuery/path_processor.h |  81 ++++-----------------------
 3 files changed, 88 insertions(+), 144 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index cf8b6fb..15444f4 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -1,96 +1,56 @@
 #include "file_partition.h"
 
 #include <malloc.h>
+#include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
 #include "utility.h"
 
-#define MAX_EXTENSION 1000
+PartitionInfo splitStream(char* input_stream, int num_core)
+{
+    PartitionInfo pInfo;
+    long stream_size = strlen(input_stream);
+    long chunk_size = (stream_size/num_core)+1;
+    char** stream = (char**)malloc(num_core*sizeof(char*));
+    BoundaryScanner bs;
+    initBoundaryScanner(&bs);
+    int i = 0;
+    long begin = 0;   //starting position of the current chunk
+    long pos;
+    for(pos = 0; pos<stream_size && i<num_core-1; pos++)
+    {
+        //look for the next complete token
+        if(feedBoundaryScanner(&bs, input_stream[pos]) && pos-begin>=chunk_size)
+        {
+            stream[i++] = substring(input_stream, begin, pos);
+            begin = pos;
+        }
+    }
+    stream[i] = substring(input_stream, begin, stream_size);
+    pInfo.num_chunk = i+1;
+    pInfo.stream = stream;
+    return pInfo;
+}
 
 PartitionInfo partitionFile(char* file_name, int num_core)
 { 
     PartitionInfo pInfo;
     pInfo.num_chunk = 0;
-    char** stream=NULL;
+    pInfo.stream = NULL;
+    char* stream = NULL;
     FILE *fp; 
-    long file_size, chunk_size;
+    long file_size;
     fp = fopen(file_name,"rb");
     if (fp==NULL) { return pInfo;}
     fseek (fp, 0, SEEK_END);
     file_size = ftell(fp);
     rewind(fp);     
-
-    chunk_size = (file_size/num_core)+1;
-    stream = (char**)malloc(num_core*sizeof(char*));
-    int i;
-    for(i = 0; i<num_core; i++)
-        stream[i] = NULL;
-    long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
-    for(i = 0; i<num_core-1; i++)
-    {
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char * buff=(char*)malloc((chunk_size)*sizeof(char)); 
-            fread (buff,1,chunk_size-1,fp); 
-            buff[chunk_size-1]='\0'; 
-            stream[i]=strcat(stream[i],buff); 
-        }
-        else fread (stream[i],1,chunk_size,fp);
-        int add = 0;
-        //look for the next complete token
-        ch = fgetc(fp);
-        while(1)
-        {    
-            if(ch==EOF) break;
-            if(ch=='"')
-            {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
-                if(prev==','||prev=='{'||prev=='[')
-                {
-                    break;
-                }
-            }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
-            ch = fgetc(fp);
-        }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += (chunk_size+add);
-        if((sum_size+chunk_size)>=file_size) {i++; break;}
-    }
-    pInfo.num_chunk = i;
-    long remain_size = file_size-sum_size;
-    if(remain_size>0)
-    {
-        stream[i] = (char*)malloc((remain_size)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char* buff=(char*)malloc(remain_size*sizeof(char));
-            fread (buff,1,remain_size-1,fp);
-            buff[remain_size-1]='\0';
-            stream[i]=strcat(stream[i],buff);
-            stream[i][remain_size] = '\0'; 
-        }
-        else{
-            fread (stream[i],1,remain_size,fp);
-            stream[i][remain_size] = '\0';
-        }
-        pInfo.num_chunk = i+1;
-    }
-    pInfo.num_chunk = i+1;
-    pInfo.stream = stream;
+    stream = (char*)malloc((file_size+1)*sizeof(char));
+    file_size = fread(stream,1,file_size,fp);
+    stream[file_size] = '\0';
+    fclose(fp);
+    pInfo = splitStream(stream, num_core);
+    free(stream);
     printf("file partitioner: finish splitting the input stream\n");
     return pInfo;
 }
diff --git a/JSONQuery/file_partition.h b/JSONQuery/file_partition.h
index bb23eb0..945532a 100644
--- a/JSONQuery/file_partition.h
+++ b/JSONQuery/file_partition.h
@@ -9,6 +9,47 @@ typedef struct PartitionInfo
     int num_chunk;
 }PartitionInfo;
 
+//scanner looking for the positions where an input chunk can start
+typedef struct BoundaryScanner
+{
+    int in_string;  //inside of a string
+    int escaped;    //the next character is escaped
+    int prev;       //last character outside of strings (white space excluded)
+}BoundaryScanner;
+
+static inline void initBoundaryScanner(BoundaryScanner* bs)
+{
+    bs->in_string = 0;
+    bs->escaped = 0;
+    bs->prev = -1;
+}
+
+//feed the next character, return 1 if it begins a string that is a key field or an array element
+static inline int feedBoundaryScanner(BoundaryScanner* bs, char ch)
+{
+    int boundary = 0;
+    if(bs->in_string)
+    {
+        if(bs->escaped) bs->escaped = 0;
+        else if(ch=='\\') bs->escaped = 1;
+        else if(ch=='"') 
+        {
+            bs->in_string = 0;
+            bs->prev = ch;
+        }
+    }
+    else if(ch=='"')
+    {
+        boundary = (bs->prev==','||bs->prev=='{'||bs->prev=='[');
+        bs->in_string = 1;
+    }
+    else if(!(ch==' '||ch=='\t'||ch=='\n'||ch==13)) bs->prev = ch;
+    return boundary;
+}
+
+//split a loaded stream into at most num_core chunks
+PartitionInfo splitStream(char* input_stream, int num_core);
+
 //partitioned intput stream into several chunks
 PartitionInfo partitionFile(char* file_name, int num_core);
 
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 2477679..236f439 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -55,27 +55,22 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
         size = MEMORY_FOOTPRINT;
     if(size<=0) return NULL;    
     fseek(fp, loaded_size, SEEK_CUR);
-    char* stream =(char*)malloc((size+MAX_EXTENSION)*sizeof(char));
+    int capacity = size+MAX_EXTENSION;
+    char* stream =(char*)malloc(capacity*sizeof(char));
     fread(stream,1,size,fp);
+    BoundaryScanner bs;
+    initBoundaryScanner(&bs);
+    int i;
+    for(i = 0; i<size; i++) feedBoundaryScanner(&bs, stream[i]);
     int add = 0;
     //look for the next complete token
-    char ch = fgetc(fp);
-    while(1)
+    int ch = fgetc(fp);
+    while(ch!=EOF && !feedBoundaryScanner(&bs, ch))
     {    
-        if(ch==EOF) break;
-        if(ch=='"')
+        if(size+add+1>=capacity)
         {
-            char prev = stream[size+add-1];
-            int t = 1;
-            while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-            {
-                prev = stream[size+add-t]; 
-                t++;
-            }
-            if(prev==','||prev=='{'||prev=='[')
-            {
-                break;
-            }
+            capacity = capacity*2;
+            stream = (char*)realloc(stream, capacity*sizeof(char));
         }
         stream[size+add] = ch; 
         add = add+1;
@@ -91,59 +86,7 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
 //split input stream into several chunks
 PartitionInfo partitionInputStream(char* input_stream, int num_core)
 {
-    PartitionInfo pInfo;
-    pInfo.num_chunk = 0;
-    char** stream = NULL;
-    long stream_size, chunk_size;
-    stream_size = strlen(input_stream);
-    chunk_size = (stream_size/num_core)+1;
-    stream = (char**)malloc(num_core*sizeof(char*));
-    int i;
-    for(i = 0; i<num_core; i++)
-        stream[i] = NULL;
-    long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
-    for(i = 0; i<num_core-1; i++)
-    {   
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char)); 
-        substring_in_place(stream[i], input_stream, sum_size, sum_size+chunk_size);
-        sum_size += chunk_size; 
-        int add = 0;
-        //look for the next complete token
-        while(sum_size<=stream_size)
-        {    
-            ch = input_stream[sum_size+add];
-            if(ch=='"')
-            {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
-                if(prev==','||prev=='{'||prev=='[')
-                {
-                    stream[i][chunk_size+add] = ch;
-                    break;
-                }
-            }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
-        }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += add;
-        if((sum_size+chunk_size)>=stream_size) {i++; break;}
-    } 
-    pInfo.num_chunk = i;
-    long remain_size = stream_size-sum_size;
-    if(remain_size>0)
-    {
-        stream[i] = substring(input_stream, sum_size, stream_size);
-        pInfo.num_chunk = i+1;
-    }
-    pInfo.num_chunk = i+1;
-    pInfo.stream = stream;
+    PartitionInfo pInfo = splitStream(input_stream, num_core);
     printf("stream partitioner: finish splitting the input stream\n");
     return pInfo;
 }
-- 
2.43.0


From 53360f8ee8ea5c9abd87a17b074199574303ced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 09/33] fix: never split the input into more chunks than there
 are threads

---
 JSONQuery/path_processor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 236f439..f636aa9 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -86,6 +86,8 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
 //split input stream into several chunks
 PartitionInfo partitionInputStream(char* input_stream, int num_core)
 {
+    //every chunk needs its own thread
+    if(num_core>MAX_THREAD) num_core = MAX_THREAD;
     PartitionInfo pInfo = splitStream(input_stream, num_core);
     printf("stream partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From 73ea98e5bac8f07f49a1c67684fd123ba5acfef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 10/33] fix: syntax stack inference keeps the content of the
 current token

---
 JSONQuery/worker_automaton.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 9a6cfbb..b67cbf1 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -47,8 +47,12 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 //syntax stack feasibility inference
 static inline void syntaxStackInference(Lexer* lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss)
 {
+    //look ahead with a content buffer of its own, the current token is still in use
+    lexer->content_size = INIT_SIZE_PRIMITIVE;
+    lexer->content = (char*)malloc(lexer->content_size*sizeof(char));
     Token first_token = nextToken(lexer);
     Token second_token = nextToken(lexer);
+    free(lexer->content);
     if(input_token_type==RCB)
     {
         if(syntaxStackSize(ss)==1)
-- 
2.43.0


From 65ec637133176db8c44f1af6b877b9111c5c2d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 11/33] fix: units start with a defined state and are separated
 exactly between two tokens

---
 JSONQuery/parallel_automata_execution.h |  4 ++--
 JSONQuery/unit.h                        |  1 +
 JSONQuery/worker_automaton.c            | 22 ++++++++++++++--------
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 1805ad8..35e3d01 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -283,10 +283,10 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
             if((l==unit.num_root) && (unit.num_root>0) && (unit.unit_state!=UNIT_UNMATCHED))
             { 
                 //reprocess the current unit
-                int length = unit.end-unit.start+1;
+                int length = unit.end-unit.start;
                 int start_index = unit.start-thread_info[i].input_stream;
                 char* streaming = NULL;
-                if(unit.end>unit.start) streaming = substring(thread_info[i].input_stream, start_index, start_index+length-1);
+                if(unit.end>unit.start) streaming = substring(thread_info[i].input_stream, start_index, start_index+length);
                 if(unit.end>unit.start && streaming!=NULL)
                 {
                     seq_wa->syntax_stack = ss;
diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index d54d9e7..09a715f 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -53,6 +53,7 @@ static inline void initUnit(Unit* unit)
     unit->count_unmatched_symbols = -1;
     unit->num_root = -1;
     unit->has_pruned = UNPRUNED;
+    unit->unit_state = UNIT_UNMATCHED;
     unit->start = NULL;
     unit->end = NULL;
 }
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index b67cbf1..ad0fda5 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -165,6 +165,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    //end of the previous token, units are separated at these positions
+    char* token_start = lexer.next_start;
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
 
@@ -189,7 +191,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     if(unit.unit_state!=UNIT_MATCHED)
                     {
                         unit.unit_state = UNIT_MATCHED;
-                        addStartPosition(&unit, lexer.current_start-1);
+                        addStartPosition(&unit, token_start);
                     }
                     obj_s(&ss);  
                     //write an iterator to get all nodes for current states from qs_elt
@@ -246,7 +248,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         {
                             //create a new unit
                             addRoots(&unit, qs.node, qs.num_node); 
-                            addEndPosition(&unit, lexer.current_start-1); 
+                            addEndPosition(&unit, token_start); 
                             addUnit(ul, unit);
                             initUnit(&unit);
                             //automata resetting
@@ -274,7 +276,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             {
                                 //create a new unit
                                 addRoots(&unit, qs.node, qs.num_node); 
-                                addEndPosition(&unit, lexer.current_start-1);
+                                addEndPosition(&unit, token_start);
                                 addUnit(ul, unit);
                                 initUnit(&unit);
                                 //automata resetting
@@ -344,7 +346,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     if(unit.unit_state!=UNIT_MATCHED)
                     {
                         unit.unit_state = UNIT_MATCHED;
-                        addStartPosition(&unit, lexer.current_start-1);
+                        addStartPosition(&unit, token_start);
                     }
                     //prune infeasible paths during runtime
                     if(wa->id>0&&constraint_flag==OPEN && unit.has_pruned == UNPRUNED)
@@ -423,7 +425,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             {
                                 //create a new unit
                                 addRoots(&unit, qs.node, qs.num_node);
-                                addEndPosition(&unit, lexer.current_start-1);
+                                addEndPosition(&unit, token_start);
                                 addUnit(ul, unit);
                                 initUnit(&unit);
                                 //automata resetting
@@ -480,7 +482,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         //create a new unit
                         addRoots(&unit, qs.node, qs.num_node); 
-                        addEndPosition(&unit, lexer.current_start-1);
+                        addEndPosition(&unit, token_start);
                         addUnit(ul, unit);
                         initUnit(&unit);
                         //automata resetting
@@ -499,7 +501,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 if(unit.unit_state!=UNIT_MATCHED)
                 {
                     unit.unit_state = UNIT_MATCHED;
-                    addStartPosition(&unit, lexer.current_start-1);
+                    addStartPosition(&unit, token_start);
                 }
                 //prune infeasible paths during runtime
                 if(wa->id>0 && constraint_flag==OPEN && unit.has_pruned==UNPRUNED && qs.top_item == -1)
@@ -550,7 +552,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                          {
                              //create a new unit
                              addRoots(&unit, qs.node, qs.num_node); 
-                             addEndPosition(&unit, lexer.current_start-1);
+                             addEndPosition(&unit, token_start);
                              addUnit(ul, unit);
                              initUnit(&unit);
                              //automata resetting
@@ -565,7 +567,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     else if(syntaxStackTop(&shadow_ss)==LB)  
                     {
                         if(unit.unit_state!=UNIT_MATCHED)
+                        {
                             unit.unit_state = UNIT_MATCHED;
+                            addStartPosition(&unit, token_start);
+                        }
                         int start_index=qs_elt.start, end_index=qs_elt.end;
                         while(start_index<=end_index)
                         {
@@ -582,6 +587,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 }
                 break;
         }
+        token_start = lexer.next_start;
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
-- 
2.43.0


From 400495605811fef3f47e175a73597ac628f8a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:00 +0000
Subject: [PATCH 12/33] fix: results that span several chunks are taken from
 all of them

---
 JSONQuery/parallel_automata_execution.h | 47 ++++++++++++++++++-------
 JSONQuery/worker_automaton.c            | 16 ++++-----
 JSONQuery/worker_automaton.h            |  3 ++
 3 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 35e3d01..7327e33 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -27,6 +27,8 @@ typedef struct ThreadInfo{
     pthread_t thread;
     int thread_id;
     char* input_stream;
+    int stream_offset;
+    int stream_length;
     double execution_time;
     WorkerAutomaton* worker_automaton;
 }ThreadInfo;
@@ -127,6 +129,29 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
     return match;
 }
 
+// get the text between two positions of the whole stream, which might be distributed over several chunks
+static inline char* chunkText(ThreadInfo* thread_info, int num_thread, int start, int end)
+{
+    char* text = (char*)malloc((end-start+1)*sizeof(char));
+    int length = 0;
+    int i;
+    int chunk_start = thread_info[0].stream_offset;
+    for(i = 0; i<num_thread; i++)
+    {
+        int chunk_end = chunk_start+thread_info[i].stream_length;
+        int from = start>chunk_start ? start : chunk_start;
+        int to = end<chunk_end ? end : chunk_end;
+        if(from<to)
+        {
+            memcpy(text+length, thread_info[i].input_stream+(from-chunk_start), to-from);
+            length += to-from;
+        }
+        chunk_start = chunk_end;
+    }
+    text[length] = '\0';
+    return text;
+}
+
 // merging results from different chunks
 TupleList* combine(ThreadInfo* thread_info, int num_thread)
 {
@@ -177,12 +202,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index+1;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                char* object_text = chunkText(thread_info, num_thread, c_node.matched_start, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
@@ -228,12 +248,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                char* object_text = chunkText(thread_info, num_thread, c_node.matched_start, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
@@ -293,6 +308,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     seq_wa->query_stacks = qs;
                     seq_wa->query_stacks_element = qs_elt;
                     seq_wa->need_reprocess = REPROCESS;
+                    seq_wa->stream_offset = wa->stream_offset+start_index;
                     printf("start reprocessing the %dth unit in the %dth chunk\n", j, i);
                     executeWorkerAutomaton(seq_wa, streaming); 
                     printf("the %dth unit in the %dth chunk has been reprocessed successfully\n", j, i);
@@ -339,7 +355,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     addTuple(tuple_list, tuple.state, tuple.text);
                 else
                 {   
-                    char* text = substring(thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
+                    char* text = chunkText(thread_info, num_thread, tuple.start_position, tuple.end_position); 
                     addTuple(tuple_list, tuple.state, text); 
                     free(text);
                 }
@@ -368,14 +384,19 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     JSONQueryDFA* qa = pa->query_automaton;
     ThreadInfo ti[MAX_THREAD]; 
     int i;
+    int stream_offset = 0;
     for(i = 0; i<num_cores; i++)
     {
         //initialize each thread
         ti[i].thread_id = i;
+        ti[i].stream_offset = stream_offset;
+        ti[i].stream_length = strlen(par_info.stream[i]);
+        stream_offset += ti[i].stream_length;
         ti[i].input_stream = par_info.stream[i];
         if((i==0)&&(pa->major_automaton!=NULL))  ti[i].worker_automaton = pa->major_automaton;  
         else 
             ti[i].worker_automaton = createWorkerAutomaton(qa, i, ct);
+        ti[i].worker_automaton->stream_offset = ti[i].stream_offset;
         int rc=pthread_create(&ti[i].thread, NULL, main_thread, &ti[i]);  
     	if (rc)
         {
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index ad0fda5..68a4d43 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -202,7 +202,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         int matched_type = getMatchedType(qa,&c_node); 
                         if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
                         { 
-                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                            qs.node[start_index].matched_start = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                         }
                         else if(matched_type==DFA_PREDICATE)
                         {   
@@ -230,9 +230,9 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 int matched_type = getMatchedType(qa,&c_node);
                                 if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
                                 {  
-                                    int matched_end = lexer.next_start - lexer.begin_stream;
+                                    int matched_end = wa->stream_offset + lexer.next_start - lexer.begin_stream;
                                     if(wa->id==0){
-                                        char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
+                                        char* output_text = substring(lexer.begin_stream, c_node.matched_start-wa->stream_offset, matched_end-wa->stream_offset);
                                         addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
                                     }
                                     else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
@@ -257,7 +257,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             qs_elt = initQueryStacks(&qs, query_state, num_query_state);
                         }
                         us.token_type = RCB;
-                        us.index = lexer.next_start - lexer.begin_stream - 1;
+                        us.index = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1;
                         addUnmatchedSymbol(&unit, us);   
                     }
                     //syntax stack only has one '{'
@@ -368,7 +368,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         int matched_type = getMatchedType(qa,&c_node);
                         if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
                         { 
-                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                            qs.node[start_index].matched_start = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                         }
                         else if(matched_type==DFA_CONDITION)
                         {   
@@ -393,9 +393,9 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
                             {   
-                                int matched_end = lexer.next_start - lexer.begin_stream;
+                                int matched_end = wa->stream_offset + lexer.next_start - lexer.begin_stream;
                                 if(wa->id==0){
-                                    char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
+                                    char* output_text = substring(lexer.begin_stream, c_node.matched_start-wa->stream_offset, matched_end-wa->stream_offset);
                                     addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
                                 }
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
@@ -491,7 +491,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         qs_elt = initQueryStacks(&qs, query_state, num_query_state);
                     }
                     us.token_type = RB;
-                    us.index = lexer.next_start - lexer.begin_stream - 1;
+                    us.index = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1;
                     addUnmatchedSymbol(&unit, us); 
                 }
                 break;
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 4a38b49..19a47af 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -27,6 +27,8 @@ typedef struct QueryStatesInfo{
 typedef struct WorkerAutomaton{
     //thread id
     int id;
+    //position of the input chunk in the whole stream, matched positions are relative to the whole stream
+    int stream_offset;
     JSONQueryDFA* query_automaton;
     SyntaxStack syntax_stack;
     QueryStacks query_stacks;
@@ -51,6 +53,7 @@ typedef struct WorkerAutomaton{
 static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
 {
     wa->query_automaton = qa;
+    wa->stream_offset = 0;
     initSyntaxStack(&wa->syntax_stack);
     initUnitList(&wa->unit_list);
     wa->tuple_list = createTupleList();
-- 
2.43.0


From 9d57da1dba90d25b8794c3cd4d808e57574262f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 13/33] fix: merging query stacks keeps open root matches and
 complete node information

---
 JSONQuery/multi_stack.h                 | 13 +++++++++++++
 JSONQuery/parallel_automata_execution.h |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 3155edc..91418a0 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -422,6 +422,9 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
         } 
         if(root_index!=-1)
         { 
+            //an object or array that starts at the root level might be still open
+            if(src_qs->node[root_index].matched_start!=INVALID)
+                dst_qs->node[dst_qs_elt->start].matched_start = src_qs->node[root_index].matched_start;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
             {
@@ -441,6 +444,16 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                             dst_qs->node[node_index].query_state = src_qs->node[start].query_state;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
                             dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start;
+                            //every node on the single path belongs to the same root
+                            int parent_index = dst_qs_elt->start;
+                            Range p_root_range = dst_qs->node[parent_index].root_range;
+                            int dst_root = p_root_range.end==-1 ? parent_index : dst_qs->root_pointers[p_root_range.start];
+                            dst_qs->node[node_index].parent_range.start = dst_qs->num_parent_pointers;
+                            dst_qs->node[node_index].parent_range.end = dst_qs->num_parent_pointers;
+                            dst_qs->parent_pointers[dst_qs->num_parent_pointers++] = parent_index;
+                            dst_qs->node[node_index].root_range.start = dst_qs->num_root_pointers;
+                            dst_qs->node[node_index].root_range.end = dst_qs->num_root_pointers;
+                            dst_qs->root_pointers[dst_qs->num_root_pointers++] = dst_root;
                             dst_qs_elt->start = node_index;
                             dst_qs_elt->end = node_index;
                             break;
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 7327e33..78007d5 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -249,8 +249,8 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
                                 char* object_text = chunkText(thread_info, num_thread, c_node.matched_start, us.index+1);
-                                addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
-                                qs.node[node_index].matched_start = INVALID;
+                                addTupleInfo(&qs, top_qs_elt.start, c_node.query_state, object_text, tuple_list);
+                                qs.node[top_qs_elt.start].matched_start = INVALID;
                                 sum++;
                             }
                         }
-- 
2.43.0


From 59eeca32a9adbeb5f7c1855bf0335be611ee2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 14/33] fix: a primitive at the end of the input is a token

---
 JSONQuery/lexing.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 9a9b107..67aa097 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -200,6 +200,17 @@ Token nextToken(Lexer* lexer)
         }
         
     }
+    //the input ends with a primitive
+    if(state==2)
+    {
+        reserveContent(lexer, end-token_pointer);
+        substring_in_place(lexer->content, token_pointer, 0, end-token_pointer);
+        lexer->lex_state = 0;
+        lexer->next_start = end;
+        token.token_type = PRI;
+        token.content = lexer->content;
+        return token;
+    }
     token.token_type = END;
     return token;
 }
-- 
2.43.0


From 13688d00b3c3160d653724a508e114533d878c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:17 +0000
Subject: [PATCH 15/33] fix: index ranges are decided with the real array
 counter when chunks are merged

---
 JSONQuery/parallel_automata_execution.h | 42 +++++++++++--------------
 JSONQuery/worker_automaton.c            | 37 +++++-----------------
 2 files changed, 25 insertions(+), 54 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 78007d5..3bd260f 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -283,6 +283,15 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 }
             }
 
+            //the array counter has already passed the upper bound, the rest of this array can't be matched
+            JSONQueryIndexPair pair = getDFAArrayIndex(qa, qs.node[qs_elt.start].query_state);
+            int indexed = !(pair.lower==0&&pair.upper==0);
+            if(indexed && qs.node[qs_elt.start].count>=pair.upper)
+            {
+                qs.node[qs_elt.start].query_state = 0;
+                indexed = 0;
+            }
+
             // find the matched paths inside the unit by using the current state
             int l = 0, tuple_index = -1;
             for(l = 0; l< unit.num_root; l++)
@@ -293,6 +302,13 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 }
             }
         
+            //the worker only knows its own counter, its results are correct if the whole unit is inside of the index range
+            if(indexed && l<unit.num_root)
+            {
+                int counter = qs.node[qs_elt.start].count;
+                if(counter<pair.lower || counter+unit.root_node[l].count>=pair.upper) l = unit.num_root;
+            }
+
             //verification and reprocessing             
             //runtime integration result for the current unit is wrong
             if((l==unit.num_root) && (unit.num_root>0) && (unit.unit_state!=UNIT_UNMATCHED))
@@ -326,30 +342,6 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
             {
                 Tuple tuple = getTuple(tl, tuple_index); 
                 tuple_index = tuple.next_index;
-                int query_state = qs.node[qs_elt.start].query_state;
-                if(query_state == 0) continue;
-                JSONQueryIndexPair pair = getDFAArrayIndex(qa, query_state);
-                int lower = pair.lower; 
-                int upper = pair.upper; 
-                int counter = qs.node[qs_elt.start].count; 
-                //check array indexes
-                if(!(lower==0&&upper==0))
-                {
-                    if(tuple.text!=NULL && (strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0)) { 
-                        qs.node[qs_elt.start].count++; 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
-                        continue;
-                    }
-                    else if(!(counter>=lower && counter<upper)) { 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0;
-                        continue;
-                    }
-                    else
-                    {
-                        int matched_type = getMatchedType(qa, &qs.node[qs_elt.start]);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE) qs.node[qs_elt.start].count++;
-                    }
-                }    
                 // add corresponding tuple into the tuple list 
                 if(tuple.start_position==-1)
                     addTuple(tuple_list, tuple.state, tuple.text);
@@ -361,6 +353,8 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 }
                 sum++;
             }
+            //the elements of this unit have been counted by the worker
+            if(l<unit.num_root) qs.node[qs_elt.start].count += unit.root_node[l].count;
         }
         //merge stack  
         if(merge_needed==1)
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 68a4d43..67711c9 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -1,8 +1,5 @@
 #include "worker_automaton.h"
 
-#define DFA_INCOMPLETE_INDEX 4
-#define DFA_UNSELECTED_CANDIDATE 5
-
 /* 
    return matched type for current state
    0 -- not match DFA_OUTPUT_CANDIDATE -- output candidate 
@@ -20,27 +17,15 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
         int upper = pair.upper;
         int counter = tnode->count;
         //check array indexes
-        if(tnode->root_range.end==-1)  //root node
+        if(tnode->root_range.end==-1)  //root node, the combiner checks its index when the real counter is known
         {   
             if(!((lower==0&&upper==0)||(counter<upper))) match = 0;
-            //current state might be DFA_OUTPUT_CANDIDATE
-            else if(!(lower==0&&upper==0)) match = DFA_UNSELECTED_CANDIDATE; 
         }
         else if(!((lower==0&&upper==0)||(counter>=lower && counter<upper)))
         {
             match = 0;
         }
     }
-    else if(tnode->root_range.end==-1)
-    {
-        JSONQueryIndexPair pair = getDFAArrayIndex(qa, tnode->query_state);
-        int lower = pair.lower; 
-        int upper = pair.upper;
-        int counter = tnode->count;
-        if(!((lower==0&&upper==0)||(counter<upper))) match = 0;
-        //unknown information about array indexes
-        else if(!(lower==0&&upper==0)) match = DFA_INCOMPLETE_INDEX; 
-    }
     return match;
 }
 
@@ -200,7 +185,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node); 
-                        if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
+                        if(matched_type==DFA_OUTPUT_CANDIDATE)  
                         { 
                             qs.node[start_index].matched_start = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                         }
@@ -228,7 +213,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             if(c_node.matched_start!=INVALID)
                             {  
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                                if(matched_type==DFA_OUTPUT_CANDIDATE)
                                 {  
                                     int matched_end = wa->stream_offset + lexer.next_start - lexer.begin_stream;
                                     if(wa->id==0){
@@ -303,10 +288,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
-                                else if(matched_type==DFA_INCOMPLETE_INDEX)
-                                {
-                                    addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);  
-                                }
                                 start_index++;
                             }
                         }
@@ -366,7 +347,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {   
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
+                        if(matched_type==DFA_OUTPUT_CANDIDATE)  
                         { 
                             qs.node[start_index].matched_start = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                         }
@@ -391,7 +372,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         if(c_node.matched_start!=INVALID)
                         {
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                            if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {   
                                 int matched_end = wa->stream_offset + lexer.next_start - lexer.begin_stream;
                                 if(wa->id==0){
@@ -401,10 +382,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
                             }
-                            else if(matched_type==DFA_INCOMPLETE_INDEX)
-                            {
-                                addTupleInfo(&qs, start_index, c_node.query_state, "]", tl);
-                            }
                         }
                         start_index++;
                     }
@@ -526,7 +503,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                        if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION)
                         {
                             addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
                         }
@@ -576,7 +553,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         {
                             TreeNode c_node = qs.node[start_index];
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                            if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION)
                             {
                                 addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
                             }
-- 
2.43.0


From 0c68c7f3db3468daebb71375549f3d13da6599a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 16/33] fix: constraint table holds any number of keys of any
 length, arrays are never taken for a key

---
 JSONQuery/constraint.h       | 31 +++++++++++++++++++++++--------
 JSONQuery/worker_automaton.c |  2 +-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index 6681e9e..bacc59b 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -3,26 +3,29 @@
 
 #include <stdlib.h>
 #include "lexing.h"
+#include "utility.h"
 
-#define MAX_KEY_TEXT 100
-#define MAX_CONSTRAINT 1000
+#define INIT_CONSTRAINT 64
 #define MAX_STATES 100
 #define INVALID -1
 
 typedef struct ConstraintInfo{
-    char token_name[MAX_KEY_TEXT];
+    char* token_name;  //NULL for arrays
     int type;
     int state_set[MAX_STATES];
     int num_state;
 }ConstraintInfo;
 
 typedef struct ConstraintTable{
-    ConstraintInfo constraint_info[MAX_CONSTRAINT];
+    ConstraintInfo* constraint_info;
+    int capacity;
     int num_constraint_info;
 }ConstraintTable;
 
 static inline void initConstraintTable(ConstraintTable* ct)
 {
+    ct->constraint_info = (ConstraintInfo*)malloc(INIT_CONSTRAINT*sizeof(ConstraintInfo));
+    ct->capacity = INIT_CONSTRAINT;
     ct->num_constraint_info = 0;
 }
 
@@ -44,7 +47,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
         char* constraint_key_name = ci->token_name;
         while(i<last)
         {
-            if(strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
                 int j = 0;
@@ -90,7 +93,7 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         int i = 0;
         while(i<last)
         {
-            if(strcmp(name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(name, ct->constraint_info[i].token_name)==0)
             {
                 index = i;
                 break;
@@ -128,9 +131,15 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         }
     }
     else{
+        if(ct->num_constraint_info==ct->capacity)
+        {
+            ct->capacity *= 2;
+            ct->constraint_info = (ConstraintInfo*)realloc(ct->constraint_info, ct->capacity*sizeof(ConstraintInfo));
+        }
         ++ct->num_constraint_info;
         ct->constraint_info[index].type = type;
-        if(type==KY) strcopy(name, ct->constraint_info[index].token_name);
+        ct->constraint_info[index].token_name = NULL;
+        if(type==KY) ct->constraint_info[index].token_name = allocate_and_copy(name);
         ct->constraint_info[index].num_state = 0;
         int state_index = (ct->constraint_info[index].num_state++);
         ct->constraint_info[index].state_set[state_index] = state;
@@ -143,7 +152,7 @@ static void printConstraintTable(ConstraintTable* ct)
     int i = 0, j = 0;
     while(i<ct->num_constraint_info)
     {
-        printf("starting states for key %s or array %d; number of states %d\n", ct->constraint_info[i].token_name, ct->constraint_info[i].type, ct->constraint_info[i].num_state);
+        printf("starting states for key %s or array %d; number of states %d\n", ct->constraint_info[i].token_name ? ct->constraint_info[i].token_name : "", ct->constraint_info[i].type, ct->constraint_info[i].num_state);
         j = 0;
         while(j<ct->constraint_info[i].num_state)
         {
@@ -158,7 +167,13 @@ static void printConstraintTable(ConstraintTable* ct)
 static inline void freeConstraintTable(ConstraintTable* ct)
 {
     if(ct!=NULL)
+    {
+        int i;
+        for(i = 0; i<ct->num_constraint_info; i++)
+            if(ct->constraint_info[i].token_name!=NULL) free(ct->constraint_info[i].token_name);
+        free(ct->constraint_info);
         free(ct);
+    }
 }
 
 
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 67711c9..85da269 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -485,7 +485,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 {
                     ConstraintInfo ci;
                     ci.type = KY;
-                    strcopy(token.content, ci.token_name);
+                    ci.token_name = token.content;
                     updateStateInfo(ct, &ci);
                     if(ci.num_state>0)
                     {   
-- 
2.43.0


From 481596c9c3e936a2db2be4262e6bc66cb9ef43d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 17/33] fix: query stack tree has room for every query state on
 every level

---
 JSONQuery/multi_stack.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 91418a0..f0015df 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -6,7 +6,8 @@
 #include "tuple_list.h"
 #include "stack.h"
 
-#define MAX_NODE 500 //max node in query stack tree
+#define MAX_PATH 100 //max query states on each level of query stack tree
+#define MAX_NODE ((MAX_STACK+1)*MAX_PATH) //max node in query stack tree
 #define INVALID -1  //invalid state
 
 typedef struct Range{
@@ -110,11 +111,11 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
       during each iteration, parent pointers and root pointers for one single node might not be placed in consecutive position,
       so we need to record them temporarily, and update stack tree after iteration
     */
-    int parent_pointer[MAX_NODE][MAX_NODE];
-    int num_parent_pointer[MAX_NODE];
+    int parent_pointer[MAX_PATH][MAX_PATH];
+    int num_parent_pointer[MAX_PATH];
 
-    int root_pointer[MAX_NODE][MAX_NODE];
-    int num_root_pointer[MAX_NODE];
+    int root_pointer[MAX_PATH][MAX_PATH];
+    int num_root_pointer[MAX_PATH];
 
     for(i = qs_elt.start; i<=qs_elt.end; i++)
     {
-- 
2.43.0


From 58942a9fa2072f999f54f00125cae5dce7df09c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 18/33] hook: memory footprint selectable under JPSTREAM_VERIF

---
 JSONQuery/path_processor.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index f636aa9..3fa3e69 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -20,7 +20,13 @@
 #define NOCONTEXT 0
 #define FINISH 1
 #define INPROGRESS 0
+#ifdef JPSTREAM_VERIF
+//verification hook: the memory bound can be chosen by the harness
+extern int jpstream_verif_memory_footprint;
+#define MEMORY_FOOTPRINT jpstream_verif_memory_footprint
+#else
 #define MEMORY_FOOTPRINT 250000000
+#endif
 
 char* loadInputStream(char* file_name)
 {
-- 
2.43.0


From 541b339733151a94dcc76e3ea500a16c6fdce781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 19/33] fix: results that span several bounded input streams
 are complete

---
 JSONQuery/carried_text.h                | 48 +++++++++++++++++++++++++
 JSONQuery/parallel_automata_execution.h | 26 +++++++++++++-
 JSONQuery/streaming_automaton.c         | 26 ++++++++++----
 JSONQuery/streaming_automaton.h         |  8 +++++
 JSONQuery/worker_automaton.c            | 14 ++++++--
 JSONQuery/worker_automaton.h            |  4 +++
 6 files changed, 117 insertions(+), 9 deletions(-)
 create mode 100644 JSONQuery/carried_text.h

diff --git a/JSONQuery/carried_text.h b/JSONQuery/carried_text.h
new file mode 100644
index 0000000..fb52aaa
--- /dev/null
+++ b/JSONQuery/carried_text.h
@@ -0,0 +1,48 @@
+#ifndef __CARRIED_TEXT_H__
+#define __CARRIED_TEXT_H__
+
+#include <stdlib.h>
+#include <string.h>
+#include "utility.h"
+
+/* 
+   text of the matches that are still open at the end of an input stream, 
+   needed when the next input stream continues the same JSON data (all positions are relative to the whole data)
+*/
+typedef struct CarriedText{
+    char* text;
+    int start;
+}CarriedText;
+
+static inline void initCarriedText(CarriedText* carried)
+{
+    carried->text = NULL;
+    carried->start = -1;
+}
+
+static inline void destroyCarriedText(CarriedText* carried)
+{
+    if(carried->text!=NULL) free(carried->text);
+    initCarriedText(carried);
+}
+
+//get the text between two positions, stream begins at position offset
+static inline char* matchedText(CarriedText* carried, char* stream, int offset, int start, int end)
+{
+    if(start>=offset) return substring(stream, start-offset, end-offset);
+    char* text = (char*)malloc((end-start+1)*sizeof(char));
+    memcpy(text, carried->text+(start-carried->start), offset-start);
+    memcpy(text+(offset-start), stream, end-offset);
+    text[end-start] = '\0';
+    return text;
+}
+
+//replace the carried text
+static inline void carryText(CarriedText* carried, char* text, int start)
+{
+    destroyCarriedText(carried);
+    carried->text = text;
+    carried->start = start;
+}
+
+#endif // !__CARRIED_TEXT_H__
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 3bd260f..cb0a04d 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -40,6 +40,8 @@ typedef struct ParallelAutomata{
     QueryStacks query_stacks; 
     TupleList* tuple_list;
     WorkerAutomaton* major_automaton;
+    //position of the next input stream in the whole data
+    int stream_offset;
     int finish_flag;
 }ParallelAutomata;
 
@@ -48,6 +50,7 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
     pa->query_automaton = qa;
     pa->tuple_list = NULL;
     pa->major_automaton = NULL;
+    pa->stream_offset = 0;
     pa->finish_flag = INPROGRESS;
 }
 
@@ -66,6 +69,7 @@ static inline void destroyParallelAutomata(ParallelAutomata* pa)
         }
         else if(pa->finish_flag==FINISH)
         {   
+            destroyCarriedText(&(pa->major_automaton->carried));
             destroyWorkerAutomaton(pa->major_automaton);  
         }
     }
@@ -136,6 +140,13 @@ static inline char* chunkText(ThreadInfo* thread_info, int num_thread, int start
     int length = 0;
     int i;
     int chunk_start = thread_info[0].stream_offset;
+    //the first part comes from previous input streams
+    if(start<chunk_start)
+    {
+        CarriedText* carried = &(thread_info[0].worker_automaton->carried);
+        length = chunk_start-start;
+        memcpy(text, carried->text+(start-carried->start), length);
+    }
     for(i = 0; i<num_thread; i++)
     {
         int chunk_end = chunk_start+thread_info[i].stream_length;
@@ -332,6 +343,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     ss = seq_wa->syntax_stack;
                     qs = seq_wa->query_stacks;
                     qs_elt = seq_wa->query_stacks_element;   
+                    seq_wa->need_reprocess = NOREPROCESS;
                     if(j==ul.count_units) merge_needed = 0;
                     continue;
                 }
@@ -378,7 +390,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     JSONQueryDFA* qa = pa->query_automaton;
     ThreadInfo ti[MAX_THREAD]; 
     int i;
-    int stream_offset = 0;
+    int stream_offset = pa->stream_offset;
     for(i = 0; i<num_cores; i++)
     {
         //initialize each thread
@@ -407,6 +419,18 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     pa->query_stacks = ti[0].worker_automaton->query_stacks;
     pa->tuple_list = tl;
     pa->major_automaton = ti[0].worker_automaton;
+    //keep the text of open matches, the next input stream might complete them
+    QueryStacks* qs = &(ti[0].worker_automaton->query_stacks);
+    int open_start = INVALID;
+    for (i = 0; i <qs->num_node; i++)
+    {
+        int start = qs->node[i].matched_start;
+        if(start!=INVALID && (open_start==INVALID || start<open_start)) open_start = start;
+    }
+    char* open_text = NULL;
+    if(open_start!=INVALID) open_text = chunkText(ti, num_cores, open_start, stream_offset);
+    carryText(&(ti[0].worker_automaton->carried), open_text, open_start);
+    pa->stream_offset = stream_offset;
     for (i = 1; i <num_cores; i++)
     {
         freeWorkerAutomaton(ti[i].worker_automaton); 
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index cd874a1..ed125a6 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -170,7 +170,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     int matched_type = getMatchedType(qa,qs_elt);
                     if(matched_type==DFA_OUTPUT_CANDIDATE)  
                     { 
-                        qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                        qs_elt->matched_start = sa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                     }
                     else if(matched_type==DFA_PREDICATE)
                     {
@@ -186,8 +186,8 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 //it is a matched output
                 if(qs_elt->matched_start!=INVALID && getMatchedType(qa, qs_elt)==DFA_OUTPUT_CANDIDATE)
                 {
-                    int position = lexer.next_start - lexer.begin_stream;
-                    char* output_text = substring(lexer.begin_stream, qs_elt->matched_start, position);
+                    int position = sa->stream_offset + lexer.next_start - lexer.begin_stream;
+                    char* output_text = matchedText(&sa->carried, lexer.begin_stream, sa->stream_offset, qs_elt->matched_start, position);
                     qs_elt->matched_start = INVALID;
                     addTuple(tl, qs_elt->query_state, output_text);
                 }
@@ -221,7 +221,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     int matched_type = getMatchedType(qa, qs_elt);                 
                     if(matched_type==DFA_OUTPUT_CANDIDATE)  
                     { 
-                        qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1;  
+                        qs_elt->matched_start = sa->stream_offset + lexer.next_start - lexer.begin_stream - 1;  
                     }
                     else if(matched_type==DFA_CONDITION)
                     {
@@ -249,9 +249,10 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     //it is a matched output
                     if(top_qs_elt.matched_start!=INVALID && getMatchedType(qa, &top_qs_elt)==DFA_OUTPUT_CANDIDATE)  
                     { 
-                        int position = lexer.next_start - lexer.begin_stream;
-                        char* output_text = substring(lexer.begin_stream, top_qs_elt.matched_start, position); 
+                        int position = sa->stream_offset + lexer.next_start - lexer.begin_stream;
+                        char* output_text = matchedText(&sa->carried, lexer.begin_stream, sa->stream_offset, top_qs_elt.matched_start, position); 
                         top_qs_elt.matched_start = INVALID;
+                        queryStackTopUpdate(qs, top_qs_elt);
                         addTuple(tl, top_qs_elt.query_state, output_text);  
                     }
                     //syntax stack only has one '['
@@ -321,6 +322,19 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
+    //keep the text of open matches, the next input stream might complete them
+    int stream_end = sa->stream_offset + (lexer.end_stream - lexer.begin_stream);
+    int open_start = qs_elt->matched_start;
+    int i;
+    for(i = 0; i<=qs->top_item; i++)
+    {
+        int start = qs->item[i].matched_start;
+        if(start!=INVALID && (open_start==INVALID || start<open_start)) open_start = start;
+    }
+    char* open_text = NULL;
+    if(open_start!=INVALID) open_text = matchedText(&sa->carried, lexer.begin_stream, sa->stream_offset, open_start, stream_end);
+    carryText(&sa->carried, open_text, open_start);
+    sa->stream_offset = stream_end;
     destroyLexer(&lexer);
     sa->query_state = qs_elt->query_state;
     sa->count = qs_elt->count;
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 12613e6..fc96d82 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -6,6 +6,7 @@
 #include "tuple_list.h"
 #include "lexing.h"
 #include "constraint.h"
+#include "carried_text.h"
 
 #define OPEN 1
 #define CLOSE 0
@@ -23,6 +24,10 @@ typedef struct StreamingAutomaton{
     int count;  
     // matched starting position of object or array
     int matched_start; 
+    // position of the current input stream in the whole data
+    int stream_offset;
+    // text of open matches from previous input streams
+    CarriedText carried;
     // whether streaming automaton has data constraint
     int constraint_flag;
     // saves data constraint table
@@ -41,6 +46,8 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
     sa->query_state = 1;   
     sa->count = 0;  
     sa->matched_start = INVALID;
+    sa->stream_offset = 0;
+    initCarriedText(&sa->carried);
     //by default don't generate any data constraints
     sa->constraint_flag = CLOSE;
     sa->constraint_table = NULL;
@@ -58,6 +65,7 @@ static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
     {
         sa->tuple_list = createTupleList();
     }
+    else destroyCarriedText(&sa->carried);
 }
 
 // data_constraint_flag: whether sa needs to generate data constraints
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 85da269..4cc441c 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -121,6 +121,16 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
         ss = wa->syntax_stack;
         qs = wa->query_stacks;
         qs_elt = wa->query_stacks_element;
+        if(wa->need_reprocess!=REPROCESS)
+        {
+            //a new input stream starts with a new tuple list
+            int i;
+            for(i = 0; i<qs.num_node; i++)
+            {
+                qs.node[i].first_tuple_index = -1;
+                qs.node[i].last_tuple_index = -1;
+            }
+        }
     }
     else if(wa->id==0)
     {
@@ -217,7 +227,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 {  
                                     int matched_end = wa->stream_offset + lexer.next_start - lexer.begin_stream;
                                     if(wa->id==0){
-                                        char* output_text = substring(lexer.begin_stream, c_node.matched_start-wa->stream_offset, matched_end-wa->stream_offset);
+                                        char* output_text = matchedText(&wa->carried, lexer.begin_stream, wa->stream_offset, c_node.matched_start, matched_end);
                                         addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
                                     }
                                     else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
@@ -376,7 +386,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             {   
                                 int matched_end = wa->stream_offset + lexer.next_start - lexer.begin_stream;
                                 if(wa->id==0){
-                                    char* output_text = substring(lexer.begin_stream, c_node.matched_start-wa->stream_offset, matched_end-wa->stream_offset);
+                                    char* output_text = matchedText(&wa->carried, lexer.begin_stream, wa->stream_offset, c_node.matched_start, matched_end);
                                     addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
                                 }
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 19a47af..4682bdd 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -7,6 +7,7 @@
 #include "lexing.h"
 #include "stack.h"
 #include "constraint.h"
+#include "carried_text.h"
 
 #define OPEN 1
 #define CLOSE 0
@@ -29,6 +30,8 @@ typedef struct WorkerAutomaton{
     int id;
     //position of the input chunk in the whole stream, matched positions are relative to the whole stream
     int stream_offset;
+    //text of open matches from previous input streams
+    CarriedText carried;
     JSONQueryDFA* query_automaton;
     SyntaxStack syntax_stack;
     QueryStacks query_stacks;
@@ -54,6 +57,7 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
 {
     wa->query_automaton = qa;
     wa->stream_offset = 0;
+    initCarriedText(&wa->carried);
     initSyntaxStack(&wa->syntax_stack);
     initUnitList(&wa->unit_list);
     wa->tuple_list = createTupleList();
-- 
2.43.0


From a03a5182bbd6f4c8e857d0a19cf05ac8c99db22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 20/33] fix: filters as the last step, and outputs that are
 conditions of their own filter

A query that ends with a filter returned the unfiltered objects together with
the texts of the conditions, and a condition with the same path as the output
(or covered by a wildcard) was lost. Members of the array which are no objects
could be selected by the filter around them.
---
 DFABuilder/include/dfa.h                | 12 +++++-
 DFABuilder/include/dfa_builder.h        |  5 +++
 DFABuilder/src/dfa_builder.cpp          | 57 ++++++++++++++++---------
 JSONQuery/parallel_automata_execution.h |  4 +-
 JSONQuery/predicate.c                   | 12 +++---
 JSONQuery/streaming_automaton.c         |  8 ++--
 JSONQuery/worker_automaton.c            | 10 ++---
 7 files changed, 69 insertions(+), 39 deletions(-)

diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index 18c183c..0b11ab5 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -20,7 +20,7 @@ typedef struct JSONQueryDFA {
     uint32_t states_num, inputs_num;
     int32_t* table; // states_num x inputs_num
     int32_t* stop_state; // states_num
-    int32_t* accept_type; // states_num : 1 is output & 2 is predicate
+    int32_t* accept_type; // states_num : DFA_OUTPUT_CANDIDATE, DFA_CONDITION, DFA_PREDICATE or DFA_OUTPUT_PREDICATE
     JSONQueryIndexPair* array_index; // states_num
     char** names; // inputs_num
 } JSONQueryDFA;
@@ -30,6 +30,16 @@ typedef struct JSONQueryDFA {
 #define DFA_OUTPUT_CANDIDATE (1)
 #define DFA_CONDITION (2)
 #define DFA_PREDICATE (3)
+// the filtered objects are the output
+#define DFA_OUTPUT_PREDICATE (4)
+
+static inline bool isObjectOutput(int32_t accept_type) {
+    return accept_type == DFA_OUTPUT_CANDIDATE || accept_type == DFA_OUTPUT_PREDICATE;
+}
+
+static inline bool isObjectPredicate(int32_t accept_type) {
+    return accept_type == DFA_PREDICATE || accept_type == DFA_OUTPUT_PREDICATE;
+}
 
 static inline void initJSONQueryDFA(JSONQueryDFA* dfa, uint32_t states_num, uint32_t inputs_num) {
     dfa->states_num = states_num;
diff --git a/DFABuilder/include/dfa_builder.h b/DFABuilder/include/dfa_builder.h
index 4483878..f12decf 100644
--- a/DFABuilder/include/dfa_builder.h
+++ b/DFABuilder/include/dfa_builder.h
@@ -18,6 +18,7 @@ typedef struct JSONQueryDFAContext {
     ASTNode** subtrees;
     JSONQueryIntVecPair* states_mapping;
     JSONQueryIntVecPair array_predicate_states;
+    bool* output_states;
 } JSONQueryDFAContext;
 
 extern JSONQueryDFA* buildJSONQueryDFA(const char* json_path, JSONQueryDFAContext* context);
@@ -48,6 +49,10 @@ static inline int getContextPredicateStates(JSONQueryDFAContext* ctx, int idx) {
     return ctx->array_predicate_states.value[idx];
 }
 
+static inline bool isContextOutputState(JSONQueryDFAContext* ctx, int state) {
+    return ctx->output_states[state];
+}
+
 static inline void printJSONQueryDFAContext(JSONQueryDFAContext* ctx) {
     for (int i = 0; i < ctx->states_num; ++i) {
         if (ctx->subtrees[i]) {
diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 23b021f..678693d 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -88,6 +88,8 @@ struct StackContext {
     int state_handle_now;
     vector<ASTNode*> tree_mapping;
     set<int> output_states;
+    // filters that are not in the scope of a descendant operator
+    set<int> child_filters;
 
     StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), input_mapping(3), array_range(0) {}
     ~StackContext() {}
@@ -127,7 +129,11 @@ struct StackContext {
     bool create_dfa(bool in_predicate = false) {
         string s = getOutput();
         if (check.find(s) == check.end()) check[s] = model->size()+1;
-        else return true;
+        else {
+            // the path of a predicate condition, which is the output as well
+            if (!in_predicate) last_id_generated = check[s];
+            return true;
+        }
         print();
         last_st_generated = true;
         for (auto& se: st) 
@@ -241,6 +247,8 @@ struct StackContext {
                     else begin = INT_MIN;
                     if (p->right) end = p->right->number;
                     else end = INT_MAX;
+                    // (0, 0) means that there is no range at all
+                    if (begin == 0 && end == 0) begin = end = 1;
                     push({set_array_index, begin, end});
                     create_dfa();
                     array_range[model->size()-1] = {begin, end};
@@ -266,6 +274,10 @@ struct StackContext {
                     evaluatorModifyReference(p);
                     state_handle_now = model->size()-1;
                     states_mapping[state_handle_now] = vector<int>(0);
+                    bool descendant = false;
+                    for (auto& se: st)
+                        if (se.stype == set_parent_all || se.stype == set_parent_property) descendant = true;
+                    if (!descendant) child_filters.insert(state_handle_now);
                     filter_trees.push_back(p->left);
                     tree_mapping[state_handle_now] = p->left;
                     construct_filter(p->left);
@@ -299,17 +311,14 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
         int stop_state = cpd_dfa->isStopState(i);
         dfa->stop_state[i] = stop_state;
         if (stop_state) {
+            bool filter = ctx->states_mapping.find(stop_state-1) != ctx->states_mapping.end();
             if (ctx->output_states.find(stop_state) != ctx->output_states.end())
-                dfa->accept_type[i] = DFA_OUTPUT_CANDIDATE;
-            else {
-                dfa->accept_type[i] = DFA_CONDITION;
-                for (int j = 0; j < cpd_dfa->getStateSum(); ++j) {
-                    if (cpd_dfa->nextState(j, 2) == i) {
-                        dfa->accept_type[i] = DFA_PREDICATE;
-                        break;
-                    }
-                }
-            }
+                dfa->accept_type[i] = filter ? DFA_OUTPUT_PREDICATE : DFA_OUTPUT_CANDIDATE;
+            else
+                dfa->accept_type[i] = filter ? DFA_PREDICATE : DFA_CONDITION;
+            // only objects are filtered, there is nothing to select in other members of the array
+            if (ctx->child_filters.find(stop_state-1) != ctx->child_filters.end())
+                dfa->table[i * dfa->inputs_num + 2] = 0;
             auto pair = ctx->array_range[stop_state-1];
             if (pair.first || pair.second) {
                 dfa->array_index[i] = {pair.first, pair.second};
@@ -328,17 +337,18 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
     return dfa;
 }
 
-static int acc_id2state(DFACompressed* cpd_dfa, int acc) {
-    for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
-        if (acc == cpd_dfa->isStopState(i)) {
-            return i;
-        }
-    }
-    return -1;
+// the state of a condition (like a.b), starting from the state of its predicate
+static int condition2state(JSONQueryDFA* m_dfa, int state, const char* condition) {
+    std::istringstream names(condition);
+    std::string name;
+    while (std::getline(names, name, '.'))
+        state = dfaNextStateByStr(m_dfa, state, name.c_str());
+    return state;
 } 
 
 static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryDFA* m_dfa, JSONQueryDFAContext* context) {
     context->states_num = cpd_dfa->getStateSum();
+    context->output_states = (bool*) calloc(cpd_dfa->getStateSum()+1, sizeof(bool));
     context->subtrees = (ASTNode**) calloc(cpd_dfa->getStateSum()+1, sizeof(ASTNode*));
     context->states_mapping = (JSONQueryIntVecPair*) calloc(cpd_dfa->getStateSum()+1, sizeof(JSONQueryIntVecPair));
     context->array_predicate_states.value_size = 0;
@@ -346,16 +356,21 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
     for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
         int acc = getDFAStopState(m_dfa, i);
         if (acc) {
-            context->subtrees[i] = ctx->tree_mapping[acc-1];
+            context->output_states[i] = isObjectOutput(m_dfa->accept_type[i]);
             const auto& vec = ctx->states_mapping[acc-1];
+            // a condition that is the output as well has already got its tree
+            if (context->subtrees[i] == NULL) context->subtrees[i] = ctx->tree_mapping[acc-1];
             context->states_mapping[i].value_size = vec.size();
             if (!vec.empty()) {
                 context->states_mapping[i].value = (int*)calloc(vec.size(), sizeof(int));
                 for (int j = 0; j < vec.size(); ++j) {
-                    context->states_mapping[i].value[j] = acc_id2state(cpd_dfa, vec[j]+1);
+                    ASTNode* condition = ctx->tree_mapping[vec[j]];
+                    int state = condition2state(m_dfa, i, condition->string);
+                    context->states_mapping[i].value[j] = state;
+                    context->subtrees[state] = condition;
                 }
             }
-            if (m_dfa->accept_type[i] == DFA_PREDICATE) {
+            if (isObjectPredicate(m_dfa->accept_type[i])) {
                 int k = context->array_predicate_states.value_size++;
                 context->array_predicate_states.value[k] = i;
             }
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index cb0a04d..b198ee1 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -211,7 +211,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                         if(c_node.matched_start!=INVALID)
                         {
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE)
+                            if(isObjectOutput(matched_type))
                             {  
                                 char* object_text = chunkText(thread_info, num_thread, c_node.matched_start, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
@@ -238,7 +238,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             //increase array counter 
                             qs.node[qs_elt.start].count++;  
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_PREDICATE)
+                            if(isObjectPredicate(matched_type))
                             {
                                 sum++; 
                                 addTupleInfo(&qs, node_index, c_node.query_state, "}", tuple_list);
diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 2f6e374..dadec75 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -80,20 +80,20 @@ Output* generateFinalOutput(PredicateFilter* pf)
             PredicateCondition* pc = pf->predicate_conditions[pred_state];
         
             //check whether the current state is a predicate condition
-            ASTNode* node = getContextSubtree(pf->ctx, state);
             int index = 0;
-            while(node!=NULL)
+            while(pc[index].name!=NULL)
             {  
-                if(pc[index].name==NULL) break;
-                if(strcmp(pc[index].name, node->string)==0) break;
+                if(getContextValueOfMapping(pf->ctx, pred_state, index)==state) break;
                 index++;
             }
             //update value for predicate condition
-            if(node!=NULL&&pc[index].name!=NULL)
+            if(pc[index].name!=NULL)
             {  
+                if(pc[index].text!=NULL) free(pc[index].text);
                 pc[index].text = allocate_and_copy(text); 
             }
-            else //add candidate output into buffer
+            //add candidate output into buffer
+            if(isContextOutputState(pf->ctx, state))
             {
                 addOutputElement(buffer, text);
             }
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index ed125a6..161377c 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -168,11 +168,11 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 {
                     obj_s(ss);  
                     int matched_type = getMatchedType(qa,qs_elt);
-                    if(matched_type==DFA_OUTPUT_CANDIDATE)  
+                    if(isObjectOutput(matched_type))  
                     { 
                         qs_elt->matched_start = sa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                     }
-                    else if(matched_type==DFA_PREDICATE)
+                    if(isObjectPredicate(matched_type))
                     {
                         addTuple(tl, qs_elt->query_state, "{"); 
                     }
@@ -184,7 +184,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 break;
             case RCB:   //right curly branket
                 //it is a matched output
-                if(qs_elt->matched_start!=INVALID && getMatchedType(qa, qs_elt)==DFA_OUTPUT_CANDIDATE)
+                if(qs_elt->matched_start!=INVALID && isObjectOutput(getMatchedType(qa, qs_elt)))
                 {
                     int position = sa->stream_offset + lexer.next_start - lexer.begin_stream;
                     char* output_text = matchedText(&sa->carried, lexer.begin_stream, sa->stream_offset, qs_elt->matched_start, position);
@@ -209,7 +209,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     {
                         elt_obj_e(ss);
                         increaseArrayCounter(qs_elt);
-                        if(getMatchedType(qa, qs_elt)==DFA_PREDICATE)
+                        if(isObjectPredicate(getMatchedType(qa, qs_elt)))
                         {  
                             addTuple(tl, qs_elt->query_state, "}");
                         }
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 4cc441c..37392ac 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -195,11 +195,11 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node); 
-                        if(matched_type==DFA_OUTPUT_CANDIDATE)  
+                        if(isObjectOutput(matched_type))  
                         { 
                             qs.node[start_index].matched_start = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                         }
-                        else if(matched_type==DFA_PREDICATE)
+                        if(isObjectPredicate(matched_type))
                         {   
                             addTupleInfo(&qs, start_index, c_node.query_state, "{", tl);
                         }
@@ -223,7 +223,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             if(c_node.matched_start!=INVALID)
                             {  
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(matched_type==DFA_OUTPUT_CANDIDATE)
+                                if(isObjectOutput(matched_type))
                                 {  
                                     int matched_end = wa->stream_offset + lexer.next_start - lexer.begin_stream;
                                     if(wa->id==0){
@@ -294,7 +294,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 //increase array counter
                                 qs.node[start_index].count++;
                                 int matched_type = getMatchedType(qa,&c_node); 
-                                if(matched_type==DFA_PREDICATE)
+                                if(isObjectPredicate(matched_type))
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
@@ -322,7 +322,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 //increase array counter
 				qs.node[start_index].count++;
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(matched_type==DFA_PREDICATE)
+                                if(isObjectPredicate(matched_type))
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
-- 
2.43.0


From 0f52e0e50e6d8ed78630904045ce604ec1eb44c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 21/33] fix: comparisons and calculations only combine values
 they are defined for

A missing member or a string was compared as the number 0 or as a pointer,
negative numbers and containers in a filter had no value, and a remainder by
zero ended the process.
---
 JSONPathParser/jsonpath_evaluator.h | 56 +++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 3d6be6e..4a1b646 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -3,6 +3,7 @@
 
 #include "jsonpath_model.h"
 #include <string.h>
+#include <ctype.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -74,6 +75,26 @@ static inline JSONPathValue computeUnaryOperator(JSONPathOperatorType opt, JSONP
     return v;
 }
 
+// only two numbers or two strings can be ordered, other values are neither less nor greater
+static inline bool compareValues(JSONPathOperatorType opt, JSONPathValue v1, JSONPathValue v2) {
+    bool less, greater;
+    if (v1.vtype == jvt_number && v2.vtype == jvt_number) {
+        less = (v1.number < v2.number);
+        greater = (v1.number > v2.number);
+    } else if (v1.vtype == jvt_string && v2.vtype == jvt_string) {
+        int r = strcmp(v1.string, v2.string);
+        less = (r < 0);
+        greater = (r > 0);
+    } else return false;
+    switch (opt) {
+        case jot_less: return less;
+        case jot_greater: return greater;
+        case jot_leq: return !greater;
+        case jot_geq: return !less;
+        default: return false;
+    }
+}
+
 /**
     jot_or = 0, jot_and, // boolean
     jot_equal, jot_less, jot_greater, jot_neq, jot_leq, jot_geq,  // comparing
@@ -117,21 +138,19 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             v.boolean = !(v.boolean);
             return v;
         case jot_less:
-            v.vtype = jvt_boolean;
-            v.boolean = (v1.number < v2.number);
-            return v;
         case jot_greater:
-            v.vtype = jvt_boolean;
-            v.boolean = (v1.number > v2.number);
-            return v;
         case jot_leq:
-            v.vtype = jvt_boolean;
-            v.boolean = (v1.number <= v2.number);
-            return v;
         case jot_geq:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number >= v2.number);
+            v.boolean = compareValues(opt, v1, v2);
             return v;
+        default:
+            break;
+    }
+    // calculation is only defined for numbers
+    v.vtype = jvt_null;
+    if (v1.vtype != jvt_number || v2.vtype != jvt_number) return v;
+    switch (opt) {
         case jot_add:
             v.vtype = jvt_number;
             v.number = (v1.number + v2.number);
@@ -149,9 +168,13 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             v.number = (v1.number / v2.number);
             return v;
         case jot_mod:
+            // the remainder of a division by zero has no value
+            if ((long long int)(v2.number) == 0) return v;
             v.vtype = jvt_number;
             v.number = (long long int)(v1.number) % (long long int)(v2.number);
             return v;
+        default:
+            break;
     }
     return v;
 }
@@ -183,7 +206,11 @@ static inline JSONPathValue stringToValue(const char* str) {
         v.vtype = jvt_string; v.string = s;
         return v;
     }
-    if (isdigit(str[0])) {
+    if (str[0] == '{' || str[0] == '[') {
+        v.vtype = jvt_boolean; v.boolean = true;
+        return v;
+    }
+    if (isdigit((unsigned char)str[0]) || str[0] == '-') {
         v.vtype = jvt_number; v.number = atof(str);
         return v;
     }
@@ -290,12 +317,13 @@ static inline ASTNode* evaluatorModifyReference(ASTNode* node) {
             strcpy(name, node->left->string);
             strcat(name, ".");
             strcat(name, node->right->string);
-            free(node->left->string);
+            ASTNode* variable = node->left;
+            free(variable->string);
             free(node->right->string);
             free(node->right);
             free(node);
-            node->left->string = name;
-            return node->left;
+            variable->string = name;
+            return variable;
         }
     }
     return NULL;
-- 
2.43.0


From 5696d4c6ae8672c66c83c1d085f6f3ec72369f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 22/33] fix: && binds stronger than ||, and % as strong as *
 and /

---
 JSONPathParser/parser_j.y | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/parser_j.y b/JSONPathParser/parser_j.y
index ef61cca..d5c4586 100644
--- a/JSONPathParser/parser_j.y
+++ b/JSONPathParser/parser_j.y
@@ -39,11 +39,13 @@ void jerror (JLTYPE * yylloc, yyscan_t locp, ASTNode **root, const char *msg);
 %type <node> AllPath LocationPath Number Property IndexList Predicate Expr  
 %start AllPath
 
-%left OR AND
+%left OR
+%left AND
 %left NEQ LEQ GEQ EQ '<' '>'
 %left '+' '-'
-%left '*' '/' 
+%left '*' '/' '%'
 %right '!'
+%left '.' PARENT
 %left '('
 
 %%
-- 
2.43.0


From 7219dc3a0d203d3823316a90ea2f8a8276b80673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 23/33] fix: a later worker that ends behind an array element
 counts the element

---
 JSONQuery/worker_automaton.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 37392ac..5a0f614 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -30,7 +30,7 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 }
 
 //syntax stack feasibility inference
-static inline void syntaxStackInference(Lexer* lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss)
+static inline void syntaxStackInference(Lexer* lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss, int worker_id)
 {
     //look ahead with a content buffer of its own, the current token is still in use
     lexer->content_size = INIT_SIZE_PRIMITIVE;
@@ -44,7 +44,7 @@ static inline void syntaxStackInference(Lexer* lexer, int input_token_type, Synt
         {
             if(first_token.token_type==RCB || (first_token.token_type==COM && second_token.token_type==KY))  //val-obj-e
                 syntaxStackPush(shadow_ss, KY);
-            else if(!(first_token.token_type==LCB || first_token.token_type==END)) //elt-obj-e
+            else if(!(first_token.token_type==LCB || (first_token.token_type==END && worker_id==0))) //elt-obj-e, only the first worker can be at the end of the root
                 syntaxStackPush(shadow_ss, LB);
         }
         else if(syntaxStackSize(ss)==0)
@@ -71,7 +71,7 @@ static inline void syntaxStackInference(Lexer* lexer, int input_token_type, Synt
         {
             if(first_token.token_type==RCB || (first_token.token_type==COM && second_token.token_type==KY))  //val-ary-e
                 syntaxStackPush(shadow_ss, KY);
-            else if(!(first_token.token_type==LB || first_token.token_type==END)) //elt-ary-e
+            else if(!(first_token.token_type==LB || (first_token.token_type==END && worker_id==0))) //elt-ary-e, only the first worker can be at the end of the root
                 syntaxStackPush(shadow_ss, LB);
         }
         else if(syntaxStackSize(ss)==0)
@@ -261,7 +261,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         if(syntaxStackSize(&shadow_ss)==0)
                         {   
                             Lexer temp_lexer = lexer;
-                            syntaxStackInference(&temp_lexer, token_type, &shadow_ss, &ss);
+                            syntaxStackInference(&temp_lexer, token_type, &shadow_ss, &ss, wa->id);
                         }
                         if(syntaxStackSize(&shadow_ss)==0)
                             obj_e(&ss);
@@ -401,7 +401,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         if(syntaxStackSize(&shadow_ss)==0)  
                         {
                             Lexer temp_lexer = lexer;
-                            syntaxStackInference(&temp_lexer, token_type, &shadow_ss, &ss);
+                            syntaxStackInference(&temp_lexer, token_type, &shadow_ss, &ss, wa->id);
                         }
                         if(syntaxStackSize(&shadow_ss)==0)  
                             ary_e(&qs_elt, &ss, &qs); 
@@ -531,7 +531,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     if(syntaxStackSize(&shadow_ss)==0)  
                     {
                          Lexer temp_lexer = lexer;
-                         syntaxStackInference(&temp_lexer, token_type, &shadow_ss, &ss);
+                         syntaxStackInference(&temp_lexer, token_type, &shadow_ss, &ss, wa->id);
                     }
                     if(syntaxStackTop(&shadow_ss)==KY)	 
                     {   
-- 
2.43.0


From b305a0a5df5e7d6ccc74fb285a58536fc090da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:23 +0000
Subject: [PATCH 24/33] fix: the remainder of numbers beyond the range of
 integers has no value instead of ending the process

---
 JSONPathParser/jsonpath_evaluator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 4a1b646..3610e1e 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -95,6 +95,11 @@ static inline bool compareValues(JSONPathOperatorType opt, JSONPathValue v1, JSO
     }
 }
 
+// a number whose whole part fits into a long long integer, with either sign
+static inline bool isIntegral(double number) {
+    return number > -9223372036854775808.0 && number < 9223372036854775808.0;
+}
+
 /**
     jot_or = 0, jot_and, // boolean
     jot_equal, jot_less, jot_greater, jot_neq, jot_leq, jot_geq,  // comparing
@@ -168,7 +173,8 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             v.number = (v1.number / v2.number);
             return v;
         case jot_mod:
-            // the remainder of a division by zero has no value
+            // the remainder has no value for numbers beyond the range of integers, and for a division by zero
+            if (!isIntegral(v1.number) || !isIntegral(v2.number)) return v;
             if ((long long int)(v2.number) == 0) return v;
             v.vtype = jvt_number;
             v.number = (long long int)(v1.number) % (long long int)(v2.number);
-- 
2.43.0


From 028193ca3897e86ad707841f7efc37f88723c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:40 +0000
Subject: [PATCH 25/33] fix: more chunks than MAX_THREAD do not overrun the
 array of threads

---
 JSONQuery/parallel_automata_execution.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index b198ee1..18a71d3 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -388,7 +388,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
 {
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
-    ThreadInfo ti[MAX_THREAD]; 
+    ThreadInfo* ti = (ThreadInfo*)malloc(num_cores*sizeof(ThreadInfo));  //there may be more chunks than MAX_THREAD
     int i;
     int stream_offset = pa->stream_offset;
     for(i = 0; i<num_cores; i++)
@@ -435,6 +435,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     {
         freeWorkerAutomaton(ti[i].worker_automaton); 
     }
+    free(ti);
 }
 
 #endif // !__PARALLEL_AUTOMATA_EXECUTION_H__
-- 
2.43.0


From 57003765d171b4e43fb0c39e799f86b4ea4a7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:37 +0000
Subject: [PATCH 26/33] fix: conditions of automata with more than 100 states

The filter's table of conditions had room for 100 states, a query with a
filter whose automaton is larger wrote behind it. The table is now as
large as the automaton.
---
 JSONQuery/predicate.c |  4 ++--
 JSONQuery/predicate.h | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index dadec75..c54c1a0 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -10,10 +10,10 @@ Output* generateFinalOutput(PredicateFilter* pf)
     int end_index = getTupleListSize(tl);
     //check whether current query has any predicates
     int s;
-    for(s = 0; s < MAX_PREDICATE_STATE; s++)
+    for(s = 0; s < pf->num_states; s++)
         if(pf->predicate_conditions[s]!=NULL) break;
     //there is no predicates, simply add each text into final output
-    if(s==MAX_PREDICATE_STATE)
+    if(s==pf->num_states)
     {
        for(int i = start_index; i < end_index; i++) 
        {
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index 52a4a47..54ee7c5 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -6,7 +6,6 @@
 #include "tuple_list.h"
 #include "output.h"
 
-#define MAX_PREDICATE_STATE 100
 #define MAX_STACK_ELEMENT 100
 #define FINISH 1
 #define INPROGRESS 0
@@ -27,7 +26,8 @@ typedef struct PredicateFilter{
     //context information for dfa table
     JSONQueryDFAContext* ctx;
     //condition list for each predicate state
-    PredicateCondition* predicate_conditions[MAX_PREDICATE_STATE];
+    PredicateCondition** predicate_conditions;
+    int num_states;
     PredicateStack pstack;
     //save output buffer
     Output* buffer;
@@ -69,8 +69,8 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
     pf->ctx = ctx;
     int pred_size = getContextSizeOfPredicateStates(ctx);
     //initialize state mapping table
-    for(int i = 0; i<MAX_PREDICATE_STATE; i++)
-        pf->predicate_conditions[i] = NULL;
+    pf->num_states = ctx->states_num+1;
+    pf->predicate_conditions = (PredicateCondition**)calloc(pf->num_states, sizeof(PredicateCondition*));
     for(int i = 0; i < pred_size; i++)
     {
     	int pred_state = getContextPredicateStates(ctx, i);
@@ -96,13 +96,14 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
 
 static inline void destroyPredicateFilter(PredicateFilter* pf)
 {
-    for(int i = 0; i<MAX_PREDICATE_STATE; i++)
+    for(int i = 0; i<pf->num_states; i++)
     {
         if(pf->predicate_conditions[i]!=NULL)
         {    
             free(pf->predicate_conditions[i]);
         }
     } 
+    free(pf->predicate_conditions);
     if(pf->buffer!=NULL) freeOutput(pf->buffer);
 }
 
-- 
2.43.0


From d098684d776466b44d705748b37d9353efd4e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:37 +0000
Subject: [PATCH 27/33] fix: more than 100 constraint states for one key

A constraint entry had room for 100 query states, learning more of them
for the same key wrote behind the entry. The set of states now grows.
---
 JSONQuery/constraint.h | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index bacc59b..1517ea1 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -6,14 +6,15 @@
 #include "utility.h"
 
 #define INIT_CONSTRAINT 64
-#define MAX_STATES 100
+#define INIT_STATES 8
 #define INVALID -1
 
 typedef struct ConstraintInfo{
     char* token_name;  //NULL for arrays
     int type;
-    int state_set[MAX_STATES];
+    int* state_set;    //belongs to the table
     int num_state;
+    int capacity;
 }ConstraintInfo;
 
 typedef struct ConstraintTable{
@@ -50,12 +51,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
             if(ct->constraint_info[i].type==KY && strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
-                int j = 0;
-                while(j<ci->num_state)  //update state info
-                {
-                    ci->state_set[j] = ct->constraint_info[i].state_set[j]; 
-                    j++;
-                }                
+                ci->state_set = ct->constraint_info[i].state_set;  //update state info
                 break;
             }
             i++;
@@ -70,12 +66,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
             if(ct->constraint_info[i].type==3)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
-                int j = 0;
-                while(j<ci->num_state)  //update state info
-                {
-                    ci->state_set[j] = ct->constraint_info[i].state_set[j];
-                    j++;
-                }
+                ci->state_set = ct->constraint_info[i].state_set;  //update state info
                 break;
             }
             i++;
@@ -126,8 +117,14 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         } 
         if(state_index==state_last) //add state information
         {
-            int state_index = (ct->constraint_info[index].num_state++);
-            ct->constraint_info[index].state_set[state_index] = state;
+            ConstraintInfo* info = &ct->constraint_info[index];
+            if(info->num_state==info->capacity)
+            {
+                info->capacity *= 2;
+                info->state_set = (int*)realloc(info->state_set, info->capacity*sizeof(int));
+            }
+            int state_index = (info->num_state++);
+            info->state_set[state_index] = state;
         }
     }
     else{
@@ -140,6 +137,8 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         ct->constraint_info[index].type = type;
         ct->constraint_info[index].token_name = NULL;
         if(type==KY) ct->constraint_info[index].token_name = allocate_and_copy(name);
+        ct->constraint_info[index].capacity = INIT_STATES;
+        ct->constraint_info[index].state_set = (int*)malloc(INIT_STATES*sizeof(int));
         ct->constraint_info[index].num_state = 0;
         int state_index = (ct->constraint_info[index].num_state++);
         ct->constraint_info[index].state_set[state_index] = state;
@@ -170,7 +169,10 @@ static inline void freeConstraintTable(ConstraintTable* ct)
     {
         int i;
         for(i = 0; i<ct->num_constraint_info; i++)
+        {
             if(ct->constraint_info[i].token_name!=NULL) free(ct->constraint_info[i].token_name);
+            free(ct->constraint_info[i].state_set);
+        }
         free(ct->constraint_info);
         free(ct);
     }
-- 
2.43.0


From c69050c1dae33b6ea8f8a58d8b15d12c012cbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:37 +0000
Subject: [PATCH 28/33] fix: parallel runs of automata with more than 100
 states

Workers that start in the middle keep arrays of 100 states, and
queryStacksPush indexed its 100 rows by the query state. With a larger
automaton (like that of $..a.*.*.*.*.*.*) both wrote out of bounds. The
rows are now indexed by the node's position on its level, and with more
states than the workers can follow one worker takes all the chunks.
---
 JSONQuery/multi_stack.h                 | 30 ++++++++++++-----------
 JSONQuery/parallel_automata_execution.h | 32 +++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index f0015df..68ca316 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -109,7 +109,7 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
     int i, j, k;
     /*
       during each iteration, parent pointers and root pointers for one single node might not be placed in consecutive position,
-      so we need to record them temporarily, and update stack tree after iteration
+      so we need to record them temporarily (by the position of the node on its level), and update stack tree after iteration
     */
     int parent_pointer[MAX_PATH][MAX_PATH];
     int num_parent_pointer[MAX_PATH];
@@ -142,20 +142,21 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
             //node exists
             if(qs->node[j].query_state == next_state)
             {
+                int n = j-next_qs_elt.start;
                 //add parent pointer
-                parent_pointer[next_state][num_parent_pointer[next_state]++] = i; 
+                parent_pointer[n][num_parent_pointer[n]++] = i; 
                 //add root pointer from its parent
                 Range p_root_range = qs->node[i].root_range;
                 //parent node is the root node
                 if(p_root_range.end == -1)
                 {
-                    root_pointer[next_state][num_root_pointer[next_state]++] = i;
+                    root_pointer[n][num_root_pointer[n]++] = i;
                 }
                 else //inherent the roots information from parent
                 {   
                     for(k = p_root_range.start; k<=p_root_range.end; k++)
                     {
-                        root_pointer[next_state][num_root_pointer[next_state]++] = qs->root_pointers[k];
+                        root_pointer[n][num_root_pointer[n]++] = qs->root_pointers[k];
                     }
                 }
                 break;
@@ -165,6 +166,7 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
         if(j>next_qs_elt.end) 
         {
             int node_index = (qs->num_node++);
+            int n = node_index-next_qs_elt.start;
             qs->node[node_index].query_state = next_state;
             qs->node[node_index].count = 0;
             qs->node[node_index].matched_start = INVALID;
@@ -173,22 +175,22 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
             qs->node[node_index].root_range.start = 0; 
             qs->node[node_index].root_range.end = -1;
             next_qs_elt.end = node_index;
-            num_parent_pointer[next_state] = 0;
-            num_root_pointer[next_state] = 0;
+            num_parent_pointer[n] = 0;
+            num_root_pointer[n] = 0;
             //add parent pointer
-            parent_pointer[next_state][num_parent_pointer[next_state]++] = i; 
+            parent_pointer[n][num_parent_pointer[n]++] = i; 
             //add root pointer from its parent
             Range p_root_range = qs->node[i].root_range;
             //parent node is the root node
             if(p_root_range.end == -1)
             {
-                root_pointer[next_state][num_root_pointer[next_state]++] = i;
+                root_pointer[n][num_root_pointer[n]++] = i;
             }
             else //inherent the roots information from parent
             {
                 for(k = p_root_range.start; k<=p_root_range.end; k++)
                 {
-                    root_pointer[next_state][num_root_pointer[next_state]++] = qs->root_pointers[k];
+                    root_pointer[n][num_root_pointer[n]++] = qs->root_pointers[k];
                 }
             }
         } 
@@ -196,21 +198,21 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
     //update parent and root pointers for each new node
     for(i = next_qs_elt.start; i<=next_qs_elt.end; i++)
     {
-        int query_state = qs->node[i].query_state;
+        int n = i-next_qs_elt.start;
         qs->node[i].parent_range.start = qs->num_parent_pointers;
         qs->node[i].parent_range.end = qs->num_parent_pointers-1;
-        for(j = 0; j<num_parent_pointer[query_state]; j++)
+        for(j = 0; j<num_parent_pointer[n]; j++)
         { 
             int parent_index = (qs->num_parent_pointers++);
-            qs->parent_pointers[parent_index] = parent_pointer[query_state][j];  
+            qs->parent_pointers[parent_index] = parent_pointer[n][j];  
             qs->node[i].parent_range.end = parent_index;
         }
         qs->node[i].root_range.start = qs->num_root_pointers;
         qs->node[i].root_range.end = qs->num_root_pointers-1;
-        for(j = 0; j<num_root_pointer[query_state]; j++)
+        for(j = 0; j<num_root_pointer[n]; j++)
         { 
             int root_index = (qs->num_root_pointers++); 
-            qs->root_pointers[root_index] = root_pointer[query_state][j];
+            qs->root_pointers[root_index] = root_pointer[n][j];
             qs->node[i].root_range.end = root_index;
         }
     }
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 18a71d3..0a93695 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -383,11 +383,38 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     return tuple_list;
 }
 
+// put the chunks together
+static inline char* joinChunks(char** stream, int num_chunk)
+{
+    int i;
+    size_t length = 0;
+    for(i = 0; i<num_chunk; i++) length += strlen(stream[i]);
+    char* whole = (char*)malloc(length+1);
+    length = 0;
+    for(i = 0; i<num_chunk; i++)
+    {
+        size_t size = strlen(stream[i]);
+        memcpy(whole+length, stream[i], size);
+        length += size;
+    }
+    whole[length] = '\0';
+    return whole;
+}
+
 //par_info -- partitioned input stream, qa -- query automaton
 void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, ConstraintTable* ct)  
 {
     int num_cores = par_info.num_chunk;
+    char** stream = par_info.stream;
     JSONQueryDFA* qa = pa->query_automaton;
+    char* whole = NULL;
+    //workers that start in the middle follow at most MAX_STATE query states, with more of them one worker takes all the chunks
+    if(num_cores>1 && getDFAStatesNumber(qa)>MAX_STATE)
+    {
+        whole = joinChunks(stream, num_cores);
+        stream = &whole;
+        num_cores = 1;
+    }
     ThreadInfo* ti = (ThreadInfo*)malloc(num_cores*sizeof(ThreadInfo));  //there may be more chunks than MAX_THREAD
     int i;
     int stream_offset = pa->stream_offset;
@@ -396,9 +423,9 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
         //initialize each thread
         ti[i].thread_id = i;
         ti[i].stream_offset = stream_offset;
-        ti[i].stream_length = strlen(par_info.stream[i]);
+        ti[i].stream_length = strlen(stream[i]);
         stream_offset += ti[i].stream_length;
-        ti[i].input_stream = par_info.stream[i];
+        ti[i].input_stream = stream[i];
         if((i==0)&&(pa->major_automaton!=NULL))  ti[i].worker_automaton = pa->major_automaton;  
         else 
             ti[i].worker_automaton = createWorkerAutomaton(qa, i, ct);
@@ -436,6 +463,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
         freeWorkerAutomaton(ti[i].worker_automaton); 
     }
     free(ti);
+    free(whole);
 }
 
 #endif // !__PARALLEL_AUTOMATA_EXECUTION_H__
-- 
2.43.0


From 4b00badebcf2aba66c00afc541d4467b806c1e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:37 +0000
Subject: [PATCH 29/33] fix: character sets of models with more than 256
 characters

A set covered the characters below 256 only, so with more than 253 names
in a query .* and .. did not match the others. It now covers input_max
characters of the model, and a larger character no longer writes behind
the set.
---
 DFABuilder/include/Lexer/set_converter.hpp |  5 ++++-
 DFABuilder/src/Lexer/set_converter.cpp     | 11 ++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/DFABuilder/include/Lexer/set_converter.hpp b/DFABuilder/include/Lexer/set_converter.hpp
index d7aa673..1b7ab95 100644
--- a/DFABuilder/include/Lexer/set_converter.hpp
+++ b/DFABuilder/include/Lexer/set_converter.hpp
@@ -7,7 +7,7 @@
 namespace dragontooth {
 
 /**
- * @brief Simple Set Converter, without EquivalenceClass Converter, so the max charset support 256
+ * @brief Simple Set Converter, without EquivalenceClass Converter, so a set covers the characters below 256 or below input_max of the model if that is larger
  */ 
 class SetConverter : public Pass {
 public:
@@ -22,6 +22,9 @@ public:
     virtual IPassable* Execute(IPassable* data, IPassable* join_data);
 
 protected:
+    // the number of the characters that a set can contain
+    regex_char char_sum = 256;
+
     // for each node in this tree, if it's a set, then run convert
     void traverses_model(RegexItem* root);
 
diff --git a/DFABuilder/src/Lexer/set_converter.cpp b/DFABuilder/src/Lexer/set_converter.cpp
index f3f18f1..164c8ca 100644
--- a/DFABuilder/src/Lexer/set_converter.cpp
+++ b/DFABuilder/src/Lexer/set_converter.cpp
@@ -6,10 +6,10 @@
 namespace dragontooth {
 
 void SetConverter::Convert(RegexSet* itemset) {
-    std::vector<bool> cvs; cvs.resize(256);
+    std::vector<bool> cvs; cvs.resize(char_sum);
     CharSet cset(itemset->getData());
     if (cset.negate) {
-        for (regex_char i = 0; i < 256; ++i) cvs[i] = true;
+        for (regex_char i = 0; i < char_sum; ++i) cvs[i] = true;
     }
     auto charset = cset.charset;
     regex_char t;
@@ -24,7 +24,7 @@ void SetConverter::Convert(RegexSet* itemset) {
         }
     }
     std::set<regex_char> finalset;
-    for (regex_char i = 0; i < 256; ++i) {
+    for (regex_char i = 0; i < char_sum; ++i) {
         if (cvs[i]) finalset.insert(i);
     }
     itemset->setCharset(finalset);
@@ -32,6 +32,7 @@ void SetConverter::Convert(RegexSet* itemset) {
 
 IPassable* SetConverter::Execute(IPassable* data, IPassable* join_data) {
     RegexModel* model = dynamic_cast<RegexModel*>(data);
+    if (model->input_max > char_sum) char_sum = model->input_max;
     for (int i = 0; i < model->size(); ++i) {
         auto p = model->at(i);
         traverses_model(p->root);
@@ -63,11 +64,11 @@ void SetConverter::traverses_model(RegexItem* root) {
 }
 
 void SetConverter::insert(regex_char k, bool negate, std::vector<bool>& cvs) {
-    cvs[k] = !negate;
+    if (k < cvs.size()) cvs[k] = !negate;
 }
 
 void SetConverter::insert(regex_char p, regex_char q, bool negate, std::vector<bool>& cvs) {
-    for (regex_char i = p; i <= q; ++i) 
+    for (regex_char i = p; i <= q && i < cvs.size(); ++i) 
         cvs[i] = !negate;
 }
 
-- 
2.43.0


From 2167d91ef487ea7261827c5b5a57dd586586b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:37 +0000
Subject: [PATCH 30/33] fix: overlapping and neighbouring ranges in character
 sets

Inserting a range that overlaps another one (or is next to it) corrupted
the set or walked off the map, like [\t-\x0e\x0b-\x10]. Characters
above 127 were sign-extended. insert() now merges what it touches.
---
 DFABuilder/src/Lexer/charset.cpp | 80 +++++++-------------------------
 1 file changed, 17 insertions(+), 63 deletions(-)

diff --git a/DFABuilder/src/Lexer/charset.cpp b/DFABuilder/src/Lexer/charset.cpp
index 6e0969a..17ceeea 100644
--- a/DFABuilder/src/Lexer/charset.cpp
+++ b/DFABuilder/src/Lexer/charset.cpp
@@ -30,7 +30,7 @@ CharSet::CharSet(const std::string& _str) {
                 }
                 isConnector = true;
             } else {
-                regex_char c = *i;
+                regex_char c = (unsigned char)*i;
                 if (c == '\\') c = EscapeChar(i, str.end());
                 if (isConnector) {
                     insert(last, c);
@@ -49,74 +49,28 @@ CharSet::CharSet(const std::string& _str) {
 }
 
 void CharSet::insert(regex_char p, regex_char q) {
-    if (p == q) {
-        insert(p);
-        return;
-    }
-    charset[p].type = 1;
-    charset[q].type = -1;
-    map<regex_char, charset_value>::iterator f, l;
-    auto i = charset.find(p);
-    if (i == charset.begin() ||
-        ((i->first - (--i)->first > 1) && (i->second.type != 1))) {
-        // remove from here, without itself
-        if (i->first == p)
-            f = ++i;
-        else
-            f = ++++i;  // - -!
-    } else {
-        if (i->second.type == 1) {
-            // remove from here, withitself
-            f = ++i;
-        } else {
-            // remove before here
-            f = i;
+    if (p > q) return;
+    // the characters and intervals that overlap [p, q] or are next to it become part of it
+    auto i = charset.begin();
+    while (i != charset.end()) {
+        auto first = i++;
+        regex_char low = first->first, high = low;
+        if (first->second.type == 1) high = (i++)->first;
+        if (low <= q + 1 && p <= high + 1) {
+            if (low < p) p = low;
+            if (high > q) q = high;
+            charset.erase(first, i);
         }
     }
-
-    auto j = charset.find(q);
-    if ((++j) == charset.end() ||
-        (j->first - (--j)->first > 1) && ((++j)->second.type != -1)) {
-        // remove before here
-        l = charset.find(q);
+    if (p == q) {
+        charset[p].type = 0;
     } else {
-        if (j->second.type == -1) {
-            // remove before here with itself
-            l = j;
-        } else {
-            // remove after here
-            l = ++j;
-        }
+        charset[p].type = 1;
+        charset[q].type = -1;
     }
-    if (l->first > f->first) charset.erase(l, f);
 }
 
-void CharSet::insert(regex_char c) {
-    auto i = charset.find(c);
-    if (i == charset.end()) {
-        charset[c].type = 0;
-        i = charset.find(c);
-        auto j = i;
-        if (j != charset.begin() && ((--j)->second.type == 1)) {
-            charset.erase(i);
-            return;
-        }
-        j = i;
-        if (j != charset.begin() && ((--j)->second.type == -1) &&
-            (i->first - j->first == 1)) {
-            charset.erase(j);
-            i->second.type = -1;
-            return;
-        }
-        j = i;
-        if ((++j) != charset.end() && (j->second.type == 1) &&
-            (j->first - i->first == 1)) {
-            charset.erase(j);
-            i->second.type = 1;
-            return;
-        }
-    }
-}
+void CharSet::insert(regex_char c) { insert(c, c); }
 
 bool operator==(const charset_value& q, const charset_value& p) {
     return ((q.type == p.type) && (q.eclass == p.eclass));
-- 
2.43.0


From 2bbfba7c0eb431b6001dafea86ad3914f987da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:35 +0000
Subject: [PATCH 31/33] fix: characters above 127 in written sequences and sets

EscapeChar sign-extended them, so a sequence given as text never matched
them, and the equivalence classes were indexed out of bounds.
---
 DFABuilder/include/Lexer/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DFABuilder/include/Lexer/utility.hpp b/DFABuilder/include/Lexer/utility.hpp
index 184a6ba..06975c2 100644
--- a/DFABuilder/include/Lexer/utility.hpp
+++ b/DFABuilder/include/Lexer/utility.hpp
@@ -33,7 +33,7 @@ inline regex_char HexStringToDec(const std::string& hex) {
 
 inline regex_char EscapeChar(const char*& tr) {
     int ws;
-    if (*tr != '\\') return *tr;
+    if (*tr != '\\') return (unsigned char)*tr;
     ++tr;
     switch (*tr) {
         // 空白字符集合
@@ -53,7 +53,7 @@ inline regex_char EscapeChar(const char*& tr) {
         case 'U':  // 8 digit hex
             ws = 8;
             break;
-        default: return *tr;
+        default: return (unsigned char)*tr;
     }
     std::string num;
     for (int j = 0; j < ws; ++j) {
@@ -70,7 +70,7 @@ inline regex_char EscapeChar(const char*& tr) {
 
 inline regex_char EscapeChar(std::string::iterator& i, std::string::iterator end) {
     int ws;
-    if (*i != '\\') return *i;
+    if (*i != '\\') return (unsigned char)*i;
     ++i; if (i == end) return -1;
     switch (*i) {
         // 空白字符集合
@@ -89,7 +89,7 @@ inline regex_char EscapeChar(std::string::iterator& i, std::string::iterator end
         case 'U':  // 8 digit hex
             ws = 8;
             break;
-        default: return *i;
+        default: return (unsigned char)*i;
     }
     std::string num;
     for (int j = 0; j < ws; ++j) {
-- 
2.43.0


From 4b2f14b534659f8c61facefa457425fbcd9595a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:23 +0000
Subject: [PATCH 32/33] fix: array bounds beyond the range of int

atoi of a bound like 2147483648 overflowed, so $[2147483648:] selected
every element and $[:99999999999] none. Such bounds are now beyond
every element.
---
 DFABuilder/src/dfa_builder.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 678693d..d9093d4 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -37,6 +37,13 @@ static char* str_copy(const char* src) {
     return buffer;
 }
 
+// bounds beyond the range of int stand for the nearest bound that is inside of it
+static int array_bound(double number) {
+    if (number >= INT_MAX) return INT_MAX;
+    if (number <= INT_MIN) return INT_MIN;
+    return (int) number;
+}
+
 struct StackElement {
     SEType stype;
     union {
@@ -243,9 +250,9 @@ struct StackContext {
                 // [start:end]
                 case jnt_range: {
                     int begin, end;
-                    if (p->left) begin = p->left->number;
+                    if (p->left) begin = array_bound(p->left->number);
                     else begin = INT_MIN;
-                    if (p->right) end = p->right->number;
+                    if (p->right) end = array_bound(p->right->number);
                     else end = INT_MAX;
                     // (0, 0) means that there is no range at all
                     if (begin == 0 && end == 0) begin = end = 1;
@@ -256,10 +263,11 @@ struct StackContext {
                 }
                 // [index]
                 case jnt_number: {
-                    int index = p->number;
-                    push({set_array_index, index, index+1});
+                    int index = array_bound(p->number);
+                    int end = (index == INT_MAX) ? index : index+1;
+                    push({set_array_index, index, end});
                     create_dfa();
-                    array_range[model->size()-1] = {index, index+1};
+                    array_range[model->size()-1] = {index, end};
                     break;
                 }
                 // [*]
-- 
2.43.0


From 70d739fa604c36739a78edf6bf389535305cbf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:24 +0000
Subject: [PATCH 33/33] fix: signed overflow when the bounds of a slice from
 INT_MAX are printed

---
 DFABuilder/include/dfa.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index 0b11ab5..9c62902 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -163,7 +163,7 @@ static inline void printDFA(JSONQueryDFA* dfa) {
     for (int i = 1; i< states; ++i) {
         JSONQueryIndexPair pair = getDFAArrayIndex(dfa, i);
         if (pair.lower || pair.upper) {
-            if (pair.upper == pair.lower + 1)
+            if (pair.lower != INT32_MAX && pair.upper == pair.lower + 1)
                 printf("\t[%d]", pair.lower);
             else
                 printf("\t[%d:%d]", pair.lower, pair.upper);
-- 
2.43.0

