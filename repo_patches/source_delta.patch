From a4845e97796f81278860da8158f7f4f16cb9162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 01/27] fix: don't build precondition-operation sequences from
 events with overlapping evidence

---
 src/Cycle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index 2d2f300..180d9a8 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -431,7 +431,7 @@ void Cycle_ProcessBeliefEvents(long currentTime)
                         if(!wasProcessed3 && prec->belief_spike.type != EVENT_TYPE_DELETED && prec->belief_spike.creationTime < currentTime && prec->belief_spike.occurrenceTime < opc->belief_spike.occurrenceTime &&
                            labs(prec->belief_spike.occurrenceTime - postcondition.occurrenceTime) < PRECONDITION_CONSEQUENCE_DISTANCE && labs(prec->lastSelectionTime - postcondition.occurrenceTime) < PRECONDITION_CONSEQUENCE_DISTANCE &&
                            !Narsese_copulaEquals(prec->belief_spike.term.atoms[0], EQUIVALENCE) && !Narsese_copulaEquals(prec->belief_spike.term.atoms[0], IMPLICATION) &&
-                           !Stamp_checkOverlap(&prec->belief_spike.stamp, &postcondition.stamp) && !Memory_getOperationID(&prec->term))
+                           !Stamp_checkOverlap(&prec->belief_spike.stamp, &postcondition.stamp) && !Stamp_checkOverlap(&prec->belief_spike.stamp, &opc->belief_spike.stamp) && !Memory_getOperationID(&prec->term))
                         {
                             bool success4;
                             Event seq_op_cur = Inference_BeliefIntersection(&prec->belief_spike, &opc->belief_spike, &success4);
-- 
2.43.0


From 14c6bb9f3abc4b34db311f9829306334458fa99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 02/27] fix: compare the evidence of the revised precondition,
 not the possibly recycled concept slot, before anticipating

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index f06bee8..5bacc2f 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -641,7 +641,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
                             if(success2)
                             {
                                 Concept *c = Memory_Conceptualize(&result.term, currentTime);
-                                if(c != NULL && !Stamp_checkOverlap(&precondition->stamp, &imp.stamp))
+                                if(c != NULL && !Stamp_checkOverlap(&updated_precondition.stamp, &imp.stamp)) //using the copy, as conceptualizing might have recycled the precondition's concept
                                 {
                                     c->usage = Usage_use(c->usage, currentTime, false);
                                     if(Narsese_copulaEquals(imp.term.atoms[0], TEMPORAL_IMPLICATION))
-- 
2.43.0


From 5b49bc4810ffa6cd38315a6517c83d6bebaca8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 03/27] fix: don't write beyond the dt buffer when parsing an
 overlong dt value

---
 src/Narsese.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 9ec4e67..f8adb74 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -378,21 +378,18 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     assert(initialized, "Narsese not initialized, call Narsese_INIT first!");
     //Handle optional dt=num at beginning of line
     *occurrenceTimeOffset = 0.0;
-    char dt[30];
+    char dt[30] = {0};
     if(narsese[0] == 'd' && narsese[1] == 't'  && narsese[2] == '=') //dt=
     {
-        for(unsigned int i=0; i<strlen(narsese); i++)
+        for(unsigned int i=3; narsese[i] != 0; i++)
         {
-            if(i>=3)
-            {
-                dt[i-3] = narsese[i];
-            }
             if(narsese[i] == ' ')
             {
-                dt[i] = 0;
                 narsese = &narsese[i];
                 break;
             }
+            assert(i-3 < NUM_ELEMENTS(dt)-1, "Parsing error: dt value too long!");
+            dt[i-3] = narsese[i];
         }
         *occurrenceTimeOffset = atof(dt);
     }
-- 
2.43.0


From 3e4d3b81f98c045aa055d83e87d47419e58a9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 04/27] fix: reject malformed and out of range truth values of
 input sentences, cap confidence at MAX_CONFIDENCE

---
 src/Narsese.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index f8adb74..2cc88fd 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -412,20 +412,20 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
         {
             hasComma = hasComma || narseseInplace[openingIdx] == ';';
         }
-        assert(narseseInplace[openingIdx] == '{' || narseseInplace[openingIdx] == '%', "Parsing error: Truth value opener not found!");
-        double conf, freq;
+        assert(openingIdx >= 0, "Parsing error: Truth value opener not found!");
+        double conf = NAR_DEFAULT_CONFIDENCE, freq = NAR_DEFAULT_FREQUENCY;
         if(oldFormat && !hasComma)
         {
-            conf = NAR_DEFAULT_CONFIDENCE;
-            sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq);
+            assert(sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq) == 1, "Parsing error: Truth value malformed!");
         }
         else
         {
-            sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf);
+            assert(sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf) == 2, "Parsing error: Truth value malformed!");
         }
+        assert(freq >= 0.0 && freq <= 1.0 && conf > 0.0 && conf <= 1.0, "Parsing error: Truth value out of range!");
         destTv->frequency = freq;
-        destTv->confidence = conf;
-        assert(narseseInplace[openingIdx-1] == ' ', "Parsing error: Space before truth value required!");
+        destTv->confidence = MIN(MAX_CONFIDENCE, conf);
+        assert(openingIdx >= 1 && narseseInplace[openingIdx-1] == ' ', "Parsing error: Space before truth value required!");
         narseseInplace[openingIdx-1] = 0; //cut it away for further parsing of term
     }
     //parse event marker, punctuation, and finally the term:
-- 
2.43.0


From eef837df99c01c9358227de9091c9ab3589bb249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 05/27] fix: reject sentences which consist of an event marker
 or truth value only

---
 src/Narsese.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Narsese.c b/src/Narsese.c
index 2cc88fd..aeb48ce 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -438,6 +438,7 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     if(str_len >= 3 && narseseInplace[str_len-1] == ':' && narseseInplace[str_len-2] == '/' && narseseInplace[str_len-3] == ':')
         *tense = 3; 
     int punctuation_offset = *tense ? 5 : 1;
+    assert(str_len > punctuation_offset, "Parsing error: Term and punctuation required!");
     *punctuation = narseseInplace[str_len-punctuation_offset];
     assert(*punctuation == '!' || *punctuation == '?' || *punctuation == '.', "Parsing error: Punctuation has to be belief . goal ! or question ?");
     narseseInplace[str_len-punctuation_offset] = 0; //we will only parse the term before it
-- 
2.43.0


From 7b1b70fa97d2c74ffcf87e69fa6bc17de7964b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 06/27] fix: don't read beyond the last token or write beyond
 the term size when building terms from incomplete or oversized input

---
 src/Narsese.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index aeb48ce..6c39d31 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -328,11 +328,14 @@ int Narsese_CopulaIndex(char name)
 //Encodes a binary tree in an array, based on the the S-expression tokenization with prefix order
 void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index, int nt)
 {
+    assert(i1 < nt, "Parsing error: Incomplete term!");
+    assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
     if(tokens_prefix[i1][0] == '(' && tokens_prefix[i1][1] == 0)
     {
         int icop = i1+1;
         //first argument is given by the copula
         i1 = i1+2;
+        assert(icop < nt, "Parsing error: Incomplete term!");
         //second argument has to be searched for
         int i2 = skipCompound(tokens_prefix, i1, nt);
         bintree->atoms[tree_index-1] = Narsese_AtomicTermIndex(tokens_prefix[icop]);
@@ -347,7 +350,6 @@ void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index
     }
     else
     {
-        assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
         if(!(tokens_prefix[i1][0] == ')' && tokens_prefix[i1][1] == 0))
         {
             bintree->atoms[tree_index-1] = Narsese_AtomicTermIndex(tokens_prefix[i1]);
-- 
2.43.0


From 9bf45981a374612ab9b1eea9da967313513c649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 07/27] fix: reserve enough tokens for inputs with many set
 openers

---
 src/Narsese.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 6c39d31..11adb73 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -247,12 +247,13 @@ int skipCompound(char** tokens, int i, int nt)
 
 char** Narsese_PrefixTransform(char* narsese_expanded)
 {
-    static char* tokens[NARSESE_LEN_MAX+1]; //there cannot be more tokens than chars
-    memset(tokens, 0, (NARSESE_LEN_MAX+1)*sizeof(char*)); //and last one stays NULL for sure
+    static char* tokens[REPLACEMENT_LEN+1]; //there cannot be more tokens than chars after replacement ({ and [ become two tokens)
+    memset(tokens, 0, sizeof(tokens)); //and last one stays NULL for sure
     char* token = strtok(narsese_expanded, " ");
     int nt = 0, nc = NUM_ELEMENTS(Narsese_CanonicalCopulas) - 1;
     while(token)
     {
+        assert(nt < REPLACEMENT_LEN, "Parsing error: Too many tokens!");
         tokens[nt] = token;
         token = strtok(NULL, " ");
         nt++;
-- 
2.43.0


From f1a2fa22e07b7779c8ca37b42faa2c8276ddc467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 08/27] fix: don't hand out an atom index which does not fit
 into an Atom

---
 src/Narsese.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 11adb73..4977bca 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -310,7 +310,7 @@ int Narsese_AtomicTermIndex(char *name)
     }
     if(ret_index == -1)
     {
-        assert(term_index < ATOMS_MAX, "Too many terms for NAR");
+        assert(term_index+1 < ATOMS_MAX, "Too many terms for NAR"); //as the last index would not fit into an Atom
         ret_index = term_index+1;
         strncpy(Narsese_atomNames[term_index], name, ATOMIC_TERM_LEN_MAX-1);
         HashTable_Set(&HTatoms, (void*) Narsese_atomNames[term_index], (void*) ret_index);
-- 
2.43.0


From d79496e9ef515464d1cb6ed4af888b2fedd381cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 09/27] fix: reject unterminated and overlong stamps in
 *stampimport

---
 src/Shell.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Shell.c b/src/Shell.c
index d362c30..2aad994 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -267,6 +267,7 @@ int Shell_ProcessInput(char *line)
             char *end = strrchr(line, ']');
             // Extract the substring between the '[' and ']' characters
             char substr[1000];
+            assert(end != NULL && end > start && end - start - 1 < (long) sizeof(substr), "Stamp malformed or too long!");
             strncpy(substr, start + 1, end - start - 1);
             substr[end - start - 1] = '\0';
             // Tokenize the substring using ',' as the delimiter
-- 
2.43.0


From 6726bf8ea06c15a257fff980f6a92955c0fabd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 10/27] fix: don't write beyond the term name in *setvalue

---
 src/Shell.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index 2aad994..f0cadef 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -316,17 +316,17 @@ int Shell_ProcessInput(char *line)
             const char* sep = termname[0] ? "_" : "";
             if(granularity <= 10)
             {
-                sprintf(termname_ext, "%s%s%.1f", termname, sep, value);
+                snprintf(termname_ext, sizeof(termname_ext), "%s%s%.1f", termname, sep, value);
             }
             else
             if(granularity <= 100)
             {
-                sprintf(termname_ext, "%s%s%.2f", termname, sep, value);
+                snprintf(termname_ext, sizeof(termname_ext), "%s%s%.2f", termname, sep, value);
             }
             else
             if(granularity <= 1000)
             {
-                sprintf(termname_ext, "%s%s%.3f", termname, sep, value);
+                snprintf(termname_ext, sizeof(termname_ext), "%s%s%.3f", termname, sep, value);
             }
             Narsese_setAtomValue((Atom) Narsese_AtomicTermIndex(termname_ext), value, termname);
         }
-- 
2.43.0


From e270f1d9afbb19625dcc99cded6eb77a36e66071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 11/27] fix: check the operator index of *setopstdin, don't use
 uninitialized command arguments

---
 src/Shell.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index f0cadef..16edbd7 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -333,7 +333,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*space ", line, strlen("*space ")))
         {
-            int granularity;
+            int granularity = 0;
             char termname[ATOMIC_TERM_LEN_MAX+1] = {0};
             termname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*space ")], "%d %" STR(ATOMIC_TERM_LEN_MAX) "s", &granularity, (char*) &termname);
@@ -350,7 +350,7 @@ int Shell_ProcessInput(char *line)
         if(!strncmp("*setopname ", line, strlen("*setopname ")))
         {
             assert(concepts.itemsAmount == 0, "Operators can only be registered right after initialization / reset!");
-            int opID;
+            int opID = 0;
             char opname[ATOMIC_TERM_LEN_MAX+1] = {0};
             opname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setopname ")], "%d %" STR(ATOMIC_TERM_LEN_MAX) "s", &opID, (char*) &opname);
@@ -375,8 +375,8 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setoparg ", line, strlen("*setoparg ")))
         {
-            int opID;
-            int opArgID;
+            int opID = 0;
+            int opArgID = 0;
             char argname[NARSESE_LEN_MAX+1] = {0};
             argname[NARSESE_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setoparg ")], "%d %d %" STR(NARSESE_LEN_MAX) "[^\n]", &opID, &opArgID, (char*) &argname);
@@ -387,7 +387,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*query ", line, strlen("*query ")))
         {
-            double threshold;
+            double threshold = -1.0;
             char narsese[NARSESE_LEN_MAX+1] = {0};
             narsese[NARSESE_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*query ")], "%lf %" STR(NARSESE_LEN_MAX) "[^\n]", &threshold, (char*) &narsese);
@@ -397,14 +397,15 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setopstdin ", line, strlen("*setopstdin ")))
         {
-            int opID;
+            int opID = 0;
             sscanf(&line[strlen("*setopstdin ")], "%d", &opID);
+            assert(opID >= 1 && opID <= OPERATIONS_MAX, "Operator index out of bounds, it can only be between 1 and OPERATIONS_MAX!");
             operations[opID - 1].stdinOutput = true;
         }
         else
         if(strspn(line, "0123456789") && strlen(line) == strspn(line, "0123456789"))
         {
-            unsigned int steps;
+            unsigned int steps = 0;
             sscanf(line, "%u", &steps);
             printf("performing %u inference steps:\n", steps); fflush(stdout);
             NAR_Cycles(steps);
-- 
2.43.0


From 4f4783905d84ea25b72f9502655d464f70c37ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 12/27] fix: zero-terminate received datagrams

---
 src/NetworkNAR/UDP.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NetworkNAR/UDP.c b/src/NetworkNAR/UDP.c
index 70c3749..aa86378 100755
--- a/src/NetworkNAR/UDP.c
+++ b/src/NetworkNAR/UDP.c
@@ -45,7 +45,8 @@ void UDP_ReceiveData(int sockfd, char *buffer, int buffersize)
 {
     struct sockaddr_in address_other;
     socklen_t addr_size = sizeof(address_other);
-    recvfrom(sockfd, buffer, buffersize, 0, (struct sockaddr*)& address_other, &addr_size);
+    ssize_t len = recvfrom(sockfd, buffer, buffersize-1, 0, (struct sockaddr*)& address_other, &addr_size);
+    buffer[len > 0 ? len : 0] = 0; //datagrams are not necessarily zero-terminated, and nothing was written on failure
     IN_DEBUG( printf("//UDP Data received: %s\n", buffer); )
 }
 
-- 
2.43.0


From aca1199411bc01552b07187fddcab2592fecfc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 13/27] fix: don't hand the address of an expiring argument to
 the reasoner thread

---
 src/NetworkNAR/UDPNAR.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index f1b927d..2c8211d 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -76,15 +76,17 @@ void* Receive_Thread_Run(void *sockfd_address)
 
 pthread_t thread_reasoner, thread_receiver;
 bool Started = false;
-int receiver_sockfd; 
+int receiver_sockfd;
+long reasoner_timestep; //needs to outlive UDPNAR_Start
 void UDPNAR_Start(char *ip, int port, long timestep)
 {
     assert(!Stopped, "UDPNAR was already started!");
     Shell_NARInit();
     receiver_sockfd = UDP_INIT_Receiver(ip, port);
+    reasoner_timestep = timestep;
     //Create reasoner thread and wait for its creation
     pthread_mutex_lock(&start_mutex);
-    pthread_create(&thread_reasoner, NULL, Reasoner_Thread_Run, &timestep);
+    pthread_create(&thread_reasoner, NULL, Reasoner_Thread_Run, &reasoner_timestep);
     pthread_cond_wait(&start_cond, &start_mutex);
     pthread_mutex_unlock(&start_mutex);
     //Create receive thread and wait for its creation
-- 
2.43.0


From e8cafa7f3a4351c9e89a78add2923e764944dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 14/27] fix: reject anticipation confidences which are no valid
 truth confidence

---
 src/Shell.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Shell.c b/src/Shell.c
index 16edbd7..a695dcc 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -108,6 +108,7 @@ int Shell_ProcessInput(char *line)
         if(!strncmp("*anticipationconfidence=", line, strlen("*anticipationconfidence=")))
         {
             sscanf(&line[strlen("*anticipationconfidence=")], "%lf", &ANTICIPATION_CONFIDENCE);
+            assert(ANTICIPATION_CONFIDENCE >= 0.0 && ANTICIPATION_CONFIDENCE <= MAX_CONFIDENCE, "Anticipation confidence out of bounds!");
         }
         else
         if(!strncmp("*decisionthreshold=", line, strlen("*decisionthreshold=")))
-- 
2.43.0


From a19a3111085f827ac968b72c769cf54fa7075170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 15/27] fix: reset match statistics and import stamp with the
 reasoner

---
 src/Cycle.c | 2 ++
 src/Event.c | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/Cycle.c b/src/Cycle.c
index 180d9a8..e952aa0 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -50,6 +50,8 @@ void Cycle_INIT()
     conceptProcessID = 0;
     conceptProcessID2 = 0;
     conceptProcessID3 = 0;
+    Stats_countConceptsMatchedTotal = 0;
+    Stats_countConceptsMatchedMax = 0;
 }
 
 //doing inference within the matched concept, returning whether decisionMaking should continue
diff --git a/src/Event.c b/src/Event.c
index e8b0f1f..69f0c9b 100755
--- a/src/Event.c
+++ b/src/Event.c
@@ -49,6 +49,7 @@ Event Event_InputEvent(Term term, char type, Truth truth, double occurrenceTimeO
 void Event_INIT()
 {
     base = 1;
+    importstamp = (Stamp) {0};
 }
 
 bool Event_Equal(Event *event, Event *existing)
-- 
2.43.0


From 4e5fdd7b7d1a08064444fdb4442cdf67241a8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 16/27] fix: include the links of the last operation when
 answering questions and listing concepts

---
 src/NAR.c   | 2 +-
 src/Shell.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NAR.c b/src/NAR.c
index fd6051c..1d58e64 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -187,7 +187,7 @@ void NAR_AddInputNarsese2(char *narsese_sentence, bool queryCommand, double answ
             }
             if(isImplication)
             {
-                for(int op_k = 0; op_k<OPERATIONS_MAX; op_k++)
+                for(int op_k = 0; op_k<=OPERATIONS_MAX; op_k++)
                 {
                     for(int j=0; j<c->precondition_beliefs[op_k].itemsAmount; j++)
                     {
diff --git a/src/Shell.c b/src/Shell.c
index a695dcc..44bac71 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -197,7 +197,7 @@ int Shell_ProcessInput(char *line)
                 {
                     Memory_printAddedEvent(&c->belief.stamp, &c->belief, 1, true, false, false, false, false);
                 }
-                for(int opi=0; opi<OPERATIONS_MAX; opi++)
+                for(int opi=0; opi<=OPERATIONS_MAX; opi++)
                 {
                     for(int h=0; h<c->precondition_beliefs[opi].itemsAmount; h++)
                     {
-- 
2.43.0


From a8abe80ab766d862a7e0d0623d21f3ed97ccc74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 17/27] fix: discard relations and babbled arguments which do
 not fit into a term

---
 src/Cycle.c    | 35 ++++++++++++++++-------------------
 src/Decision.c |  5 ++++-
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index e952aa0..deca692 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -515,8 +515,10 @@ void Cycle_ProcessBeliefEvents(long currentTime)
                                         rest = Term_ExtractSubterm(&seq.term, 3);
                                         seq_term = (Term) {0};
                                         seq_term.atoms[0] = Narsese_CopulaIndex(SEQUENCE);
-                                        Term_OverrideSubterm(&seq_term, 1, &relation1);
-                                        Term_OverrideSubterm(&seq_term, 2, &relation2);
+                                        if(!Term_OverrideSubterm(&seq_term, 1, &relation1) || !Term_OverrideSubterm(&seq_term, 2, &relation2))
+                                        {
+                                            seq_term = (Term) {0}; //exceeds the term size, no pattern to find
+                                        }
                                     }
                                     //CHECK FOR (<(LOC1 * VAL1) --> ATTR> &/ <(LOC2 * VAL2) --> ATTR>) PATTERN
                                     //THEN CONSTRUCT SEQ_REL = <(LOC1 * LOC2) --> VAL_REL> WHEREBY VAL_REL IS EITHER (EQUAL ATTR), (LARGER ATTR) or (SMALLER ATTR) or (UNEQUAL ATTR)
@@ -558,18 +560,10 @@ void Cycle_ProcessBeliefEvents(long currentTime)
                                             Trelation.atoms[0] = Narsese_copulaEquals(seq_term.atoms[1], INHERITANCE) ? Narsese_CopulaIndex(INHERITANCE) : Narsese_CopulaIndex(HAS_CONTINUOUS_PROPERTY);
                                             Trelation.atoms[1] = Narsese_CopulaIndex(PRODUCT);
                                             Trelation.atoms[2] = relation; //+
-                                            if(smaller)
-                                            {
-                                                Term_OverrideSubterm(&Trelation, 3, &LOC2);
-                                                Term_OverrideSubterm(&Trelation, 4, &LOC1);
-                                            }
-                                            else
-                                            {
-                                                Term_OverrideSubterm(&Trelation, 3, &LOC1);
-                                                Term_OverrideSubterm(&Trelation, 4, &LOC2);
-                                            }
-                                            Term_OverrideSubterm(&Trelation, 5, &ATTR1);
-                                            Term_OverrideSubterm(&Trelation, 6, &ATTR1);
+                                            bool relation_success = Term_OverrideSubterm(&Trelation, 3, smaller ? &LOC2 : &LOC1) &&
+                                                                    Term_OverrideSubterm(&Trelation, 4, smaller ? &LOC1 : &LOC2) &&
+                                                                    Term_OverrideSubterm(&Trelation, 5, &ATTR1) &&
+                                                                    Term_OverrideSubterm(&Trelation, 6, &ATTR1);
                                             Trelation.atoms[6] = Narsese_CopulaIndex(SET_TERMINATOR);
                                             Term TrelationWithContext = {0};
                                             if(!rest.atoms[0])
@@ -580,12 +574,15 @@ void Cycle_ProcessBeliefEvents(long currentTime)
                                             {
                                                 //in this case it is a sequence
                                                 TrelationWithContext.atoms[0] = Narsese_CopulaIndex(SEQUENCE);
-                                                Term_OverrideSubterm(&TrelationWithContext, 1, &rest);
-                                                Term_OverrideSubterm(&TrelationWithContext, 2, &Trelation);
+                                                relation_success = relation_success && Term_OverrideSubterm(&TrelationWithContext, 1, &rest) &&
+                                                                   Term_OverrideSubterm(&TrelationWithContext, 2, &Trelation);
+                                            }
+                                            if(relation_success)
+                                            {
+                                                Event seq_rel = seq;
+                                                seq_rel.term = TrelationWithContext;
+                                                Memory_AddEvent(&seq_rel, currentTime, 1.0, false, true, false, 0); //complexity penalized
                                             }
-                                            Event seq_rel = seq;
-                                            seq_rel.term = TrelationWithContext;
-                                            Memory_AddEvent(&seq_rel, currentTime, 1.0, false, true, false, 0); //complexity penalized
                                         }
                                     }
                                 }
diff --git a/src/Decision.c b/src/Decision.c
index 5bacc2f..174066f 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -298,7 +298,10 @@ static Decision Decision_MotorBabbling()
             //0   1    2    3
             decision.arguments[0].atoms[0] = Narsese_CopulaIndex(PRODUCT);  //product
             decision.arguments[0].atoms[1] = Narsese_CopulaIndex(EXT_SET); //ext set {SELF} on the left
-            Term_OverrideSubterm(&decision.arguments[0], 2, &operations[decision.operationID[0]-1].arguments[argumentID]);
+            if(!Term_OverrideSubterm(&decision.arguments[0], 2, &operations[decision.operationID[0]-1].arguments[argumentID]))
+            {
+                return (Decision) {0}; //the argument is too large
+            }
             decision.arguments[0].atoms[3] = SELF;
             decision.arguments[0].atoms[4] = Narsese_CopulaIndex(SET_TERMINATOR);
         }
-- 
2.43.0


From 785c55eb57c92f0bb873fd93e929f89a843d59db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 18/27] fix: don't follow links of evicted concepts when
 considering negative outcomes and anticipating

---
 src/Decision.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Decision.c b/src/Decision.c
index 174066f..b6e6995 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -320,6 +320,11 @@ static Decision Decision_ConsiderNegativeOutcomes(Decision decision)
         {
             for(int j=0; j<c->precondition_beliefs[decision.operationID[0]].itemsAmount; j++)
             {
+                if(!Memory_ImplicationValid(&c->precondition_beliefs[decision.operationID[0]].array[j]))
+                {
+                    Table_Remove(&c->precondition_beliefs[decision.operationID[0]], j--);
+                    continue;
+                }
                 Implication imp = c->precondition_beliefs[decision.operationID[0]].array[j];
                 Concept *prec = imp.sourceConcept;
                 if(prec->belief_spike.type != EVENT_TYPE_DELETED && currentTime - prec->belief_spike.occurrenceTime < EVENT_BELIEF_DISTANCE)
@@ -596,6 +601,10 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
         for(int h=0; h<k; h++)
         {
             Implication imp = valid_implications[h]; //(&/,a,op) =/> b.
+            if(!Memory_ImplicationValid(&imp)) //conceptualizing a previous prediction might have recycled the source concept
+            {
+                continue;
+            }
             Concept *current_prec = imp.sourceConcept;
             Event *precondition = &current_prec->belief_spike;
             if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED)
-- 
2.43.0


From ddd32fe5e3b6b6575a58f5229e6c7fdcd34300e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 19/27] fix: the positive evidence of abduction and the
 symmetric premise of analogy are the arguments the truth functions expect

---
 src/Cycle.c | 4 ++--
 src/NAL.h   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index deca692..ba1cfe7 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -622,7 +622,7 @@ void Cycle_SpecialInferences(Term term1, Term term2, Truth truth1, Truth truth2,
         {
             bool success;
             Term conclusionTerm = Variable_ApplySubstitute(impl_predicate, subject_subs, &success);
-            Truth conclusionTruth = IsImpl ? Truth_Deduction(truth2, truth1) : Truth_Analogy(truth2, truth1);
+            Truth conclusionTruth = IsImpl ? Truth_Deduction(truth2, truth1) : Truth_Analogy(truth1, truth2);
             if(success)
             {
                 NAL_DerivedEvent(conclusionTerm, conclusionOccurrence, conclusionTruth, conclusionStamp, currentTime, parentPriority, conceptPriority, occurrenceTimeOffset, validation_concept, validation_cid, false, false);
@@ -664,7 +664,7 @@ void Cycle_SpecialInferences(Term term1, Term term2, Truth truth1, Truth truth2,
         {
             bool success;
             Term conclusionTerm = Variable_ApplySubstitute(impl_subject, predicate_subs, &success);
-            Truth conclusionTruth = IsImpl ? Truth_Abduction(truth2, truth1) : Truth_Analogy(truth2, truth1);
+            Truth conclusionTruth = IsImpl ? Truth_Abduction(truth2, truth1) : Truth_Analogy(truth1, truth2);
             if(success)
             {
                 NAL_DerivedEvent(conclusionTerm, conclusionOccurrence, conclusionTruth, conclusionStamp, currentTime, parentPriority, conceptPriority, occurrenceTimeOffset, validation_concept, validation_cid, false, false);
diff --git a/src/NAL.h b/src/NAL.h
index 7418f9a..d4253ff 100755
--- a/src/NAL.h
+++ b/src/NAL.h
@@ -68,7 +68,7 @@ R2( (A --> B), (A --> C), |-, (C --> B), Truth_Induction )
 R2( (A --> C), (B --> C), |-, (B --> A), Truth_Abduction )
 R2( (A --> B), (B --> C), |-, (C --> A), Truth_Exemplification )
 R2( S, (S --> P), |-, P, Truth_Deduction )
-R2( P, (S --> P), |-, S, Truth_Abduction )
+R2( (S --> P), P, |-, S, Truth_Abduction )
 #endif
 
 #if SEMANTIC_INFERENCE_NAL_LEVEL >= 2
@@ -154,10 +154,10 @@ R2( ((A * B) --> R), (C --> B), |-, ((A * C) --> R), Truth_Deduction )
 R2( ((A * B) --> R), (B --> C), |-, ((A * C) --> R), Truth_Induction )
 R2( ((A * B) --> R), (C <-> B), |-, ((A * C) --> R), Truth_Analogy )
 R2( (R --> (A * B)), (A --> C), |-, (R --> (C * B)), Truth_Deduction )
-R2( (R --> (A * B)), (C --> A), |-, (R --> (C * B)), Truth_Abduction )
+R2( (C --> A), (R --> (A * B)), |-, (R --> (C * B)), Truth_Abduction )
 R2( (R --> (A * B)), (C <-> A), |-, (R --> (C * B)), Truth_Analogy )
 R2( (R --> (A * B)), (B --> C), |-, (R --> (A * C)), Truth_Deduction )
-R2( (R --> (A * B)), (C --> B), |-, (R --> (A * C)), Truth_Abduction )
+R2( (C --> B), (R --> (A * B)), |-, (R --> (A * C)), Truth_Abduction )
 R2( (R --> (A * B)), (C <-> B), |-, (R --> (A * C)), Truth_Analogy )
 R2( ((A * B) --> R), ((C * B) --> R), |-, (A <-> C), Truth_Comparison )
 R2( ((A * B) --> R), ((A * C) --> R), |-, (B <-> C), Truth_Comparison )
@@ -204,7 +204,7 @@ R2( (M <=> P), (S <=> M), |-, (S <=> P), Truth_Resemblance )
 //!Higher-order decomposition in Cycle_SpecialInferences (with var elimination in Cycle_SpecialInferences)
 R2( A, (A ==> B), |-, B, Truth_Deduction )
 R2( A, ((A && B) ==> C), |-, (B ==> C), Truth_Deduction )
-R2( B, (A ==> B), |-, A, Truth_Abduction )
+R2( (A ==> B), B, |-, A, Truth_Abduction )
 R2( A, (A <=> B), |-, B, Truth_Analogy )
 #endif
 
-- 
2.43.0


From 2f17dba32268e93d3be2707ad1fde84715ec12e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 20/27] fix: keep the heap order in PriorityQueue_PopAt for
 items on both kinds of levels

---
 src/PriorityQueue.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PriorityQueue.c b/src/PriorityQueue.c
index 29e1010..ade344e 100755
--- a/src/PriorityQueue.c
+++ b/src/PriorityQueue.c
@@ -243,7 +243,11 @@ bool PriorityQueue_PopAt(PriorityQueue *queue, int i, void** returnItemAddress)
     Item item = at(i);
     swap(queue, i, queue->itemsAmount-1); 
     queue->itemsAmount--;
-    trickleDown(queue, i, true); //enforce minmax heap property
+    if(i < queue->itemsAmount) //enforce minmax heap property for the item moved to i
+    {
+        bubbleUp(queue, i);
+        trickleDown(queue, i, isOnMaxLevel(i));
+    }
     if(returnItemAddress != NULL)
     {
         *returnItemAddress = item.address; 
-- 
2.43.0


From 17c32af5b73bfc9da84e87e30636515f74f3be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:02 +0000
Subject: [PATCH 21/27] fix: don't merge variables whose number was already
 taken by a renamed one in Variable_Normalize

---
 src/Variable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.c b/src/Variable.c
index 63172f6..6c01e11 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -446,7 +446,7 @@ void Variable_Normalize(Term *term)
             for(int k=j; k<COMPOUND_TERM_SIZE_MAX; k++)
             {
                 Atom atom2 = term->atoms[k];
-                if(atom == atom2)
+                if(!normalized[k] && atom == atom2)
                 {
                     term->atoms[k] = Narsese_AtomicTermIndex(varname);
                     normalized[k] = true;
-- 
2.43.0


From 1e9110ee0de4827dc80b562be2a5b891cbcca938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:02 +0000
Subject: [PATCH 22/27] fix: replace each variable by exactly its binding,
 don't substitute within the inserted terms

---
 src/Variable.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Variable.c b/src/Variable.c
index 6c01e11..0f090a0 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -130,6 +130,7 @@ Term Variable_ApplySubstitute(Term general, Substitution substitution, bool *suc
 {
     assert(substitution.success, "A substitution from unsuccessful unification cannot be used to substitute variables!");
     *success = true;
+    Term ret = general; //inserted terms are not subject to the substitution themselves
     for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++)
     {
         Atom general_atom = general.atoms[i];
@@ -137,13 +138,13 @@ Term Variable_ApplySubstitute(Term general, Substitution substitution, bool *suc
         assert(!is_variable || general_atom <= 27, "Variable_ApplySubstitute: Problematic variable encountered, only $1-$9, #1-#9 and ?1-?9 are allowed!");
         if(is_variable && substitution.map[(int) general_atom].atoms[0] != 0)
         {
-            if(!Term_OverrideSubterm(&general, i, &substitution.map[(int) general_atom]))
+            if(!Term_OverrideSubterm(&ret, i, &substitution.map[(int) general_atom]))
             {
                 *success = false;
             }
         }
     }
-    return general;
+    return ret;
 }
 
 //Search for variables which appear twice extensionally, if also appearing in the right side of the implication
-- 
2.43.0


From 1f1c2e0e780340624d8c5f1327df86a79933a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:06 +0000
Subject: [PATCH 23/27] fix: don't introduce a variable which already occurs in
 the term

---
 src/Variable.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/Variable.c b/src/Variable.c
index 0f090a0..d98c9aa 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -310,9 +310,7 @@ Term Variable_IntroduceImplicationVariables2(Term implication, bool *success, bo
     }
     countHigherOrderStatementAtoms(&left_side,  &HT_appearing_left,  extensionally, sideOfProduct);
     countHigherOrderStatementAtoms(&right_side, &HT_appearing_right, extensionally, sideOfProduct);
-    char depvar_i = newVarID(&implication, false);
-    char indepvar_i = newVarID(&implication, true);
-    if(!depvar_i || !indepvar_i)
+    if(!newVarID(&implication, false) || !newVarID(&implication, true))
     {
         *success = false;
         return implication;
@@ -332,7 +330,11 @@ Term Variable_IntroduceImplicationVariables2(Term implication, bool *success, bo
                 int var_id = (intptr_t) HashTable_Get(&HT_variable_id, (void*) (intptr_t) atom);
                 if(!var_id)
                 {
-                    var_id = indepvar_i++;
+                    var_id = newVarID(&implication, true); //ids in use don't need to be consecutive
+                    if(!var_id) //can only introduce up to 9 variables
+                    {
+                        continue;
+                    }
                     HashTable_Set(&HT_variable_id, (void*) (intptr_t) atom, (void*) (intptr_t) var_id);
                 }
                 if(var_id <= 9) //can only introduce up to 9 variables
@@ -355,7 +357,11 @@ Term Variable_IntroduceImplicationVariables2(Term implication, bool *success, bo
                 int var_id = (intptr_t) HashTable_Get(&HT_variable_id, (void*) (intptr_t) atom);
                 if(!var_id)
                 {
-                    var_id = depvar_i++;
+                    var_id = newVarID(&implication, false); //ids in use don't need to be consecutive
+                    if(!var_id) //can only introduce up to 9 variables
+                    {
+                        continue;
+                    }
                     HashTable_Set(&HT_variable_id, (void*) (intptr_t) atom, (void*) (intptr_t) var_id);
                 }
                 if(var_id <= 9) //can only introduce up to 9 variables
@@ -394,8 +400,7 @@ Term Variable_IntroduceConjunctionVariables(Term conjunction, bool *success, boo
     HashTable_INIT(&HT_variable_id,  HT_variable_id_storage, HT_variable_id_storageptrs,  HT_variable_id_HT,  VAR_INTRO_HASHTABLE_BUCKETS, COMPOUND_TERM_SIZE_MAX, (Equal) Atom_Equal, (Hash) Atom_Hash);
     Term left_side = conjunction;
     countHigherOrderStatementAtoms(&left_side, &HT_appearing_left, extensionally, 0);
-    char depvar_i = newVarID(&conjunction, false);
-    if(!depvar_i)
+    if(!newVarID(&conjunction, false))
     {
         *success = false;
         return conjunction;
@@ -411,7 +416,11 @@ Term Variable_IntroduceConjunctionVariables(Term conjunction, bool *success, boo
             int var_id = (intptr_t) HashTable_Get(&HT_variable_id, (void*) (intptr_t) atom);
             if(!var_id)
             {
-                var_id = depvar_i++;
+                var_id = newVarID(&conjunction, false); //ids in use don't need to be consecutive
+                if(!var_id) //can only introduce up to 9 variables
+                {
+                    continue;
+                }
                 HashTable_Set(&HT_variable_id, (void*) (intptr_t) atom, (void*) (intptr_t) var_id);
             }
             if(var_id <= 9) //can only introduce up to 9 variables
-- 
2.43.0


From 7974fdaf3c52c7c8fc864d4167cc22e5cfb063e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:59 +0000
Subject: [PATCH 24/27] fix: stop on too long goal sequences before the
 component array overflows

---
 src/Cycle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index ba1cfe7..0e67053 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -168,7 +168,7 @@ bool Cycle_GoalSequenceDecomposition(Event *selectedGoal, double selectedGoalPri
     int i=0;
     for(; Narsese_copulaEquals(cur_seq.atoms[0], SEQUENCE); i++)
     {
-        assert(i<=MAX_SEQUENCE_LEN, "The sequence was longer than MAX_SEQUENCE_LEN, change your input or increase the parameter!");
+        assert(i<MAX_SEQUENCE_LEN, "The sequence was longer than MAX_SEQUENCE_LEN, change your input or increase the parameter!");
         componentGoalsTerm[i] = Term_ExtractSubterm(&cur_seq, 2);
         cur_seq = Term_ExtractSubterm(&cur_seq, 1);
     }
-- 
2.43.0


From 188b3f1f780348f21173980e073076c4dabf9c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:59 +0000
Subject: [PATCH 25/27] fix: keep the right child within the term in the
 right-nesting filter

---
 src/NAL.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NAL.c b/src/NAL.c
index 1fdf724..94443ea 100755
--- a/src/NAL.c
+++ b/src/NAL.c
@@ -280,7 +280,7 @@ static bool NAL_JunctionNotRightNested(Term *conclusionTerm)
         if(Narsese_copulaEquals(conclusionTerm->atoms[i], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i], DISJUNCTION))
         {
             int i_right_child = ((i+1)*2+1)-1;
-            if(i < COMPOUND_TERM_SIZE_MAX &&  (Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], DISJUNCTION)))
+            if(i_right_child < COMPOUND_TERM_SIZE_MAX &&  (Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], DISJUNCTION)))
             {
                 return true;
             }
-- 
2.43.0


From 7d8ca4d5540daed72f2f2e066f18a00b1b227c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:59 +0000
Subject: [PATCH 26/27] fix: no motor babbling when the number of babbling
 operations is not positive

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index b6e6995..c9ef834 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -277,7 +277,7 @@ static Decision Decision_MotorBabbling()
     {
         n_ops = i+1;
     }
-    if(n_ops > 0)
+    if(MIN(BABBLING_OPS, n_ops) > 0)
     {
         decision.operationID[0] = 1+(myrand() % (MIN(BABBLING_OPS, n_ops)));
         IN_DEBUG (
-- 
2.43.0


From df7fb2c6f5cb4e366fdf9f8505fba36d8c542b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:59 +0000
Subject: [PATCH 27/27] fix: check for stack overflow before writing the
 element

---
 src/Stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Stack.c b/src/Stack.c
index 1d467a4..5b0ee15 100755
--- a/src/Stack.c
+++ b/src/Stack.c
@@ -33,9 +33,9 @@ void Stack_INIT(Stack *stack, void **items, int maxElements)
 
 void Stack_Push(Stack *stack, void *item)
 {
+    assert(stack->stackpointer < stack->maxElements, "VMEntry stack overflow");
     stack->items[stack->stackpointer] = item;
     stack->stackpointer++;
-    assert(stack->stackpointer <= stack->maxElements, "VMEntry stack overflow");
 }
 
 void *Stack_Pop(Stack *stack)
-- 
2.43.0

