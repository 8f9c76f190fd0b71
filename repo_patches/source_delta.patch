From 7a9c859ef1f108168fea05003c7d90d65d25812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:22 +0000
Subject: [PATCH 01/56] fix: handle Stair ticks that fall between internal
 steps

---
 Stair/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Stair/model.c b/Stair/model.c
index 97716ec..59e0601 100644
--- a/Stair/model.c
+++ b/Stair/model.c
@@ -86,7 +86,7 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
 Status eventUpdate(ModelInstance *comp) {
     ASSERT_NOT_NULL2(comp);
 
-    if (comp->nextEventTimeDefined && isClose(comp->time, comp->nextEventTime)) {
+    if (comp->nextEventTimeDefined && (comp->time >= comp->nextEventTime || isClose(comp->time, comp->nextEventTime))) {
         M(counter)++;
         comp->nextEventTime += 1;
     }
-- 
2.43.0


From b496776aa54aa87c8ac4378146ba11024c6ce945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:22 +0000
Subject: [PATCH 02/56] fix: validate nValues before reading structural
 parameters of StateSpace

The value was consumed before the size check, so every set of m, n or r failed.
---
 StateSpace/model.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index abc914d..e7ebc1c 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -262,6 +262,7 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
         return Error;
     }
 
+    ASSERT_NVALUES(1);
     const uint64_t v = values[(*index)++];
 
     switch (vr) {
@@ -270,7 +271,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable m must not be greater than " xstr(M_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(m) = v;
             break;
         case vr_n:
@@ -278,7 +278,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable n must not be greater than " xstr(N_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(n) = v;
             break;
         case vr_r:
@@ -286,7 +285,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable r must not be greater than " xstr(R_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(r) = v;
             break;
         default:
-- 
2.43.0


From 3b6bda86e5e9b8c545084cdf9e58dd7d2a17a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:22 +0000
Subject: [PATCH 03/56] fix: return the StateSpace matrix B as n x m

---
 StateSpace/model.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index e7ebc1c..ea13e68 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -99,9 +99,9 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
             }
             return OK;
         case vr_B:
-            ASSERT_NVALUES((size_t)(M(m) * M(n)));
-            for (size_t i = 0; i < M(m); i++) {
-                for (size_t j = 0; j < M(n); j++) {
+            ASSERT_NVALUES((size_t)(M(n) * M(m)));
+            for (size_t i = 0; i < M(n); i++) {
+                for (size_t j = 0; j < M(m); j++) {
                     values[(*index)++] = M(B)[i][j];
                 }
             }
-- 
2.43.0


From 852fe1dc44e8f8626c9f265aab37aee040674a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:22 +0000
Subject: [PATCH 04/56] fix: sum over all m inputs in the StateSpace derivative

---
 StateSpace/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index ea13e68..92fb908 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -51,7 +51,7 @@ Status calculateValues(ModelInstance *comp) {
 
     for (size_t i = 0; i < M(n); i++) {
 
-        for (size_t j = 0; j < M(r); j++) {
+        for (size_t j = 0; j < M(m); j++) {
             M(der_x)[i] += M(B)[i][j] * M(u)[j];
         }
     }
-- 
2.43.0


From 8ffdc928c8c10acf0cb0d61b0a39da15a1ee641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:22 +0000
Subject: [PATCH 05/56] fix: apply and reset the StateSpace initial state x0

---
 StateSpace/model.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 92fb908..84ed782 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -27,8 +27,8 @@ Status setStartValues(ModelInstance *comp) {
     }
 
     for (int i = 0; i < N_MAX; i++) {
+        M(x0)[i] = 0;
         M(x)[i] = M(x0)[i];
-        M(x)[i] = 0;
     }
 
     comp->isDirtyValues = true;
@@ -201,6 +201,11 @@ Status setFloat64(ModelInstance* comp, ValueReference vr, const double values[],
         for (size_t i = 0; i < M(n); i++) {
             M(x0)[i] = values[(*index)++];
         }
+        if (comp->state == Instantiated || comp->state == InitializationMode || comp->state == ConfigurationMode) {
+            for (size_t i = 0; i < M(n); i++) {
+                M(x)[i] = M(x0)[i];
+            }
+        }
         break;
     case vr_u:
         ASSERT_NVALUES((size_t)M(m));
-- 
2.43.0


From d8b8caab752bebc20ffe82db5dec341777483e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:22 +0000
Subject: [PATCH 06/56] fix: clear event information, stop time and
 communication point on reset

---
 src/cosimulation.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index eaddace..0d3f085 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -162,8 +162,16 @@ Status reset(ModelInstance* comp) {
     comp->state = Instantiated;
     comp->startTime = 0.0;
     comp->time = 0.0;
+    comp->stopTime = 0.0;
+    comp->nextCommunicationPoint = 0.0;
     comp->nSteps = 0;
     comp->status = OK;
+    comp->newDiscreteStatesNeeded = false;
+    comp->terminateSimulation = false;
+    comp->nominalsOfContinuousStatesChanged = false;
+    comp->valuesOfContinuousStatesChanged = false;
+    comp->nextEventTimeDefined = false;
+    comp->nextEventTime = 0;
     setStartValues(comp);
     comp->isDirtyValues = true;
 
-- 
2.43.0


From c1766b95a93ac3c8461f1b5b21b95ea02951ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:22 +0000
Subject: [PATCH 07/56] fix: return the status of getting and setting the FMU
 state in FMI 2.0

---
 src/fmi2Functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index ecf9f61..c15be09 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -367,13 +367,13 @@ fmi2Status fmi2SetString (fmi2Component c, const fmi2ValueReference vr[], size_t
 
 fmi2Status fmi2GetFMUstate (fmi2Component c, fmi2FMUstate* FMUstate) {
     BEGIN_FUNCTION(GetFMUstate);
-    getFMUState(S, FMUstate);
+    CALL(getFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
 fmi2Status fmi2SetFMUstate(fmi2Component c, fmi2FMUstate FMUstate) {
     BEGIN_FUNCTION(SetFMUstate);
-    setFMUState(S, FMUstate);
+    CALL(setFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
-- 
2.43.0


From 2351b7e41a3c775ac22c60287d4050e3eccdc787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:22 +0000
Subject: [PATCH 08/56] fix: refuse NaN and infinite communication step sizes

fmi2DoStep() and fmi3DoStep() never returned for these.
---
 src/fmi2Functions.c | 4 ++--
 src/fmi3Functions.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index c15be09..eefac8f 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -510,8 +510,8 @@ fmi2Status fmi2DoStep(fmi2Component c, fmi2Real currentCommunicationPoint,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
-        logError(S, "Communication step size must be > 0 but was %g.", communicationStepSize);
+    if (!(communicationStepSize > 0) || isinf(communicationStepSize)) {
+        logError(S, "Communication step size must be > 0 and finite but was %g.", communicationStepSize);
         CALL(Error);
     }
 
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 10af071..cb593f0 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1209,8 +1209,8 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
-        logError(S, "Communication step size must be > 0 but was %.16g.", communicationStepSize);
+    if (!(communicationStepSize > 0) || isinf(communicationStepSize)) {
+        logError(S, "Communication step size must be > 0 and finite but was %.16g.", communicationStepSize);
         CALL(Error);
     }
 
-- 
2.43.0


From b4d91b6375dc08702c1c3667b60d579b6a03236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 09/56] fix: calculate the Roberts event indicator variables g1
 and g2

---
 Roberts/model.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Roberts/model.c b/Roberts/model.c
index acba211..d95a641 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -30,6 +30,9 @@ Status calculateValues(ModelInstance *comp) {
 
     M(r) = M(y1) + M(y2) + M(y3) - 1.0;
 
+    M(g1) = M(y1) - 0.0001;
+    M(g2) = M(y3) - 0.01;
+
     comp->isDirtyValues = false;
 
     return OK;
@@ -257,8 +260,8 @@ Status getEventIndicators(ModelInstance* comp, double z[], size_t nz) {
 
     calculateValues(comp);
 
-    z[0] = M(y1) - 0.0001;
-    z[1] = M(y3) - 0.01;
+    z[0] = M(g1);
+    z[1] = M(g2);
 
     return OK;
 }
-- 
2.43.0


From 8652ccb39a2c3225e57cd192f617322bdd656301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 10/56] fix: make the Roberts partial derivatives consistent
 with the equations

With dae=false y3 is calculated from y1 and y2, which the partial derivatives
ignored. The declared dependencies of y3, g1 and g2 returned 0.
---
 Roberts/model.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/Roberts/model.c b/Roberts/model.c
index d95a641..f712be0 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -176,24 +176,33 @@ Status getPartialDerivative(ModelInstance* comp, ValueReference unknown, ValueRe
 
     calculateValues(comp);
 
+    // derivative of y3 w.r.t. y1 and y2
+    const double dy3 = M(dae) ? 0.0 : -1.0;
+
     if (unknown == vr_der_y1 && known == vr_y1) {
-        *partialDerivative = -0.04;
+        *partialDerivative = -0.04 + 1e4 * M(y2) * dy3;
     } else if (unknown == vr_der_y1 && known == vr_y2) {
-        *partialDerivative = 1e4 * M(y3);
+        *partialDerivative = 1e4 * M(y3) + 1e4 * M(y2) * dy3;
     } else if (unknown == vr_der_y1 && known == vr_y3) {
         *partialDerivative = 1e4 * M(y2);
     } else if (unknown == vr_der_y2 && known == vr_y1) {
-        *partialDerivative = 0.04;
+        *partialDerivative = 0.04 - 1e4 * M(y2) * dy3;
     } else if (unknown == vr_der_y2 && known == vr_y2) {
-        *partialDerivative = -1e4 * M(y3) - 6e7 * M(y2);
+        *partialDerivative = -1e4 * M(y3) - 1e4 * M(y2) * dy3 - 6e7 * M(y2);
     } else if (unknown == vr_der_y2 && known == vr_y3) {
         *partialDerivative = -1e4 * M(y2);
     } else if (unknown == vr_r && known == vr_y1) {
-        *partialDerivative = 1.0;
+        *partialDerivative = 1.0 + dy3;
     } else if (unknown == vr_r && known == vr_y2) {
-        *partialDerivative = 1.0;
+        *partialDerivative = 1.0 + dy3;
     } else if (unknown == vr_r && known == vr_y3) {
         *partialDerivative = 1.0;
+    } else if ((unknown == vr_y3 || unknown == vr_g2) && (known == vr_y1 || known == vr_y2)) {
+        *partialDerivative = dy3;
+    } else if (unknown == vr_g1 && known == vr_y1) {
+        *partialDerivative = 1.0;
+    } else if (unknown == vr_g2 && known == vr_y3) {
+        *partialDerivative = 1.0;
     } else {
         *partialDerivative = 0.0;
     }
-- 
2.43.0


From fd47157c68e7dd5fed76df86ef4aef2f5669101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 11/56] fix: support the event mode that the Roberts model
 description declares

Instantiating the FMU with eventModeUsed=true failed.
---
 Roberts/config.h |  2 ++
 Roberts/model.c  | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/Roberts/config.h b/Roberts/config.h
index 8f71150..06424ad 100644
--- a/Roberts/config.h
+++ b/Roberts/config.h
@@ -21,6 +21,8 @@
 #define GET_BOOLEAN
 #define SET_BOOLEAN
 
+#define EVENT_UPDATE
+
 typedef enum {
     vr_time,
     vr_dae,
diff --git a/Roberts/model.c b/Roberts/model.c
index f712be0..5ba068f 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -160,6 +160,17 @@ Status setBoolean(ModelInstance* comp, ValueReference vr, const bool values[], s
     return OK;
 }
 
+Status eventUpdate(ModelInstance *comp) {
+    ASSERT_NOT_NULL2(comp);
+
+    comp->valuesOfContinuousStatesChanged   = false;
+    comp->nominalsOfContinuousStatesChanged = false;
+    comp->terminateSimulation               = false;
+    comp->nextEventTimeDefined              = false;
+
+    return OK;
+}
+
 size_t getNumberOfContinuousStates(ModelInstance* comp) {
     UNUSED(comp);
     return MAX_CONTINUOUS_STATES;
-- 
2.43.0


From bfed46547b2f65c470ed7203c1cdd4b961c867c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 12/56] fix: declare the actual internal step sizes of Roberts
 and StateSpace

---
 Roberts/FMI3.xml    | 2 +-
 StateSpace/FMI3.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index ef5db34..9451bbb 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -21,7 +21,7 @@
     providesIntermediateUpdate="true"
     mightReturnEarlyFromDoStep="true"
     canReturnEarlyAfterIntermediateUpdate="true"
-    fixedInternalStepSize="1e-3"
+    fixedInternalStepSize="1e-6"
     hasEventMode="true"/>
 
   <LogCategories>
diff --git a/StateSpace/FMI3.xml b/StateSpace/FMI3.xml
index 8d2e4d9..7533a9b 100644
--- a/StateSpace/FMI3.xml
+++ b/StateSpace/FMI3.xml
@@ -18,7 +18,7 @@
       canHandleVariableCommunicationStepSize="true"
       providesIntermediateUpdate="true"
       canReturnEarlyAfterIntermediateUpdate="true"
-      fixedInternalStepSize="1"
+      fixedInternalStepSize="1e-3"
       hasEventMode="true"/>
 
     <LogCategories>
-- 
2.43.0


From 1f9112c4c624a3ead838801e58d4c4e9e900b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 13/56] fix: allow to set the structural parameter dae only in
 (Re)Configuration Mode

---
 Roberts/model.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Roberts/model.c b/Roberts/model.c
index 5ba068f..6e290c0 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -147,6 +147,10 @@ Status setBoolean(ModelInstance* comp, ValueReference vr, const bool values[], s
 
     switch (vr) {
     case vr_dae:
+        if (comp->state != ConfigurationMode && comp->state != ReconfigurationMode) {
+            logError(comp, "Structural variables can only be set in Configuration Mode or Reconfiguration Mode.");
+            return Error;
+        }
         ASSERT_NVALUES(1);
         M(dae) = values[(*index)++];
         break;
-- 
2.43.0


From 6486ecf53689384d1cc978de404808e932148be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 14/56] fix: treat the VanDerPol parameter mu as fixed in Model
 Exchange

The model descriptions declare mu as fixed but it could be changed in Event Mode.
---
 VanDerPol/model.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/VanDerPol/model.c b/VanDerPol/model.c
index 6b8f2e9..5b22ecd 100644
--- a/VanDerPol/model.c
+++ b/VanDerPol/model.c
@@ -80,9 +80,8 @@ Status setFloat64(ModelInstance* comp, ValueReference vr, const double values[],
         case vr_mu:
             if (comp->type == ModelExchange &&
                 comp->state != Instantiated &&
-                comp->state != InitializationMode &&
-                comp->state != EventMode) {
-                logError(comp, "Variable mu can only be set after instantiation, in initialization mode or event mode.");
+                comp->state != InitializationMode) {
+                logError(comp, "Variable mu can only be set after instantiation or in initialization mode.");
                 return Error;
             }
             ASSERT_NVALUES(1);
-- 
2.43.0


From 33abc19e561e043af2cebbd2d1024bb1cf6b8cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 15/56] fix: check nValues before reading the values in Stair
 and Feedthrough setters

The setters of the counter, enumeration, string and binary variables read the
caller's array before checking its size, and dereferenced null elements.
---
 Feedthrough/model.c | 13 +++++++++----
 Stair/model.c       |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index e113dc6..be23c8d 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -648,11 +648,11 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             break;
 #if FMI_VERSION == 2
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%d is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -698,11 +698,11 @@ Status setInt64(ModelInstance* comp, ValueReference vr, const int64_t values[],
             break;
 #if FMI_VERSION == 3
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%llu is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -767,11 +767,12 @@ Status setString(ModelInstance* comp, ValueReference vr, const char *const value
 
     switch (vr) {
         case vr_String_input:
+            ASSERT_NVALUES(1);
+            ASSERT_NOT_NULL2(values[*index]);
             if (strlen(values[*index]) >= STRING_MAX_LEN) {
                 logError(comp, "Max. string length is %d bytes.", STRING_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             strcpy(M(String_input), values[(*index)++]);
             break;
         default:
@@ -791,11 +792,15 @@ Status setBinary(ModelInstance* comp, ValueReference vr, const size_t size[], co
 
     switch (vr) {
         case vr_Binary_input:
+            ASSERT_NVALUES(1);
+            ASSERT_NOT_NULL2(size);
             if (size[*index] > BINARY_MAX_LEN) {
                 logError(comp, "Max. binary size is %d bytes.", BINARY_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
+            if (size[*index] > 0) {
+                ASSERT_NOT_NULL2(values[*index]);
+            }
             M(Binary_input_size) = size[*index];
             memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));
             break;
diff --git a/Stair/model.c b/Stair/model.c
index 59e0601..36e6967 100644
--- a/Stair/model.c
+++ b/Stair/model.c
@@ -64,12 +64,13 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             return Error;
         }
 
+        ASSERT_NVALUES(1);
+
         if (values[*index] >= 10) {
             logError(comp, "The maximum value for variable \"counter\" is 10.");
             return Error;
         }
 
-        ASSERT_NVALUES(1);
         M(counter) = values[(*index)++];
 
         break;
-- 
2.43.0


From 250cb617351be709a66cd0c907e4cbd2f51c9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 16/56] fix: refuse to set the Feedthrough output
 Boolean_output

---
 Feedthrough/model.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index be23c8d..b0f3f33 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -746,10 +746,6 @@ Status setBoolean(ModelInstance* comp, ValueReference vr, const bool values[], s
             ASSERT_NVALUES(1);
             M(Boolean_input) = values[(*index)++];
             break;
-        case vr_Boolean_output:
-            ASSERT_NVALUES(1);
-            M(Boolean_output) = values[(*index)++];
-            break;
         default:
             logError(comp, "Set Boolean is not allowed for value reference %u.", vr);
             return Error;
-- 
2.43.0


From 3338b6ac44011cd1842257a01c5d19844433e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 17/56] fix: check nValues and valueSizes in fmi3GetBinary()

---
 src/fmi3Functions.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index cb593f0..7179db1 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -560,6 +560,7 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
     }
 
     if (nValues > 0) {
+        ASSERT_NOT_NULL(valueSizes);
         ASSERT_NOT_NULL(values);
     }
 
@@ -574,6 +575,11 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
         CALL(getBinary(S, (ValueReference)valueReferences[i], valueSizes, (const char**)values, nValues, &index));
     }
 
+    if (index != nValues) {
+        logError(S, "Expected nValues = %zu but was %zu.", index, nValues);
+        CALL(Error);
+    }
+
     END_FUNCTION();
 }
 
-- 
2.43.0


From 642095a858c277cd751247aa88dcac1896f75a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 18/56] fix: check array arguments of fmi2GetBoolean() and
 fmi2SetBoolean()

Also calculate and invalidate the values as for the other types.
---
 src/fmi2Functions.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index eefac8f..42d68cb 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -60,6 +60,13 @@ do { \
 
 #define GET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
+    if (S->isDirtyValues) { \
+        CALL(calculateValues(S)); \
+        S->isDirtyValues = false; \
+    } \
     for (size_t i = 0; i < nvr; i++) { \
         bool v; \
         size_t index = 0; \
@@ -70,11 +77,15 @@ do { \
 
 #define SET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         const bool v = value[i]; \
         size_t index = 0; \
         CALL(setBoolean(S, vr[i], &v, nvr, &index)); \
     } \
+    S->isDirtyValues = true; \
 } while (false)
 
 #ifndef DT_EVENT_DETECT
-- 
2.43.0


From 2212b0287cef35878f26539aa232c1ae36aae471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 19/56] fix: check the array arguments of the clock functions

---
 src/fmi3Functions.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 7179db1..6628310 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -589,6 +589,11 @@ fmi3Status fmi3GetClock(fmi3Instance instance,
     fmi3Clock values[]) {
     BEGIN_FUNCTION(GetClock);
 
+    if (nValueReferences > 0) {
+        ASSERT_NOT_NULL(valueReferences);
+        ASSERT_NOT_NULL(values);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         CALL(getClock(instance, (ValueReference)valueReferences[i], &values[i]));
     }
@@ -731,6 +736,11 @@ fmi3Status fmi3SetClock(fmi3Instance instance,
     const fmi3Clock values[]) {
     BEGIN_FUNCTION(SetClock);
 
+    if (nValueReferences > 0) {
+        ASSERT_NOT_NULL(valueReferences);
+        ASSERT_NOT_NULL(values);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         if (values[i]) {
             CALL(activateClock(instance, (ValueReference)valueReferences[i]));
@@ -943,6 +953,12 @@ fmi3Status fmi3GetIntervalDecimal(fmi3Instance instance,
 
     // TODO: Check nValueReferences != nValues ?
 
+    if (nValueReferences > 0) {
+        ASSERT_NOT_NULL(valueReferences);
+        ASSERT_NOT_NULL(intervals);
+        ASSERT_NOT_NULL(qualifiers);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         CALL(getInterval(instance, (ValueReference)valueReferences[i], &intervals[i], (int*)&qualifiers[i]));
     }
-- 
2.43.0


From 245a2cde87ce0b6c4a0e197056aca06cb1608616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 20/56] fix: check array arguments and sizes of the derivative
 functions

---
 src/cosimulation.c  |  2 +-
 src/fmi2Functions.c | 18 ++++++++++++++++--
 src/fmi3Functions.c | 45 +++++++++++++++++++++++++++++++++++----------
 3 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 0d3f085..1961a2c 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -201,7 +201,7 @@ bool invalidNumber(ModelInstance *comp, const char *f, const char *arg, size_t a
 
     if (actual != expected) {
         comp->state = Terminated;
-        logError(comp, "%s: Invalid argument %s = %d. Expected %d.", f, arg, actual, expected);
+        logError(comp, "%s: Invalid argument %s = %zu. Expected %zu.", f, arg, actual, expected);
         return true;
     }
 
diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 42d68cb..0089c89 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -441,8 +441,16 @@ fmi2Status fmi2GetDirectionalDerivative(fmi2Component c, const fmi2ValueReferenc
     BEGIN_FUNCTION(GetDirectionalDerivative);
 
     // TODO: check value references
-    // TODO: assert nUnknowns == nDeltaOfUnknowns
-    // TODO: assert nKnowns == nDeltaKnowns
+
+    if (nKnown > 0) {
+        ASSERT_NOT_NULL(vKnown_ref);
+        ASSERT_NOT_NULL(dvKnown);
+    }
+
+    if (nUnknown > 0) {
+        ASSERT_NOT_NULL(vUnknown_ref);
+        ASSERT_NOT_NULL(dvUnknown);
+    }
 
     for (size_t i = 0; i < nUnknown; i++) {
         dvUnknown[i] = 0;
@@ -481,6 +489,12 @@ fmi2Status fmi2GetRealOutputDerivatives(fmi2Component c, const fmi2ValueReferenc
     BEGIN_FUNCTION(GetRealOutputDerivatives);
 
 #ifdef GET_OUTPUT_DERIVATIVE
+    if (nvr > 0) {
+        ASSERT_NOT_NULL(vr);
+        ASSERT_NOT_NULL(order);
+        ASSERT_NOT_NULL(value);
+    }
+
     for (size_t i = 0; i < nvr; i++) {
         CALL(getOutputDerivative(S, vr[i], order[i], &value[i]));
     }
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 6628310..9b84ee9 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -861,14 +861,22 @@ fmi3Status fmi3GetDirectionalDerivative(fmi3Instance instance,
     fmi3Float64 sensitivity[],
     size_t nSensitivity) {
 
-    UNUSED(nSeed);
-    UNUSED(nSensitivity);
-
     BEGIN_FUNCTION(GetDirectionalDerivative);
 
     // TODO: check value references
-    // TODO: assert nUnknowns == nDeltaOfUnknowns
-    // TODO: assert nKnowns == nDeltaKnowns
+
+    if (invalidNumber(S, "fmi3GetDirectionalDerivative", "nSeed", nSeed, nKnowns)) CALL(Error);
+    if (invalidNumber(S, "fmi3GetDirectionalDerivative", "nSensitivity", nSensitivity, nUnknowns)) CALL(Error);
+
+    if (nKnowns > 0) {
+        ASSERT_NOT_NULL(knowns);
+        ASSERT_NOT_NULL(seed);
+    }
+
+    if (nUnknowns > 0) {
+        ASSERT_NOT_NULL(unknowns);
+        ASSERT_NOT_NULL(sensitivity);
+    }
 
     for (size_t i = 0; i < nUnknowns; i++) {
         sensitivity[i] = 0;
@@ -892,13 +900,23 @@ fmi3Status fmi3GetAdjointDerivative(fmi3Instance instance,
     fmi3Float64 sensitivity[],
     size_t nSensitivity) {
 
-    UNUSED(nSeed);
-    UNUSED(nSensitivity);
-
     BEGIN_FUNCTION(GetAdjointDerivative);
 
     // TODO: check value references
 
+    if (invalidNumber(S, "fmi3GetAdjointDerivative", "nSeed", nSeed, nUnknowns)) CALL(Error);
+    if (invalidNumber(S, "fmi3GetAdjointDerivative", "nSensitivity", nSensitivity, nKnowns)) CALL(Error);
+
+    if (nKnowns > 0) {
+        ASSERT_NOT_NULL(knowns);
+        ASSERT_NOT_NULL(sensitivity);
+    }
+
+    if (nUnknowns > 0) {
+        ASSERT_NOT_NULL(unknowns);
+        ASSERT_NOT_NULL(seed);
+    }
+
     for (size_t i = 0; i < nKnowns; i++) {
         sensitivity[i] = 0;
         for (size_t j = 0; j < nUnknowns; j++) {
@@ -1193,11 +1211,17 @@ fmi3Status fmi3GetOutputDerivatives(fmi3Instance instance,
     const fmi3Int32 orders[],
     fmi3Float64 values[],
     size_t nValues) {
-    UNUSED(nValues);
-
     BEGIN_FUNCTION(GetOutputDerivatives);
 
 #ifdef GET_OUTPUT_DERIVATIVE
+    if (invalidNumber(S, "fmi3GetOutputDerivatives", "nValues", nValues, nValueReferences)) CALL(Error);
+
+    if (nValueReferences > 0) {
+        ASSERT_NOT_NULL(valueReferences);
+        ASSERT_NOT_NULL(orders);
+        ASSERT_NOT_NULL(values);
+    }
+
     for (size_t i = 0; i < nValueReferences; i++) {
         CALL(getOutputDerivative(S, (ValueReference)valueReferences[i], orders[i], &values[i]));
     }
@@ -1206,6 +1230,7 @@ fmi3Status fmi3GetOutputDerivatives(fmi3Instance instance,
     UNUSED(nValueReferences);
     UNUSED(orders);
     UNUSED(values);
+    UNUSED(nValues);
 
     NOT_IMPLEMENTED;
 #endif
-- 
2.43.0


From a8bb004edaa1e06c03d985929dcd8ddb03c93421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 21/56] fix: check the byte array of the serialized FMU state

---
 src/fmi2Functions.c | 4 ++++
 src/fmi3Functions.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 0089c89..8095506 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -414,6 +414,8 @@ fmi2Status fmi2SerializeFMUstate(fmi2Component c, fmi2FMUstate FMUstate, fmi2Byt
         return fmi2Error;
     }
 
+    ASSERT_NOT_NULL(serializedState);
+
     memcpy(serializedState, FMUstate, sizeof(ModelInstance));
 
     END_FUNCTION();
@@ -426,6 +428,8 @@ fmi2Status fmi2DeSerializeFMUstate (fmi2Component c, const fmi2Byte serializedSt
         return fmi2Error;
     }
 
+    ASSERT_NOT_NULL(serializedState);
+
     if (*FMUstate == NULL) {
         *FMUstate = calloc(1, sizeof(ModelInstance));
     }
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 9b84ee9..102056d 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -823,6 +823,8 @@ fmi3Status fmi3SerializeFMUState(fmi3Instance instance,
         return fmi3Error;
     }
 
+    ASSERT_NOT_NULL(serializedState);
+
     memcpy(serializedState, FMUState, sizeof(ModelInstance));
 
     END_FUNCTION();
@@ -838,6 +840,8 @@ fmi3Status fmi3DeserializeFMUState(fmi3Instance instance,
         return fmi3Error;
     }
 
+    ASSERT_NOT_NULL(serializedState);
+
     if (*FMUState == NULL) {
         *FMUState = calloc(1, sizeof(ModelInstance));
         if (*FMUState == NULL) {
-- 
2.43.0


From 6b91eb744334f6467f22f9df303d5605f10ed100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 22/56] fix: log an error when clock functions are not
 supported

---
 src/cosimulation.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 1961a2c..2a8f4eb 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -562,36 +562,32 @@ Status getPartialDerivative(ModelInstance* comp, ValueReference unknown, ValueRe
 
 #ifndef ACTIVATE_CLOCK
 Status activateClock(ModelInstance* comp, ValueReference vr) {
-    UNUSED(comp);
-    UNUSED(vr);
+    logError(comp, "Set Clock is not allowed for value reference %u.", vr);
     return Error;
 }
 #endif
 
 #ifndef GET_CLOCK
 Status getClock(ModelInstance* comp, ValueReference vr, bool* value) {
-    UNUSED(comp);
-    UNUSED(vr);
     UNUSED(value);
+    logError(comp, "Get Clock is not allowed for value reference %u.", vr);
     return Error;
 }
 #endif
 
 #ifndef GET_INTERVAL
 Status getInterval(ModelInstance* comp, ValueReference vr, double* interval, int* qualifier) {
-    UNUSED(comp);
-    UNUSED(vr);
     UNUSED(interval);
     UNUSED(qualifier);
+    logError(comp, "Get Interval is not allowed for value reference %u.", vr);
     return Error;
 }
 #endif
 
 #ifndef ACTIVATE_MODEL_PARTITION
 Status activateModelPartition(ModelInstance* comp, ValueReference vr, double activationTime) {
-    UNUSED(comp);
-    UNUSED(vr);
     UNUSED(activationTime);
+    logError(comp, "Activate model partition is not allowed for value reference %u.", vr);
     return Error;
 }
 #endif
-- 
2.43.0


From 9425cf78d7bdb5421a7fe4c61fafbbf462cab27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 23/56] fix: return errors of the event update from
 fmi3DoStep()

---
 src/fmi3Functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 102056d..123b747 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1291,7 +1291,7 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
 
 #ifdef EVENT_UPDATE
         if (*eventHandlingNeeded) {
-            eventUpdate(S);
+            CALL(eventUpdate(S));
             *eventHandlingNeeded = fmi3False;
         }
 #endif
-- 
2.43.0


From dd77120b698bf095601a5769e0b450e2d149ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:57 +0000
Subject: [PATCH 24/56] fix: do not call a missing clock update callback

---
 Clocks/model.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Clocks/model.c b/Clocks/model.c
index 97d28f3..2f41d3f 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -39,7 +39,7 @@ static void activateModelPartition1(ModelInstance* comp, double time) {
 
     M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
 
-    if (M(inClock3_qualifier) == 2 || M(outClock)) {
+    if (comp->clockUpdate && (M(inClock3_qualifier) == 2 || M(outClock))) {
         comp->clockUpdate(comp->componentEnvironment);
     }
 }
@@ -72,7 +72,7 @@ static void activateModelPartition2(ModelInstance* comp, double time) {
         comp->unlockPreemption();
     }
 
-    if (M(outClock)) {
+    if (comp->clockUpdate && M(outClock)) {
         comp->clockUpdate(comp->componentEnvironment);
     }
 }
@@ -111,7 +111,7 @@ static void activateModelPartition3(ModelInstance *comp, double time) {
         comp->unlockPreemption();
     }
 
-    if (M(outClock)) {
+    if (comp->clockUpdate && M(outClock)) {
         comp->clockUpdate(comp->componentEnvironment);
     }
 }
-- 
2.43.0


From b88955f3cbff1aa99af3014c46244499526e21e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:41 +0000
Subject: [PATCH 25/56] fix: refuse Co-Simulation for models without that
 interface

The Clocks FMU could be instantiated for Co-Simulation. Also log why an
interface type is refused.
---
 src/fmi3Functions.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 123b747..fa7c1ec 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -267,8 +267,10 @@ fmi3Instance fmi3InstantiateModelExchange(
     UNUSED(instantiationToken);
     UNUSED(resourcePath);
     UNUSED(loggingOn);
-    UNUSED(instanceEnvironment);
-    UNUSED(logMessage);
+
+    if (logMessage) {
+        logMessage(instanceEnvironment, fmi3Error, "error", "Model Exchange is not supported.");
+    }
 
     return NULL;
 #else
@@ -302,6 +304,22 @@ fmi3Instance fmi3InstantiateCoSimulation(
     UNUSED(requiredIntermediateVariables);
     UNUSED(nRequiredIntermediateVariables);
 
+#ifndef CO_SIMULATION
+    UNUSED(instanceName);
+    UNUSED(instantiationToken);
+    UNUSED(resourcePath);
+    UNUSED(loggingOn);
+    UNUSED(eventModeUsed);
+    UNUSED(earlyReturnAllowed);
+    UNUSED(intermediateUpdate);
+
+    if (logMessage) {
+        logMessage(instanceEnvironment, fmi3Error, "error", "Co-Simulation is not supported.");
+    }
+
+    return NULL;
+#else
+
 #ifndef EVENT_UPDATE
     if (eventModeUsed) {
         if (logMessage) {
@@ -328,6 +346,7 @@ fmi3Instance fmi3InstantiateCoSimulation(
     }
 
     return instance;
+#endif
 }
 
 fmi3Instance fmi3InstantiateScheduledExecution(
@@ -350,12 +369,14 @@ fmi3Instance fmi3InstantiateScheduledExecution(
     UNUSED(instantiationToken);
     UNUSED(resourcePath);
     UNUSED(loggingOn);
-    UNUSED(instanceEnvironment);
-    UNUSED(logMessage);
     UNUSED(clockUpdate);
     UNUSED(lockPreemption);
     UNUSED(unlockPreemption);
 
+    if (logMessage) {
+        logMessage(instanceEnvironment, fmi3Error, "error", "Scheduled Execution is not supported.");
+    }
+
     return NULL;
 #else
     ModelInstance *instance = createModelInstance(
-- 
2.43.0


From 8e481968d4e0a665cba2474833067f884b9e2111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:41 +0000
Subject: [PATCH 26/56] fix: release the instance when instantiation runs out
 of memory

---
 src/cosimulation.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 2a8f4eb..b9bb008 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -84,8 +84,15 @@ ModelInstance *createModelInstance(
         comp->eventModeUsed        = false;
     }
 
-    if (!comp || !comp->instanceName) {
-        logError(comp, "Out of memory.");
+    if (!comp || !comp->instanceName || (resourceLocation && !comp->resourceLocation)) {
+        if (cbLogger) {
+#if FMI_VERSION < 3
+            cbLogger(componentEnvironment, instanceName, Error, "error", "Out of memory.");
+#else
+            cbLogger(componentEnvironment, Error, "error", "Out of memory.");
+#endif
+        }
+        freeModelInstance(comp);
         return NULL;
     }
 
-- 
2.43.0


From b80960d0b971530959ad9706035713e77feba0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:41 +0000
Subject: [PATCH 27/56] fix: check for failed allocations when logging and
 deserializing

---
 src/cosimulation.c  | 2 +-
 src/fmi2Functions.c | 4 ++++
 src/fmi3Functions.c | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index b9bb008..9fc2a1a 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -301,7 +301,7 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
 
     va_copy(args1, args);
     buf = (char *)calloc(len + 1, sizeof(char));
-    len = vsnprintf(buf, len + 1, message, args);
+    len = buf ? vsnprintf(buf, len + 1, message, args1) : -1;
     va_end(args1);
 
     if (len >= 0) {
diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 8095506..64874ab 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -432,6 +432,10 @@ fmi2Status fmi2DeSerializeFMUstate (fmi2Component c, const fmi2Byte serializedSt
 
     if (*FMUstate == NULL) {
         *FMUstate = calloc(1, sizeof(ModelInstance));
+        if (*FMUstate == NULL) {
+            logError(S, "Failed to allocate memory for FMUstate.");
+            return fmi2Error;
+        }
     }
 
     memcpy(*FMUstate, serializedState, sizeof(ModelInstance));
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index fa7c1ec..f97fc0b 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -866,7 +866,7 @@ fmi3Status fmi3DeserializeFMUState(fmi3Instance instance,
     if (*FMUState == NULL) {
         *FMUState = calloc(1, sizeof(ModelInstance));
         if (*FMUState == NULL) {
-            printf("Failed to allocate memory for FMUState.\n");
+            logError(S, "Failed to allocate memory for FMUState.");
             return fmi3Error;
         }
     }
-- 
2.43.0


From 57615ec5198602e111ae4be785ce6c4d85162edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:41 +0000
Subject: [PATCH 28/56] fix: decode and check the resource location completely

Over-long locations were cut off or not terminated, and invalid percent
encodings ended the path early, so that another file was opened.
---
 Resource/model.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/Resource/model.c b/Resource/model.c
index fbf5163..16387d1 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -1,6 +1,7 @@
 #include "config.h"
 #include "model.h"
 
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -59,25 +60,41 @@ Status calculateValues(ModelInstance *comp) {
     const char *scheme1 = "file:///";
     const char *scheme2 = "file:/";
 
+    const char* src = NULL;
+
     if (strncmp(comp->resourceLocation, scheme1, strlen(scheme1)) == 0) {
-        strncpy(path, &comp->resourceLocation[strlen(scheme1)] - 1, MAX_PATH_LENGTH-1);
+        src = &comp->resourceLocation[strlen(scheme1) - 1];
     } else if (strncmp(comp->resourceLocation, scheme2, strlen(scheme2)) == 0) {
-        strncpy(path, &comp->resourceLocation[strlen(scheme2) - 1], MAX_PATH_LENGTH-1);
+        src = &comp->resourceLocation[strlen(scheme2) - 1];
     } else {
         logError(comp, "The resourceLocation must start with \"file:/\" or \"file:///\"");
         return Error;
     }
 
     // decode percent encoded characters
-    char* src = path;
     char* dst = path;
 
     char buf[3] = { '\0', '\0', '\0' };
 
     while (*src) {
 
-        if (*src == '%' && (buf[0] = src[1]) && (buf[1] = src[2])) {
-            *dst = strtol(buf, NULL, 16);
+        if (dst >= &path[MAX_PATH_LENGTH - strlen("/y.txt") - 1]) {
+            logError(comp, "The resourceLocation is too long.");
+            return Error;
+        }
+
+        if (*src == '%') {
+            if (!isxdigit((unsigned char)src[1]) || !isxdigit((unsigned char)src[2])) {
+                logError(comp, "The resourceLocation contains an invalid percent encoding.");
+                return Error;
+            }
+            buf[0] = src[1];
+            buf[1] = src[2];
+            *dst = (char)strtol(buf, NULL, 16);
+            if (*dst == '\0') {
+                logError(comp, "The resourceLocation contains an invalid percent encoding.");
+                return Error;
+            }
             src += 3;
         } else {
             *dst = *src;
@@ -89,6 +106,11 @@ Status calculateValues(ModelInstance *comp) {
 
     *dst = '\0';
 #else
+    if (strlen(comp->resourceLocation) >= MAX_PATH_LENGTH - strlen("y.txt")) {
+        logError(comp, "The resource path is too long.");
+        return Error;
+    }
+
     strncpy(path, comp->resourceLocation, MAX_PATH_LENGTH);
 #endif
 
-- 
2.43.0


From 20ddab87b5d220c8bc362ef5e0b44d146901cf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:37 +0000
Subject: [PATCH 29/56] fix: allow to enter Step Mode only from Event Mode

From Initialization Mode the initialization was left without being
completed and the FMU stepped without its states being set up.
---
 src/fmi3Functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index f97fc0b..63541b1 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -191,7 +191,7 @@ END_FUNCTION()
 
 /* Functions for Co-Simulation */
 
-#define MASK_fmi3EnterStepMode            (InitializationMode | EventMode)
+#define MASK_fmi3EnterStepMode            EventMode
 #define MASK_fmi3SetInputDerivatives      (Instantiated | InitializationMode | StepMode)
 #define MASK_fmi3GetOutputDerivatives     (StepMode | StepDiscarded | Terminated)
 #define MASK_fmi3DoStep                   StepMode
-- 
2.43.0


From 963077acdb911ac0cc93141522130ffa6d019ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:58 +0000
Subject: [PATCH 30/56] fix: do not treat infinite times as close to finite
 ones

An infinite communication point was accepted and fmi3DoStep() and
fmi2DoStep() never returned.
---
 src/cosimulation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 9fc2a1a..0767cba 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>  // for calloc(), free()
 #include <float.h>   // for DBL_EPSILON
+#include <math.h>    // for isinf()
 #include <stdio.h>
 #include <stdarg.h>
 #include <string.h>
@@ -197,6 +198,10 @@ static double fmiMax(double a, double b) {
 
 bool isClose(double a, double b) {
 
+    if (isinf(a) || isinf(b)) {
+        return a == b;
+    }
+
     if (fmiAbs(a - b) <= EPSILON) {
         return true;
     }
-- 
2.43.0


From 8b5f75b9dd384b346019c9c602c58662f4ca7232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:34 +0000
Subject: [PATCH 31/56] fix: allow to update the discrete states only in Event
 Mode

As in FMI 2.0 and required by the FMI standard. Before, an event update
was performed in any mode, also in Terminated after an error.
---
 src/fmi3Functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 63541b1..c7930c2 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -169,7 +169,7 @@ END_FUNCTION()
 #define MASK_fmi3GetIntervalFraction       MASK_AnyState
 #define MASK_fmi3SetIntervalDecimal        MASK_AnyState
 #define MASK_fmi3SetIntervalFraction       MASK_AnyState
-#define MASK_fmi3NewDiscreteStates         MASK_AnyState
+#define MASK_fmi3NewDiscreteStates         EventMode
 
 /* Functions for Model Exchange */
 
-- 
2.43.0


From 728a0fda5aecb3af0e0cd0aa86c55820c0ecd199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:36 +0000
Subject: [PATCH 32/56] fix: refuse to set variables after termination or an
 error in FMI 3.0

As in FMI 2.0 and required by the FMI standard, an instance in the
Terminated state only accepts to read variables until it is reset.
---
 src/fmi3Functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index c7930c2..d08b721 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -128,9 +128,9 @@ END_FUNCTION()
 #define MASK_fmi3GetBinary                MASK_fmi3GetFloat32
 #define MASK_fmi3GetClock                 MASK_AnyState
 
-#define MASK_fmi3SetFloat32               (Instantiated | InitializationMode | ConfigurationMode | ReconfigurationMode | EventMode | ContinuousTimeMode | StepMode | ClockActivationMode | IntermediateUpdateMode | Terminated)
+#define MASK_fmi3SetFloat32               (Instantiated | InitializationMode | ConfigurationMode | ReconfigurationMode | EventMode | ContinuousTimeMode | StepMode | ClockActivationMode | IntermediateUpdateMode)
 #define MASK_fmi3SetFloat64               MASK_fmi3SetFloat32
-#define MASK_fmi3SetInt8                  (Instantiated | ConfigurationMode | ReconfigurationMode | InitializationMode | EventMode | StepMode | ClockActivationMode | Terminated)
+#define MASK_fmi3SetInt8                  (Instantiated | ConfigurationMode | ReconfigurationMode | InitializationMode | EventMode | StepMode | ClockActivationMode)
 #define MASK_fmi3SetUInt8                 MASK_fmi3SetInt8
 #define MASK_fmi3SetInt16                 MASK_fmi3SetInt8
 #define MASK_fmi3SetUInt16                MASK_fmi3SetInt8
-- 
2.43.0


From a28926b2690d53786e7fef28e735742ffed884f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:45 +0000
Subject: [PATCH 33/56] fix: refuse a missing array of values in the FMI 3.0
 setters

SetInt32 of the Clocks FMU dereferenced a null array of values.
---
 src/fmi3Functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index d08b721..85c1ab0 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -69,6 +69,7 @@ END_FUNCTION()
 BEGIN_FUNCTION(Set ## T); \
 if (nValueReferences == 0) goto TERMINATE; \
 ASSERT_NOT_NULL(valueReferences); \
+if (nValues > 0) ASSERT_NOT_NULL(values); \
 size_t index = 0; \
 for (size_t i = 0; i < nValueReferences; i++) { \
     CALL(set ## T(S, (ValueReference)valueReferences[i], values, nValues, &index)); \
-- 
2.43.0


From 0955279ab44aa2779e0c328a13498209cfbcdc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:13 +0000
Subject: [PATCH 34/56] fix: refuse to instantiate FMI 2.0 FMUs with an illegal
 type

---
 src/fmi2Functions.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 64874ab..ab0715c 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -231,6 +231,11 @@ fmi2Component fmi2Instantiate(fmi2String instanceName, fmi2Type fmuType, fmi2Str
         return NULL;
     }
 
+    if (fmuType != fmi2ModelExchange && fmuType != fmi2CoSimulation) {
+        functions->logger(functions->componentEnvironment, instanceName ? instanceName : "?", fmi2Error, "error", "Illegal FMU type.");
+        return NULL;
+    }
+
     return createModelInstance(
         (loggerType)functions->logger,
         NULL,
-- 
2.43.0


From c358f66ea6da5dccad13d8cfacf8afac6f17d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:59 +0000
Subject: [PATCH 35/56] fix: track Step Mode when it is entered through the
 importer

---
 src/FMI3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 3458960..9f55847 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -1142,6 +1142,7 @@ Types for Functions for Co-Simulation
 /* Simulating the FMU */
 
 FMIStatus FMI3EnterStepMode(FMIInstance *instance) {
+    instance->state = FMIStepModeState;
     CALL(EnterStepMode);
 }
 
-- 
2.43.0


From 0354cb7fa4e265b82a2af858163767759be87be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:15 +0000
Subject: [PATCH 36/56] fix: pass fmi3ExitConfigurationMode on to the FMU in
 every mode

---
 src/FMI3.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 9f55847..0762a9f 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -892,10 +892,6 @@ FMIStatus FMI3ExitConfigurationMode(FMIInstance *instance) {
             instance->state = FMIClockActivationMode;
         }
 
-    } else {
-
-        return FMIError;
-
     }
 
     CALL(ExitConfigurationMode);
-- 
2.43.0


From fd18fe75a18e8868d68c83611a270d02fc172450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:25 +0000
Subject: [PATCH 37/56] fix: load fmi3SetShiftDecimal and fmi3SetShiftFraction
 in the importer

---
 src/FMI3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 0762a9f..a843cc9 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -209,6 +209,8 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
     LOAD_SYMBOL(GetShiftFraction);
     LOAD_SYMBOL(SetIntervalDecimal);
     LOAD_SYMBOL(SetIntervalFraction);
+    LOAD_SYMBOL(SetShiftDecimal);
+    LOAD_SYMBOL(SetShiftFraction);
     LOAD_SYMBOL(EvaluateDiscreteStates);
     LOAD_SYMBOL(UpdateDiscreteStates);
 
-- 
2.43.0


From 3599bec96911e14b5c09d81b815e9b1d5b7ad94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:46 +0000
Subject: [PATCH 38/56] fix: do not use log messages as format strings in FMI
 2.0

---
 src/cosimulation.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 0767cba..e80a632 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -310,9 +310,8 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
     va_end(args1);
 
     if (len >= 0) {
-        // no need to distinguish between FMI versions since we're not using variadic arguments
 #if FMI_VERSION < 3
-        comp->logger(comp->componentEnvironment, comp->instanceName, status, category, buf);
+        comp->logger(comp->componentEnvironment, comp->instanceName, status, category, "%s", buf);
 #else
         comp->logger(comp->componentEnvironment, status, category, buf);
 #endif
-- 
2.43.0


From dadcb56fede725bf3b5185a7f2ca870b8a7c2e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:59 +0000
Subject: [PATCH 39/56] fix: refuse to instantiate FMUs with missing functions
 in the importer

---
 src/FMI2.c | 4 ++--
 src/FMI3.c | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 32991d6..32a03df 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -44,7 +44,7 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
         return FMIFatal; \
     }\
 } while (0)
@@ -53,7 +53,7 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
         return FMIFatal; \
     } \
 } while (0)
diff --git a/src/FMI3.c b/src/FMI3.c
index a843cc9..d6a8822 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -36,7 +36,7 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
         return FMIFatal; \
     } \
 } while (0)
@@ -45,7 +45,7 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
         return FMIFatal; \
     } \
 } while (0)
@@ -264,6 +264,10 @@ FMIStatus FMI3InstantiateModelExchange(
 
     const FMIStatus status = loadSymbols3(instance);
 
+    if (status != FMIOK) {
+        return status;
+    }
+
     fmi3LogMessageCallback logMessage = instance->logMessage ? cb_logMessage3 : NULL;
 
     instance->component = instance->fmi3Functions->fmi3InstantiateModelExchange(instance->name, instantiationToken, resourcePath, visible, loggingOn, instance, logMessage);
-- 
2.43.0


From 756413c9b37239f92e8d2904792929e912238504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:12 +0000
Subject: [PATCH 40/56] fix: do not hang when a logged array element exactly
 fills the message buffer

---
 src/FMI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 465dc09..9c0c88a 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -319,7 +319,7 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize < instance->logMessageBufferPosition + requiredCharacters) {
+            while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + requiredCharacters) {
                 instance->logMessageBufferSize *= 2;
             }
 
-- 
2.43.0


From 57f34571ad82900138f0d6b7da3537edb8088d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:36 +0000
Subject: [PATCH 41/56] fix: log the number of states and event indicators
 instead of their address

---
 src/FMI3.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index d6a8822..952d5ad 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -1129,12 +1129,32 @@ FMIStatus FMI3GetNominalsOfContinuousStates(FMIInstance *instance,
 
 FMIStatus FMI3GetNumberOfEventIndicators(FMIInstance *instance,
     size_t* nEventIndicators) {
-    CALL_ARGS(GetNumberOfEventIndicators, "nEventIndicators=%zu", nEventIndicators);
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetNumberOfEventIndicators(instance->component, nEventIndicators);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetNumberOfEventIndicators(nEventIndicators=%zu)", *nEventIndicators);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 FMIStatus FMI3GetNumberOfContinuousStates(FMIInstance *instance,
     size_t* nContinuousStates) {
-    CALL_ARGS(GetNumberOfContinuousStates, "nContinuousStates=%zu", nContinuousStates);
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetNumberOfContinuousStates(instance->component, nContinuousStates);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetNumberOfContinuousStates(nContinuousStates=%zu)", *nContinuousStates);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 /***************************************************
-- 
2.43.0


From 86b4f7025024d596b797b91641c33323be4f7df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:36 +0000
Subject: [PATCH 42/56] fix: log the address of the qualifiers of
 fmi3GetIntervalFraction

---
 src/FMI3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 952d5ad..7d3e5ac 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -922,7 +922,7 @@ FMIStatus FMI3GetIntervalFraction(FMIInstance *instance,
     fmi3UInt64 resolutions[],
     fmi3IntervalQualifier qualifiers[]) {
     CALL_ARGS(GetIntervalFraction,
-        "valueReferences=0x%p, nValueReferences=%zu, intervalCounters=0x%p, resolutions=0x%p, qualifiers=%d",
+        "valueReferences=0x%p, nValueReferences=%zu, intervalCounters=0x%p, resolutions=0x%p, qualifiers=0x%p",
         valueReferences, nValueReferences, intervalCounters, resolutions, qualifiers);
 }
 
-- 
2.43.0


From 9115969d6b9327482cac35cfcb63644a66df5d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:36 +0000
Subject: [PATCH 43/56] fix: log the arguments of SetDebugLogging

---
 src/FMI2.c | 2 +-
 src/FMI3.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 32a03df..f32a4e1 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -123,7 +123,7 @@ FMIStatus FMI2SetDebugLogging(FMIInstance *instance, fmi2Boolean loggingOn, size
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
diff --git a/src/FMI3.c b/src/FMI3.c
index 7d3e5ac..79aefa2 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -110,7 +110,7 @@ FMIStatus FMI3SetDebugLogging(FMIInstance *instance,
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
-- 
2.43.0


From 6e7e210125b8760f0567d09709df1be6188c39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:44 +0000
Subject: [PATCH 44/56] fix: do not drop the last character of a log message
 that fills the buffer

---
 src/FMI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 9c0c88a..08a13a0 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -206,7 +206,7 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
 
     } else {
 
-        while (instance->logMessageBufferSize < instance->logMessageBufferPosition + length) {
+        while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + length) {
             instance->logMessageBufferSize *= 2;
         }
 
-- 
2.43.0


From e88243fb000d0c7a7b8020c6d15b287eefbe7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:59 +0000
Subject: [PATCH 45/56] fix: encode control and non-ASCII characters in URIs
 correctly

---
 src/FMI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 08a13a0..9ceb3e3 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -383,7 +383,7 @@ FMIStatus FMIPathToURI(const char *path, char *uri, const size_t uriLength) {
         }
 
         if (encode) {
-            sprintf(&uri[p], "%%%2X", c);
+            sprintf(&uri[p], "%%%02X", (unsigned char)c);
             p += 3;
         } else {
             uri[p++] = c;
-- 
2.43.0


From 72d9ce68705c666f4939a573ba44b0f24186db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:11 +0000
Subject: [PATCH 46/56] fix: do not read before an empty directory name in
 FMIPlatformBinaryPath

---
 src/FMI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 9ceb3e3..59f1219 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -400,7 +400,7 @@ FMIStatus FMIPlatformBinaryPath(const char *unzipdir, const char *modelIdentifie
 
     char* separator = ""; // optional separator after the unzipdir
 
-    const char last = unzipdir[strlen(unzipdir) - 1];
+    const char last = *unzipdir ? unzipdir[strlen(unzipdir) - 1] : '/';
 
     if (last != '/' && last != '\\') {
         separator = FMI_FILE_SEPARATOR;
-- 
2.43.0


From 754cefe3ffc487a4c8ba42927ef9ed3f3f0818d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:55 +0000
Subject: [PATCH 47/56] fix: name the right model in the build descriptions of
 Roberts and StateSpace

---
 Roberts/buildDescription.xml    | 2 +-
 StateSpace/buildDescription.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Roberts/buildDescription.xml b/Roberts/buildDescription.xml
index 0417ee4..a70bf0a 100644
--- a/Roberts/buildDescription.xml
+++ b/Roberts/buildDescription.xml
@@ -1,7 +1,7 @@
 <?xml version="1.0" encoding="UTF-8"?>
 <fmiBuildDescription fmiVersion="3.0">
 
-  <BuildConfiguration modelIdentifier="BouncingBall">
+  <BuildConfiguration modelIdentifier="Roberts">
     <SourceFileSet language="C99">
       <SourceFile name="fmi3Functions.c"/>
       <SourceFile name="model.c"/>
diff --git a/StateSpace/buildDescription.xml b/StateSpace/buildDescription.xml
index 9eb477c..1da3940 100644
--- a/StateSpace/buildDescription.xml
+++ b/StateSpace/buildDescription.xml
@@ -1,7 +1,7 @@
 <?xml version="1.0" encoding="UTF-8"?>
 <fmiBuildDescription fmiVersion="3.0">
 
-  <BuildConfiguration modelIdentifier="LinearTransform">
+  <BuildConfiguration modelIdentifier="StateSpace">
     <SourceFileSet language="C99">
       <SourceFile name="fmi3Functions.c"/>
       <SourceFile name="model.c"/>
-- 
2.43.0


From 4222683baafd34f3f6f85e3061b39640e0a30cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:40 +0000
Subject: [PATCH 48/56] Revert "fix: return errors of the event update from
 fmi3DoStep()"

The error cannot occur there: the loop ends before once termination is requested.
---
 src/fmi3Functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 85c1ab0..40f3e5b 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1313,7 +1313,7 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
 
 #ifdef EVENT_UPDATE
         if (*eventHandlingNeeded) {
-            CALL(eventUpdate(S));
+            eventUpdate(S);
             *eventHandlingNeeded = fmi3False;
         }
 #endif
-- 
2.43.0


From 0357bcb72812b5c5fc40ec1028fcf6435fbfc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:17:03 +0000
Subject: [PATCH 49/56] fix: do not log undefined strings and binaries of
 failed calls

The call log of the importer read the strings and binaries of the caller's
output arrays even if the call had failed and left them undefined.
---
 src/FMI2.c |  9 +++++++++
 src/FMI3.c | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/FMI2.c b/src/FMI2.c
index f32a4e1..aeef962 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -301,6 +301,10 @@ FMIStatus FMI2GetBoolean(FMIInstance *instance, const fmi2ValueReference vr[], s
 }
 
 FMIStatus FMI2GetString(FMIInstance *instance, const fmi2ValueReference vr[], size_t nvr, fmi2String value[]) {
+    // the log must not read undefined strings if the call fails
+    for (size_t i = 0; instance->logFunctionCall && value && i < nvr; i++) {
+        value[i] = NULL;
+    }
     CALL_ARRAY(Get, String);
 }
 
@@ -595,6 +599,11 @@ FMIStatus FMI2GetBooleanStatus(FMIInstance *instance, const fmi2StatusKind s, fm
 
 FMIStatus FMI2GetStringStatus(FMIInstance *instance, const fmi2StatusKind s, fmi2String* value) {
 
+    // the log must not read an undefined string if the call fails
+    if (instance->logFunctionCall && value) {
+        *value = NULL;
+    }
+
     const FMIStatus status = (FMIStatus)instance->fmi2Functions->fmi2GetStringStatus(instance->component, s, value);
 
     if (instance->logFunctionCall) {
diff --git a/src/FMI3.c b/src/FMI3.c
index 79aefa2..e989338 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -599,6 +599,10 @@ FMIStatus FMI3GetString(FMIInstance *instance,
     size_t nValueReferences,
     fmi3String values[],
     size_t nValues) {
+    // the log must not read undefined strings if the call fails
+    for (size_t i = 0; instance->logFunctionCall && values && i < nValues; i++) {
+        values[i] = NULL;
+    }
     CALL_ARRAY(Get, String);
 }
 
@@ -609,6 +613,12 @@ FMIStatus FMI3GetBinary(FMIInstance *instance,
     fmi3Binary values[],
     size_t nValues) {
 
+    // the log must not read undefined binaries if the call fails
+    for (size_t i = 0; instance->logFunctionCall && sizes && values && i < nValues; i++) {
+        sizes[i] = 0;
+        values[i] = NULL;
+    }
+
     const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetBinary(instance->component, valueReferences, nValueReferences, sizes, values, nValues);
 
     if (instance->logFunctionCall) {
-- 
2.43.0


From 2663598eac4393ab204a35a222ab3e8fc392461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:56 +0000
Subject: [PATCH 50/56] fix: declare the dependencies of the output y3 of
 Roberts

y3 = 1 - y1 - y2, but the model structure declared that the output depends
on nothing. An importer that relies on it would not update y3.
---
 Roberts/FMI3.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index 9451bbb..bc1fa62 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -48,7 +48,7 @@
   <ModelStructure>
     <Output valueReference="2" dependencies=""/>
     <Output valueReference="4" dependencies=""/>
-    <Output valueReference="6" dependencies=""/>
+    <Output valueReference="6" dependencies="2 4" dependenciesKind="constant constant"/>
     <ContinuousStateDerivative valueReference="3" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <ContinuousStateDerivative valueReference="5" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <InitialUnknown valueReference="3" dependencies="2 4" dependenciesKind="dependent dependent"/>
-- 
2.43.0


From bfb4d0ebf57a67e63127acfa1d623fd44ccd6a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:00:34 +0000
Subject: [PATCH 51/56] fix: FMICreateInstance returns NULL when it runs out of
 memory

---
 src/FMI.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FMI.c b/src/FMI.c
index 59f1219..5b29d2f 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -108,6 +108,11 @@ FMIInstance *FMICreateInstance(const char *instanceName, FMILogMessage *logMessa
 
     instance->name = strdup(instanceName);
 
+    if (!instance->logMessageBuffer || !instance->name) {
+        FMIFreeInstance(instance);
+        return NULL;
+    }
+
     instance->status = FMIOK;
 
     return instance;
-- 
2.43.0


From 65321e8c586eb1d629d64b1be1efc97263598231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:22:17 +0000
Subject: [PATCH 52/56] fix: do not leak the function table when an instance is
 instantiated again

---
 src/FMI2.c | 5 ++++-
 src/FMI3.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index aeef962..fc3d978 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -138,7 +138,10 @@ FMIStatus FMI2Instantiate(FMIInstance *instance, const char *fmuResourceLocation
 
     instance->fmiMajorVersion = FMIMajorVersion2;
 
-    instance->fmi2Functions = calloc(1, sizeof(FMI2Functions));
+    // the table of an earlier instantiation is used again
+    if (!instance->fmi2Functions) {
+        instance->fmi2Functions = calloc(1, sizeof(FMI2Functions));
+    }
 
     if (!instance->fmi2Functions) {
         return FMIError;
diff --git a/src/FMI3.c b/src/FMI3.c
index e989338..9919215 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -123,7 +123,10 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
 
 #if !defined(FMI_VERSION) || FMI_VERSION == 3
 
-    instance->fmi3Functions = calloc(1, sizeof(FMI3Functions));
+    // the table of an earlier instantiation is used again
+    if (!instance->fmi3Functions) {
+        instance->fmi3Functions = calloc(1, sizeof(FMI3Functions));
+    }
 
     if (!instance->fmi3Functions) {
         return FMIError;
-- 
2.43.0


From 00a663b93a41a865eb4674333417fecdb1c1e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:22:34 +0000
Subject: [PATCH 53/56] fix: keep the size of the log message buffer when it
 cannot be enlarged

---
 src/FMI.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index 5b29d2f..0d22d90 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -211,14 +211,18 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
 
     } else {
 
-        while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + length) {
-            instance->logMessageBufferSize *= 2;
+        size_t size = instance->logMessageBufferSize;
+
+        while (size <= instance->logMessageBufferPosition + length) {
+            size *= 2;
         }
 
-        if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+        if (FMIRealloc((void**)&instance->logMessageBuffer, size) != FMIOK) {
             return;
         }
 
+        instance->logMessageBufferSize = size;
+
         va_start(args, format);
         instance->logMessageBufferPosition += vsnprintf(&instance->logMessageBuffer[instance->logMessageBufferPosition], instance->logMessageBufferSize - instance->logMessageBufferPosition, format, args);
         va_end(args);
@@ -324,14 +328,18 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + requiredCharacters) {
-                instance->logMessageBufferSize *= 2;
+            size_t size = instance->logMessageBufferSize;
+
+            while (size <= instance->logMessageBufferPosition + requiredCharacters) {
+                size *= 2;
             }
 
-            if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+            if (FMIRealloc((void**)&instance->logMessageBuffer, size) != FMIOK) {
                 return;
             }
 
+            instance->logMessageBufferSize = size;
+
             continue;
         }
 
-- 
2.43.0


From aa36ed147d2185306f2a4832030cd3d6faadf251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:33:54 +0000
Subject: [PATCH 54/56] fix: detect carriage returns when linting files

---
 build/lint_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/lint_files.py b/build/lint_files.py
index 78b4b2f..2b0b79a 100644
--- a/build/lint_files.py
+++ b/build/lint_files.py
@@ -9,7 +9,7 @@ def lint_file(filename):
 
     messages = []
 
-    with open(filename, 'r', encoding='utf-8') as file:
+    with open(filename, 'r', encoding='utf-8', newline='') as file:
 
         for i, line in enumerate(file):
 
-- 
2.43.0


From 3bcc9e547fca16690c118469f411764713a73b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:33:59 +0000
Subject: [PATCH 55/56] fix: check the last line for trailing whitespace when
 it has no line break

---
 build/lint_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/lint_files.py b/build/lint_files.py
index 2b0b79a..e2b374f 100644
--- a/build/lint_files.py
+++ b/build/lint_files.py
@@ -20,7 +20,7 @@ def lint_file(filename):
                 message = "Non-ASCII characters found:\n%s\n%s" % (line[:-1], marker)
                 messages.append((message, i))
 
-            if len(line) > 1 and line[-2] in {' '}:
+            if line.rstrip('\r\n').endswith(' '):
                 messages.append(("Whitespace at the end of the line", i))
 
             if '\t' in line:
-- 
2.43.0


From b01dfa8163f49e24a65e2c0173b2b7d150cd2a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:34:08 +0000
Subject: [PATCH 56/56] fix: return a non-zero exit status for any number of
 lint problems

---
 build/lint_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/lint_files.py b/build/lint_files.py
index e2b374f..bab7703 100644
--- a/build/lint_files.py
+++ b/build/lint_files.py
@@ -96,4 +96,4 @@ for root, dirs, files in os.walk(top, topdown=True):
 
 print("Total problems found: %d" % total_problems)
 
-sys.exit(total_problems)
+sys.exit(min(total_problems, 255))
-- 
2.43.0

