From 60b14176f64a3f2e40305d9f3fe87fbd2e99c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:52 +0000
Subject: [PATCH 01/16] fix: apply the mask to flattened metadata attributes

---
 packages/otel/src/span-processor.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 67b6020..a983377 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -557,11 +557,14 @@ export class LangfuseSpanProcessor implements SpanProcessor {
       LangfuseOtelSpanAttributes.TRACE_METADATA,
     ];
 
-    for (const maskCandidate of maskCandidates) {
-      if (maskCandidate in span.attributes) {
-        span.attributes[maskCandidate] = await this.applyMask(
-          span.attributes[maskCandidate],
-        );
+    for (const key of Object.keys(span.attributes)) {
+      // Metadata is flattened into one attribute per key ("<prefix>.<key>")
+      const isMaskCandidate = maskCandidates.some(
+        (candidate) => key === candidate || key.startsWith(`${candidate}.`),
+      );
+
+      if (isMaskCandidate) {
+        span.attributes[key] = await this.applyMask(span.attributes[key]);
       }
     }
   }
-- 
2.43.0


From 258ebc3e22a7552deae749873fa1897148e367c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:26 +0000
Subject: [PATCH 02/16] fix: flush scores queued while a flush is in flight

---
 packages/client/src/score/index.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/score/index.ts b/packages/client/src/score/index.ts
index 9cbe359..e5306cd 100644
--- a/packages/client/src/score/index.ts
+++ b/packages/client/src/score/index.ts
@@ -102,10 +102,10 @@ export class ScoreManager {
     }
 
     if (this.eventQueue.length >= this.flushAtCount) {
-      this.flushPromise = this.flush();
+      void this.flush();
     } else if (!this.flushTimer) {
       this.flushTimer = safeSetTimeout(() => {
-        this.flushPromise = this.flush();
+        void this.flush();
       }, this.flushIntervalSeconds * 1_000);
     }
   }
@@ -298,8 +298,6 @@ export class ScoreManager {
       await Promise.all(promises);
     } catch (err) {
       this.logger.error("Error flushing Score Manager: ", err);
-    } finally {
-      this.flushPromise = null;
     }
   }
 
@@ -318,7 +316,14 @@ export class ScoreManager {
    * ```
    */
   public async flush() {
-    return this.flushPromise ?? this.handleFlush();
+    // A flush in flight does not include the events queued after it started
+    while (this.flushPromise || this.eventQueue.length > 0) {
+      this.flushPromise ??= this.handleFlush().finally(() => {
+        this.flushPromise = null;
+      });
+
+      await this.flushPromise;
+    }
   }
 
   /**
-- 
2.43.0


From 1c3f7695af0ba060b0c8e109180b20283703ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:02 +0000
Subject: [PATCH 03/16] fix: report each experiment result with its own item

---
 packages/client/src/experiment/ExperimentManager.ts | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 668ae98..819c77a 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -1,5 +1,4 @@
 import {
-  DatasetItem,
   getGlobalLogger,
   propagateAttributes,
   serializeValue,
@@ -17,7 +16,6 @@ import {
   ExperimentParams,
   ExperimentResult,
   ExperimentTask,
-  ExperimentItem,
   ExperimentItemResult,
   Evaluator,
   Evaluation,
@@ -310,7 +308,6 @@ export class ExperimentManager {
         await this.prettyPrintResults({
           datasetRunUrl,
           itemResults,
-          originalData: data,
           runEvaluations,
           name: config.name,
           runName,
@@ -544,7 +541,6 @@ export class ExperimentManager {
    * @param params - Formatting parameters
    * @param params.datasetRunUrl - Optional URL to the dataset run in Langfuse UI
    * @param params.itemResults - Results from processing each data item
-   * @param params.originalData - The original input data items
    * @param params.runEvaluations - Results from run-level evaluators
    * @param params.name - Name of the experiment
    * @param params.description - Optional description of the experiment
@@ -597,9 +593,6 @@ export class ExperimentManager {
   >(params: {
     datasetRunUrl?: string;
     itemResults: ExperimentItemResult<Input, ExpectedOutput, Metadata>[];
-    originalData:
-      | ExperimentItem<Input, ExpectedOutput, Metadata>[]
-      | DatasetItem[];
     runEvaluations: Evaluation[];
     name: string;
     runName: string;
@@ -608,7 +601,6 @@ export class ExperimentManager {
   }): Promise<string> {
     const {
       itemResults,
-      originalData,
       runEvaluations,
       name,
       runName,
@@ -626,7 +618,7 @@ export class ExperimentManager {
     if (includeItemResults) {
       for (let index = 0; index < itemResults.length; index++) {
         const result = itemResults[index];
-        const originalItem = originalData[index];
+        const originalItem = result.item;
 
         output += `\n${index + 1}. Item ${index + 1}:\n`;
 
-- 
2.43.0


From dd29ae475c42337264c0678cc421d9b2bd8ccd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:01 +0000
Subject: [PATCH 04/16] fix: let observe() wrap functions as events

---
 packages/tracing/src/spanWrapper.ts | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/packages/tracing/src/spanWrapper.ts b/packages/tracing/src/spanWrapper.ts
index e862bc7..1924bf9 100644
--- a/packages/tracing/src/spanWrapper.ts
+++ b/packages/tracing/src/spanWrapper.ts
@@ -1450,4 +1450,18 @@ export class LangfuseEvent extends LangfuseBaseObservation {
     // Events are automatically ended at their timestamp
     this.otelSpan.end(params.timestamp);
   }
+
+  /**
+   * Updates this event with new attributes.
+   *
+   * Events end at their timestamp, so attributes should be passed on creation.
+   *
+   * @param attributes - Event attributes to set
+   * @returns This event for method chaining
+   */
+  public update(attributes: LangfuseEventAttributes): LangfuseEvent {
+    super.updateOtelSpanAttributes(attributes);
+
+    return this;
+  }
 }
-- 
2.43.0


From 8ff7c042324558f3d08dbe897b028f7efa9ccbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:44 +0000
Subject: [PATCH 05/16] fix: capture falsy arguments in observe()

---
 packages/tracing/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index ac99d0e..bdacd2b 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1457,7 +1457,7 @@ export function observe<T extends (...args: any[]) => any>(
     // Create the appropriate observation type
     const observation = startObservation(
       name,
-      inputData ? { input: inputData } : {},
+      inputData !== undefined ? { input: inputData } : {},
       {
         asType: asType as "span", // typecast necessary as ts cannot narrow down type
         parentSpanContext,
-- 
2.43.0


From 08ae7167f04bd24410340672cbd4a8a0812f2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:32 +0000
Subject: [PATCH 06/16] fix: report request timeouts as LangfuseAPITimeoutError

The timeout signal was aborted with the string "timeout" as reason, which
fetch rejects with, so that the AbortError check never matched and timeouts
surfaced as LangfuseAPIError.
---
 packages/core/src/api/core/fetcher/signals.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/signals.ts b/packages/core/src/api/core/fetcher/signals.ts
index 0cd3298..a8ad109 100644
--- a/packages/core/src/api/core/fetcher/signals.ts
+++ b/packages/core/src/api/core/fetcher/signals.ts
@@ -1,11 +1,9 @@
-const TIMEOUT = "timeout";
-
 export function getTimeoutSignal(timeoutMs: number): {
   signal: AbortSignal;
   abortId: NodeJS.Timeout;
 } {
   const controller = new AbortController();
-  const abortId = setTimeout(() => controller.abort(TIMEOUT), timeoutMs);
+  const abortId = setTimeout(() => controller.abort(), timeoutMs);
   return { signal: controller.signal, abortId };
 }
 
-- 
2.43.0


From 330d524fb5f651e60781dd32ff45e664c5bd072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:32 +0000
Subject: [PATCH 07/16] fix: clear the request timeout when fetch fails

The timer was only cleared on success, so that every failed request kept the
process alive for the rest of its timeout (60 s by default).
---
 .../core/src/api/core/fetcher/makeRequest.ts  | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/makeRequest.ts b/packages/core/src/api/core/fetcher/makeRequest.ts
index f6859af..fc25c79 100644
--- a/packages/core/src/api/core/fetcher/makeRequest.ts
+++ b/packages/core/src/api/core/fetcher/makeRequest.ts
@@ -26,19 +26,20 @@ export const makeRequest = async (
     signals.push(abortSignal);
   }
   let newSignals = anySignal(signals);
-  const response = await fetchFn(url, {
-    method: method,
-    headers,
-    body: requestBody,
-    signal: newSignals,
-    credentials: withCredentials ? "include" : undefined,
-    // @ts-ignore
-    duplex,
-  });
 
-  if (timeoutAbortId != null) {
-    clearTimeout(timeoutAbortId);
+  try {
+    return await fetchFn(url, {
+      method: method,
+      headers,
+      body: requestBody,
+      signal: newSignals,
+      credentials: withCredentials ? "include" : undefined,
+      // @ts-ignore
+      duplex,
+    });
+  } finally {
+    if (timeoutAbortId != null) {
+      clearTimeout(timeoutAbortId);
+    }
   }
-
-  return response;
 };
-- 
2.43.0


From 98a413c686cd6403490791b24af9031a0ad8009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:34 +0000
Subject: [PATCH 08/16] fix: end the OpenAI generation when a stream fails or
 is abandoned

---
 packages/openai/src/traceMethod.ts | 106 ++++++++++++++++-------------
 1 file changed, 60 insertions(+), 46 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index bafe35c..ef44ccd 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -201,61 +201,75 @@ function wrapAsyncIterable<R>(
     let usageDetails: Record<string, number> | undefined = undefined;
     let output: unknown = null;
 
-    for await (const rawChunk of response as AsyncIterable<unknown>) {
-      completionStartTime = completionStartTime ?? new Date();
+    try {
+      for await (const rawChunk of response as AsyncIterable<unknown>) {
+        completionStartTime = completionStartTime ?? new Date();
 
-      // Handle Response API chunks
-      if (typeof rawChunk === "object" && rawChunk && "response" in rawChunk) {
-        const result = rawChunk["response"];
-        output = parseCompletionOutput(result);
-        usageDetails = parseUsageDetailsFromResponse(result);
+        // Handle Response API chunks
+        if (typeof rawChunk === "object" && rawChunk && "response" in rawChunk) {
+          const result = rawChunk["response"];
+          output = parseCompletionOutput(result);
+          usageDetails = parseUsageDetailsFromResponse(result);
 
-        const {
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        } = parseModelDataFromResponse(result);
+          const {
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          } = parseModelDataFromResponse(result);
 
-        generation.update({
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        });
-      }
+          generation.update({
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          });
+        }
 
-      if (
-        typeof rawChunk === "object" &&
-        rawChunk != null &&
-        "usage" in rawChunk
-      ) {
-        usage = rawChunk.usage as OpenAI.CompletionUsage | null;
-      }
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk != null &&
+          "usage" in rawChunk
+        ) {
+          usage = rawChunk.usage as OpenAI.CompletionUsage | null;
+        }
 
-      const processedChunk = parseChunk(rawChunk);
+        const processedChunk = parseChunk(rawChunk);
 
-      if (!processedChunk.isToolCall) {
-        textChunks.push(processedChunk.data);
-      } else {
-        toolCallChunks.push(processedChunk.data);
-      }
+        if (!processedChunk.isToolCall) {
+          textChunks.push(processedChunk.data);
+        } else {
+          toolCallChunks.push(processedChunk.data);
+        }
 
-      yield rawChunk;
-    }
+        yield rawChunk;
+      }
+    } catch (error) {
+      generation.update({
+        statusMessage: String(error),
+        level: "ERROR",
+        costDetails: {
+          input: 0,
+          output: 0,
+          total: 0,
+        },
+      });
 
-    output =
-      output ??
-      (toolCallChunks.length > 0
-        ? getToolCallOutput(toolCallChunks)
-        : textChunks.join(""));
+      throw error;
+    } finally {
+      output =
+        output ??
+        (toolCallChunks.length > 0
+          ? getToolCallOutput(toolCallChunks)
+          : textChunks.join(""));
 
-    generation
-      .update({
-        output,
-        completionStartTime,
-        usageDetails:
-          usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
-      })
-      .end();
+      generation
+        .update({
+          output,
+          completionStartTime,
+          usageDetails:
+            usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
+        })
+        .end();
+    }
   }
 
   return tracedOutputGenerator() as R;
-- 
2.43.0


From 80ed600e2b4754362d901d0d693290ad462ffd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:34 +0000
Subject: [PATCH 09/16] fix: do not fail OpenAI calls on responses without
 choices or tool calls

---
 packages/openai/src/parseOpenAI.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index c60aac3..ce66553 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -94,9 +94,13 @@ export const parseCompletionOutput = (res: unknown): unknown => {
     return "";
   }
 
-  return "message" in res.choices[0]
-    ? res.choices[0].message
-    : (res.choices[0].text ?? "");
+  const choice = res.choices[0];
+
+  if (typeof choice !== "object" || choice === null) {
+    return "";
+  }
+
+  return "message" in choice ? choice.message : (choice.text ?? "");
 };
 
 export const parseUsageDetails = (
@@ -215,7 +219,8 @@ export const parseChunk = (
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-      Array.isArray(chunkData.delta.tool_calls)
+      Array.isArray(chunkData.delta.tool_calls) &&
+      chunkData.delta.tool_calls.length > 0
     ) {
       isToolCall = true;
 
-- 
2.43.0


From 9c3b68b3fd3ba38a8da33da1ccd27922b139191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:34 +0000
Subject: [PATCH 10/16] fix: end the OpenAI generation for synchronous results

---
 packages/openai/src/traceMethod.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index ef44ccd..bff944e 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -150,6 +150,8 @@ const wrapMethod = <T extends GenericMethod>(
           return wrappedPromise;
         }
 
+        generation.end();
+
         return res;
       } catch (error) {
         generation
-- 
2.43.0


From 55518714b0c0b97b255cbcde273eaad4a6db2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 11/16] fix: contain failures of LangChain generation starts

---
 packages/langchain/src/CallbackHandler.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 6c0ffa1..1109bfb 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -316,8 +316,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     let extractedModelName: string | undefined;
     if (extraParams) {
       const invocationParamsModelName = (
-        extraParams.invocation_params as InvocationParams
-      ).model;
+        extraParams.invocation_params as InvocationParams | undefined
+      )?.model;
       const metadataModelName =
         metadata && "ls_model_name" in metadata
           ? (metadata["ls_model_name"] as string)
@@ -375,7 +375,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         message.map((m) => this.extractChatMessageContent(m)),
       );
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
@@ -444,7 +444,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM start with ID: ${runId}`);
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
-- 
2.43.0


From 9dc17cc54e0fc96e5f01f839bf4088a96255410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 12/16] fix: end LangChain generations without any result

---
 packages/langchain/src/CallbackHandler.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 1109bfb..b04f15e 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -601,10 +601,10 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM end with ID: ${runId}`);
 
-      const lastResponse =
-        output.generations[output.generations.length - 1][
-          output.generations[output.generations.length - 1].length - 1
-        ];
+      // Providers return no generations for blocked responses
+      const lastResponse: Generation | undefined = output.generations
+        .at(-1)
+        ?.at(-1);
       const llmUsage =
         this.extractUsageMetadata(lastResponse) ??
         output.llmOutput?.["tokenUsage"] ??
@@ -650,11 +650,11 @@ export class CallbackHandler extends BaseCallbackHandler {
       }
 
       const extractedOutput =
-        "message" in lastResponse
+        lastResponse && "message" in lastResponse
           ? this.extractChatMessageContent(
               lastResponse["message"] as BaseMessage,
             )
-          : lastResponse.text;
+          : lastResponse?.text;
 
       this.handleOtelSpanEnd({
         runId,
@@ -904,10 +904,11 @@ export class CallbackHandler extends BaseCallbackHandler {
 
   /** Not all models supports tokenUsage in llmOutput, can use AIMessage.usage_metadata instead */
   private extractUsageMetadata(
-    generation: Generation,
+    generation: Generation | undefined,
   ): UsageMetadata | undefined {
     try {
       const usageMetadata =
+        generation &&
         "message" in generation &&
         (generation["message"] instanceof AIMessage ||
           generation["message"] instanceof AIMessageChunk)
-- 
2.43.0


From b3a885c0a51fa95cd32bf0b526f96b549f8c8812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 13/16] fix: end LangChain runs with nullish outputs and errors

---
 packages/langchain/src/CallbackHandler.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index b04f15e..adb0095 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -120,6 +120,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       let finalInput: string | ChainValues = inputs;
       if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "input" in inputs &&
         Array.isArray(inputs["input"]) &&
         inputs["input"].every((m: unknown) => m instanceof BaseMessage)
@@ -129,6 +130,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         );
       } else if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "messages" in inputs &&
         Array.isArray(inputs["messages"]) &&
         inputs["messages"].every((m: unknown) => m instanceof BaseMessage)
@@ -138,6 +140,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         );
       } else if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "content" in inputs &&
         typeof inputs["content"] === "string" &&
         Object.keys(inputs).length === 1
@@ -264,7 +267,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: String(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -402,12 +405,14 @@ export class CallbackHandler extends BaseCallbackHandler {
       let finalOutput: ChainValues | string = outputs;
       if (
         typeof outputs === "object" &&
+        outputs !== null &&
         "output" in outputs &&
         typeof outputs["output"] === "string"
       ) {
         finalOutput = outputs["output"];
       } else if (
         typeof outputs === "object" &&
+        outputs !== null &&
         "messages" in outputs &&
         Array.isArray(outputs["messages"]) &&
         outputs["messages"].every((m: unknown) => m instanceof BaseMessage)
@@ -546,7 +551,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: String(err),
         },
       });
     } catch (e) {
@@ -584,7 +589,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: String(err),
         },
       });
     } catch (e) {
@@ -696,7 +701,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: String(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -854,7 +859,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     // This would not be logged as the error message is only a generic message
     // that there has been a refusal
     let azureRefusalError = "";
-    if (typeof err == "object" && "error" in err) {
+    if (typeof err == "object" && err !== null && "error" in err) {
       try {
         azureRefusalError =
           "\n\nError details:\n" + JSON.stringify(err["error"], null, 2);
-- 
2.43.0


From 5545cabe8c3c19ba6df25cc1a5a339bd2b502b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 14/16] fix: release LangChain run state on errors

---
 packages/langchain/src/CallbackHandler.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index adb0095..aea1356 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -270,6 +270,7 @@ export class CallbackHandler extends BaseCallbackHandler {
           statusMessage: String(err) + azureRefusalError,
         },
       });
+      this.deregisterLangfusePrompt(runId);
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -704,6 +705,8 @@ export class CallbackHandler extends BaseCallbackHandler {
           statusMessage: String(err) + azureRefusalError,
         },
       });
+
+      delete this.completionStartTimes[runId];
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
-- 
2.43.0


From 481770200717687ca7b71a854297b1da54c5e397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:50 +0000
Subject: [PATCH 15/16] fix: report unreadable ingestion responses as
 LangfuseBrowserError

---
 packages/browser/src/utils.ts | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/browser/src/utils.ts b/packages/browser/src/utils.ts
index 0c3ffe7..2578396 100644
--- a/packages/browser/src/utils.ts
+++ b/packages/browser/src/utils.ts
@@ -12,7 +12,16 @@ const RESERVED_ADDITIONAL_HEADER_NAMES = new Set([
 ]);
 
 export async function parseJsonResponse(response: Response): Promise<unknown> {
-  const text = await response.text();
+  let text: string;
+  try {
+    text = await response.text();
+  } catch (error) {
+    throw new LangfuseBrowserError(
+      "Failed to read the Langfuse ingestion response.",
+      { status: response.status, originalError: error },
+    );
+  }
+
   if (!text) {
     return undefined;
   }
@@ -34,7 +43,14 @@ export async function parseJsonResponse(response: Response): Promise<unknown> {
 export async function parseErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
-  const text = await response.text();
+  let text: string;
+  try {
+    text = await response.text();
+  } catch {
+    // The status is reported even if the body cannot be read
+    return undefined;
+  }
+
   if (!text) {
     return undefined;
   }
-- 
2.43.0


From 564c2bd3be27c6c8ca336817563e5fe600efcb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:51 +0000
Subject: [PATCH 16/16] fix: replace AI SDK media although another part of the
 attribute is unreadable

---
 packages/otel/src/MediaService.ts | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 79ae77e..72de46a 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -116,11 +116,11 @@ export class MediaService {
 
           if (Array.isArray(parsed)) {
             for (const message of parsed) {
-              if (Array.isArray(message["content"])) {
+              if (Array.isArray(message?.["content"])) {
                 const contentParts = message["content"];
 
                 for (const part of contentParts) {
-                  if (part["type"] === "file") {
+                  if (part?.["type"] === "file") {
                     let base64Content: string | null = null;
                     const mediaType = part["mediaType"];
                     // FilePart
@@ -186,16 +186,16 @@ export class MediaService {
 
           if (Array.isArray(parsed)) {
             for (const message of parsed) {
-              if (!Array.isArray(message["parts"])) {
+              if (!Array.isArray(message?.["parts"])) {
                 continue;
               }
 
               for (const part of message["parts"]) {
-                const content = part["content"];
-                const mediaType = part["mime_type"];
+                const content = part?.["content"];
+                const mediaType = part?.["mime_type"];
 
                 if (
-                  part["type"] !== "blob" ||
+                  part?.["type"] !== "blob" ||
                   typeof content !== "string" ||
                   !content ||
                   typeof mediaType !== "string" ||
@@ -241,9 +241,19 @@ export class MediaService {
     contentType: string;
     field: string;
   }): Promise<string> {
+    let contentBytes: Uint8Array;
+
+    try {
+      contentBytes = base64ToBytes(params.base64Content);
+    } catch (err) {
+      this.logger.warn("Failed to decode media content. Skipping item.", err);
+
+      return params.mediaReplacedValue;
+    }
+
     const media = new LangfuseMedia({
       contentType: params.contentType as MediaContentType,
-      contentBytes: base64ToBytes(params.base64Content),
+      contentBytes,
       source: "bytes",
     });
 
-- 
2.43.0

