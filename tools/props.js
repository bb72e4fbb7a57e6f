"use strict";
// Source of properties.jsonl and MANIFEST.json (run: node tools/gen.js).
const SP = "packages/otel/src/span-processor.ts", MS = "packages/otel/src/MediaService.ts", SF = "packages/otel/src/span-filter.ts";
const SM = "packages/client/src/score/index.ts", PM = "packages/client/src/prompt/promptManager.ts", PC = "packages/client/src/prompt/promptCache.ts", PT = "packages/client/src/prompt/promptClients.ts", DS = "packages/client/src/dataset/index.ts", MM = "packages/client/src/media/index.ts";
const EX = "packages/client/src/experiment/ExperimentManager.ts", TI = "packages/tracing/src/index.ts", SW = "packages/tracing/src/spanWrapper.ts", TA = "packages/tracing/src/attributes.ts", TP = "packages/tracing/src/tracerProvider.ts";
const PR = "packages/core/src/propagation.ts";
module.exports = [
  {
    id: "P01",
    title: "Masking covers every payload attribute before a span leaves the process",
    statement: "When a mask function is configured on the span processor, every input, output and metadata attribute of an exported span (trace-level and observation-level, including metadata flattened to one attribute per key) carries the mask's result for that attribute, or a fixed placeholder if the mask throws or rejects for it. The unmasked value never reaches the exporter, a media upload, the REST API or the log.",
    over: ["inputs", "fault_sequences", "configurations"],
    q: "every span, every mask (sync, async, throwing, rejecting at any call), every subset of payload attributes",
    why: "Tests mask a few literal attributes; they cannot enumerate the attribute keys or the call at which the mask fails.",
    files: [SP, MS], mech: [["applyMaskInPlace", SP], ["processEndedSpan", SP]],
  },
  {
    id: "P02",
    title: "The export filter is decisive and each kept span is handed over exactly once",
    statement: "When a span ends, a false verdict of the export filter or an exception in it means the span is never handed to the exporter and neither masked nor scanned for media. Any other verdict means that this span is handed to the exporter exactly once, also when masking or media handling of it fails.",
    over: ["inputs", "fault_sequences"],
    q: "every ended span, every filter, mask and media outcome",
    why: "Tests sample single verdicts; a lost or duplicated span needs a particular combination of failures.",
    files: [SP], mech: [["onEnd", SP], ["processEndedSpan", SP]],
  },
  {
    id: "P03",
    title: "The default export filter keeps LLM spans and nothing else",
    statement: "Without a custom filter, a span is exported exactly when it was created by the Langfuse tracer, carries at least one attribute of the gen_ai namespace, or comes from a known LLM instrumentation scope (that scope itself or, except for the generic scope 'ai', a dotted sub-scope of it). All other spans of the host application are dropped.",
    over: ["inputs"],
    q: "every scope name and attribute-key set",
    why: "The set of scope names and keys is infinite; tests sample a handful of spellings.",
    files: [SF], mech: [["isDefaultExportSpan", SF]],
  },
  {
    id: "P04",
    title: "Flush and shutdown wait for every pending span and media upload",
    statement: "When the processor's flush or shutdown promise resolves, every kept span that ended before the call has been handed to the exporter, every media upload started for these spans has settled, and the exporter's own flush or shutdown has completed after that. The returned promise rejects only if the exporter's does.",
    over: ["schedules", "histories", "fault_sequences"],
    q: "every interleaving of asynchronous masking, media handling and uploads with flush/shutdown",
    why: "Tests run one schedule; losing a span requires a slow mask or upload at the moment of shutdown.",
    files: [SP, MS], mech: [["forceFlush", SP], ["shutdown", SP], ["flush", MS]],
  },
  {
    id: "P05",
    title: "Span processing never disturbs the host application",
    statement: "Starting or ending a span never throws into the host application and never leaves a rejected promise without a handler, whatever the user's filter, mask and media uploads do. Every started span is forwarded to the underlying processor exactly once.",
    over: ["fault_sequences", "inputs"],
    q: "every span, every failure of user callbacks and uploads",
    why: "An unhandled rejection needs a specific failing callback at a specific step.",
    files: [SP, MS], mech: [["onStart", SP], ["onEnd", SP], ["scheduleUpload", MS]],
  },
  {
    id: "P06",
    title: "Each started span gets environment, release and the propagated attributes",
    statement: "At start every span receives the configured environment and release (constructor parameter first, then environment variable) and all attributes propagated in its parent context. Propagated values take precedence over the processor-level environment, and nothing is set for a value that is not configured.",
    over: ["configurations", "inputs"],
    q: "every combination of constructor parameter, environment variable and propagated attribute",
    why: "Tests check single settings; the precedence must hold for all combinations.",
    files: [SP, "packages/core/src/propagation.ts"], mech: [["onStart", SP]],
  },
  {
    id: "P07",
    title: "Exactly the topmost exported span of a service is marked as app root",
    statement: "A span is marked as application root exactly when it is expected to be exported, its local parent (if one is open) is not expected to be exported, and no upstream Langfuse span of the same trace has already claimed the trace through the propagated context, whose other values and baggage a claim leaves alone. A failing filter counts as not exported and never breaks span start.",
    over: ["histories", "fault_sequences"],
    q: "every parent/child pair, filter verdicts, remote claims and filter failures",
    why: "The marking depends on the combination of four independent facts about two spans.",
    files: [SP], mech: [["markAppRootCandidate", SP]],
  },
  {
    id: "P08",
    title: "Inline media is replaced by its tag exactly when its upload was scheduled",
    statement: "In an exported span, a media tag stands in an attribute only if the upload of that very media was scheduled with the span's trace id, span id and the attribute's field (input, output or metadata), and media whose upload was scheduled no longer appears inline in the attribute it came from. With media upload disabled, attributes are left untouched and nothing is uploaded.",
    over: ["inputs", "fault_sequences", "configurations"],
    q: "every media attribute (Langfuse, AI SDK prompts and messages), up to two media per attribute, tag creation succeeding or failing",
    why: "A tag without upload shows up as a permanently broken media link only on particular attributes or failures.",
    files: [MS, SP], mech: [["process", MS], ["replaceBytesMedia", MS], ["scheduleUpload", MS]],
  },
  {
    id: "P09",
    title: "A media upload reports success only when the bytes are stored",
    statement: "A media upload sends exactly the media's bytes, content type and the checksum and blob-type headers (content type only for Google Cloud Storage hosts) to the URL the server issued, retries failed attempts up to the configured number, and reports the final status and error text to the API; its promise fulfils only after a 200 or 201 answer or when the server already has the media, and rejects otherwise. Nothing is sent for incomplete media or when the server's media id differs from the local one.",
    over: ["fault_sequences", "inputs"],
    q: "every sequence of upload responses and network failures, every media",
    why: "Tests mock a few response sequences; the retry loop must be right for all of them.",
    files: ["packages/core/src/mediaUpload.ts", "packages/core/src/media.ts"], mech: [["uploadMedia", "packages/core/src/mediaUpload.ts"]],
  },
  {
    id: "P10",
    title: "Every score is sent exactly once and flush waits for all of them",
    statement: "Every score created through the score manager is contained in exactly one ingestion request, of at most 100 events, also when earlier requests fail. The promises of flush() and shutdown() never reject and settle only after the requests carrying all scores created before the call have settled. Without an explicit flush, every score is sent by the flush timer or the flush threshold.",
    over: ["histories", "fault_sequences", "schedules"],
    q: "every interleaving of create, flush, shutdown, timer firings and request outcomes",
    why: "A lost or duplicated score needs a create between two asynchronous steps of a flush; tests await each step.",
    files: [SM], mech: [["enqueue", SM], ["handleFlush", SM], ["flush", SM], ["shutdown", SM]],
  },
  {
    id: "P11",
    title: "Scores keep the caller's data and attach to the right trace and observation",
    statement: "A created score is sent with all fields the caller gave unchanged, with the caller's id and environment if given and a fresh id and the configured environment otherwise. Scoring an observation attaches to that span's trace id and span id, scoring a trace to the trace id only, and the 'active' variants use the currently active span. Without an active span they queue nothing and do not throw.",
    over: ["inputs", "configurations"],
    q: "every score input, with every field present, absent or unknown, every span",
    why: "Tests check some fields of some literal scores.",
    files: [SM], mech: [["create", SM], ["observation", SM], ["activeTrace", SM]],
  },
  {
    id: "P12",
    title: "Prompt cache: fresh answers, stale-while-revalidate, no mixing of selections",
    statement: "A prompt lookup within the time to live of the last successful fetch is answered with that prompt and without a request; after expiry it is answered at once with the stale prompt while at most one background refresh per selection runs, whose failure is contained and whose success replaces the entry; any other lookup, and any with a time to live of zero, is fetched. Lookups of different names, labels or versions never share an entry. The request carries name, version, label, retry and timeout options unchanged.",
    over: ["histories", "fault_sequences", "inputs"],
    q: "every sequence of lookups and clock positions, each fetch succeeding or failing",
    why: "Cache defects need particular sequences of expiry, concurrent lookups and failures.",
    files: [PM, PC], mech: [["get", PM], ["fetchPromptAndUpdateCache", PM], ["LangfusePromptCache", PC]],
  },
  {
    id: "P13",
    title: "A prompt fallback is used only on failure, marked, and never cached",
    statement: "A successful fetch returns the fetched prompt, never marked as fallback. If fetching fails and a fallback is given, the fallback content is returned under the requested name, marked as fallback, and a later lookup fetches again. If fetching fails without a fallback, the lookup rejects with the fetch error.",
    over: ["fault_sequences", "inputs"],
    q: "every fetch outcome, text and chat prompts, with and without fallback",
    why: "Tests sample one failure; caching of a fallback shows only on the next lookup.",
    files: [PM], mech: [["get", PM], ["createPromptFallback", PM]],
  },
  {
    id: "P14",
    title: "Updating or deleting a prompt invalidates all its cached selections",
    statement: "Once update() or delete() of a prompt name has fulfilled, the next lookup of every selection (label, version or default) of that name cached before is fetched from the server. The write request carries name, version and labels unchanged, is made before the invalidation, and its failure rejects the call.",
    over: ["histories", "fault_sequences"],
    q: "every set of cached selections, every outcome of the write",
    why: "Tests invalidate one selection of one prompt.",
    files: [PM, PC], mech: [["update", PM], ["delete", PM], ["invalidate", PC]],
  },
  {
    id: "P15",
    title: "Compiling a prompt substitutes verbatim, in place, without touching the prompt",
    statement: "Compiling a text or chat prompt renders the content of every message with the caller's variables and without any escaping of the values, keeping roles and order. A placeholder is replaced by the given messages, dropped for an empty list and kept when nothing is given for it. The prompt object itself is left unchanged, so that compiling again gives the same result.",
    over: ["inputs", "histories"],
    q: "every template, every set of variables and placeholders",
    why: "Tests compile a few literal templates.",
    files: [PT], mech: [["compile", PT]],
  },
  {
    id: "P16",
    title: "A dataset item is created only after its media are stored, with references",
    statement: "Creating a dataset item with media anywhere in its input, expected output or metadata uploads every distinct media once, with the item's id, the dataset's id and the field it stands in, and creates the item only after all uploads succeeded, with every media replaced by its reference and all other values unchanged. If an upload fails or a media is invalid, the call rejects and no item is created. Without media nothing is uploaded.",
    over: ["inputs", "fault_sequences"],
    q: "every nesting of media and other values, each upload succeeding or failing",
    why: "Tests use one or two media at fixed places.",
    files: [DS, "packages/core/src/media.ts"], mech: [["createItem", DS], ["replaceDatasetItemMedia", DS]],
  },
  {
    id: "P17",
    title: "Fetching a dataset yields all items of all pages, linkable and runnable",
    statement: "Fetching a dataset requests every page exactly once with the same dataset name, page size and version and returns the items of all pages in order with their fields unchanged; a failing page rejects the call. Linking an item creates a run item for exactly that item and the given span, run name, description and metadata. Running an experiment on the dataset passes all its items, its version and the caller's parameters.",
    over: ["inputs", "fault_sequences", "configurations"],
    q: "every number of pages and items, with and without version and page size, each request succeeding or failing",
    why: "Tests fetch datasets of one or two small pages.",
    files: [DS], mech: [["get", DS], ["createDatasetItemLinkFunction", DS]],
  },
  {
    id: "P18",
    title: "Resolving media references replaces what was fetched and nothing else",
    statement: "Resolving media references returns a copy in which each reference is replaced by the data URI of its own media (with the content type the server returned) exactly when its content was downloaded with status 200; unresolved or malformed references and all other values, at any nesting up to the depth limit, are unchanged. The call never rejects because of a failing reference and never modifies the caller's object. The download uses the URL the server returned and carries no credentials.",
    over: ["inputs", "fault_sequences"],
    q: "every nested value, every outcome of lookup and download per reference",
    why: "Tests resolve single references; mixed outcomes and nesting are not enumerable.",
    files: [MM], mech: [["resolveReferences", MM], ["parseReferenceString", MM]],
  },
  {
    id: "P19",
    title: "Media references of fetched items are hydrated exactly where they point to",
    statement: "For every media reference of a fetched dataset item, the value at that reference's own field and path (nested key, list index or the whole field) becomes a media reference object carrying that reference's own id, content type, URL, expiry and reference string. All other values stay as they were. A reference with unknown field, no media, or a path that is malformed or leads through values that do not exist is skipped without affecting others or failing the fetch.",
    over: ["inputs"],
    q: "every item and every list of references, valid or not, in any order",
    why: "Tests hydrate a few well-formed references.",
    files: [DS, "packages/client/src/dataset/jsonPath.ts"], mech: [["hydrateDatasetItemMediaReferences", DS], ["setValueAtPath", "packages/client/src/dataset/jsonPath.ts"]],
  },
  {
    id: "P20",
    title: "Experiments run the task once per item, isolated, in order, within the limit",
    statement: "Running an experiment calls the task exactly once for every item that has an input, and never with more tasks in progress than maxConcurrency. A failing task, evaluator or linking request never affects another item, and run() does not reject because of one. The result lists exactly the items whose task succeeded, in item order, each with its own output.",
    over: ["inputs", "schedules", "fault_sequences", "configurations"],
    q: "every list of items, concurrency limit and outcome of each task",
    why: "Tests run a few items with chosen failures and one schedule.",
    files: [EX], mech: [["run", EX], ["runItem", EX]],
  },
  {
    id: "P21",
    title: "Every evaluation of an experiment is reported once and flushed before return",
    statement: "Every evaluator of every item whose task succeeded is called once with that item's input, expected output, output and metadata. The evaluations of the evaluators that succeeded, and only those, appear in that item's result and are scored exactly once on that item's trace and observation; run evaluators get all item results and their evaluations are returned and, when a dataset run exists, scored once on it. All these scores are flushed before run() fulfils.",
    over: ["inputs", "schedules", "fault_sequences"],
    q: "every number of evaluators returning one or many evaluations, each succeeding or failing",
    why: "Tests use one or two evaluators that mostly succeed.",
    files: [EX], mech: [["runItem", EX], ["run", EX]],
  },
  {
    id: "P22",
    title: "Experiment items are linked and traced under their own identity",
    statement: "Each dataset item of an experiment is linked to the run exactly once, with its own id, the trace and observation of its own task and the run's name, description and metadata; items without a dataset are never linked. The task runs in a context carrying its own item's experiment identity. Results and the formatted report show each item's own data only.",
    over: ["inputs", "fault_sequences", "schedules"],
    q: "every list of items, link requests and tasks succeeding or failing",
    why: "Mix-ups between concurrent or failed items show only in particular combinations.",
    files: [EX], mech: [["runItem", EX], ["prettyPrintResults", EX]],
  },
  {
    id: "P23",
    title: "Tracing wrappers are transparent: same call, same result, same error",
    statement: "A function wrapped by observe(), and the function given to startActiveObservation(), is called exactly once and synchronously, with the caller's this and arguments (respectively the new observation). The caller receives exactly its return value, the value of its promise, or the error it threw or rejected with, for every observation type and option.",
    over: ["inputs", "configurations", "fault_sequences"],
    q: "every function (sync, async, throwing), every observation type and option",
    why: "Tests sample functions and types.",
    files: [TI], mech: [["observe", TI], ["startActiveObservation", TI]],
  },
  {
    id: "P24",
    title: "Wrapped observations end exactly once, after the work, marked on error",
    statement: "observe() and startActiveObservation() start exactly one observation per call. Unless endOnExit is false, it is ended exactly once, after the function returned or its promise settled and before the caller sees the outcome; with endOnExit false it is never ended. When the function threw or rejected, the observation is marked as error, with the error's message, before it ends; otherwise it is not.",
    over: ["inputs", "configurations", "fault_sequences"],
    q: "every function (sync, async, throwing), every observation type and option",
    why: "Tests sample outcome and option combinations.",
    files: [TI], mech: [["observe", TI], ["startActiveObservation", TI], ["wrapPromise", TI]],
  },
  {
    id: "P25",
    title: "observe() captures arguments and results exactly as its options say",
    statement: "Unless captureInput is false, the arguments of a wrapped call (the argument itself if there is one, the list if there are several) become the observation's input; unless captureOutput is false, its result, also a falsy one, becomes the output. With captureInput or captureOutput false, no argument, respectively no result, reaches any attribute, name or log.",
    over: ["inputs", "configurations"],
    q: "every arguments, result, observation type and option combination",
    why: "Leaks and drops need specific option and value combinations.",
    files: [TI], mech: [["observe", TI]],
  },
  {
    id: "P26",
    title: "Observations keep the requested type, name, start time and identity",
    statement: "However an observation is created (startObservation, a parent's startObservation, startActiveObservation, observe), its span gets the requested name (observe() without one: the function's name) and start time, its type attribute is the requested one of the ten types (span by default), and its id and trace id are those of its own span. Attributes given at creation and by later updates are set on that span only and never change its type; end() ends that span at the given time, and an event ends at its start time.",
    over: ["inputs", "configurations"],
    q: "every observation type, option and way of creation",
    why: "Forty combinations of type and factory; tests sample some.",
    files: [TI, SW], mech: [["startObservation", TI], ["LangfuseBaseObservation", SW], ["updateActiveObservation", TI]],
  },
  {
    id: "P27",
    title: "Attributes land under their own key, absent ones nowhere, never throwing",
    statement: "Every observation and trace attribute is written under its own attribute key, a string as itself and any other value as its JSON, or as a constant placeholder if it cannot be serialized; undefined and null write no key. Metadata objects are written one key per entry; prompt name and version are written exactly for prompts that are not fallbacks. Building attributes never throws.",
    over: ["inputs"],
    q: "every attribute, present, absent, null or unserializable, alone or together",
    why: "Tests sample attributes and well-formed values.",
    files: [TA], mech: [["createObservationAttributes", TA], ["createTraceAttributes", TA], ["_serialize", TA]],
  },
  {
    id: "P28",
    title: "Observations nest: children under their parent, user code in its context",
    statement: "An observation created with a parent span context, or through a parent observation, is a child of exactly that parent; otherwise of the active span. The function given to observe() or startActiveObservation() runs in a context whose active span is the new observation and which carries that trace's app-root claim. Spans come from the tracer provider set with setLangfuseTracerProvider, or from the global one if none is set.",
    over: ["inputs", "configurations"],
    q: "every way to create an observation, with and without parent and isolated provider",
    why: "Tests sample nesting for some types.",
    files: [TI, TP], mech: [["createParentContext", TI], ["observe", TI], ["getLangfuseTracerProvider", TP]],
  },
  {
    id: "P29",
    title: "Propagated attributes reach the active span and all spans started below",
    statement: "Inside propagateAttributes(params, fn), fn runs exactly once in a context from which every span started below gets exactly the given attributes, each under its own attribute key and with its value unchanged; the active span gets the same if it is recording. Only with asBaggage are they put into baggage, from which another service reads the same attributes (tags without commas); surrounding context values and baggage entries are kept. The outcome of fn is returned or thrown unchanged.",
    over: ["inputs", "configurations"],
    q: "every subset of attributes, with and without active span and baggage",
    why: "Three sinks and three hand-written key tables must agree for 16 attributes; tests sample some.",
    files: [PR], mech: [["propagateAttributes", PR], ["getPropagatedAttributesFromContext", PR], ["setPropagatedAttribute", PR]],
  },
  {
    id: "P30",
    title: "Invalid propagated values are dropped alone, everywhere, without failing",
    statement: "A propagated user id, session id, version, trace name, tag or metadata value that is not a string of at most 200 characters, an environment that is not at most 40 lowercase alphanumeric, '-' or '_' characters or starts with 'langfuse', and a prompt that is a fallback or lacks a name or integer version is dropped from context, active span and baggage alike. All valid values of the same call are still propagated and fn still runs. Incoming baggage with an invalid environment or unknown entries sets no attribute for them.",
    over: ["inputs"],
    q: "every attribute and every way to be invalid, alone or beside valid values",
    why: "Tests check some limits in one sink.",
    files: [PR], mech: [["isValidPropagatedString", PR], ["isValidEnvironment", PR], ["extractPropagatedPrompt", PR]],
  },
  {
    id: "P31",
    title: "Nested propagation merges tags and metadata and ends with its callback",
    statement: "In nested propagateAttributes calls the inner callback sees the inner value of every attribute set there and the outer value of the others; tags are the union without duplicates and metadata the merge with inner entries winning. After the inner callback returned or threw, exactly the outer values are in effect again. Local values win over incoming baggage, and objects given by the caller are not modified.",
    over: ["inputs", "histories"],
    q: "every nesting of calls, with and without baggage",
    why: "Leaks between scopes need specific nestings.",
    files: [PR], mech: [["getContextMergedTags", PR], ["getContextMergedMetadata", PR]],
  },
  {
    id: "P32",
    title: "Every REST endpoint sends its arguments to its own route, authenticated",
    statement: "For every method of the REST client, exactly one request goes to the configured base URL (else environment) with Basic auth of the configured keys, the configured SDK headers and any per-request headers on top. Its path contains every path argument percent-encoded, its query or body every request field that was given. A per-request timeout, retry count and abort signal reach the HTTP layer.",
    over: ["inputs", "configurations"],
    q: "every endpoint of the REST client, every subset of optional fields",
    why: "Over a hundred hand-sized request builders; tests call a few of them.",
    files: ["packages/core/src/api/Client.ts"], mech: [["LangfuseAPIClient", "packages/core/src/api/Client.ts"]],
  },
  {
    id: "P33",
    title: "REST calls fulfil with the body of a success and reject on every failure",
    statement: "Every REST client method fulfils with the response body on success and rejects on any failure: a failing status with a LangfuseAPIError that carries status, body and raw response (for 400, 401, 403, 404 and 405 of the documented subclass, recognisable with instanceof), a timeout with LangfuseAPITimeoutError, anything else with a LangfuseAPIError with the message. The returned promise settles so through then, catch, finally, await and withRawResponse, however often it is used.",
    over: ["inputs", "fault_sequences"],
    q: "every endpoint and every outcome of the HTTP layer",
    why: "Tests sample a few endpoints and statuses.",
    files: ["packages/core/src/api/Client.ts", "packages/core/src/api/core/fetcher/HttpResponsePromise.ts", "packages/core/src/api/errors/LangfuseAPIError.ts"],
    mech: [["HttpResponsePromise", "packages/core/src/api/core/fetcher/HttpResponsePromise.ts"], ["LangfuseAPIError", "packages/core/src/api/errors/LangfuseAPIError.ts"]],
  },
  {
    id: "P34",
    title: "HTTP requests are retried only on 408, 429 and 5xx, bounded and abortable",
    statement: "An HTTP request is attempted once, plus once more after each 408, 429 or 5xx response up to maxRetries (default 2); a network failure, timeout, abort or other status is never retried. Before a retry it waits as Retry-After asks but at most 60 s, else until the rate limit resets or an exponential back-off (both at most 60 s plus jitter). Every attempt sends the same URL, method, headers and body with a signal that fires on the caller's abort and on the timeout, and leaves no timer behind.",
    over: ["fault_sequences", "inputs"],
    q: "every status, header and failure at every attempt, every retry budget",
    why: "Needs sequences of failing responses; the suite mocks the HTTP layer away.",
    files: ["packages/core/src/api/core/fetcher/requestWithRetries.ts", "packages/core/src/api/core/fetcher/makeRequest.ts", "packages/core/src/api/core/fetcher/signals.ts"],
    mech: [["requestWithRetries", "packages/core/src/api/core/fetcher/requestWithRetries.ts"], ["makeRequest", "packages/core/src/api/core/fetcher/makeRequest.ts"]],
  },
  {
    id: "P35",
    title: "HTTP requests carry their data intact and report what the server answered",
    statement: "The HTTP layer appends a path once to a base URL with or without prefix and trailing slash, sends a query that decodes to exactly the given parameters (arrays repeated, undefined left out), all non-nullish headers and the JSON body with its content type. A status of 200-399 is reported as success with the parsed body (none if empty), any other as failure with that status and body. Network failures, timeouts, aborts and bodies that are not JSON are reported as failures of that kind.",
    over: ["inputs", "fault_sequences"],
    q: "every query, header, status and body kind",
    why: "Encoding and error edges (prefix paths, special characters, empty bodies, content types) are not sampled by the suite.",
    files: ["packages/core/src/api/core/fetcher/Fetcher.ts", "packages/core/src/api/core/url/qs.ts", "packages/core/src/api/core/url/join.ts"],
    mech: [["fetcherImpl", "packages/core/src/api/core/fetcher/Fetcher.ts"], ["toQueryString", "packages/core/src/api/core/url/qs.ts"], ["join", "packages/core/src/api/core/url/join.ts"]],
  },
  {
    id: "P36",
    title: "observeOpenAI is transparent: same arguments, results, chunks and errors",
    statement: "A method called through observeOpenAI, at any nesting, runs exactly once on its own object with the caller's arguments, and the caller gets its very result: the value, the fulfilment, every stream chunk in order, the thrown error or the rejection. Recording a result or chunk of any shape (no choices, null fields, empty tool calls) never makes a successful call fail. Properties that are not methods read through unchanged.",
    over: ["inputs", "fault_sequences"],
    q: "every SDK method outcome, response and chunk shape",
    why: "The repository has only end-to-end tests against the real API for this package.",
    files: ["packages/openai/src/observeOpenAI.ts", "packages/openai/src/traceMethod.ts", "packages/openai/src/parseOpenAI.ts"],
    mech: [["observeOpenAI", "packages/openai/src/observeOpenAI.ts"], ["withTracing", "packages/openai/src/traceMethod.ts"]],
  },
  {
    id: "P37",
    title: "Every traced OpenAI call yields one generation, ended exactly once",
    statement: "Each call of a traced OpenAI method starts one generation with the configured (else SDK derived) name, prompt, metadata and parent, the call's model and input, inside the configured user, session, tags and trace name. It is ended exactly once, whether the call returns, throws, fulfils, rejects, or its stream is exhausted, fails or is left early, and never updated afterwards. It is marked ERROR with the error's text exactly on failure, and on success carries the output, model and usage of the response or stream.",
    over: ["inputs", "fault_sequences"],
    q: "every way a call or stream can end, every response shape",
    why: "Needs streams that fail or are abandoned midway; the suite only has end-to-end tests here.",
    files: ["packages/openai/src/traceMethod.ts", "packages/openai/src/parseOpenAI.ts", "packages/openai/src/observeOpenAI.ts"],
    mech: [["wrapMethod", "packages/openai/src/traceMethod.ts"], ["wrapAsyncIterable", "packages/openai/src/traceMethod.ts"]],
  },
  {
    id: "P38",
    title: "LangChain callbacks never throw or reject",
    statement: "Whatever payload LangChain passes (missing, null or malformed serialized models, inputs, results, errors, metadata, unknown run ids), no callback of the LangChain CallbackHandler throws, rejects, or leaves a rejected promise unhandled.",
    over: ["inputs"],
    q: "every callback and payload shape",
    why: "The suite drives three well-formed runs; a crash needs an unusual payload.",
    files: ["packages/langchain/src/CallbackHandler.ts"],
    mech: [["CallbackHandler", "packages/langchain/src/CallbackHandler.ts"]],
  },
  {
    id: "P39",
    title: "Each LangChain run is one observation, nested under its parent, ended once",
    statement: "Every LangChain chain, LLM, chat model, tool and retriever run starts exactly one observation (generation, tool or span) with its name, input, metadata, tags and version, below the observation of its parent run. Its end callback records the output (for models also model, usage and time of the first token), its error callback level ERROR and the error, and each ends exactly that observation exactly once, whatever other runs are in flight. Afterwards the handler keeps no state of the run.",
    over: ["histories", "inputs"],
    q: "every interleaving of run events of any kind, every output and error",
    why: "Leaked or unended observations need failing, streamed or empty results that the suite does not produce.",
    files: ["packages/langchain/src/CallbackHandler.ts"],
    mech: [["startAndRegisterOtelSpan", "packages/langchain/src/CallbackHandler.ts"], ["handleOtelSpanEnd", "packages/langchain/src/CallbackHandler.ts"]],
  },
  {
    id: "P40",
    title: "LangChain root chains carry trace attributes; prompts link once",
    statement: "A root LangChain chain is traced with the user and session of the run's metadata, else of the handler, the union of run and handler tags, and the handler's metadata and version. A Langfuse prompt in a prompt run's metadata is linked to the next generation with the same parent run and to no other, and is forgotten when that parent ends or fails.",
    over: ["inputs", "histories"],
    q: "every combination of handler and run attributes, every order of prompt and model runs",
    why: "Wrong precedence or a prompt linked to a foreign generation only shows in combinations the suite does not run.",
    files: ["packages/langchain/src/CallbackHandler.ts"],
    mech: [["handleChainStart", "packages/langchain/src/CallbackHandler.ts"], ["registerLangfusePrompt", "packages/langchain/src/CallbackHandler.ts"]],
  },
  {
    id: "P41",
    title: "The browser client reports a score as stored exactly when Langfuse confirmed it",
    statement: "LangfuseBrowserClient.score() sends exactly one score-create event with the caller's fields to the ingestion endpoint of the configured base URL, with the SDK's own authorization and identification headers whatever the additional headers. It fulfils with the score's id exactly if the response confirms that event without errors. In every other case (network failure, failing status, empty, malformed or unexpected body, partial errors, missing confirmation) it rejects with a LangfuseBrowserError carrying the status, response or original error.",
    over: ["inputs", "faults"],
    q: "every score body, option and response",
    why: "Silently lost feedback needs response shapes (207 with errors, proxies' HTML, missing confirmation) no test enumerates.",
    files: ["packages/browser/src/index.ts", "packages/browser/src/utils.ts"],
    mech: [["LangfuseBrowserClient.score", "packages/browser/src/index.ts"]],
  },
  {
    id: "P42",
    title: "Configuration: parameter over environment over default, for every option",
    statement: "Every option of LangfuseSpanProcessor and LangfuseClient takes the constructor parameter if given, else its environment variable (LANGFUSE_BASE_URL before the legacy LANGFUSE_BASEURL), else the default, whatever the other options are. The resulting value, in the right unit, is what the exporter, batch processor, API client, score queue, started spans and media handling use. A custom exporter is used as given and additional headers reach every HTTP client, and each names the SDK and its version.",
    over: ["inputs"],
    q: "every option, alone and combined, from every source",
    why: "Precedence mistakes show only when several sources are set at once; the suite sets one.",
    files: ["packages/otel/src/span-processor.ts", "packages/client/src/LangfuseClient.ts", "packages/client/src/score/index.ts"],
    mech: [["LangfuseSpanProcessor.constructor", "packages/otel/src/span-processor.ts"], ["LangfuseClient.constructor", "packages/client/src/LangfuseClient.ts"]],
  },
  {
    id: "P43",
    title: "The secret key is only ever sent as Basic credentials",
    statement: "Whether given as parameter or environment variable, the secret key leaves the SDK only as the Basic Authorization header (base64 of public and secret key) of the trace exporter and of REST requests. It never occurs in a log line at any level, a URL, query parameter, body or other header, a span attribute, a result or an error.",
    over: ["inputs", "faults"],
    q: "every constructor, REST endpoint and outcome, with debug logging on",
    why: "A leak is invisible to functional tests and often on a debug or error path only.",
    files: ["packages/otel/src/span-processor.ts", "packages/client/src/LangfuseClient.ts", "packages/core/src/api/"],
    mech: [["LangfuseSpanProcessor.constructor", "packages/otel/src/span-processor.ts"], ["LangfuseClient.constructor", "packages/client/src/LangfuseClient.ts"]],
  },
  {
    id: "P44",
    title: "The Vercel AI SDK integration forwards every event and labels every span",
    statement: "LangfuseVercelAiSdkIntegration forwards every telemetry callback of the AI SDK exactly once to the same callback of its tracer, with the same event and result. Its span enrichment never throws and gives each span exactly one metadata entry per serialisable runtime-context key, and links the prompt named in langfusePrompt on model-call spans only, unless that prompt is malformed or a fallback.",
    over: ["inputs"],
    q: "every callback, span type and runtime context",
    why: "The package has no unit tests; a callback that is dropped or swapped only shows for that event type.",
    files: ["packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", "packages/vercel-ai-sdk/src/utils.ts"],
    mech: [["LangfuseVercelAiSdkIntegration", "packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts"], ["createLangfuseObservationAttributes", "packages/vercel-ai-sdk/src/utils.ts"]],
  },
  {
    id: "P45",
    title: "Log lines are written exactly when the configured level allows them",
    statement: "A log call writes its message and arguments once, to the console method of its severity, exactly if its level is at least the configured one (environment variables, configureGlobalLogger, createLogger, setLevel, INFO by default and after reset); isLevelEnabled and getLevel agree. No SDK code writes to the console or the standard streams other than through the logger.",
    over: ["inputs", "histories"],
    q: "every level, log method and way to configure them; every source file",
    why: "The logger has no tests; the no-other-output part quantifies over all code.",
    files: ["packages/core/src/logger/index.ts", "packages/*/src"],
    mech: [["Logger", "packages/core/src/logger/index.ts"], ["LoggerSingleton", "packages/core/src/logger/index.ts"]],
  },
  {
    id: "P46",
    title: "Client aliases, flush, shutdown and trace URLs do what their targets do",
    statement: "Every deprecated v3 alias of LangfuseClient, even when detached from the client, makes exactly one call of its documented target with the caller's arguments and returns its result. flush() and shutdown() settle only when the score manager's do. getTraceUrl() is <baseUrl>/project/<project id>/traces/<trace id>, looks the project up once, and a failed lookup rejects without being remembered.",
    over: ["inputs", "histories"],
    q: "every alias, arguments, outcome of the lookup",
    why: "The suite touches a few aliases with mocked managers only.",
    files: ["packages/client/src/LangfuseClient.ts"],
    mech: [["LangfuseClient", "packages/client/src/LangfuseClient.ts"]],
  },
  {
    id: "P47",
    title: "Seeded ids are a pure function of the seed, other ids are random",
    statement: "createTraceId(seed) is always the first 32 hexadecimal digits of the SHA-256 of the seed, and an experiment item's id the first 16 of that of its serialised input; time, randomness and earlier calls never flow into them. createTraceId() without a seed and experiment ids are 16 and 8 fresh random bytes, with no digit lost.",
    over: ["inputs", "histories"],
    q: "every seed and item input",
    why: "Lost leading zeros or normalised seeds only show for particular hashes and seeds.",
    files: ["packages/tracing/src/index.ts", "packages/core/src/utils.ts"],
    mech: [["createTraceId", "packages/tracing/src/index.ts"], ["createExperimentItemId", "packages/core/src/utils.ts"]],
  },
  {
    id: "P48",
    title: "The SDK runs on every JavaScript platform: no unguarded platform global",
    statement: "No package imports a Node built-in module or, at run time, a package it does not declare as a dependency. No SDK function throws because a global or timer method that only some platforms have (process, Buffer, unref, setImmediate, window, document, Deno, ...) is missing: on browsers, workers and edge runtimes the SDK takes another way.",
    over: ["inputs", "configurations"],
    q: "every source file, platform global and platform profile",
    why: "The tests run on Node only, where every such global exists.",
    files: ["packages/*/src", "packages/core/src/utils.ts"],
    mech: [["getEnv", "packages/core/src/utils.ts"], ["base64Encode", "packages/core/src/utils.ts"], ["safeSetTimeout", "packages/core/src/utils.ts"]],
  },
  {
    id: "P49",
    title: "Inline media is recognised in every supported form, and nothing else",
    statement: "A base64 data URI in an input, output or metadata attribute, an AI SDK v6 file or image part and an AI SDK v7 blob are each uploaded with their declared content type, decoded content and field, and exactly their text is replaced by the media tag in the exported attribute. URLs, plain text, parts of other kinds, malformed JSON and media whose tag cannot be made are exported unchanged, without an upload and without keeping other media of the attribute from being handled.",
    over: ["inputs"],
    q: "every listed attribute, instrumentation scope and form of media",
    why: "The tests sample a few data URIs; the AI SDK message formats and the look-alikes are hardly covered.",
    files: ["packages/otel/src/MediaService.ts", "packages/core/src/media.ts"],
    mech: [["MediaService.process", "packages/otel/src/MediaService.ts"], ["normalizeBase64Content", "packages/otel/src/MediaService.ts"], ["LangfuseMedia.parseBase64DataUri", "packages/core/src/media.ts"]],
  },
  {
    id: "P50",
    title: "The span of an experiment item records item, output and experiment",
    statement: "The span of each experiment item whose task succeeded records, once, that item's own input and output, metadata with every entry of the item's and the experiment's metadata, the experiment and run names and (for dataset items) the dataset and item ids, and carries the experiment environment, the experiment's description and the item's expected output. Observations made by the task inherit the serialised experiment and item metadata. The result's dataset run id and URL name the run the items were linked to, and are absent when none was linked.",
    over: ["inputs", "fault_sequences", "configurations"],
    q: "every list of plain, bare and dataset items, link requests and tasks succeeding or failing",
    why: "The tests look at a few attributes of successful runs.",
    files: ["packages/client/src/experiment/ExperimentManager.ts"],
    mech: [["ExperimentManager.runItem", "packages/client/src/experiment/ExperimentManager.ts"], ["ExperimentManager.run", "packages/client/src/experiment/ExperimentManager.ts"]],
  },
  {
    id: "P51",
    title: "The formatted experiment report shows every item, score, average and link",
    statement: "format({ includeItemResults: true }) shows, per item in order, its input, expected output, output, every score with its comment, its dataset item and its trace; without the option the items' data is left out. In both forms the report shows the experiment and run names, the description, the number of items, the average of each score over its numeric values, every run evaluation and the dataset run's URL.",
    over: ["inputs"],
    q: "every listed experiment: text, structured and long data; numeric, textual and boolean scores; one or many scores; plain and dataset items",
    why: "The tests check a few substrings of a few reports.",
    files: ["packages/client/src/experiment/ExperimentManager.ts"],
    mech: [["ExperimentManager.prettyPrintResults", "packages/client/src/experiment/ExperimentManager.ts"]],
  },
  {
    id: "P52",
    title: "Prompts convert to LangChain templates and JSON without changing meaning",
    statement: "getLangchainPrompt() turns every {{variable}} into {variable}, doubles the braces of JSON objects in the text, keeps every other character, and keeps the roles and the order of messages; a placeholder is filled with the given messages, dropped for an empty list, stringified for another value and otherwise handed over as a LangChain placeholder. toJSON() is the JSON text of name, content, version, fallback flag, tags, labels, type and config. Neither changes the prompt.",
    over: ["inputs"],
    q: "every listed text and chat prompt and placeholder value",
    why: "The tests cover some variables and JSON snippets and no chat placeholder of another shape.",
    files: ["packages/client/src/prompt/promptClients.ts"],
    mech: [["BasePromptClient.escapeJsonForLangchain", "packages/client/src/prompt/promptClients.ts"], ["ChatPromptClient.getLangchainPrompt", "packages/client/src/prompt/promptClients.ts"], ["ChatPromptClient.toJSON", "packages/client/src/prompt/promptClients.ts"]],
  },
  {
    id: "P53",
    title: "Creating a prompt sends it as given and returns what the server stored",
    statement: "Creating a prompt makes one request that carries every field of the body unchanged: a text prompt with the type text, chat messages with role, content and message type, placeholders with their name. The call fulfils with a client of the kind, content, name and version the server answered, not marked as fallback, rejects with the request's error, and leaves the caller's body unchanged.",
    over: ["inputs", "fault_sequences"],
    q: "every text, untyped and chat body and answer",
    why: "The tests create a few prompts with constant contents.",
    files: ["packages/client/src/prompt/promptManager.ts"],
    mech: [["PromptManager.create", "packages/client/src/prompt/promptManager.ts"]],
  },
  {
    id: "P54",
    title: "Trace-level and active-span helpers act on exactly the span meant, or nothing",
    statement: "setTraceIO() and setTraceAsPublic() of every observation write exactly the given trace input and output, respectively the public flag, on the observation's own span and return the observation. setActiveTraceIO() and setActiveTraceAsPublic() do the same on the active span, and getActiveTraceId() and getActiveSpanId() return its ids. Without an active span these do nothing, return undefined and never throw.",
    over: ["inputs", "configurations"],
    q: "every observation type, with and without an active span",
    why: "The tests call these helpers on one type and inside one active span.",
    files: ["packages/tracing/src/index.ts", "packages/tracing/src/spanWrapper.ts", "packages/tracing/src/attributes.ts"],
    mech: [["setActiveTraceIO", "packages/tracing/src/index.ts"], ["LangfuseBaseObservation.setTraceIO", "packages/tracing/src/spanWrapper.ts"]],
  },
  {
    id: "P55",
    title: "A traced OpenAI call records its request, model data and token usage in full",
    statement: "The generation of a traced OpenAI call starts with the call's model, its whole input (messages with tools and functions, input, or prompt), every model parameter given (also zero and false) and, as metadata, the response format and the configured metadata. It ends with the response's model, parameters, metadata and usage, where input and output tokens exclude, never below zero, the detailed counts, each listed under its own name; the same holds for streamed answers, with the time of their first chunk. A failed call is recorded with zero cost.",
    over: ["inputs"],
    q: "every listed request and response of the chat, completion, embedding and responses APIs",
    why: "The package has no unit tests; end-to-end tests sample a few calls against the real API.",
    files: ["packages/openai/src/parseOpenAI.ts", "packages/openai/src/traceMethod.ts"],
    mech: [["parseInputArgs", "packages/openai/src/parseOpenAI.ts"], ["parseUsageDetails", "packages/openai/src/parseOpenAI.ts"], ["parseModelDataFromResponse", "packages/openai/src/parseOpenAI.ts"]],
  },
  {
    id: "P56",
    title: "LangChain runs record their inputs, outputs, model data, usage, names and tags",
    statement: "Each LangChain run's observation carries the run's name (the given one, else its class, else a default) and type, its input and output with every message as role and content and its tool or function calls, its tags, and its metadata without the langfuse keys; runs tagged as hidden are DEBUG. A model run also records the model, every given parameter (also zero), tools and tool choice, and ends with the response's model and usage, where input and output tokens exclude, never below zero, the detailed counts, each listed under its own name. A failed run records the error's text and, for chains and models, the details the error carries.",
    over: ["inputs"],
    q: "every listed message type, chain input and output form, model call and usage form",
    why: "Only three integration tests exercise the handler, each with one plain run.",
    files: ["packages/langchain/src/CallbackHandler.ts"],
    mech: [["CallbackHandler.extractChatMessageContent", "packages/langchain/src/CallbackHandler.ts"], ["CallbackHandler.handleLLMEnd", "packages/langchain/src/CallbackHandler.ts"], ["CallbackHandler.joinTagsAndMetaData", "packages/langchain/src/CallbackHandler.ts"]],
  },
  {
    id: "P57",
    title: "Media objects identify, serialise and download exactly their content",
    statement: "A LangfuseMedia made from bytes or from a base64 data URI holds exactly that content and type, and none (without throwing) for anything else; its id is the first 22 characters of the URL-safe base64 SHA-256 of the content, its tag names type, id and source, and it serialises to its data URI. A resolved media reference keeps its data, serialises to its reference string, downloads its own URL as bytes, base64 or data URI, and rejects when the download fails. It reports its URL as expired exactly when the expiry is known and within the threshold.",
    over: ["inputs"],
    q: "every listed data URI, expiry and download status; any content bytes",
    why: "Tests use one or two images whose hash lacks most of the characters that need replacing.",
    files: ["packages/core/src/media.ts"],
    mech: [["LangfuseMedia.getId", "packages/core/src/media.ts"], ["LangfuseMediaReference.isUrlExpired", "packages/core/src/media.ts"], ["LangfuseMediaReference.fetchBytes", "packages/core/src/media.ts"]],
  },
  {
    id: "P58",
    title: "Runner contexts, AutoEvals adapters and regression errors pass on their data",
    statement: "RunnerContext.runExperiment runs the client's experiment exactly once with the call's data and dataset version, else the context's, with the metadata of both merged (the call's first) and every other parameter unchanged, and settles as that run does; without any data it rejects and runs nothing. An adapted AutoEvals evaluator is called once with the item's input, output and expected output over its own parameters; its name, score (zero if none) and metadata are returned and its failure is passed on. A RegressionError carries result, metric, value and threshold and names them unless a message is given.",
    over: ["inputs", "fault_sequences"],
    q: "every combination of context and call options, score forms and failures",
    why: "Which of two sources wins shows only when both are set; the suite samples few combinations.",
    files: ["packages/client/src/experiment/RunnerContext.ts", "packages/client/src/experiment/adapters.ts"],
    mech: [["RunnerContext.runExperiment", "packages/client/src/experiment/RunnerContext.ts"], ["createEvaluatorFromAutoevals", "packages/client/src/experiment/adapters.ts"]],
  },
  {
    id: "P59",
    title: "Base64 conversion keeps every byte, on every platform",
    statement: "base64Encode() and bytesToBase64() give the standard padded Base64 of exactly the text's UTF-8 bytes or the given bytes, and base64Decode() and base64ToBytes() are their inverse. This holds for empty, binary, non-ASCII and large content, and whether or not the platform has Buffer.",
    over: ["inputs", "configurations"],
    q: "content of every kind and length remainder, platforms with and without Buffer",
    why: "Tests run where Buffer exists, so the browser and edge branches, and large content, are never taken.",
    files: ["packages/core/src/utils.ts", "packages/core/src/api/core/base64.ts"],
    mech: [["bytesToBase64", "packages/core/src/utils.ts"], ["base64Encode", "packages/core/src/api/core/base64.ts"]],
  },
  {
    id: "N01",
    title: "Generated trace, observation, score and experiment ids never collide",
    statement: "No two ids generated by the SDK, in one process or in several, are equal.",
    over: ["histories"], q: "all ids ever generated",
    why: "Collisions are a matter of probability that no finite sample shows.",
    files: ["packages/core/src/utils.ts"], mech: [["generateUUID", "packages/core/src/utils.ts"], ["createExperimentId", "packages/core/src/utils.ts"]],
    na: "Uniqueness of random values is a statement about the entropy of the platform's generator, which is not in the source; what the source decides (which ids are random and which are functions of the seed) is P47.",
  },
  {
    id: "N02",
    title: "Text templates render as the Mustache specification says",
    statement: "For every template and every variables object, compile() returns the text the Mustache specification prescribes, without HTML escaping.",
    over: ["inputs"], q: "all templates and variables",
    why: "The template language is infinite.",
    files: ["packages/client/src/prompt/promptClients.ts"], mech: [["TextPromptClient.compile", "packages/client/src/prompt/promptClients.ts"]],
    na: "Rendering is done by the mustache package outside this repository and depends on the contents of unbounded runtime strings; what this repository decides (verbatim substitution, no escaping, what reaches the renderer) is P15 and P52.",
  },
  {
    id: "N03",
    title: "A recorded span or score leaves the process within the configured interval",
    statement: "In a running process a finished span or created score is sent at most the flush interval (plus scheduling delay) later.",
    over: ["schedules"], q: "all schedules and clocks",
    why: "Tests replace the clock.",
    files: ["packages/client/src/score/index.ts", "packages/otel/src/span-processor.ts"], mech: [["ScoreManager.create", "packages/client/src/score/index.ts"]],
    na: "Real time and the event loop's scheduling are runtime quantities no static argument bounds; that a flush is scheduled with the configured delay after every score, and that flush and shutdown send everything, is decided by P10, P04 and P42.",
  },
  {
    id: "N04",
    title: "Every exported span is accepted and stored by the Langfuse server",
    statement: "Each span handed to the export delegate is serialised, delivered and stored by the server with all its attributes.",
    over: ["fault_sequences"], q: "all spans, networks and servers",
    why: "It involves the network and a remote server.",
    files: ["packages/otel/src/span-processor.ts"], mech: [["LangfuseSpanProcessor.onEnd", "packages/otel/src/span-processor.ts"]],
    na: "Delivery is done by OpenTelemetry's OTLP exporter and the remote server, whose code is not part of this repository; the hand-over to the exporter and its configuration are decided by P02, P04 and P42.",
  },
];
