#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
V = "crates/vertigo/src/"; C = "crates/vertigo-cli/src/"; J = V + "driver_module/src_js/"

p("C01", "Derived values never disagree with their sources (no glitches)",
  "At every moment, inside or outside a transaction, reading a value or computed gives exactly the result of its defining function over the current source values, including writes made earlier in a transaction that is still open. Once the outermost transaction has closed, the last value delivered to every live subscriber equals the current value of what it subscribed to. No subscriber callback is ever given, or can itself read, a mixture of old and new source values.",
  ["programs", "histories"], "every dependency graph of values and computeds (static and branch-dependent, diamonds, chains, shared and dropped nodes) and every interleaving of writes, nested transactions, reads, subscriptions and drops",
  "the unit tests check a dozen fixed graphs of two or three nodes; consistency must hold for any graph shape, dependency switch and history",
  [V+"computed/value.rs", V+"computed/computed_box.rs", V+"computed/graph_value.rs", V+"computed/dependencies/mod.rs", V+"computed/dependencies/graph.rs", V+"computed/dependencies/graph_connections.rs"],
  [("cache invalidation of all transitive dependents on write", V+"computed/dependencies/mod.rs report_set"), ("dependency edges re-recorded on every evaluation", V+"computed/graph_value.rs calculate_new_value"), ("refresh after the outermost transaction", V+"computed/dependencies/mod.rs transaction")],
  [("parent/client edges", "who must be invalidated when a source changes", V+"computed/dependencies/graph_connections.rs")],
  ["Computed::get / Value::get in transactions", "subscribe callbacks"])
p("C02", "A subscriber runs exactly when it must, once per transaction, never after release",
  "For each outermost transaction, a deduplicating subscriber is called exactly once if the value it observes ended up different from the one last delivered and otherwise not at all, while a subscribe-all subscriber is called exactly once if a source its value depends on was written and otherwise not at all. A subscriber is never called after its handle was dropped, whether before or during the transaction, and a subscription held by an outer subscriber's callback result is released without running again when the outer one runs anew. Writing an equal value through the comparing setter notifies nobody.",
  ["programs", "histories"], "every graph, set of subscribers (plain, subscribe-all, nested in another's result), and history of writes, batches and drops, including drops performed by other subscribers' callbacks",
  "tests count deliveries for a handful of hand-written sequences; exactly-once is a statement about all histories",
  [V+"computed/computed_box.rs", V+"computed/dependencies/mod.rs", V+"computed/dependencies/transaction_state.rs", V+"computed/graph_id.rs"],
  [("set of clients to refresh collected over the transaction", V+"computed/dependencies/transaction_state.rs"), ("last delivered value comparison", V+"computed/computed_box.rs subscribe"), ("creation order of clients", V+"computed/graph_id.rs")],
  None, ["subscribe / subscribe_all callbacks"])
p("C03", "Computeds are evaluated lazily and cached between changes",
  "Creating a computed, or writing to a source nobody observes, runs no defining function. While a computed stays observed, its defining function runs again only if a source it read was written since its last evaluation, and repeated reads or additional subscribers reuse the cached result. A value in a keyed auto-creating map is created once per key and the same one is returned ever after.",
  ["programs", "histories"], "every graph and history, with evaluation counters in every defining function",
  "existing tests check evaluation counts for three hand-written graphs",
  [V+"computed/graph_value.rs", V+"computed/dependencies/graph.rs", V+"computed/auto_map.rs"],
  [("cached state cleared only through invalidation or loss of observers", V+"computed/graph_value.rs"), ("memoized creation", V+"computed/auto_map.rs get")])
p("C04", "External sources are connected exactly while observed; released graphs free memory",
  "A source with an attached external connection is connected when it gains its first observer, never connected twice at once, and disconnected when its last observer disappears, and reconnects if observed again. When all handles and subscriptions of a graph are dropped, in any order, the captured data of its defining functions, subscriber callbacks and callback results is freed. Dropping one subscriber never disturbs the others that share its sources.",
  ["programs", "histories"], "every graph over connected and plain sources, every order of subscribing and dropping, direct or through intermediate computeds and dynamic branches",
  "tests check one connect/disconnect sequence; drop orders and sharing patterns are unbounded",
  [V+"computed/dependencies/external_connections.rs", V+"computed/dependencies/graph_connections.rs", V+"computed/graph_value.rs", V+"computed/drop_resource.rs"],
  [("edge removal cascade", V+"computed/dependencies/graph_connections.rs set_parent_for_client"), ("connect/disconnect on activity change", V+"computed/dependencies/external_connections.rs set_connection")])
p("C05", "Transactions batch: nothing escapes early and everything is flushed once at the end",
  "Any nesting of transactions behaves as one batch: no subscriber, after-transaction hook or page update runs before the outermost transaction's body ends, and reads inside see the writes made so far. Then every affected subscriber runs, then each registered after-transaction hook fires exactly once, also when nothing changed, and all page changes of the batch go out in a single update that precedes the user's hooks. The transaction returns its body's result, and a hook removed before the outermost transaction's body ended does not fire.",
  ["programs", "histories"], "every nesting of transactions, setters, change-in-place and event-triggered transactions, and every set of registered hooks",
  "the tests nest transactions at one depth with one subscriber and never observe hooks or page updates together",
  [V+"computed/dependencies/mod.rs", V+"computed/dependencies/transaction_state.rs", V+"computed/dependencies/hook.rs", V+"driver_module/dom.rs"],
  [("transaction level counter", V+"computed/dependencies/transaction_state.rs"), ("after-transaction hooks", V+"computed/dependencies/hook.rs"), ("buffered DOM commands", V+"driver_module/dom.rs Commands")])
p("C06", "The rendered page always equals the declared view of the current state",
  "After every transaction the document structure, ignoring comment markers, is exactly what the view description prescribes for the current values: element names, attributes, texts, reactive texts, conditional and reactive sub-views, lists and fragments, each at its declared position among its siblings. This holds however reactive parts are nested in one another and however many changes are batched. Releasing the view leaves nothing of it in the document.",
  ["programs", "histories"], "every composition of elements, texts, reactive values, options, lists and fragments, and every history of batched changes",
  "tests render a few static trees; order of nested reactive parts after arbitrary edits is never checked",
  [V+"render/dom_value.rs", V+"render/dom_list.rs", V+"dom/dom_comment.rs", V+"dom/dom_element.rs", V+"dom/dom_text.rs", V+"driver_module/dom.rs"],
  [("comment markers as insertion points", V+"dom/dom_comment.rs"), ("list reconciliation", V+"render/dom_list.rs reorder_nodes")],
  None, ["DOM command log / host DOM"])
p("C07", "Keyed lists keep each item's node as long as its key stays",
  "When a rendered list changes, an item whose key was present before keeps its existing node and inner state; new keys get freshly rendered nodes and vanished keys lose theirs, and every node ends up in list order. Duplicate keys are matched one to one, so none is lost or shown twice. (An item consisting of a bare reactive part, without an element of its own, may be rendered anew when the list changes.) The render function runs exactly once per item that needs a new node.",
  ["histories", "inputs"], "every pair of old and new lists, including permutations, duplicates, bulk replacement, and lists nested in reactive parts",
  "the reconciliation is untested beyond one static list",
  [V+"render/dom_list.rs"], [("top/bottom/middle matching with a keyed node cache", V+"render/dom_list.rs")])
p("C08", "The page update stream is always well-formed and nothing outlives its owner",
  "Every update refers only to nodes created before and not yet removed, never creates a node identity twice, inserts next to a reference node only under that node's actual parent, and pairs every event-handler registration with at most one removal. When a view is released, every node it created has been removed exactly once and every handler it registered has been unregistered; mounting and releasing a view over and over does not grow the live memory. Updates are transmitted in an order a host can apply one by one without error.",
  ["programs", "histories"], "every view program and history of changes, judged command by command at the boundary",
  "no test looks at the stream; only final pseudo-HTML of static trees is compared",
  [V+"driver_module/dom.rs", V+"driver_module/dom_command.rs", V+"dom/dom_element.rs", V+"dom/callback.rs"],
  [("removal commands moved behind the others in a batch", V+"driver_module/dom_command.rs sort_commands"), ("removal on drop", V+"dom/dom_element.rs Drop")])
p("C09", "Attributes and classes always reflect their sources",
  "A reactive attribute shows the current value of its source and is absent while the source is absent; setting an attribute again replaces it. An element's class list is at all times the combination of its declared class names, its style classes and its suspense classes, each present exactly while its source prescribes it, and it is empty when there is none. Equal style descriptions share one class, different ones never do.",
  ["programs", "histories"], "every mix of static, reactive and optional attributes, class names and style groups, changed in any order",
  "tests only build static elements",
  [V+"dom/dom_element.rs", V+"dom/dom_element_class.rs", V+"dom/attr_value.rs", V+"css/css_manager.rs"],
  [("class merge manager", V+"dom/dom_element_class.rs"), ("reactive attribute subscription", V+"dom/dom_element.rs")])
p("C10", "Events reach the current handler of their element, with their data, once",
  "Firing an event on an element calls the handler currently attached to it exactly once, with the data of that event, inside a transaction; a reactive handler means the one for the current state. The handler's answer decides whether default handling is suppressed. A handler of a released element is never called.",
  ["histories", "inputs"], "every event kind and payload and every history of handler replacement and element removal",
  "no test fires an event",
  [V+"dom/dom_element.rs", V+"dom/callback.rs", V+"driver_module/api/callbacks.rs", J+"api_browser/dom/dom.ts"],
  [("callback store", V+"driver_module/api/callbacks.rs"), ("listener registration", J+"api_browser/dom/dom.ts")])
p("C11", "Suspense callbacks reflect whether a suspended placeholder is inside",
  "An element with a suspense-style callback carries the style the callback computes for 'loading' exactly while at least one suspense placeholder is attached anywhere beneath the element it is placed in (its parent), and the style for 'not loading' otherwise. Elements placed elsewhere are unaffected. Replacing or clearing the callback, or releasing the element, ends the old callback's effect.",
  ["histories", "programs"], "every tree of elements, placements, moves and removals of placeholders",
  "untested",
  [V+"driver_module/dom_suspense/dom_suspense_mod.rs", V+"driver_module/dom_suspense/node_paths.rs", V+"dom/dom_element_class.rs"],
  [("parent/child paths mirrored in the driver", V+"driver_module/dom_suspense/dom_connection.rs")])
p("C12", "Style blocks are translated to rules faithfully and scoped to one class",
  "For every style description, the emitted rules contain every declaration with its value unchanged, attached to a selector that contains the generated class: plain declarations to the class itself, nested selectors to the class combined with that selector, media blocks and animations kept as such with their own scoped rules and unique animation names. Identical static descriptions are emitted once and reuse their class, and distinct descriptions get distinct classes.",
  ["inputs"], "every style text made of declarations (including strings, urls and non-ASCII text), nested selectors, pseudo selectors, media queries and animations",
  "tests cover about twenty literal snippets, all ASCII and without quoted punctuation",
  [V+"css/transform_css/mod.rs", V+"css/transform_css/splits.rs", V+"css/css_manager.rs", V+"css/css_structs.rs"],
  [("row splitter and transformer", V+"css/transform_css"), ("dedupe by text", V+"css/css_manager.rs")])
p("C13", "Values cross the Rust/JavaScript boundary unchanged in both directions",
  "Every value that can be expressed (null, undefined, booleans, all integer kinds, floats, any Unicode string, byte arrays, lists, objects, JSON trees) is decoded on the other side to the same value, for Rust to Rust, Rust to JavaScript and JavaScript to Rust. Truncated or corrupted buffers produce a decoding error, never a crash, an out-of-range read or a silently different value of the same length. JSON values keep every member under its own name.",
  ["inputs"], "every value tree and every truncation or byte corruption of its encoding",
  "four fixed round trips exist in the tests and none of them involves the JavaScript side",
  [V+"driver_module/js_value/js_value_struct.rs", V+"driver_module/js_value/js_json_struct.rs", V+"driver_module/js_value/memory_block_read.rs", V+"driver_module/js_value/memory_block_write.rs", J+"jsvalue.ts"],
  [("tagged binary encoding", V+"driver_module/js_value/js_value_struct.rs"), ("JS mirror", J+"jsvalue.ts")])
p("C14", "Derived JSON conversion is a faithful round trip",
  "For every type deriving the JSON conversion, and for the provided implementations on primitives, strings, options, vectors and maps, converting to JSON and back yields an equal value (integers within the range a JSON number represents exactly). Input of a wrong shape (missing member, wrong kind, number outside the target type's range, unknown variant) is rejected with an error that names the offending place, and never panics or yields an altered value. Renamed and defaulted members follow their annotations.",
  ["inputs", "programs"], "every value of a family of derived types and every mutation of its JSON",
  "the tests convert a handful of literal values",
  [V+"driver_module/js_value/serialize.rs", "crates/vertigo-macro/src/jsjson"],
  [("derive macro", "crates/vertigo-macro/src/jsjson"), ("primitive implementations", V+"driver_module/js_value/serialize.rs")])
p("C15", "Boundary memory is used safely: no overflow, double free, mismatch or leak",
  "Encoding and decoding values, exchanging buffers with the host and releasing them never reads or writes outside an allocation, frees an allocation twice, frees it with another layout than it was allocated with, or uses it after release. Each buffer handed over to the guest is consumed or released exactly once. Repeating the same exchange any number of times does not grow the guest's live memory.",
  ["inputs", "histories"], "every value exchanged, including empty and very large ones, and long histories of host calls and callbacks",
  "no test runs under a sanitizer and none repeats exchanges",
  [V+"driver_module/js_value/memory_block.rs", V+"driver_module/js_value/memory_block_read.rs", V+"driver_module/js_value/memory_block_write.rs", V+"driver_module/api/arguments.rs"],
  [("manual alloc/dealloc", V+"driver_module/js_value/memory_block.rs"), ("argument table keyed by pointer", V+"driver_module/api/arguments.rs")])
p("C16", "Spawned futures and timers complete exactly once, in due order",
  "A spawned future runs to completion across any number of suspensions, each wake-up leads to progress, and none is polled after completion. A sleep completes once, not before its time, and an interval fires once per period until its handle is dropped and never after. Values published to a waiting future are delivered to it exactly once, whether published before or after it started waiting.",
  ["schedules", "histories"], "every interleaving of spawned tasks, sleeps, intervals, drops and host timer deliveries under a virtual clock",
  "no test runs the executor or timers",
  [V+"driver_module/utils/futures_spawn.rs", V+"future_box.rs", V+"driver_module/driver.rs", V+"driver_module/api/api_import.rs"],
  [("single-threaded executor", V+"driver_module/utils/futures_spawn.rs"), ("callback store for timers", V+"driver_module/api/callbacks.rs")])
p("C17", "A fetch sends the request as built and resolves once with what came back",
  "Each request reaches the host once with exactly the method, address, headers and body that were set, and its future resolves exactly once with the status and body the host returned, or with the error for a network failure, independent of the order in which concurrent requests are answered. Converting the response validates status and shape and reports mismatches as errors.",
  ["schedules", "inputs", "fault_sequences"], "every mix of concurrent requests, response orders, body kinds, statuses and failures",
  "no test performs a fetch",
  [V+"fetch/request_builder.rs", V+"driver_module/api/api_import.rs", J+"api_browser/fetch.ts"],
  [("one-shot callback per request", V+"driver_module/api/callbacks.rs register_once"), ("response conversion", V+"fetch/request_builder.rs")])
p("C18", "The lazy cache loads once, honours its lifetime and ends in the last result",
  "A lazily cached resource is loading until its first answer, then holds exactly that answer; while a load is under way further reads or updates start no second one. After the lifetime has passed the next read while observed triggers one new load, before that none; a forced refresh or forgetting triggers one load at once or on next read. A failed load is shown as an error and does not prevent later loads.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of reads, observers, expiry, forced updates and successful or failing answers",
  "untested",
  [V+"fetch/lazy_cache.rs", V+"fetch/resource.rs"], [("queued flag and expiry", V+"fetch/lazy_cache.rs")])
p("C19", "A websocket delivers every message once in order and reconnects",
  "Messages arriving on an open connection reach the handler once, in order, between the connection notice and the closing notice; sent messages reach the peer once, in order. After the connection is lost or cannot be opened a new attempt follows after the retry delay for as long as the handle lives. Once the handle is dropped, the handler is never called again and no connection stays open.",
  ["schedules", "fault_sequences", "histories"], "every sequence of opens, failures, messages, closes and drops under a virtual clock",
  "untested",
  [V+"websocket.rs", V+"driver_module/api/api_import.rs", J+"api_browser/websocket/websocket.ts", J+"api_browser/websocket/connection.ts"],
  [("driver web socket module", J+"api_browser/websocket"), ("callback registration", V+"driver_module/api/api_import.rs websocket")])
p("C20", "Location, cookies and history stay in step with the application's route",
  "The route value always equals the conversion of the current location: after a programmatic change, a browser back/forward, or a manual change of the address, and setting a route changes the location to its text form. A cookie that was set is read back with the identical value, whatever characters it contains, and other cookies are unaffected. Listeners are removed with their handles.",
  ["histories", "inputs"], "every sequence of navigation steps in hash and history mode and every cookie text",
  "untested",
  [V+"router.rs", J+"api_browser/hashrouter.ts", J+"api_browser/historyLocation.ts", J+"api_browser/cookies.ts"],
  [("location subscriptions", V+"router.rs"), ("cookie encoding", J+"api_browser/cookies.ts")])
p("C21", "The browser driver turns updates into exactly that document",
  "After each update batch the live document equals the one obtained by applying the updates in order, including creation, text, attribute and form-state changes, moves and removals, and inserted style rules. Taking over a server-rendered page replaces its content completely by the application's and leaves nothing behind twice. The shipped bundle behaves as its sources do.",
  ["programs", "histories"], "every update stream produced by generated view programs, on a plain page and on a server-rendered one",
  "no test runs the JavaScript driver",
  [J+"api_browser/dom/dom.ts", J+"api_browser/dom/map_nodes.ts", V+"driver_module/wasm_run.js"],
  [("node map and command switch", J+"api_browser/dom/dom.ts")])
p("C22", "Server-rendered HTML is the page the application declares",
  "The HTML sent for an address parses to the document the application declares for it once pending loads are finished: same elements, attributes and texts with every special character escaped so that it reads back unchanged, plus the application's style rules, its environment settings and the loader for the browser. This holds for texts and attribute values with any content. Void and script-like elements are written in valid form.",
  ["programs", "inputs"], "every generated view and every text and attribute content",
  "tests render a few fixed nodes",
  [C+"serve/html", C+"serve/wasm"], [("HTML tree build and serialisation", C+"serve/html/html_element.rs")])
p("C23", "Server-side requests are isolated from one another",
  "Whatever requests run concurrently or earlier, each response depends only on its own address and on the data its own loads received: state, styles or content of one request never appear in another. Responses to equal requests are equal. A failing request does not disturb the others.",
  ["schedules", "histories", "fault_sequences"], "every mix of concurrent requests, including failing and slow ones",
  "untested",
  [C+"serve/serve_run.rs", C+"serve/server_state.rs", C+"serve/wasm/wasm_instance.rs"],
  [("fresh instance per request", C+"serve/server_state.rs")])
p("C24", "Server-side loads are awaited, deduplicated and failures contained",
  "A server-rendered page is sent when all its loads have been answered, with their results incorporated, including follow-up loads; equal loads within a page are sent upstream once and every requester gets the answer. A load that fails is reported to the application as failed and the page is still sent; one that never answers delays the page at most by the time limit. A crash of the application gives an error answer with status 500 and leaves the server running.",
  ["schedules", "fault_sequences", "programs"], "every set of dependent and independent loads, answer orders, failures, hangs and application panics",
  "untested",
  [C+"serve/html/html_response.rs", C+"serve/request_state.rs", C+"serve/wasm", C+"commons/spawn.rs"],
  [("message loop", C+"serve/html/html_response.rs"), ("fetch cache", C+"serve/html")])
p("C25", "Plain answers, static files, cache rules and the proxy are served as configured",
  "A path handled by the application's plain handler is answered with exactly that text; a file of the build is answered with its exact bytes, also in part (range requests), and long-lived caching, and one that does not exist with 404; pages are answered as uncacheable. A GET or POST request under a proxied path prefix reaches the target once with its method, the remaining path with the query and, for POST, its headers and exact body; the target's status, headers and body come back unchanged, however the target frames them; a target that cannot be reached or breaks off gives an answer with a 5xx status. Nothing outside the build directory, and at the target nothing outside the configured address, can be reached by any spelling of the path.",
  ["inputs", "configurations", "fault_sequences"], "every path, query, method, body, answer framing and proxy configuration",
  "untested",
  [C+"serve/serve_run.rs", C+"serve/serve_opts.rs", C+"serve/response_state.rs"],
  [("route table and proxy handlers", C+"serve/serve_run.rs")])
p("C26", "A build is complete and consistent and is found under its public path",
  "A successful build leaves in the destination exactly the files of that build: an index naming the application and its loader by addresses under the configured public path, both with the exact bytes that were compiled (optimised if requested and possible), and every file included by the application. The name of a file changes exactly when its content does. Served, all of these are found at those addresses, every page refers to the application and loader by them, addresses the application gives to included files lead to their exact bytes, and every address outside the public path is rendered by the application, which sees it in full. A build whose compilation fails, or with nothing to build, reports failure.",
  ["configurations", "inputs", "histories"], "every project layout, set of options, public path (other than the root) and sequence of changes between builds",
  "tests cover the string helpers only",
  [C+"build", C+"serve/mount_path.rs", C+"commons/models.rs", "crates/vertigo-macro/src/include_static.rs"], [("build steps", C+"build/build_run.rs"), ("mount path configuration", C+"serve/mount_path.rs")])
p("C27", "View, component and binding macros produce what their source text says",
  "A view written with the macro gives exactly the tree its text describes, in written order, for every combination of literals, embedded expressions, spread collections, components (with parameters given by expression, default, copy or shorthand), static and reactive attributes, styles, handlers and nested views. Every embedded expression is evaluated exactly once when the view is built, in written order, and every program of the grammar compiles. The binding macros copy each listed value once (a value named by a path under its last name) when the function is made, a task binding once more at each start; the originals stay usable and unchanged, and the function has the parameters, body and result that were written.",
  ["programs"], "every program of the macro grammar within a size bound, compiled and executed",
  "a few dozen literal snippets are tested",
  ["crates/vertigo-macro/src/html_parser.rs", "crates/vertigo-macro/src/component.rs", "crates/vertigo-macro/src/bind.rs", V+"dom_macro/dom.rs"],
  [("translation of views", "crates/vertigo-macro/src/html_parser.rs"), ("components", "crates/vertigo-macro/src/component.rs"), ("capturing macros", "crates/vertigo-macro/src/bind.rs")],
  None, ["the mounted tree, evaluation and copy logs, values of the bound functions"])
p("C28", "Host object access performs exactly the described path",
  "A chain of accesses from a page root, the driver's interface or an element of the view (get, set, call, get several properties) reads, writes or calls exactly the named members with the given arguments and yields the final value. A path that leads nowhere yields undefined with an error in the console and changes nothing else. An element handle always refers to the element it was taken from.",
  ["inputs", "programs"], "every chain of accesses and every argument value",
  "no test runs the JavaScript driver",
  [V+"driver_module/api/api_dom_access.rs", J+"js_node.ts", V+"dom/dom_element_ref.rs"], [("path interpreter", J+"js_node.ts")])
p("C29", "Watching ends at the newest sources, everywhere",
  "Under `vertigo watch`, whatever the sequence and timing of source changes, failing compilations, connecting clients and opened pages: some time after the last change the build of the newest sources, whole and from one compilation, is served at its address; nothing is built or reloaded again without a change; every connected client has been told, in order and with versions that never go back, and was last told the state reached (the version, or that the build failed); every open page shows the newest build without a notice, or says that the build failed. The page itself is what the application drew, with the watch script added once.",
  ["histories", "schedules", "faults"], "every history of changes, failures, connections and page loads, at every timing",
  "no test starts the watcher; the interesting states are overlaps of builds, changes and connections",
  [C+"watch", C+"serve/watch.js", C+"build/build_run.rs"], [("watch loop", C+"watch/watch_run.rs"), ("notices", C+"watch/sse.rs"), ("script in the page", C+"serve/watch.js")])
p("C30", "A new project is the template under its name, and nothing else is touched",
  "`vertigo new` with a name and an optional destination makes there, when nothing or an empty folder is there, exactly the files of the template with the name of the project in its manifest, a project that cargo reads under that name and compiles for the browser against the library. Where anything at all is already there (hidden files and links included) it reports failure and leaves everything as it was. Nothing outside the destination is changed in any case.",
  ["inputs", "environments"], "every name, destination and state of the surroundings",
  "no test runs the command",
  [C+"new", C+"main.rs"], [("project creation", C+"new/mod.rs")])
p("C31", "In the browser the application takes over the page it was served, once and whole",
  "A page served by the server and opened in a browser starts the module it names exactly once, however the page gets loaded (with or without a load event, a slow module, named twice). The served document stays untouched until the cached loads (LazyCache) of the application's first view have been answered, for ever if one never is; with none it is replaced at the start. Then the application's own view replaces all of it in one step: no node of the served page remains, the document is the one the application declares for that address, environment and state of the loads (the same page the server declared), and no intermediate loading state of those loads is ever shown. Its handlers then work.",
  ["inputs", "schedules"], "every page, every set of loads and order, delay and failure of their answers, every way the module may load",
  "no test runs the driver script on a served page",
  [V+"driver_module/dom.rs", V+"lib.rs", J+"index.ts", J+"api_browser/dom/dom.ts", V+"driver_module/api/api_import.rs", V+"fetch/lazy_cache.rs", C+"serve/response_state.rs"],
  [("holding back of the first update", V+"driver_module/dom.rs StateInitiation"), ("clearing of the served page", J+"api_browser/dom/dom.ts get_to_clear"), ("start of the module", J+"index.ts")])
p("C32", "The application is told what its host is, and what it says arrives there",
  "In the browser and on the server alike: the current time is the host's clock; moments taken from it compare, shift, expire and measure the time passed in whole milliseconds (never negative, also when the clock is set back or the moment lies ahead); the time zone is the host's, in seconds (UTC on the server); variables given to the server are read with their last value, absent ones as absent; the application knows whether it runs in a browser. Random numbers lie between the given bounds (both included, for all of u32) and every one of them comes out, random elements are elements of the list, every one comes out, and none of an empty list. Every message logged at debug level and above appears exactly once, in order, whole and at its level, wherever it was logged from, and a panic's message is shown. Members of the page read or called by name through the macros are those members, with the given arguments.",
  ["inputs", "environments"], "every host clock, time zone, random draw, set of variables, message and argument",
  "the unit tests run without a host",
  [V+"driver_module/driver.rs", V+"driver_module/api/api_import.rs", V+"driver_module/init_env.rs", V+"instant.rs", J+"api_browser.ts", C+"serve/wasm/decode_commands.rs", C+"serve/wasm/wasm_instance.rs", "crates/vertigo-macro/src/api_access.rs"],
  [("host facts", V+"driver_module/api/api_import.rs"), ("server's answers", C+"serve/wasm/decode_commands.rs"), ("logger", V+"driver_module/init_env.rs"), ("access macros", "crates/vertigo-macro/src/api_access.rs")])
p("C33", "The debugging fragment of a recording is the page, and its text is that tree",
  "Recording starts with log_start, holds every update since and is given out once. The fragment made of a recording that began before the view was built is exactly the page after any history of changes: every node that is still there and no other, in order, with its name, text, attributes and handlers as they are now; a class that stands for a style block is shown as the declarations of that block, of the current class only. Its pseudo-HTML shows that whole tree, from its one root (the html element for a whole page), and is the same for the same updates.",
  ["histories", "programs"], "every view and every history of changes recorded",
  "three static fragments with at most one attribute are compared; nothing changes after the start",
  [V+"inspect.rs", V+"driver_module/dom.rs"],
  [("replay of the recorded updates", V+"inspect.rs from_cmds"), ("record next to the outgoing updates", V+"driver_module/dom.rs Commands")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
