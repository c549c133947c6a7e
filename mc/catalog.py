"""The properties: text, anchors, and how each check is registered.
gen.py writes properties.jsonl and MANIFEST.json from this file."""

PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, technique, note, threads=False, observe=(), assumptions=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note, threads=threads, observe=list(observe), assumptions=list(assumptions), state=list(state)))


SEARCH = "explicit-state model checking of the real objects (breadth-first over all operation histories, object-graph state merging) against a reference model"
THREADS = "stateless model checking of the real threads (controlled scheduler, all interleavings up to a deviation bound)"
CHOICES = "exhaustive enumeration of all behaviours of a bounded one-step system against an independent oracle"

P("C01", "Event delivery order and liveness of listeners",
  "Firing an event calls every listener that was registered before the firing began and is neither closed nor released, exactly once, in registration order, with exactly the arguments given, even when listeners register, close, release or fire re-entrantly during the firing; a listener that raises may only end the firing. "
  "A listener whose token has been closed, or whose owner object is gone, is never called again, not even by a firing already in progress; a released token is not called by later firings. "
  "Firing 'any' stops at and reports the first true result and otherwise reports false, firing 'all' stops at and reports the first false result and otherwise reports true (closed listeners have no vote), and an exception raised by a listener never reaches the code that fires.",
  ["histories", "inputs"], "every history of listen / close / release / owner-death / fire operations, every re-entrant action of a listener during a firing, every owner",
  "tests fire once with one or two passive listeners; they do not combine re-entrant registration, closing and release within a firing, or closed listeners in any/all voting",
  ["nion/utils/Event.py"], [{"name": "weak listener list copied under the mutex when a firing starts", "where": "nion/utils/Event.py: Event.fire/fire_any/fire_all"}, {"name": "token close replaces the call; owner weak reference closes the token", "where": "nion/utils/Event.py: EventListener.close, Event.listen"}],
  SEARCH, "All histories up to the stated depth with three listener slots, over all combinations of listener behaviours in the alphabet, are executed on the real Event.")

P("C02", "Events under concurrent listen, close and fire",
  "When several threads register, close, release and fire on the same event, no registration is lost or duplicated, nothing deadlocks and no thread sees an exception. "
  "A listener registered before a firing begins and kept until it ends is called exactly once by it, and a listener closed before a firing begins is not called by it.",
  ["schedules"], "every interleaving of two or three threads listening, closing, releasing and firing",
  "the tests are single threaded for events",
  ["nion/utils/Event.py"], [{"name": "listener list mutex", "where": "nion/utils/Event.py: Event.listen, remove_listener, fire"}],
  THREADS, "All interleavings with up to the stated number of preemptions at line and lock granularity.", threads=True,
  assumptions=["CPython with the GIL: individual bytecodes are atomic; scheduling points before every executed line of nion.utils and every lock operation"])

P("C03", "List model notifications describe every change exactly",
  "For plain, filtered, mapped, flattened and array models and for list bindings, a client that only applies the inserted/removed notifications it receives (value and index) always holds exactly the current content of the model, and each notification carries the value that really is at that index. "
  "Every end-of-changes signal closes exactly one earlier begin-of-changes signal, and the changes of a filtered model, and of a mapped model on top of one, are delivered between such a pair.",
  ["histories", "configurations"], "every sequence of insert, remove, whole-list assignment, item content change, filter/sort change, batching and container switch, for every chain of models",
  "tests check final contents after a handful of edits; they never replay the notification stream or check it against content at the moment of delivery",
  ["nion/utils/ListModel.py", "nion/utils/Observable.py", "nion/utils/StructuredModel.py", "nion/utils/Binding.py"],
  [{"name": "item inserted / removed notifications of each model", "where": "nion/utils/ListModel.py: ListModel.insert_item/remove_item, FilteredListModel.__update_items, MappedListModel, FlattenedListModel"}, {"name": "begin/end changes counters", "where": "nion/utils/ListModel.py: begin_changes_event/end_changes_event"}],
  SEARCH, "Every history up to the stated depth over all chain configurations; the mirror client is compared at every single notification.")

P("C04", "A filtered list is exactly the filtered, ordered source",
  "Outside a batch of changes, a filtered list contains exactly the items of its source that pass the current filter, in source order when there is no sort key, otherwise ordered by the sort key (reversed when asked, equal keys never losing or duplicating items), after any history of inserts, removals, item content changes, filter and sort changes and container switches, and after it is told that its filter or key judges items differently. "
  "While a batch of changes is open the list does not change, and when the outermost batch ends it is up to date.",
  ["histories", "configurations"], "every history of source edits, item content changes, filter/sort/reverse/container changes and nested batches, for every filter and sort key in the alphabet",
  "tests sample a few inserts with one sort key; incremental and full-rebuild paths are only compared on lucky inputs",
  ["nion/utils/ListModel.py"], [{"name": "incremental and full update of the filtered items", "where": "nion/utils/ListModel.py: FilteredListModel.__update_items / __inserted_master_item / __removed_master_item"}, {"name": "change level", "where": "nion/utils/ListModel.py: FilteredListModel.begin_change/end_change"}],
  SEARCH, "All histories up to the stated depth against sorted(filter(source)); item hash order is part of the enumeration.")

P("C05", "Mapped and flattened lists mirror their sources",
  "A mapped list always holds, in source order, the mapping of each source item; each inserted item is mapped exactly once and each removed item is unmapped exactly once, receiving the very object the mapping produced for it. "
  "A flattened list always holds the concatenation of the children of every container in order, whatever sequence of container and child edits led there.",
  ["histories", "configurations"], "every sequence of container and child inserts/removals/assignments",
  "tests exercise one insertion or removal at a time on two fixed containers",
  ["nion/utils/ListModel.py"], [{"name": "index arithmetic of master and child items", "where": "nion/utils/ListModel.py: MappedListModel, FlattenedListModel"}],
  SEARCH, "All histories up to the stated depth, against the comprehension over the source.")

P("C06", "Index selection honours its style, anchor and change signal",
  "An index selection contains exactly the indexes that the sequence of select, add, remove, toggle, extend, clear, insert-index and remove-index operations denotes; in the single and single-or-none styles it never holds more than one index, and clearing the single style selects index 0. "
  "When it has an anchor, the anchor is a selected index, an empty selection has no anchor, and extending (in multiple style) adds the whole contiguous range from the anchor to the given index and keeps the anchor. "
  "An operation that selects or deselects signals a change exactly when it changes the set of selected indexes, when indexes and anchor already are the new ones. Two selections are equal exactly when their indexes and anchors are.",
  ["histories", "configurations"], "every operation sequence over small index domains, each style",
  "tests check a few two-step sequences",
  ["nion/utils/Selection.py"], [{"name": "index set, anchor and style handling", "where": "nion/utils/Selection.py: IndexedSelection"}],
  SEARCH, "All histories up to the stated depth on indexes 0..3, for each style.")

P("C07", "Selections attached to list models follow the items",
  "When items are inserted into or removed from the source of a mapped, flattened or filtered list (outside a batch of changes), every index selection made with or given to that list, until it is released, keeps pointing at the same items: remaining selected items stay selected at their new positions, removed items leave the selection, and unselected items never become selected.",
  ["histories", "configurations"], "every initial selection and every insertion/removal in the source, for every derived model",
  "tests check one selection and one edit",
  ["nion/utils/ListModel.py", "nion/utils/Selection.py"], [{"name": "selection index shifting on insert/remove", "where": "nion/utils/ListModel.py: *.make_selection and item inserted/removed handlers; nion/utils/Selection.py: insert_index/remove_index"}],
  SEARCH, "All histories up to the stated depth; the selected items are compared by identity before and after.")

P("C08", "Bindings keep both ends in agreement",
  "After any history of source changes, a binding's target-side value is the converted source value, or the fallback when the source value is None, and every value delivered to the target setter equals that value at the time of delivery. "
  "Setting the target side stores exactly the back-converted (and validated) value in the bound property, attribute or tuple element and nothing else, each change signalled by the source is delivered exactly once, and after close nothing is delivered and nothing is stored. "
  "Setting a property model to an equal value signals nothing; a different value signals exactly once, with the new value in place.",
  ["histories", "configurations"], "every sequence of source edits, target updates, suspensions, converter/validator/fallback combinations",
  "tests use one converter and one or two updates per binding kind",
  ["nion/utils/Binding.py", "nion/utils/Model.py", "nion/utils/Converter.py", "nion/utils/Validator.py"], [{"name": "source/target update, suspension and fallback", "where": "nion/utils/Binding.py: Binding"}, {"name": "property model equality check", "where": "nion/utils/Model.py: PropertyModel.value"}],
  SEARCH, "All histories up to the stated depth for every binding kind and converter/validator/fallback combination.")

P("C09", "Converters round-trip and validators stay in range",
  "Converting a value to its display form and back yields the original value: to the format's precision for floats and physical values, exactly for integers, whole percents, steps of a scaled integer, check states, naive dates, version 4 uuids, paths, and None where None is passed. Scaled integers and percents go to the nearest step; fuzzy float text reads as the number it starts with (decimal point or comma) or 0, strict float text as the number it is or is refused, displayed floats read back in locales with a decimal comma too, and text that is no uuid or date converts back to None, in no case raising. "
  "The range validator always returns a value inside its range and leaves values inside it unchanged.",
  ["inputs", "configurations"], "every value of bounded but densely enumerated domains, every converter configuration",
  "tests check a handful of sample values",
  ["nion/utils/Converter.py", "nion/utils/Validator.py"], [{"name": "convert / convert_back pairs", "where": "nion/utils/Converter.py"}],
  CHOICES, "Complete enumeration of the stated value grids; values between grid points are not covered.")

P("C10", "Streams are always consistent with their inputs",
  "After each change of an input has been delivered, the value of every mapped, combined, constant, property-based or concatenated stream built on it, and of every property model made from such a stream, is the function of the current inputs; every signal a stream sends carries its own value at that moment, and whenever its value changes it signals, the last signal being the final value. "
  "A stream takes exactly one reference on each input it uses, gives it back exactly once when its own last reference is dropped (or when a concatenated input is replaced), and after that signals nothing more.",
  ["histories", "configurations"], "every history of input changes, source switches, reference acquisitions and releases over all small stream graphs",
  "tests change one input of one stream kind at a time",
  ["nion/utils/Stream.py", "nion/utils/Model.py", "nion/utils/ReferenceCounting.py"], [{"name": "value propagation and input references", "where": "nion/utils/Stream.py: ValueStream, MapStream, CombineLatestStream, ConcatStream, PropertyChangedEventStream"}],
  SEARCH, "All histories up to the stated depth over the listed stream graphs.")

P("C11", "Debounce and sample streams lose nothing and keep their rate",
  "A debounced stream signals at most once per period, always with its input's value at that moment, and a signal follows within one period after every change, so its last signal is the input's last value. "
  "A sampled stream signals only on its sampling ticks, only when the input changed since the last tick or on the first one, never with a value its input did not have, and always with the input's latest value at the tick, also when the input changes during a signal or from another thread. "
  "After close or loss of the last reference neither signals again and no timer task is left pending.",
  ["schedules", "histories"], "every ordering of input changes, re-entrant input changes, clock ticks and closing",
  "tests use real sleeps and one or two input values",
  ["nion/utils/Stream.py"], [{"name": "debounce task, sample loop, pending value and dirty flag", "where": "nion/utils/Stream.py: DebounceStream, SampleStream"}],
  "exhaustive enumeration of all event orderings on a virtual-time event loop running the real code", "All sequences of input changes, time steps and closes up to the stated length on a virtual clock.", threads=True)

P("C12", "An asynchronously evaluated model ends at the newest input",
  "A model evaluated in the background ends up, once all evaluations have finished, holding the evaluation of the most recent input whose evaluation succeeded, no matter in which order the evaluations finish or which of them fail. "
  "It never goes back from the result of a newer input to that of an older one, and every change of its value is signalled.",
  ["schedules", "fault_sequences"], "every order of input changes, evaluation starts, completions and failures",
  "the test waits for a single evaluation at a time",
  ["nion/utils/Model.py"], [{"name": "evaluation task and pending state", "where": "nion/utils/Model.py: FuncStreamValueModel"}],
  "exhaustive enumeration of all completion orders on a virtual event loop running the real code", "All orders of up to the stated number of inputs, completions and failures.")

P("C13", "Stored representation of a persistent object is always complete",
  "After any history of property, item and relationship edits anywhere in a persistent object tree, edits made by the callbacks of other edits included, the stored form that a storage maintains only from the notifications of the context (set, clear, insert, remove under the declared storage keys) equals what writing the whole tree out from scratch produces. "
  "Reading that form into fresh objects gives a tree with equal values, uuids, items, order and parents, also for properties with converters, makers, custom readers or writers and storage keys, and writing it again gives the same form (a None value counts as no value); a modification time found in the form is restored, and every object of the tree is told once that reading begins and once that it is finished. "
  "The form given to be read is left unchanged, and objects and forms never share mutable content.",
  ["histories", "crash_points"], "every history of property, item and list edits at every depth of the tree, stopping after any edit",
  "tests compare a few edits against write_to_dict; none exercises storage keys, replaced items or nested updates together",
  ["nion/utils/Persistence.py"], [{"name": "property_changed/clear_property/insert_item/remove_item to the persistent storage", "where": "nion/utils/Persistence.py: PersistentObject, PersistentObjectContext"}, {"name": "write_to_dict / read_from_dict", "where": "nion/utils/Persistence.py: PersistentObject"}],
  SEARCH, "All histories up to the stated depth; after every edit the store is compared with a full write and with a read-back into fresh objects.")

P("C14", "Persistent context tracks exactly the objects in it",
  "An object has a persistent context, is registered with it and is found in it by its uuid exactly while it is in a tree whose root has that context; every registration and unregistration is signalled exactly once, and the object is told of the change when it is in place. "
  "A subscription to a uuid calls its registered function once, at once if the object is present and otherwise when it appears, calls its unregistered function once when the object goes away, and is over then, also when such a function subscribes again. "
  "Removed and replaced objects lose context and parent, with everything below them losing the context, and requests made through the context for any object in the tree reach the storage of its root unchanged, the properties given out being a copy.",
  ["histories"], "every history of attach, detach, replace, context set, subscribe and unsubscribe",
  "tests register at most two objects and subscribe once",
  ["nion/utils/Persistence.py"], [{"name": "register / unregister / subscribe", "where": "nion/utils/Persistence.py: PersistentObjectContext"}, {"name": "context propagation", "where": "nion/utils/Persistence.py: PersistentObject.persistent_object_context_changed"}],
  SEARCH, "All histories up to the stated depth.")

P("C15", "Persistent properties, items and copies behave as declared",
  "A persistent property returns the value last set, passed through its validator or, without one, isolated from later mutation of the caller's object (and of the object given out, when declared copy-on-read); read-only properties cannot be set and hidden ones not seen from outside, and lists given out are the caller's own. "
  "Every edit calls the callback declared for it exactly once, when the edit is in place, with the right name, index and values, advances the modification count and state of the edited object and of each of its ancestors by exactly one and gives them all the same new modification time, and touches no other object. "
  "An object has exactly the type, properties, items and relationships that were defined on it and not taken back. A deep copy has equal content, new uuids, no context and shares no nested object with the original, and edits of one never show in the other.",
  ["histories", "inputs", "configurations"], "every edit history over every property declaration",
  "tests check one declaration per feature, one edit each",
  ["nion/utils/Persistence.py"], [{"name": "PersistentProperty / PersistentItem / PersistentRelationship", "where": "nion/utils/Persistence.py"}, {"name": "modified propagation", "where": "nion/utils/Persistence.py: PersistentObject._set_modified / property_changed"}],
  SEARCH, "All histories up to the stated depth, over all combinations of declared features.")

P("C16", "Structured models hold, export, import and copy their values",
  "A structured model built from any schema of fields (strings, booleans, integers, floats), records and arrays holds the values it was given, falling back to defaults only where none was given, through every accessor and after any history of edits, and exports them as plain data; importing that data into a fresh model of the same schema, or building one from it, reproduces them, and importing complete data into any model leaves exactly that data. "
  "A deep copy, and a model copied from another, is equal to the original and independent of it; the schema and the data given or exported are never changed by, nor shared with, a model.",
  ["programs", "inputs", "histories"], "every schema up to a depth over fields, records and arrays, every small value, every edit history",
  "tests use one or two schemas, no defaults combined with values, no scalar arrays export",
  ["nion/utils/StructuredModel.py"], [{"name": "build_model / to_dict_value / from_dict_value / deepcopy", "where": "nion/utils/StructuredModel.py"}],
  SEARCH, "All schemas of the stated size with all values from a small alphabet, all edit histories up to the stated depth.")

P("C17", "Structured models signal every change, at every level, once",
  "Every change of a field or of array membership anywhere in a structured model signals exactly one model change at the changed field or array and at each enclosing model, plus exactly one property or item signal, with the field name, value and position, at the changed place and at the record holding it, all of them when the change is in place; assigning an equal value signals nothing. "
  "Importing data signals at every enclosing model if and only if something differs, and the item signals of an array always describe its content. "
  "Elements that have been removed no longer signal through the model, elements put back do so again, and a closed model forwards nothing.",
  ["histories", "programs"], "every edit history on nested records and arrays",
  "tests check one change at one level",
  ["nion/utils/StructuredModel.py"], [{"name": "model changed event forwarding and array listeners", "where": "nion/utils/StructuredModel.py: RecordModel, ArrayModel"}],
  SEARCH, "All histories up to the stated depth, counting signals at each level.")

P("C18", "Reference counting: last release disposes exactly once",
  "Under any interleaving of acquiring and releasing references, the disposal hook runs exactly once, at the moment the last reference is released, and never while a reference is held, also when the hook itself takes and gives back a reference or fails; the count always equals acquisitions minus releases, a release without a reference being refused.",
  ["schedules"], "every interleaving of two or three threads acquiring and releasing, at bytecode granularity",
  "tests are single threaded",
  ["nion/utils/ReferenceCounting.py"], [{"name": "count mutex and active flag", "where": "nion/utils/ReferenceCounting.py"}],
  THREADS, "All interleavings up to the bound at bytecode granularity.", threads=True,
  assumptions=["CPython with the GIL: individual bytecodes are atomic"])

P("C19", "A promise evaluates once and everyone sees the same value",
  "However many threads ask for a promise's value, its function is evaluated exactly once and every caller receives that one value; the non-evaluating access never triggers the evaluation and returns either nothing or that value. "
  "If the evaluation fails the caller sees the failure and a later request evaluates again.",
  ["schedules", "fault_sequences"], "every interleaving of two or three requesters, with failing first evaluations",
  "tests have one thread",
  ["nion/utils/Promise.py"], [{"name": "evaluation under the lock", "where": "nion/utils/Promise.py: Promise.value"}],
  THREADS, "All interleavings up to the bound at bytecode granularity.", threads=True,
  assumptions=["CPython with the GIL: individual bytecodes are atomic"])

P("C20", "Task queues and task sets run what was put, in order, once",
  "Every task put into a task queue is executed exactly once by the perform calls, in the order put, a perform call executing at least the tasks that were queued when it began, and no task is lost or executed twice when several threads put and perform at the same time or when a task raises. "
  "A task set executes, at the next perform call, exactly the last task added under each key that has not been cleared since; tasks added while performing are kept for a later call.",
  ["schedules", "histories"], "every interleaving of putting and performing threads and every put/perform history",
  "tests never exercise the queue",
  ["nion/utils/Process.py"], [{"name": "TaskQueue.perform_tasks / TaskSet", "where": "nion/utils/Process.py"}],
  THREADS, "All interleavings up to the bound; all sequential histories up to the stated depth.", threads=True)

P("C21", "Thread pool runs every queued call once and closes cleanly",
  "A call queued on a thread pool is executed at most once, and exactly once when the pool is not closed before the call starts; with a single worker calls run in the order queued, and calls that raise or queue further calls do not disturb the others. "
  "Closing waits for calls in progress, drops those not started, never deadlocks and lets every worker thread end, and once it has returned no queued call starts any more.",
  ["schedules"], "every interleaving of queueing, workers and close",
  "tests run one happy path with real threads",
  ["nion/utils/ThreadPool.py"], [{"name": "queue, worker threads and close", "where": "nion/utils/ThreadPool.py: ThreadPool"}],
  THREADS, "All interleavings up to the bound.", threads=True)

P("C22", "Thread dispatcher: every trigger is served, none hangs",
  "Every trigger of a running dispatcher is followed by an invocation of the function that begins after the trigger unless the dispatcher is closed first, invocations never overlap and start no sooner than the minimum interval after the previous one ended. "
  "A waiting trigger always returns, also when the function raises, when several threads wait, or when the dispatcher is closed meanwhile, and a failing function does not stop the dispatcher. "
  "Once close has returned the function is not invoked again.",
  ["schedules", "fault_sequences"], "every interleaving of triggering threads, the dispatcher thread, timeouts, failures and close",
  "tests trigger once and sleep",
  ["nion/utils/ThreadPool.py"], [{"name": "trigger / wait events and dispatcher loop", "where": "nion/utils/ThreadPool.py: ThreadDispatcher"}],
  THREADS, "All interleavings up to the bound on a virtual clock.", threads=True)

P("C23", "The component registry reflects registrations exactly",
  "A component is found under exactly the types it is currently registered for, lookups return the component with the highest priority (50 when it declares none), and each registration and unregistration is signalled exactly once, when it is already visible, with the component and the types concerned. "
  "Registering a component for a type it already has, or unregistering one for a type it does not have, is refused and changes and signals nothing; asking for existing components signals each of them exactly once, also when a listener registers others meanwhile.",
  ["histories"], "every history of register, re-register, unregister and lookups, with listeners that themselves register",
  "tests register one component",
  ["nion/utils/Registry.py"], [{"name": "type and priority tables", "where": "nion/utils/Registry.py: ComponentManager"}],
  SEARCH, "All histories up to the stated depth with three components and two types.")

P("C24", "A recorder's log replays to the same state",
  "Applying the log recorded while an object was edited to an object that started equal gives it the state of the edited object, at the time of recording as well as after any number of further edits, for edits of recordable properties, single items (hidden ones included) and lists at any depth, including objects inserted, moved or replaced while recording. "
  "Applying the log never affects the recorded object, shares nothing with it, and can be repeated with the same result; edits of objects outside the recorded tree, of non-recordable properties, and edits after the recorder is closed are not replayed.",
  ["histories"], "every edit history at every depth of the tree",
  "tests record one or two edits",
  ["nion/utils/Recorder.py"], [{"name": "recording listeners and accessors", "where": "nion/utils/Recorder.py"}],
  SEARCH, "All histories up to the stated depth; the log is applied after every step to a fresh equal object.")

P("C25", "Closing an event loop finishes everything first",
  "Closing an event loop always terminates when its tasks do, runs the callbacks that were ready and every task that was pending or that those callbacks start to its end, whatever order they finish in and whichever of them fail or are cancelled, including tasks waiting for background jobs. "
  "Afterwards the loop is closed, its default executor has been shut down with all of its jobs finished, and no failure of a task has reached the caller.",
  ["schedules", "programs"], "every small set of tasks, timers, cancellations and executor jobs pending at close",
  "tests close idle loops",
  ["nion/utils/Process.py"], [{"name": "drain, cancel, shutdown sequence", "where": "nion/utils/Process.py: close_event_loop"}],
  "exhaustive enumeration of pending-work configurations on a virtual event loop running the real code", "All combinations of the listed task kinds up to the stated number.")

P("C26", "Geometry of points, sizes and rectangles is coherent",
  "Points, sizes and rectangles satisfy their algebra: every constructor, accessor, index, conversion and operator agrees with the components, translation and rotation do what they say and undo each other, and equality agrees with the components. "
  "For rectangles of non-negative size, edges, corners and centre agree, containment includes the top and left edges only, two rectangles intersect when they overlap or touch, and then their intersection is the greatest common and always their union the least enclosing rectangle; insetting, moving and making from a centre keep the size or edges they should. "
  "Mapping between non-empty rectangles takes corners to corners and back, and fitting gives the largest centred rectangle of the asked aspect ratio inside the bounds.",
  ["inputs"], "every point, size and rectangle on small integer and binary-fraction grids",
  "tests check a few hand-picked values",
  ["nion/utils/Geometry.py"], [{"name": "IntPoint/FloatPoint/IntSize/FloatSize/IntRect/FloatRect and helpers", "where": "nion/utils/Geometry.py"}],
  CHOICES, "Complete enumeration of the stated grids; values off the grid are not covered.")

P("C27", "Axis tickers label every range sensibly",
  "For every finite range wide enough to be resolved, a linear ticker yields evenly spaced ticks at multiples of 1, 2 or 5 times a power of ten that cover the range and exceed it by less than one step, about as many as asked, and a logarithmic ticker yields increasing ticks covering the range, its major ticks evenly spaced, its minor ticks at whole multiples of the power below, with limits that include the range. "
  "There is one label per tick, also when an end is infinite or undefined; labels are distinct (logarithmic: for bases 2 and 10) and read back as the tick's value to the label's precision. "
  "Rounding to a pretty number gives 1, 2 or 5 times a power of ten of the same sign, within a factor of 5/3 when rounding to nearest, otherwise not below and at most 2.5 times the magnitude.",
  ["inputs"], "every pair of endpoints on a dense grid across many magnitudes",
  "tests check a few ranges",
  ["nion/utils/Geometry.py"], [{"name": "make_pretty, make_pretty_range, Ticker classes", "where": "nion/utils/Geometry.py"}],
  CHOICES, "Complete enumeration of the stated grid of ranges.")

P("C28", "Filtered lists stay correct under concurrent edits",
  "When one thread edits the source of a filtered list while another changes its filter, sort or batches, nothing deadlocks or raises, and once both are done the filtered list is exactly the filtered, ordered source, as is every mapped or filtered list built on it. "
  "A thread reading the items of the filtered list meanwhile always gets its content as it was before or after one of those changes, never something in between.",
  ["schedules"], "every interleaving of an editing thread, a reconfiguring thread and a reading thread",
  "tests are single threaded",
  ["nion/utils/ListModel.py"], [{"name": "update mutex and change level", "where": "nion/utils/ListModel.py: FilteredListModel"}],
  THREADS, "All interleavings up to the bound.", threads=True)

P("C29", "Filters compose and copy faithfully",
  "And/Or/Not/text/predicate filters accept exactly the items their meaning says, for every nesting, and a deep copy of a filter accepts exactly the same items and is independent of the original.",
  ["programs", "inputs"], "every filter expression up to a depth, every item of a small alphabet",
  "tests use each filter once, never a copy",
  ["nion/utils/ListModel.py"], [{"name": "Filter classes", "where": "nion/utils/ListModel.py: Filter, AndFilter, OrFilter, NotFilter, TextFilter, ..."}],
  CHOICES, "All filter expressions up to the stated depth on all items of the alphabet.")

P("C30", "Observable objects tell exactly what happened",
  "Each notification made on an observable object - property changed, item set, cleared, inserted, removed, added to or discarded from a set, content changed - is signalled exactly once by the one event of that kind of that very object, with exactly the key, value and position given, whatever kind of model the object is, and no other event of it or of another object signals.",
  ["histories"], "every history of notifications and of listening and closing, over every kind of observable object",
  "tests only observe the notifications they expect, mostly of two kinds",
  ["nion/utils/Observable.py"], [{"name": "one event per kind of notification", "where": "nion/utils/Observable.py: Observable"}],
  SEARCH, "All histories up to the stated depth with a listener on every event of two objects, for eight kinds of observable objects.")

BY_ID = {p["id"]: p for p in PROPS}
