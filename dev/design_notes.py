NOTES = {
'C01': 'Histories: up to three listeners, up to six operations; callbacks that close, listen or fire again.  A callback that raises ends the delivery to later listeners (existing behaviour); only its containment is claimed (C03).',
'C02': 'Dropping a listener without closing it counts as ending it (reference counting semantics).  Death of listener and owner is decided by what the event keeps strongly and by what the weak reference callbacks do, not by modelling the garbage collector.',
'C04': 'Guarded fields are inferred from use under a lock; `FilteredListModel.begin_change` counts outside the lock and the filter setter stores outside it, both before any shared list is touched, and are left.',
'C06': '`ListModel.insert_item` with an index beyond the list reports the index given (left).  Histories: containers of three items, two operations, children for the flattened list.',
'C07': 'Histories of two operations (insertion, removal, move, change of a removed item, foreign keys, replaced or cleared container, children).',
'C08': 'Selections picked at fixed positions of a list of three; two operations.',
'C10': 'Histories: each change inside one and two nested brackets.',
'C12': 'Comparison of old and new value is by the program\'s own comparison; a value whose comparison is not reflexive is out of scope.',
'C14': 'A stream or model that is never closed is out of scope.  Tasks: the loop runs pending tasks to their end in order (`__run__` in clients), interleavings between await points are covered by the read-after-await rule of C15.',
'C15': 'FuncStreamValueModel may notify twice for one change; only that the value follows is checked.  PropertyChangedEventStream keeps the last value when its source becomes None (unspecified).',
'C16': 'Histories of up to six added and removed references.',
'C17': 'has_value is False for a None result (left).',
'C18': 'Object trees of depth three, up to three components and items; write_dict() of a made property is assumed to be a value.',
'C19': 'Order of the removal callback and of the context call is not fixed.',
'C20': 'read_from_dict that changes the uuid of an object within a context leaves the old registration (documented misuse).',
'C22': 'Schemas of three levels with all field kinds; a field with a default set to None reads back as the default (unspecified).',
'C23': 'Scheduling is covered by atomic regions: every access to the queue state is shown to be inside the lock; fairness of threads is not claimed. The histories expand the package together with small source models of queue.Queue, threading.Thread/Event and time (sa/models): threads run one at a time, from where the client lets them or another waits for them until they end or have to wait; a wait nothing can end is a violation ("never returns").',
'C24': 'Real arithmetic: rounding of floating point numbers is not modelled.  IntSize.__floordiv__ only for non-negative sizes and constants; touching rectangles count as intersecting, as in intersect.',
'C25': 'Text is compared structurally (same format, factor, pattern in both directions), not its rounding (C30).  PhysicalValueToStringConverter ignores fuzzy (left).',
'C26': 'Trees of depth three; values and copies are replayed as of the time of apply (unspecified); that an inserted object is deep copied is not checked.',
'C29': 'Fifteen histories of up to four changes and a close placed before, within and after the waiting periods, and seven in which a listener changes the input or closes the stream while a value is sent, for each kind of stream. A task is analysed from its start to its end; what happens while it sleeps is the client\'s script (sa/models/asyncio.py, passing). Timings in between the chosen ones are not enumerated: the code compares no times, so only the order of changes, wake-ups and close matters, and the histories cover the orders of up to three changes per period. Real time, late wake-ups and threads are outside.',
'C31': 'Loops with no, one or two outstanding tasks, failing or not, with and without an executor. The loop is client code; all_tasks and gather are modelled in sa/models/asyncio.py.',
'C27': 'Three items at the start, histories of two changes (28 kinds), three combinations of direction and filter quick, six thorough; keys are symbolic and pairwise different, items of equal key may be in any order.',
}
