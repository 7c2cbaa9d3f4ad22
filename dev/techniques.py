TECH = {
 'C01': 'effect traces of Event.fire*/listen: delivery loops, order and argument identity; product-program comparison of bounded client histories with the expected calls',
 'C02': 'typestate of listener (open/closed/gone) and strong-reachability analysis of what the event keeps; product-program comparison of bounded client histories with the expected calls of closed listeners',
 'C03': 'exceptional-path effect analysis: every callback call may raise',
 'C04': 'lockset analysis: inferred guarded fields, lock balance, callbacks outside locks',
 'C05': 'effect traces of every notifier: one fire, own event, arguments in order',
 'C06': 'pairing analysis of list mutations and fires on all paths of every list-owning class (item and index value numbers); product-program comparison of bounded client histories with the expected replay of the notifications',
 'C07': 'value-number and loop-summary analysis of container callbacks: position, membership and filter verdict of each change; product-program comparison of bounded client histories with the expected list',
 'C08': 'dataflow of every index passed to attached selections against the index of the change notified; product-program comparison of bounded client histories with the expected selection',
 'C09': 'path analysis with an abstract index-set domain: anchor membership, style, changed-event obligations',
 'C10': 'nesting-counter analysis: bounds of the counter at each mutation and fire, context-manager probes incl. exceptional exit; product-program comparison of bounded client histories with the expected list and brackets',
 'C11': 'product-program comparison: each filter and its deep copy against a reference definition, joint paths and value numbers',
 'C12': 'product-program comparison of model and stream setters with a reference definition (value, notifications, order)',
 'C13': 'product-program comparison of binding transfers with a reference definition; closed-typestate probes',
 'C14': 'resource-leak analysis: listeners, references and tasks acquired on each path of client code against closes and final strong reachability',
 'C15': 'product-program comparison of each stream with its definition over symbolic inputs and event deliveries; read-after-await dataflow for timed streams',
 'C16': 'typestate of reference count and release latch on all paths; product-program comparison of bounded client histories with the expected count and release',
 'C17': 'typestate of promise, two-step path continuation, lock region analysis',
 'C24': 'abstract interpretation with polynomial/rational normal forms and sign splits: every operation of points, sizes and rectangles against its definition',
 'C25': 'product-program comparison of each converter direction and validator with a reference definition; regular-expression constants by match signature',
 'C23': 'typestate of pool task, queue accounting on all paths incl. exceptional ones; product-program comparison of client histories of queues, pools and dispatchers over source-level models of queue, threading and time',
 'C18': 'product-program comparison: client code writing one persistent object and reading it into another, symbolic values, against the given values',
 'C19': 'product-program comparison of client code over a symbolic persistent context with a reference sequence of context calls; object state and modification counts',
 'C20': 'product-program comparison of client code attaching, detaching, subscribing and storing in object trees with a reference definition',
 'C21': 'product-program comparison of client code with symbolic components and types on a fresh registry with a reference definition',
 'C26': 'product-program comparison of client code changing a tree of observed objects and applying the recorder to a symbolic object with the expected sequence of changes',
 'C29': 'path-sensitive analysis of client code that gives the input values at fixed times, over source-level models of asyncio tasks, sleep and the clock; the values sent and their times are compared with the property; nothing is run',
 'C31': 'product-program comparison of client code that closes an event loop of known content with the order of endings the property names, over a source-level model of asyncio; nothing is run',
 'C27': 'product-program comparison of client code with bounded change histories over symbolic, totally ordered sort keys with the filtered and sorted list expected, and of the replayed notifications with it',
 'C22': 'product-program comparison of client code building, converting, changing and observing models of written out schemas (three levels) with symbolic values against reference definitions',
}
NOTE = {}
