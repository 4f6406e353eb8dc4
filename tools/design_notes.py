# exec'ed by mkdesign.py: per property (oracle, what simulation adds)

MISSED = {}          # planted bugs no check catches: name -> remark
ALSO = {}            # planted bugs other checks catch too: name -> their ids

NOTES = {
 "C01": ("The buffer of the simulated machine: each record knows its kind, stamp, task, CPU and fields. Tables are compared with it cell by cell, "
         "in both directions (nothing missing, nothing else). A field is expected with the value the documented casting gives its text.",
         "The machine produces neighbours, arrays of changing length, lost-event markers and foreign lines in orders nobody wrote down, and the stream is cut at every size of read."),
 "C02": ("The machine's stamps in buffer order: times unique over all tables; ordered as the file wherever stamps do not step back; each within half the "
         "stamp's resolution of its stamp; equal in a load of a subset and in a cached load.",
         "Ties come in bursts across event types and near large bases, which is where the floating-point shifts run out."),
 "C03": ("A cache-less load of the same bytes with the same arguments and registrations by a pristine copy of the state: values, dtypes, column order, index, metadata must be equal.",
         "The failing states need histories: a class cached by one load, another registered later, files removed, then a third load."),
 "C04": ("A cache-less first-time load of the same bytes, for every load after the strike; bytes of the trace.",
         "Strikes are placed at the operations and lines of the very load (counted in an undisturbed dry run), including inside a write and with un-synced files surviving in part."),
 "C05": ("A cache-less load; a load may not raise on account of its cache, whatever state it is in.",
         "20 errnos at each operation and nine kinds of damage, combined with what earlier loads cached."),
 "C06": ("A cache-less solo load, for each load of each loader and for one after all ended.",
         "The scheduler switches at single system calls (processes) or lines (threads); a lost race needs two or three switches at the right places."),
 "C07": ("A cache-less load of the bytes in place during the load. Loads that a change hits are only required to harm nobody later.",
         "Equal sizes, preserved or reversed modification times, replaced links and a change in the middle of a load are combined."),
 "C08": ("Either an exception, or exactly the healthy table; afterwards no temporary file is left, and a healthy load equals the reference.",
         "Faults strike each operation on the trace, the pipe and the temporary file, followed by healthy loads that would expose a cached half."),
 "C09": ("A list of allowed paths (the trace's own cache directory, temporary files made by this load), checked at each mutating call before it happens, and a digest of the whole tree at the end.",
         "Neighbours, links and awkward names meet storage faults and crashes - cleaning up is when a wrong path is removed."),
 "C10": ("The order of the buffer restricted to the types of the pass: each callback receives the events of its type, with the fields, once, in that order, up to where the pass was stopped.",
         "Passes are stopped, nested and interleaved, on tables from the cache, with windows and tying clocks."),
 "C11": ("A model of the registry: scope -> (name, word, implementation), which predicts tables per load and, from the words of each line, which events each table holds; or that words clash.",
         "Failing loads between registrations leave the registries half-way, which no single test reaches."),
 "C12": ("The same analysis alone on a fresh load (canonical form of tables, figures, HTML); digests of trace, arguments and rcParams before and after.",
         "Pairs and triples of thirty analyses, with interrupts at lines and threads switched at lines: sharing by reference shows only in combination."),
 "C13": ("An object without that history answering the same call; for plain signals and triggers the traced values themselves.",
         "An interrupt at a line between two updates of an object's state is the only way into many of its wrong states."),
 "C14": ("The bytes of the sources. After an install that returned, and at each step after it, every script is exactly its source; a later undisturbed install succeeds without network if nothing is missing.",
         "Every transfer mode is cut at every place, notebooks overlap at file operations, the power goes between write and rename."),
 "C15": ("What plain nbconvert makes of the notebook after a model of ten lines removed what is marked and inlined each script once.",
         "The exporter keeps state between exports, and failing reads leave that state half-way."),
 "C16": ("The contents given to the simulated files (old or new, if a rewrite happens during the read).",
         "Each system call of a read can fail or meet a rewrite; the check knows which calls the read made."),
 "C17": ("A model of the page: samples of each line at their stamps and order, straightness between, options, titles, lanes; ids and groups unique over the session. Pages are read with html.parser as a browser would.",
         "Sessions with dropped figures whose addresses are used again, interrupts, threads and kernel restarts; series with different stamps; any text as name."),
 "C18": ("Declarative pairing of recorded switches per CPU and task; an interval is shown iff recorded switches open and close it without contradiction.",
         "The simulated scheduler with per-CPU losses produces the interleavings of events that break the state machine of open intervals."),
 "C19": ("A model of axes, series, colours and legend; the saved file against the bytes matplotlib makes of an undisturbed figure.",
         "Series that lack pivots of others, interrupts while drawing, disks that fail while saving."),
 "C20": ("For each axis and line: the last value a record of that actor had at each stamp, from the machine's own log; histograms from the same values.",
         "Actors report at different times and lose events; several runs of different shape go into one figure."),
 "C21": ("An evaluator over (signal -> last traced value at each stamp of the union), with numpy semantics, written apart from trappy's grammar.",
         "Expressions come in sequences, with broken and interrupted ones between, on signals with lost events and ties."),
 "C22": ("Counting of recorded events by filter, pivot, level; for correlation, a model of the alignment and of the coefficient, and the metamorphic fact that a copy correlates fully.",
         "Two machines with different start, end and sampling record one behaviour; questions are interrupted and repeated."),
 "C23": ("The machine's records whose stamp lies in the window (closed intervals, end points on stamps), base, end, duration.",
         "Window ends come from tables of earlier loads of a trace with tying and large stamps: where rounding bites."),
 "C24": ("After each step, from the data of the plot and the axis now shown: position, width, lane and colour of every drawn interval; brush, summary, marks, tooltip; the window the user's gestures define.",
         "Gestures overlap with animations, late scripts and cells that are cleared: an event-driven program has to be right in every order."),
 "C25": ("After each step, from the data: samples of each plot in order, width, window; the windows of a group; nothing else moves.",
         "As C24; joining a group while another plot is zoomed is an interleaving nobody clicks through in a test."),
}
