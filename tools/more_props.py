# exec'ed by mkmeta.py

prop("C12", "Analysing a trace disturbs neither it, nor other analyses, nor the caller's data",
     "Any analysis of a loaded trace gives what it gives alone on a fresh load, whatever analyses ran before or run at "
     "the same time, failed or were interrupted. None of them changes the trace, what the caller passed in, the "
     "plotters' settings, or what later loads return; editing a result has no effect on the trace.",
     ["histories", "schedules", "fault_sequences"],
     "every history of the analyses on one trace, user functions that raise, interrupts at any line, threads switched at any line",
     "Tests run one analysis on one fresh trace and look at its result, never at what it left behind.",
     ["trappy/ftrace.py", "trappy/thermal.py", "trappy/cpu_power.py", "trappy/utils.py", "trappy/stats/grammar.py",
      "trappy/stats/Trigger.py", "trappy/stats/Aggregator.py", "trappy/stats/Correlator.py", "trappy/plot_utils.py",
      "trappy/plotter/StaticPlot.py", "trappy/plotter/ILinePlot.py", "trappy/plotter/Constraint.py", "trappy/plotter/AttrConf.py"],
     [("tables handed out by reference", "trappy/ftrace.py"), ("in-place fills and index edits", "trappy/stats/grammar.py"),
      ("separating duplicate stamps", "trappy/utils.py"), ("rc settings of the static plotters", "trappy/plotter/StaticPlot.py")],
     ["results of the analyses; the trace's tables; the caller's objects"],
     "histories and interleavings of about thirty analyses on one trace, against the same analysis on a fresh load",
     "pyplot is used from one thread only. Compares with trappy itself on a fresh load; right values are not judged here.")

prop("C13", "An analysis object answers by what it is asked, not by its past",
     "An expression parser, trigger, aggregator, correlator or plot that lives through a session gives, to every call, "
     "what a new one gives: after calls that failed in the user's functions or were interrupted, and after the caller "
     "edited earlier answers. (A parser aligns its answers to the stamps of earlier expressions, as documented.) What a parser gives for "
     "a plain signal and what a trigger generates are the traced values at the traced stamps, never a later or another event's value.",
     ["histories", "fault_sequences"],
     "every order of calls on an object, every line at which one can be interrupted, user functions raising at any call, edits between calls",
     "Tests make one or two successful calls per object on fixed data, and never call again after a failure.",
     ["trappy/stats/grammar.py", "trappy/stats/Trigger.py", "trappy/stats/Aggregator.py", "trappy/stats/Correlator.py",
      "trappy/stats/Indexer.py", "trappy/plotter/StaticPlot.py", "trappy/plotter/ILinePlot.py", "trappy/plotter/ILinePlotGen.py",
      "trappy/plotter/EventPlot.py"],
     [("data the parser keeps between expressions", "trappy/stats/grammar.py"), ("results an aggregator keeps", "trappy/stats/Aggregator.py"),
      ("selection of the events of a trigger", "trappy/stats/Trigger.py"), ("when a plot is drawn and saved", "trappy/plotter/StaticPlot.py")],
     ["return values of solve/ref/inspect, generate, aggregate, correlate; figures; HTML"],
     "histories of calls, interrupts and raising user functions on long-lived analysis objects",
     "Arithmetic of compound expressions and correlations is compared between histories, not against a model.")

prop("C14", "The scripts of an interactive plot are installed whole or not at all",
     "When viewing a plot has installed its scripts, each of them is byte for byte what its source (package or web server) "
     "holds, and stays so while other notebooks install. A network failure raises ImportError; whatever stopped an "
     "install (network, disk, kill, power failure, another notebook), the next undisturbed one succeeds, and what is installed needs no network.",
     ["fault_sequences", "crash_points", "schedules"],
     "every way a download or copy can fail or stop half-way, every interleaving of notebooks that install the same scripts",
     "No test installs the scripts: plots are tested with test=True, and the install needs a network.",
     ["trappy/plotter/IPythonConf.py", "trappy/plotter/EventPlot.py", "trappy/plotter/ILinePlot.py"],
     [("download and copy of scripts", "trappy/plotter/IPythonConf.py")],
     ["IPythonConf.iplot_install; the files below nbextensions/plotter_scripts"],
     "network and disk faults, kills, power cuts and interleavings of installing notebooks",
     "urllib and http.client are real; sockets and servers are simulated. Sources are trimmed copies of the real scripts.")

prop("C15", "An exported notebook holds each of its plots, whatever was exported before",
     "Exporting a notebook with trappy's HTML exporter gives a page with every plot's markup and data, each library "
     "reference and each plot script once and complete, in order, no publishing marker, and every other output as it was: "
     "whatever the exporter exported before, and whatever read failure or interrupt stopped an earlier export. The notebook is not changed.",
     ["histories", "fault_sequences"],
     "every history of exports with one exporter, every read failure or interrupt during an earlier one, every script text",
     "No test covers the exporter.",
     ["trappy/nbexport/exporter.py", "trappy/plotter/EventPlot.py", "trappy/plotter/ILinePlotGen.py"],
     [("what was inlined already", "trappy/nbexport/exporter.py"), ("markers in the markup", "trappy/plotter/ILinePlotGen.py")],
     ["HTML().from_notebook_node"],
     "histories of exports with read faults, interrupts and package upgrades between them",
     "The page is compared with what plain nbconvert makes of a notebook whose outputs were filtered by a model of ten lines.")

prop("C16", "Workload Automation output is read as recorded, in full or with an error",
     "Results, parameters and combinations of results read from Workload Automation's output hold every score and parameter the "
     "files held, with its value, workload, run and number, and nothing else - also while the run rewrites "
     "the files. If anything cannot be listed, opened or read, the reader raises: no partial answer, and no effect on later reads. The charts of a benchmark show its scores.",
     ["fault_sequences", "schedules", "histories"],
     "every file or directory that can fail at every operation, every rewrite between two operations, every set of workloads and runs to combine",
     "Tests read one results file and one dump, all readable; combinations are of equal sets of workloads.",
     ["trappy/wa/results.py", "trappy/wa/sysfs_extractor.py"],
     [("what counts as absent", "trappy/wa/sysfs_extractor.py"), ("runs and numbers of results", "trappy/wa/results.py")],
     ["get_results, combine_results, SysfsExtractor.get_parameters"],
     "read faults, concurrent rewrites and histories of reads of output directories",
     "Of several scores of the same run and number the first recorded counts, as the code has it. Rewrites replace files whole.")

prop("C17", "An interactive figure shows all of its data and shares nothing with others",
     "For any data frames or traces, pivots, filters, windows and styles, and in any session (figures dropped, interrupted, refused, "
     "made by several threads, across kernel restarts), a viewed figure holds every selected sample of every line at "
     "its stamp and value, in time order, and nothing off the lines between samples; titles, lanes and options are those "
     "asked for; its ids and sync group are no other figure's. No name or label breaks the page.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "every set of sample times of several series, every text a task can be called, every reuse of a dropped figure's address, every thread schedule",
     "Tests check one merge of indexes and that plotting does not raise; nobody looks at a page, or at a second figure.",
     ["trappy/plotter/ILinePlot.py", "trappy/plotter/ILinePlotGen.py", "trappy/plotter/EventPlot.py",
      "trappy/plotter/Constraint.py", "trappy/plotter/AbstractDataPlotter.py", "trappy/utils.py"],
     [("merge of series", "trappy/plotter/ILinePlot.py"), ("names and groups of figures", "trappy/plotter/ILinePlotGen.py"),
      ("selection of samples", "trappy/plotter/Constraint.py"), ("page of an event plot", "trappy/plotter/EventPlot.py")],
     ["the HTML that view() displays"],
     "sessions of figures with reused addresses, interrupts, threads, restarts and unreadable style sheets, against a model of the page",
     "What the scripts make of the page in a browser is not judged. After its last sample a line may stay or end.")

prop("C18", "Task residency shows what the traced scheduler did, and nothing else",
     "For any trace of context switches from several CPUs, with events lost anywhere, tasks migrating, renamed or never "
     "switched out, the residency data and plot_trace show each task exactly from a recorded switch to it until the "
     "recorded switch from it on that CPU (or the end of the trace), filtered as asked, on the lane of that CPU. Intervals that "
     "recorded events contradict are dropped with a warning.",
     ["inputs", "fault_sequences"],
     "every schedule of tasks on CPUs, every loss of events from the per-CPU buffers, every rename and migration, every filter",
     "One test with five switches and one lost event.",
     ["trappy/plotter/Utils.py", "trappy/plotter/__init__.py", "trappy/plotter/EventPlot.py", "trappy/sched.py"],
     [("open intervals per task and CPU", "trappy/plotter/Utils.py"), ("lanes of the plot", "trappy/plotter/EventPlot.py")],
     ["get_trace_event_data, plot_trace"],
     "schedules of a simulated multi-CPU machine with lost buffer contents",
     "The reference is a declarative pairing of recorded switches; losses that leave no trace in the recording cannot be seen by either.")

prop("C19", "A static figure draws every series on its own axis under its own legend entry",
     "For any data frames or traces, pivots that some of them lack, filters, concat or permute, and any number of axes per row, a viewed line "
     "or bar plot has one axis per pivot (per trace and pivot, per signal), in order and place, each with exactly its series' samples, title, "
     "limits and colour, and a legend that says which is which. savefig() stores the image of the whole figure or raises, whatever the "
     "disk or an interrupt does, and can be repeated. Arguments, other figures and settings stay as they were.",
     ["histories", "inputs", "fault_sequences"],
     "every set of series that lack some of the others' pivots, every layout, every line at which drawing or saving is interrupted, every write that can fail",
     "Tests draw data whose series all have the same pivots, and look only at whether that raises.",
     ["trappy/plotter/StaticPlot.py", "trappy/plotter/LinePlot.py", "trappy/plotter/BarPlot.py", "trappy/plotter/PlotLayout.py",
      "trappy/plotter/Constraint.py", "trappy/plotter/ColorMap.py"],
     [("series to axes and legend", "trappy/plotter/StaticPlot.py"), ("place of an axis", "trappy/plotter/PlotLayout.py"),
      ("bars", "trappy/plotter/BarPlot.py"), ("selection of samples", "trappy/plotter/Constraint.py")],
     ["LinePlot/BarPlot view() and savefig()"],
     "sessions of figures that are interrupted while drawn and meet a failing disk while saved, against a model of the figure",
     "The figure is judged as matplotlib's objects, and the saved image as the bytes matplotlib makes of an undisturbed one.")

prop("C20", "The summary of runs shows what each run's governor was recorded to do",
     "For any recordings of a machine's thermal governor - clusters of any sizes, any number of actors and zones, with or without GPU, with events, kinds or "
     "clusters lost, parsed or cached - compare_runs and each of its plots show, for each run under its name, the recorded temperatures, loads, "
     "frequencies, controller terms and powers at their stamps, held until the next record of the same cluster, in the zone asked for, "
     "weighted with the run's own weights; or raise. What cannot be read raises.",
     ["inputs", "fault_sequences", "histories"],
     "every interleaving of the records of clusters, GPU and zones, every loss of events, every combination of runs that lack something",
     "Tests only see that plots of one complete recording do not raise.",
     ["trappy/compare_runs.py", "trappy/plot_utils.py", "trappy/ftrace.py", "trappy/cpu_power.py", "trappy/devfreq_power.py", "trappy/thermal.py",
      "trappy/pid_controller.py", "trappy/wa/sysfs_extractor.py"],
     [("values held", "trappy/cpu_power.py"), ("runs to axes", "trappy/plot_utils.py"), ("GPU next to clusters", "trappy/ftrace.py"),
      ("temperature of a zone", "trappy/thermal.py")],
     ["compare_runs, plot_utils.plot_*"],
     "recordings of a simulated machine and governor with losses and unreadable parameters, against a model of every line and histogram",
     "A run that lacks everything a plot needs, or a cluster of the map, may be refused with an error.")

prop("C21", "An expression over a trace means what its operators mean on what was traced",
     "For any recording and any expression of signals, numbers, variables, functions, parentheses and the documented operators, with any window and "
     "filters, Parser.solve() gives at every stamp of the signals asked for so far what the operators, in the documented precedence and "
     "associativity, make of each signal's last recorded value there, per pivot; a signal reads the same by event name, class path "
     "or alias. ref() returns exactly the rows of a mask and inspect() what was recorded. Interrupted or malformed questions harm no later one.",
     ["inputs", "histories", "fault_sequences"],
     "every nesting of operators, every interleaving and loss of the signals' records, every earlier question, every line of an interrupt",
     "Tests evaluate some twenty fixed expressions on one trace, most of them on a single signal.",
     ["trappy/stats/grammar.py", "trappy/stats/StatConf.py", "trappy/utils.py"],
     [("operators", "trappy/stats/grammar.py"), ("alignment of signals", "trappy/stats/grammar.py")],
     ["Parser.solve, ref, inspect"],
     "recordings of a simulated phone with losses and sequences of interrupted and malformed questions, against an evaluator of its own",
     "Text after the longest part that can be read is ignored today and the tests rely on it, so it is not judged; only the default fill and method.")

prop("C22", "Aggregated triggers count each qualifying event once, where and when it happened",
     "For any recordings, triggers with value, list and function filters, and any topology, aggregate(level) gives one result per group in the level's order: "
     "at each stamp the sum over the group's nodes of the aggregation function of the values of qualifying events, each counted once at its "
     "stamp and node. A Correlator aligns two aggregations on their first or last activity, whichever fits better, and weights groups by their samples; "
     "a delayed copy of a behaviour correlates 1 in every group. plot() shows what is correlated. Interrupted calls can be repeated.",
     ["inputs", "histories", "fault_sequences"],
     "every interleaving and loss of events on nodes, every topology, filter and order of levels asked, every delay and start of a second recording, every line of an interrupt",
     "Tests aggregate one table of six rows; nothing tests Correlator, list filters or several traces.",
     ["trappy/stats/Aggregator.py", "trappy/stats/Trigger.py", "trappy/stats/Topology.py", "trappy/stats/Indexer.py",
      "trappy/stats/Correlator.py", "trappy/plotter/PlotLayout.py"],
     [("qualifying events", "trappy/stats/Trigger.py"), ("groups", "trappy/stats/Topology.py"), ("sums", "trappy/stats/Aggregator.py"),
      ("alignment and weights", "trappy/stats/Correlator.py")],
     ["aggregate, correlate, plot"],
     "recordings of simulated machines with losses, delays and interrupts, against a model that counts the recorded events",
     "Behaviours without any sample other than zero are refused by correlate(); windows of alignment that fit equally well may either be taken.")

prop("C23", "A trace shows the events of the window asked for, and what is added to it",
     "Whatever ties, drifts, steps back and jumps the clocks of the CPUs made, a trace loaded with a relative and an absolute window, parsed or from the "
     "cache, has exactly the events recorded in both, ends included, with the fields and times they have without a window; base and end time are those of "
     "the recording, the duration is from the first to the last event shown, and get_filters() gives the loaded events. A window whose end was read from "
     "a table includes that event. add_parsed_event() adds a table under a free name, its pivot is used by the grammar, and changes no other.",
     ["inputs", "histories", "schedules"],
     "every pair of windows at, between and beyond events under every clock fault, every order of loads through the cache, every addition",
     "Tests use a handful of round numbers as windows, far from the stamps of events, and never both windows at once.",
     ["trappy/ftrace.py", "trappy/bare_trace.py", "trappy/base.py"],
     [("intersection of windows", "trappy/ftrace.py"), ("events at the ends", "trappy/ftrace.py"), ("duration, filters, additions", "trappy/bare_trace.py")],
     ["FTrace(window, abs_window), get_duration, get_filters, add_parsed_event"],
     "recordings of a simulated machine with clock faults, loaded with windows anchored at its events, against the recorded stamps",
     "Windows tell apart what is at least one unit of the trace's resolution apart, not events with equal stamps.")

prop("C24", "In the browser an event plot shows its window, whatever was done before",
     "However many event plots a notebook page has, and in whatever order its cells are run, cleared and run again and their scripts arrive: after any "
     "sequence of zooming, dragging, brushing or clicking in the summary, marking, asking for an interval, hovering and resizing the window, each plot "
     "shows every interval of its window at the place its axis says, on its lane and in its own colour, and nothing else; the summary, the brush, the marks "
     "A and B, their texts, the interval asked for and the tooltip agree with it; the window is the one the user asked for, and only in the plot where "
     "the user asked for it. The page has no script errors.",
     ["histories", "schedules", "inputs"],
     "every order of cells, script arrivals, timers and user actions on every set of intervals, lanes and colours",
     "Tests never run the JavaScript; only by hand in a browser is it seen at all.",
     ["trappy/plotter/js/EventPlot.js", "trappy/plotter/templates/EventPlot.html", "trappy/plotter/EventPlot.py"],
     [("bars of a window", "trappy/plotter/js/EventPlot.js"), ("zoom, brush and resize", "trappy/plotter/js/EventPlot.js"),
      ("marks and interval texts", "trappy/plotter/js/EventPlot.js"), ("loading of scripts", "trappy/plotter/EventPlot.py")],
     ["the page's SVG elements and texts after each action"],
     "sessions of a user in a simulated browser with late scripts, timers and animations, against a model of what each window must show",
     "d3 and jQuery are rewritten from their documentation; no real browser or rendering of pixels. Tasks do not share a lane at one time.")

prop("C25", "In the browser line plots keep all samples, and groups of them one window",
     "However many figures of line plots a notebook page has, and in whatever order its cells are run, cleared and run again and their scripts arrive: "
     "after any zooms, resets and resizes each plot holds exactly its samples in order, with the labels, colours and options it was given, as wide as its "
     "cell allows. All plots of a group show one window, which holds what each of them showed when the last one joined; with sync_zoom a user's zoom "
     "in one goes to all of its group and to no other plot, without it to that plot alone; resetting the zoom shows every sample of what zooms "
     "together. Any text names a group. The page has no script errors.",
     ["histories", "schedules", "inputs"],
     "every order of cells, script arrivals, zooms, resets and resizes of every set of figures and groups",
     "Tests never run the JavaScript.",
     ["trappy/plotter/js/ILinePlot.js", "trappy/plotter/ILinePlotGen.py", "trappy/plotter/ILinePlot.py"],
     [("groups", "trappy/plotter/js/ILinePlot.js"), ("graph options and size", "trappy/plotter/js/ILinePlot.js"),
      ("loading of scripts", "trappy/plotter/ILinePlotGen.py")],
     ["the page's graphs: samples, options, windows and sizes after each action"],
     "sessions of a user in a simulated browser with late scripts, cleared and repeated cells, zooms and resets, against a model of each group's window",
     "dygraphs, its synchronizer and jQuery are rewritten from their documentation; no real browser. Plots of one group are all made with the same sync_zoom.")

# what this technique does not decide (see NOT_APPLICABLE)
prop("N01", "A published notebook refers only to public copies of the plot scripts",
     "After scripts/publish_interactive_plots.py every reference to a locally installed plot script is one to its public address, and the "
     "rest of the notebook is as it was.",
     ["inputs"], "every notebook with interactive plots",
     "No test covers the script.",
     ["scripts/publish_interactive_plots.py"], [("replacement of addresses", "scripts/publish_interactive_plots.py")],
     ["the published notebook"], "", "")

prop("N02", "What a real browser paints is what the plot's elements say",
     "The pixels a browser shows for an interactive plot are those its elements, styles and chart libraries describe, on every browser and screen.",
     ["configurations"], "every browser, font, screen and version of d3, dygraphs and jQuery",
     "No test opens a browser.",
     ["trappy/plotter/js/EventPlot.js", "trappy/plotter/js/ILinePlot.js", "trappy/plotter/css/EventPlot.css"],
     [("style sheets and libraries", "trappy/plotter/EventPlot.py")],
     ["the screen"], "", "")
