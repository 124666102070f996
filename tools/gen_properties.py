"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

ES, LOOP, ST, Q, BUS = ("jqtrade/scheduler/event_source.py", "jqtrade/scheduler/loop.py", "jqtrade/scheduler/strategy.py",
                        "jqtrade/scheduler/queue.py", "jqtrade/scheduler/bus.py")
ACC, API, GATE, ORD, POS, PF = ("jqtrade/account/account.py", "jqtrade/account/api.py", "jqtrade/account/trade_gate.py",
                                "jqtrade/account/order.py", "jqtrade/account/position.py", "jqtrade/account/portfolio.py")
UT, SU, RUN, MAIN = ("jqtrade/common/utils.py", "jqtrade/scheduler/utils.py", "jqtrade/scheduler/runner.py", "jqtrade/__main__.py")

p("C01", "A daily task's time expression means exactly the documented instant",
  "For every valid time expression given to run_daily (a clock time HH:MM or HH:MM:SS; 'open' or 'close', optionally plus or minus an h/m/s offset; 'before_open', 'after_close'), the task is due on each day at exactly the documented instant, taken from the trading periods in effect (default or set through set_options as strings or time objects, before or after run_daily). "
  "An out-of-range clock field, an unknown base word or a malformed offset raises an error at start-up and is never silently scheduled.",
  ["inputs", "configurations"], "all clock times, all offset digits/unit combinations of the grammar, all trading periods, all start instants; all short strings outside the grammar",
  "The tests sample a dozen expressions against one fixed trading period; the parser must be right for every field value, offset and period.",
  [ES, ST, UT], [("TimeExprParser.parse, EventSource.add_event, expr_to_time", ES), ("Strategy.TIME_DICT, set_options", ST)],
  ["the instant at which the task function is called", "context.strategy_dt in the task"])
p("C02", "Every-minute tasks fire at each minute of each trading period, ends included",
  "A task registered for 'every_minute' is due exactly at the start of each trading period in effect and every 60 seconds after it up to and including the period's end, once each per day, and at no other instant. This holds for the default periods and for any set of disjoint periods given through set_options.",
  ["inputs", "configurations"], "all period start and end times and any number of periods",
  "test_schedule counts calls for the default periods only; other period bounds (seconds, short or adjacent periods) are never tried.",
  [ST, ES], [("Strategy.schedule every_minute expansion", ST)], ["the instants at which the task is called"])
p("C03", "Each registered time fires once per day, for ever, within start and end",
  "From the moment the process starts, every registered time of day fires exactly once on every calendar day on which it lies at or after the start instant and, when the run has an end, not after that end (both bounds inclusive). Days follow each other without gap or repetition however long the process keeps running, and a time already past when the process starts is not fired that day.",
  ["inputs", "histories"], "all start and end instants, all task times, all run lengths (including past the internal day horizon) and all delays in between",
  "Tests replay one month from one start; the boundary instants, the regeneration of the internal list of days and late processing are never exercised.",
  [ES], [("EventSource._get_days, gen_events, add_event", ES), ("EventSourceScheduler.schedule", ES)], ["sequence of task calls"])
p("C04", "Due work runs in due-time order with the documented tie-breaks",
  "Callbacks of all sources are delivered in non-decreasing due time; at the same due time account synchronisation comes before every-minute tasks and these before other daily tasks, and tasks of the same kind run in the order they were registered. This holds on every day and however late the loop is running.",
  ["inputs", "schedules", "histories"], "all sets of task times including ties, all start instants, all callback durations",
  "Ties and late loops depend on timing that the tests do not control; only the final call counts are compared.",
  ["jqtrade/scheduler/message.py", Q, ES, ST, "jqtrade/scheduler/event.py"], [("Message.sort_key, PriorityQueue", "jqtrade/scheduler/message.py"), ("EventPriority", "jqtrade/scheduler/event.py")], ["order of task calls"])
p("C05", "The event loop is never early, loses nothing, and stops when told",
  "No callback starts before its due time by the wall clock, and each queued callback runs exactly once unless the loop stops first; while it runs the logical time shown to the strategy equals its due time. After a stop request, a termination signal or an exit condition no further callback starts and the loop ends without waiting for the next due time; an exception in a callback stops the loop and is raised out of its run.",
  ["inputs", "schedules", "fault_sequences"], "all due times, all wall-clock behaviours (late or early timers, long callbacks), every point at which a stop, signal or exception arrives",
  "Timer jitter, signals between callbacks and exceptions at an arbitrary message are schedules no unit test drives.",
  [LOOP], [("EventLoop.check_queue, handle_message, stop, handle_signal", LOOP)], ["calls of the callbacks", "exception raised by run", "context.strategy_dt"])
p("C06", "The event queue always yields the smallest key and never loses an item",
  "For every sequence of pushes and pops with arbitrary keys, a pop (and a peek) returns an item whose key is minimal among those waiting, items come out exactly once each and none is lost, and popping or peeking an empty queue signals emptiness instead of returning something.",
  ["inputs", "histories"], "all interleavings of push/pop/peek up to the bound and all key values",
  "One fixed order of five pushes is tested.",
  [Q], [("PriorityQueue.push/pop/top", Q)], ["values returned by pop/top/empty"])
p("C07", "An event reaches exactly its registered callbacks, by priority then age",
  "Emitting an event calls every callback that is registered for the event's class or one of its base classes, once per registration, in descending priority and registration order within a class, and collects their results in that order. Callbacks that were unregistered, or registered for unrelated classes, are not called; unregistering something not registered changes nothing else.",
  ["histories", "inputs"], "all histories of register/unregister/emit up to the bound, all priorities",
  "Tests check the bookkeeping of one register and unregister, and never emit with several priorities.",
  [BUS], [("EventBus.register/unregister/emit", BUS)], ["calls made and the list emit returns"])
p("C08", "Instants and epoch milliseconds convert without drift",
  "Converting any instant to epoch milliseconds gives that instant's milliseconds rounded down to a whole millisecond, and converting back gives the instant truncated to the millisecond; whole-second instants survive the round trip unchanged, and a later instant never gets a smaller number.",
  ["inputs"], "all instants from 1970 to 2100 at microsecond resolution and all UTC offsets",
  "The single test converts one midnight; sub-second instants are never converted.",
  [UT], [("dt_to_milliseconds, milliseconds_to_dt", UT)], ["due times of events, context.strategy_dt, context.current_dt"])
p("C09", "A custom configuration file overrides exactly the settings it names",
  "Every name in the custom configuration file that carries a module's prefix (SCHEDULER_ or ACCOUNT_) sets that module's setting of exactly the remaining name to the given value, whatever letters the name consists of. Settings it does not name keep their values, names without the prefix have no effect, and the new values are the ones the framework then uses.",
  ["inputs", "configurations"], "all setting names and values",
  "No test loads a configuration file.",
  ["jqtrade/scheduler/config.py", "jqtrade/account/config.py"], [("_load_config, setup_*_config", "jqtrade/scheduler/config.py, jqtrade/account/config.py")], ["configuration objects", "trade gate chosen", "number of days scheduled"])
p("C10", "Tasks and options are fixed in process_initialize and run the given function",
  "run_daily and set_options are accepted only while process_initialize is executing; any call outside it raises an error and changes neither tasks nor options, and a strategy without process_initialize is refused. Each accepted run_daily causes exactly the function object that was passed to be called with the strategy context at its due times, also when several functions share a name or a function has no module-level name.",
  ["histories", "inputs"], "all sequences of registrations and calls inside and outside process_initialize, all function objects",
  "Tests register uniquely named module-level functions only, and never call these APIs at the wrong time.",
  [ST], [("Strategy.run_daily, set_options, schedule, _get_handle", ST)], ["errors raised to strategy code", "functions called"])
p("C11", "Only well-formed orders are accepted; anything else reaches nobody",
  "An order request is accepted only if its code is digits followed by '.XSHE' or '.XSHG', its amount is a non-zero integer, its style (if given) is a market or limit style object and its side (if given) is 'long' or 'short'. Any other request raises an error, submits nothing to the trading interface and leaves the order book unchanged; omitted style and side mean market and long.",
  ["inputs"], "all codes of bounded length, all amounts, styles and sides",
  "No test calls the order API.",
  [API], [("_check_code, _check_amount, _check_style, _check_side, order", API)], ["exception, trading-interface calls, get_orders"])
p("C12", "An accepted order is relayed once, unchanged, under a fresh id",
  "An accepted order reaches the trading interface exactly once with the same code, style, limit price and side, the absolute amount, and the action open for a positive and close for a negative amount; the returned id is new among all orders known to the account and find the same data in get_orders. "
  "If the trading interface fails, None is returned, no exception escapes, and the order is not left looking alive (it is shown as rejected).",
  ["inputs", "histories", "fault_sequences"], "all order parameters, all random ids including collisions, failures of the trading interface",
  "No test submits an order; id collisions and interface failures cannot be produced by sampling.",
  [ACC, API, ORD, UT], [("Account.order", ACC), ("generate_unique_number", UT)], ["trade gate calls, returned id, get_orders"])
p("C13", "The order and cancel files carry exactly what was asked",
  "Each submitted order appends one line to today's order file whose columns follow the file's header: the order's id, the account and counter type in use, the broker's symbol for the code, side 1 for opening and 2 for closing, the unsigned quantity, the algorithm type, and price type AT with the limit price twice for limit orders or P6/P7 with zero prices for market buys/sells. Each cancel appends one line with the cancelled id to today's cancel file; the header appears exactly once, as first line; orders this interface cannot trade (short side, non-stock account type, no account number) are refused without touching the file.",
  ["inputs", "configurations"], "all order attributes and option values",
  "The trade gate is not exercised by any test.",
  [GATE], [("AnXinDMATradeGate.order, cancel_order, _write, _encode_security", GATE)], ["contents of the order and cancel files"])
p("C14", "Concurrent strategies never corrupt a shared order file",
  "When several strategy processes append to the same order file at the same time, in whatever interleaving, the file ends up with its header exactly once, as first line, followed by every line each process wrote, intact and exactly once.",
  ["schedules"], "all interleavings of the file operations of concurrent writers, on an absent, empty or non-empty file",
  "Needs an interleaving of two processes between opening, locking, checking the size and flushing.",
  [GATE], [("AnXinDMATradeGate._write with portalocker", GATE)], ["contents of the order file"])
p("C15", "Waiting for the file lock is bounded and nothing is written without it",
  "A line is written to an order file only while the writer holds the file's lock. If the lock stays unavailable the writer keeps retrying at the configured interval and gives up with a time-out error once the configured time has passed, having written nothing; if the lock becomes available earlier the line is written exactly once.",
  ["schedules", "fault_sequences"], "all sequences of lock outcomes and all clock readings",
  "Lock contention and the passage of time are not controllable in the existing tests.",
  [GATE], [("AnXinDMATradeGate._write", GATE)], ["file contents, time-out error"])
p("C16", "Order synchronisation is independent of how the broker's files grow",
  "However the broker's append-only order files grow between synchronisations, including a line that is only partly visible at one of them, at every synchronisation an order shows either the state of its last complete line or that of a line still being written, never a mixture, and once the complete files have been synchronised every order of this strategy shows the state given by its last line, the same as reading the complete files once. Lines of other strategies' orders have no effect, and with bad lines ignored (the default) a malformed line affects nothing but itself.",
  ["inputs", "histories", "fault_sequences"], "all file contents up to the bound, all cut points between synchronisations",
  "The cut points between the broker's write and our read are a schedule; no test reads these files.",
  [GATE], [("AnXinDMATradeGate.sync_orders offsets", GATE)], ["orders returned by synchronisation, get_orders"])
p("C17", "A crash or restart loses no accepted order",
  "If the process dies at any point, a restart on the same day finds every order whose submission had completed and, after synchronising, shows it in the state given by the broker's files, exactly as if the process had never stopped. At no point of death is the saved state unreadable or older than the last completed submission. This holds however runtime_dir is given (absolute, with '~', relative to the directory the process is started in, by option, by configuration file or by default) and whichever directory the process is in later.",
  ["crash_points", "histories"], "every crash point between or inside file operations of submit and synchronise, all order attributes",
  "No test restarts a trade gate, let alone kills it between two file operations.",
  [GATE], [("_save_orders (temp file and move), _load_orders", GATE)], ["orders after restart"])
p("C18", "A process that keeps running over midnight keeps trading and tracking orders",
  "When the calendar day changes while the process runs, orders submitted on the new day go to the new day's files and are synchronised from the new day's broker files from their beginning, however long or short the previous day's files were; the new day's orders are recovered by a restart on that day.",
  ["histories", "crash_points"], "all lengths of the previous and new day's broker files, all order histories over the day change",
  "Needs a run spanning two days of broker files.",
  [GATE], [("per-day file names, _order_update_offset, _order_result_offset, _data_file", GATE)], ["get_orders on the second day, after restart"])
p("C19", "The order book mirrors the broker and snapshots do not change",
  "After a successful order synchronisation each order reported by the trading interface is in the order book with exactly the reported status, quantities, price, cost and identifiers, orders unknown locally are added, and orders not reported are kept. An order object obtained from get_orders earlier keeps showing the values it had; a failed synchronisation changes nothing and raises nothing.",
  ["inputs", "histories", "fault_sequences"], "all reported values and sequences of reports, failures at any synchronisation",
  "test_demo runs one fixed report and asserts nothing about the book.",
  [ACC, API, ORD], [("Account.sync_orders, Order.load, Order.__eq__", ACC), ("UserOrder", API)], ["get_orders"])
p("C20", "Cash and positions mirror the broker's last good report",
  "After a successful balance synchronisation the account shows exactly the reported total, available and locked cash, zero included, and exactly the reported positions, each under its side; positions no longer reported are gone. If the trading interface fails or its report lacks cash or positions, nothing is raised and the previous cash and positions stay as they were.",
  ["inputs", "histories", "fault_sequences"], "all reported amounts, all sequences of reports and failures",
  "No test compares the account with a report.",
  [ACC], [("Account.sync_balance", ACC)], ["context.portfolio"])
p("C21", "Broker asset and position files are read completely or not at all",
  "Balance synchronisation takes cash from the summary row (no exchange) of exactly the configured account and positions from that account's rows with non-zero quantity, converting symbols and numbers faithfully and comparing account numbers as text. Rows of other accounts never leak in, and a file that is missing or whose terminating blank record has not been written yet yields a failure after the configured retries instead of partial data.",
  ["inputs", "fault_sequences"], "all row orders and cell values up to the bound, truncation after any row, number of bad reads before a good one",
  "No test reads the broker's balance files.",
  [GATE, UT], [("AnXinDMATradeGate.sync_balance, _read_csv", GATE), ("simple_retry", UT)], ["the report handed to the account, context.portfolio"])
p("C22", "get_orders returns exactly the orders matching all given filters",
  "get_orders returns, keyed by order id, exactly those known orders that satisfy every given filter (id, code, status as text or enumeration), and all orders when no filter is given. Unknown ids give an empty result and invalid codes or statuses raise an error.",
  ["inputs", "histories"], "all order books up to the bound and all filter combinations",
  "No test queries orders.",
  [API], [("get_orders", API)], ["result of get_orders"])
p("C23", "In a batch every order stands alone and results stay in position",
  "Submitting a batch treats each entry like a single order: the result list has one element per entry in the same order, the new id for an accepted entry and None for an entry that is malformed or that the trading interface refuses, and a bad entry never prevents or alters another. Cancelling a batch requests the cancellation of every listed known order.",
  ["inputs", "fault_sequences"], "all batches up to the bound with any subset of entries bad in any way",
  "Batch APIs are not tested.",
  [API, ACC], [("batch_submit_orders, batch_cancel_orders", API)], ["returned list, trading-interface calls"])
p("C24", "Selling reserves the closeable amount at once, and nothing else does",
  "When a closing order is accepted, the closeable amount of that position drops by the ordered amount but never below zero, while its total amount and every other position stay as they were. Opening orders, refused orders and orders for codes not held change no position; the next balance synchronisation replaces the figure by the broker's.",
  ["inputs", "histories"], "all holdings, amounts and order sequences up to the bound",
  "Position updates through orders are tested for one pair of numbers, not through the order API.",
  [POS, ACC], [("Position.on_order_created", POS), ("Account.on_order_created", ACC)], ["context.portfolio positions"])
p("C25", "Only known orders are cancelled, and cancelling never raises",
  "A cancel request for an order in the account's book, whether submitted in this run or learned from the broker, is passed to the trading interface exactly once with that id. A request for an unknown id reaches nobody, and a failure of the trading interface is not raised to the strategy and does not alter the order book.",
  ["inputs", "histories", "fault_sequences"], "all ids (text or number), all order books up to the bound, interface failures",
  "cancel_order is not tested.",
  [ACC, API], [("Account.cancel_order, api.cancel_order", ACC)], ["trading-interface calls"])
p("C26", "The portfolio shows the account's holdings and only those",
  "context.portfolio lists exactly the account's long and short positions with their amounts, prices and values, and its cash figures; its position value is the sum over the long positions. Looking up a code that is not held yields a position of zeros and does not make the code appear among the holdings.",
  ["inputs", "histories"], "all sets of positions and all look-ups",
  "Portfolio views are not tested.",
  [PF, API], [("Portfolio, UserPositionDict, UserPosition", PF)], ["context.portfolio"])
p("C27", "Security codes map one-to-one between jqtrade and the broker",
  "Translating any valid code to the broker's symbol keeps its digits and exchange and translating back returns the original, so two different codes never share a symbol; the same holds starting from any broker symbol. Codes and symbols with an unknown exchange suffix are refused.",
  ["inputs"], "all codes and symbols up to the bound",
  "The translation is not tested.",
  [GATE], [("_encode_security, _decode_security", GATE)], ["order file, positions"])
p("C28", "Orders survive serialisation unchanged",
  "Serialising any order and loading it back gives an order equal in every attribute, including price, amounts, action, side, style, status, times to the microsecond, broker id, costs and error text. The serialised form uses only plain data, and loading rejects unknown statuses, sides, actions and styles.",
  ["inputs"], "all attribute values",
  "Tests construct one order and never serialise it.",
  [ORD, UT], [("Order.json, Order.load, get_status/get_side/get_action/get_style, parse_dt", ORD)], ["orders after restart"])
p("C29", "Account synchronisation keeps its interval all day, every day",
  "While the process runs, account synchronisation is due at the configured interval: without a period restriction it never pauses longer than one interval (rounded up to a whole second) on any day, and with sync periods it is due at each period start and every interval after it up to and including the period's end, and at no time outside. Balance and orders are each synchronised only if enabled, balance first.",
  ["inputs", "configurations", "histories"], "all start instants, intervals and periods within the bound, on the first and later days",
  "The sync timer is set up in no test that looks at its times; the behaviour on the second day is never reached.",
  [ACC, ES], [("Account._setup_sync_timer", ACC)], ["calls to the trading interface"])
p("C30", "Without the account module no account function does anything",
  "When a strategy turns the account module off, every account function and the portfolio raise an error to the caller (a batch submission reports every entry as failed), nothing is submitted or synchronised, and scheduling keeps working. When it is on, set_options without an account number is refused, and account data is synchronised once before set_options returns, for each kind that is enabled.",
  ["inputs", "configurations"], "all account functions and option combinations",
  "Not tested.",
  ["jqtrade/scheduler/context.py", ST, ACC], [("Context.account/trade_gate/portfolio", "jqtrade/scheduler/context.py"), ("Strategy.setup_account", ST)], ["errors, trading-interface calls"])
p("C31", "A running task is recognised from any accepted command line",
  "For every command line that start_task accepts, the running process is recognised as a task with exactly the name, code path, output, environment and debug flag it was started with, whatever order and spelling of the options was used. A second task of the same name is refused while one runs, a different name is never refused, and unrelated processes neither count as tasks nor disturb this.",
  ["inputs", "configurations"], "all option orders, spellings and values up to the bound; all sets of running processes up to the bound",
  "Three command lines in one spelling are tested.",
  [SU, RUN, MAIN], [("parse_task_info, get_activate_task_process", SU), ("_exist_repeated_task", RUN)], ["start_task accepting or refusing, get_tasks output"])
p("C32", "stop_task signals exactly the selected tasks",
  "stop_task sends its stop signal (a kill with --force, otherwise a termination request) exactly once to each running task selected by --all, --pid or --name, in that precedence, and to no other process: not to tasks with other names or pids, not to processes that merely mention jqtrade, and not to a wrapper that is the parent of a task. Without any selector it is refused.",
  ["inputs"], "all sets of running processes up to the bound and all selector combinations",
  "stop_task is not tested.",
  [MAIN, SU], [("stop_task", MAIN), ("get_activate_task_process", SU)], ["signals sent"])
p("C33", "Environment settings reach the strategy exactly as written",
  "For every -e value made of KEY=VALUE pairs joined by semicolons, with blanks around keys and values ignored and values free to contain '=', exactly these variables with exactly these values are set for the strategy process, and the entries of PYTHONPATH take precedence on the import path in the given order.",
  ["inputs"], "all keys and values up to the bound",
  "Only the raw command-line value is looked at by a test, not its parsing.",
  [SU, RUN], [("parse_env", SU), ("TaskRunner.__init__", RUN)], ["os.environ, sys.path"])
p("C34", "Retrying stops at the first success and after the configured attempts",
  "A retried operation is called again after each failure until it succeeds, at most the configured number of extra times with the configured pause before each; the first success is returned unchanged and ends it, and the last failure is raised unchanged. A failure that the filter does not accept is raised at once without retrying, and so is a request to leave the program.",
  ["fault_sequences", "inputs"], "all sequences of outcomes, all attempt limits and filters up to the bound",
  "Tests try constant failure only, never success after failures.",
  [UT], [("simple_retry", UT)], ["number of calls, result"])
p("C35", "Broker order reports are interpreted faithfully",
  "Each complete line of the broker's order-update file sets its order's status according to the documented code table and its filled and cancelled quantities, average price, deal amount, broker id, entrust time and message to the values in the line; a refusal in the result file marks that order, and only that order, as rejected with the given message, and a refused cancel leaves the order's status alone. Text is decoded with the configured encoding.",
  ["inputs", "configurations"], "all status codes and field values, all orders of lines up to the bound, both result types",
  "No test feeds broker reports.",
  [GATE], [("AnXinDMATradeGate._update_order, _parse_status, STATUS_MAP, sync_orders", GATE)], ["get_orders"])
p("C36", "Strategy output goes to the task's log, once",
  "print in a strategy writes its text once: to the file the caller names if it names one, otherwise appended to the task's log file if one was given at start, otherwise to standard output, with the caller's separators and line ends unchanged.",
  ["inputs", "configurations"], "all combinations of log file, file argument, separators and texts up to the bound",
  "Not tested.",
  ["jqtrade/scheduler/api.py"], [("strategy_print", "jqtrade/scheduler/api.py")], ["file contents, standard output"])
p("C37", "Queue operations from several threads behave atomically",
  "When several threads push to and pop from the event queue at the same time, every item comes out exactly once and in key order among those present, as if the operations had happened one after the other.",
  ["schedules"], "all thread interleavings",
  "Interleavings inside the operations are not controllable from a test.",
  [Q], [("ThreadSafeQueue lock", Q)], ["items popped"])
p("C38", "The strategy that runs is the file that was named",
  "start_task runs the code of exactly the file given as code path, whatever its file name and directory are called, with that directory importable and the modules already loaded left as they are; a missing file is refused.",
  ["inputs", "configurations"], "all file names and directories, all modules already loaded",
  "Tests load files with ordinary names only.",
  ["jqtrade/scheduler/loader.py", RUN], [("Loader.load", "jqtrade/scheduler/loader.py")], ["functions executed"])

p("C39", "Log messages reach the task's log completely and once",
  "Every message a strategy writes with log at level info or above, and with --debug also at level debug, appears exactly once and complete with its own line end, visible at once and in the order of writing together with what print wrote: in the file given with -o, after everything that file already held and with nothing on standard output, or on standard output when no -o was given. Messages below the level do not appear.",
  ["inputs", "histories", "configurations"], "all message texts up to the bound, with and without format arguments, all levels and sequences of messages and prints, all option combinations",
  "No test looks at the log; that the log handler and print share one file without losing each other's text depends on how both open it.",
  ["jqtrade/common/log.py", RUN, "jqtrade/scheduler/api.py"], [("setup_logger, setup_file_logger", "jqtrade/common/log.py"), ("TaskRunner.__init__", RUN), ("strategy_print", "jqtrade/scheduler/api.py")], ["log file contents, standard output"])

p("C40", "A failing disk neither loses nor doubles an order",
  "When file operations fail while an order is placed, an order is cancelled or the orders are synchronised (disk full, I/O error, missing permission; anywhere, or only in the order or only in the runtime directory), nothing is raised to the strategy and no lock stays held. order returns an id exactly if the order's line is in the order file, once; an order for which None was returned is not in the file and does not look alive. "
  "Orders accepted earlier stay known and are not damaged on disk, and once the files work again synchronisation, new orders and a restart show every accepted order as the broker's files say.",
  ["fault_sequences", "inputs", "histories"], "every file operation of the call as the point of failure, failing once or until the call returns, on either or both directories; plans of several steps; amounts, statuses and filled quantities of reports",
  "No test makes a file operation fail.",
  [GATE, ACC], [("AnXinDMATradeGate.order, _write, _save_orders, sync_orders", GATE), ("Account.order", ACC)], ["order's result, the order and cancel files, get_orders before and after a restart"])

p("C41", "Malformed options are refused and change nothing",
  "set_options raises when a market_period or sync_period contains anything but pairs of times of day (datetime.time or text HH:MM:SS with hours, minutes and seconds in range), or when sync_internal is not a number. A refused call has no effect at all: nothing is created, the trading interface is not called, and the options given before - trading periods, synchronisation times, account - stay in effect together, none of the refused call's options taking over. "
  "A well-formed text period means exactly that time of day, and the switches use_account, sync_balance and sync_order do what their value says.",
  ["inputs", "histories"], "every text HH:MM:SS, every kind of malformed entry alone or beside well-formed ones, every option it stands in, calls before and after it",
  "Tests give only well-formed options.",
  ["jqtrade/scheduler/strategy.py", "jqtrade/common/utils.py"], [("Strategy.set_options", "jqtrade/scheduler/strategy.py"), ("parse_time", "jqtrade/common/utils.py")], ["exceptions of set_options; later task and synchronisation times"])
p("C42", "Failures the framework absorbs and order progress are in the log",
  "Whenever the framework absorbs a failure instead of raising it - the trading interface refusing an order or a cancellation or failing to synchronise, an incomplete answer, an unknown order to cancel, a bad batch entry, an unreadable line of the broker's files, asset and position files that stay unreadable after the retries - the log carries an error report of it with the cause, once per failure, and not again on later synchronisations; what succeeds, and a line the broker is still writing, reports no error. "
  "When a synchronisation changes an unfinished order's state (confirmed, filling further, filled, being cancelled, cancelled, rejected) the log announces it exactly once with the order's id, quantities and reason; unchanged and finished orders are not announced.",
  ["inputs", "histories"], "all sequences of operations failing or not, with any cause text; all sequences of order states over several synchronisations; all mixes of readable, unreadable and unfinished lines",
  "Tests never look at the log; the strategy cannot see absorbed failures in any other way.",
  [ACC, GATE, API], [("Account.order, cancel_order, sync_balance, sync_orders, _notify_changed", ACC), ("AnXinDMATradeGate.sync_orders", GATE)], ["the task's log output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
