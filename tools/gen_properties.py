"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, pathlib

SCH = "jqtrade/scheduler/"
ACC = "jqtrade/account/"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))


prop("C01", "Every daily-task occurrence runs exactly once",
     "From the moment a strategy starts, every occurrence of every registered daily task - on each day, at each of the task's times - "
     "runs exactly once, by calling the very function that was registered. No occurrence is lost or repeated however long other tasks take, "
     "however many days the process stays up and however many tasks share an instant. Occurrences that lie before the start never run.",
     ["schedules", "configurations", "histories"],
     "all sets of registered tasks and times, all start times, all task durations (including overruns past later occurrences), all uptimes including past the pre-generated horizon",
     "the tests replay two fixed task sets in one past month with instantaneous tasks and count calls at the end; uptime beyond the horizon, overruns and starts in the middle of the day are never reached in live mode",
     [SCH + "event_source.py", SCH + "strategy.py", SCH + "loop.py", SCH + "queue.py"],
     [("EventSource.gen_events/_get_days", SCH + "event_source.py"), ("EventSourceScheduler.schedule: one pending message per source", SCH + "event_source.py"),
      ("Strategy.schedule: one event class and source per registration", SCH + "strategy.py")],
     [("pending occurrences", "next occurrence of each source", SCH + "event_source.py"), ("remaining days", "days whose occurrences are not generated yet", SCH + "event_source.py")],
     ["calls of the user's functions", "virtual wall clock at each call"])

prop("C02", "Tasks run on time, in time order, ties by kind, with the right logical time",
     "A task never runs before its scheduled wall-clock time and an idle process runs it as soon as it is due; tasks run in non-decreasing order of scheduled time. "
     "At one instant account synchronisation runs first, then every-minute tasks, then fixed-time tasks, and tasks of one kind at a time of that same day in the order they were registered. "
     "While a task runs, the strategy's logical time equals the time the task was scheduled for and its current time equals the wall clock.",
     ["schedules", "configurations"],
     "all task sets, start times, task durations and clock positions",
     "tests only assert strategy_dt's time-of-day for tasks in the past (always overdue), so waiting, earliness, ordering across sources and ties are never observed",
     [SCH + "loop.py", SCH + "queue.py", SCH + "message.py", SCH + "event.py", SCH + "event_source.py", "jqtrade/common/utils.py"],
     [("EventLoop.check_queue", SCH + "loop.py"), ("Message.sort_key", SCH + "message.py"), ("EventPriority", SCH + "event.py"), ("dt_to_milliseconds", "jqtrade/common/utils.py")],
     [("queue", "pending messages ordered by time, priority, sequence", SCH + "queue.py")],
     ["calls of the user's functions", "context.strategy_dt", "context.current_dt"])

prop("C03", "Time expressions resolve against the configured trading periods",
     "A registered time means: HH:MM or HH:MM:SS at that time of day; open and close the start of the first and the end of the last trading period, optionally shifted by an offset of hours, minutes and seconds; "
     "before_open and after_close half an hour before open and after close; every_minute each whole minute step from the start to the end of every trading period, both included, once where periods touch or overlap. "
     "Trading periods given in the options, as text or time values, replace the default ones. "
     "A time, trading period or account synchronisation period that cannot be understood stops the strategy from starting instead of being silently dropped or shifted.",
     ["inputs", "configurations"],
     "all time expressions and trading-period options, given before or after the tasks are registered",
     "tests use the default periods and a handful of valid expressions; rejected ones and other periods are untested",
     [SCH + "event_source.py", SCH + "strategy.py", "jqtrade/common/utils.py"],
     [("TimeExprParser", SCH + "event_source.py"), ("EventSource.expr_to_time/add_event", SCH + "event_source.py"), ("Strategy.schedule/set_options", SCH + "strategy.py")],
     [], ["calls of the user's functions"])

prop("C04", "Stopping is graceful and a failing task stops the process",
     "A stop request (SIGTERM or Ctrl-C) lets the running task finish and then ends the process normally without starting any further task, even when overdue tasks are waiting; an idle process ends at once. "
     "When a task raises, the process ends with that error and no other task runs afterwards.",
     ["schedules", "fault_sequences"],
     "all instants of the stop request relative to tasks, overruns and waiting, and all positions of a failing task",
     "no test sends a signal or lets a task raise",
     [SCH + "loop.py"],
     [("EventLoop.handle_signal/stop/check_queue", SCH + "loop.py"), ("EventLoop.handle_message", SCH + "loop.py")],
     [("stop requested", "no further message may be handled", SCH + "loop.py")],
     ["calls of the user's functions", "how and when the process ends"])

prop("C05", "Scheduling, options and trading calls are only accepted in their phase",
     "Daily tasks and options can be set only while the strategy's initialisation function runs; any later attempt is refused with an error and changes nothing. "
     "While account support is off, every trading call, order query, synchronisation and portfolio access is refused with an error - a batch submission by returning no ids - and reaches no trade gate. "
     "A strategy without an initialisation function, or that turns account support on without naming an account, does not start.",
     ["histories", "configurations"],
     "all sequences of API calls over the phases initialisation / running, for every option set",
     "tests only call the API in its legal phase with account support unused",
     [SCH + "strategy.py", SCH + "context.py", SCH + "api.py", ACC + "api.py"],
     [("Strategy._is_scheduler_allowed", SCH + "strategy.py"), ("Context.account/trade_gate/portfolio guards", SCH + "context.py")],
     [("phase", "initialising or running", SCH + "strategy.py"), ("use_account", "account support on/off", SCH + "context.py")],
     ["exceptions raised by the strategy API", "tasks that run", "calls that reach the trade gate"])

prop("C06", "The account is synchronised at start-up and without gaps every day",
     "With synchronisation on, balance and orders are synchronised once during start-up (balance first) and from then on, on every day the process stays up - all day long, or inside and only inside the configured periods, both ends included - at most one interval (in whole seconds, rounded up) apart, balance before orders each time. "
     "A half that is switched off is never called. A failing synchronisation neither stops the process nor any later synchronisation.",
     ["schedules", "configurations", "fault_sequences"],
     "all start times of day, intervals, periods, switches, numbers of days and failing synchronisations",
     "no test runs the periodic synchronisation of a live process at all",
     [ACC + "account.py", SCH + "event_source.py"],
     [("Account.setup/_setup_sync_timer", ACC + "account.py"), ("exception barriers in Account.sync_balance/sync_orders", ACC + "account.py")],
     [], ["calls that reach the trade gate with their virtual time"])

prop("C07", "The portfolio equals the last complete balance report",
     "After every successful balance synchronisation the portfolio shows exactly what the trade gate reported: total, available and locked cash (zero included), and exactly the reported long and short positions with their quantities and values, none left over from before. "
     "A synchronisation that fails - the gate raises, or the report lacks cash or positions or contains a malformed position - leaves the whole portfolio as it was. "
     "The aggregate position value is the sum over the long positions.",
     ["histories", "fault_sequences", "inputs"],
     "all sequences of balance reports, good and bad, interleaved with orders",
     "tests never call sync_balance with a report that is then looked at",
     [ACC + "account.py", ACC + "portfolio.py", ACC + "position.py", ACC + "api.py"],
     [("Account.sync_balance", ACC + "account.py"), ("Portfolio", ACC + "portfolio.py")],
     [("cash", "total/available/locked", ACC + "account.py"), ("positions", "long and short positions by code", ACC + "account.py")],
     ["context.portfolio"])

prop("C08", "The order book mirrors the trade gate and queries filter it exactly",
     "After every successful order synchronisation each order the trade gate reported - local or previously unknown - is shown with exactly the reported status, quantities, amount and price; no known order ever disappears or changes because it was not reported, and a failing synchronisation loses no order. "
     "An order keeps its id as text, also when the gate reports ids as numbers, and an order query returns exactly the known orders that satisfy all given filters (id, code, status as text or enumeration value), keyed by order id.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of order reports, submissions and queries",
     "tests never synchronise orders against an account that is then queried",
     [ACC + "account.py", ACC + "api.py", ACC + "order.py"],
     [("Account.sync_orders", ACC + "account.py"), ("get_orders", ACC + "api.py"), ("Order.__eq__", ACC + "order.py")],
     [("orders", "orders by internal id", ACC + "account.py")],
     ["get_orders results"])

prop("C09", "Order objects handed to the strategy are immutable snapshots",
     "An order object returned by a query keeps showing the values it had at that moment: no later submission, cancellation, synchronisation or failure changes any of its attributes, while a fresh query shows the new values.",
     ["histories"],
     "all interleavings of queries with submissions, cancellations and synchronisations",
     "no test keeps an order object across a change",
     [ACC + "account.py", ACC + "api.py", ACC + "order.py"],
     [("Account.sync_orders replaces order objects instead of mutating them", ACC + "account.py"), ("UserOrder", ACC + "api.py")],
     [], ["attributes of objects returned by get_orders"])

prop("C10", "An order is submitted exactly as requested, or visibly not at all",
     "A valid order request reaches the trade gate exactly once with the requested code, absolute quantity, buy or sell direction, side and price style, and returns an id that no other known order has and under which the order can be queried. "
     "An invalid request (code, quantity, style or side) raises before anything is submitted or recorded; if the trade gate refuses, the call returns no id, raises nothing and leaves no order that looks alive. "
     "A batch returns one entry per request in order, the id or nothing, and no failing entry affects the others.",
     ["inputs", "fault_sequences", "histories"],
     "all order requests, batches, gate failures and id-generator outcomes including repeats",
     "tests construct order records by hand and never submit one through the API",
     [ACC + "api.py", ACC + "account.py", ACC + "order.py", "jqtrade/common/utils.py"],
     [("order/batch_submit_orders and their checks", ACC + "api.py"), ("Account.order", ACC + "account.py")],
     [("orders", "orders by internal id", ACC + "account.py")],
     ["return values and exceptions of the order API", "calls that reach the trade gate", "get_orders results"])

prop("C11", "Submitted sell orders reserve the closeable quantity",
     "After a sell order is submitted successfully, the closeable quantity of that holding is lower by the ordered quantity (never below zero) until the next successful balance synchronisation, which sets it to the reported value. "
     "Buy orders, refused orders, cancellations, order synchronisations and orders for other codes leave it unchanged, and the held quantity itself never changes with an order.",
     ["histories"],
     "all sequences of submissions, failures, cancellations and synchronisations over several holdings",
     "no test submits an order against a holding",
     [ACC + "account.py", ACC + "position.py"],
     [("Account.on_order_created", ACC + "account.py"), ("Position.on_order_created", ACC + "position.py")],
     [("available amount", "closeable quantity per holding", ACC + "position.py")],
     ["context.portfolio positions"])

prop("C12", "Cancel requests go out exactly once and only for known orders",
     "Cancelling a known order, by its id as text or number, sends exactly one cancel request for that id to the trade gate; cancelling an unknown id sends nothing. "
     "Neither case, nor a refusing gate, raises to the strategy or changes any order by itself, and in a batch every known id is cancelled whatever happens to the others.",
     ["histories", "fault_sequences"],
     "all sequences of cancels, batches, unknown ids and gate failures",
     "no test cancels an order",
     [ACC + "account.py", ACC + "api.py"],
     [("Account.cancel_order", ACC + "account.py"), ("cancel_order/batch_cancel_orders", ACC + "api.py")],
     [], ["calls that reach the trade gate", "get_orders results"])

prop("C13", "The order and cancel files stay well-formed under concurrent writers",
     "Every order or cancel request that the built-in gate accepts appears in that day's file as exactly one intact line with its id, account, security, direction, quantity, algorithm and price, below a single header that is the file's first line - whatever other strategies write to the same files at the same time and whenever the writers are interleaved. "
     "A request that fails because the file stays locked past the time-out adds nothing to the file, an order that fails so is shown as rejected, and a lock released in time is waited for. Strategies that share their directories can also start at the same moment.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of concurrent writers at system-call granularity, all lock holding times, all orders",
     "no test runs the built-in gate, let alone two of them",
     [ACC + "trade_gate.py"],
     [("AnXinDMATradeGate._write: file lock, header rule, time-out", ACC + "trade_gate.py"), ("AnXinDMATradeGate.order/cancel_order", ACC + "trade_gate.py")],
     [("order file / cancel file", "csv read by the broker terminal", ACC + "trade_gate.py"), ("file lock", "advisory lock on the csv", ACC + "trade_gate.py")],
     ["contents of the files in the order directory"])

prop("C14", "No broker update is lost, misattributed or half applied",
     "However the broker terminal's appends to the update and result files are cut into pieces, once a line is complete the next synchronisation makes its order show exactly the values of that order's latest complete line, and lines of other strategies' orders change nothing. "
     "A line that cannot be parsed changes no order and does not keep later lines from being read, unless the strategy asked for such lines to be treated as errors, in which case the synchronisation fails and nothing behind that line is taken over. "
     "A rejection in the result file marks its order rejected with the given reason; a refused cancel changes no order.",
     ["schedules", "inputs", "histories", "fault_sequences"],
     "all sequences of appends, cut at any byte, mixed with foreign, header and malformed lines, and all positions of synchronisations between them",
     "no test feeds the built-in gate an update file",
     [ACC + "trade_gate.py", ACC + "account.py"],
     [("AnXinDMATradeGate.sync_orders: read offsets, short-line and error handling", ACC + "trade_gate.py"), ("AnXinDMATradeGate._update_order", ACC + "trade_gate.py")],
     [("read offsets", "how far each file has been consumed", ACC + "trade_gate.py")],
     ["get_orders results after a synchronisation"])

prop("C15", "A crash loses no submitted order and a restart converges",
     "If the process dies at any point and the strategy is started again on the same day, every order that reached the order file is known after the first order synchronisation (part of start-up) with its code, quantity, direction and price, and shows the same state as if the process had never died. "
     "The saved order data is readable after a crash at any point; orders saved before stay known. A request made after the restart appears in the day's file as one intact line, whatever half line the dead process left there; a request that meets a full disk is written whole or refused with nothing written.",
     ["crash_points", "histories"],
     "all crash points at system-call granularity (including torn writes) during submissions, synchronisations and start-up, and all histories before them",
     "no test persists, crashes or restarts anything",
     [ACC + "trade_gate.py", ACC + "account.py"],
     [("_save_orders: write to a temporary file, then rename", ACC + "trade_gate.py"), ("_load_orders", ACC + "trade_gate.py"), ("order: save and submit sequence", ACC + "trade_gate.py")],
     [("saved orders", "the strategy's orders of the day on disk", ACC + "trade_gate.py")],
     ["get_orders results after a restart", "contents of the order file"])

prop("C16", "A process that runs past midnight keeps working on the new day",
     "When a process stays up across days, each day's orders and cancels go to that day's files and each day's update, result, asset and position files are read from their beginning, so that all of C13, C14 and C17 hold on every day. "
     "A restart on a later day knows the orders submitted on that day.",
     ["histories", "schedules"],
     "all sequences of submissions, broker updates, synchronisations and restarts over several days",
     "no test lets the date change under the built-in gate",
     [ACC + "trade_gate.py"],
     [("date-stamped file names", ACC + "trade_gate.py"), ("read offsets and order cache per day", ACC + "trade_gate.py")],
     [("current day", "the day whose files are open", ACC + "trade_gate.py")],
     ["files in the order directory", "get_orders results"])

prop("C17", "Cash and positions come only from complete balance files of the account",
     "With the built-in gate the cash and the positions shown always come from one complete version each of the asset file and the position file, and only from the rows of the strategy's account; holdings with zero quantity are left out. "
     "A file that is empty or still being written is read again up to the configured number of retries; if it is missing or never becomes complete, or lacks the account's total, the portfolio stays as it was.",
     ["schedules", "inputs", "fault_sequences"],
     "all interleavings of the terminal's rewriting of the files (cut at any row) with read attempts, all retry settings and account mixes",
     "no test feeds the built-in gate balance files",
     [ACC + "trade_gate.py", "jqtrade/common/utils.py", ACC + "account.py"],
     [("AnXinDMATradeGate.sync_balance/_read_csv completeness test", ACC + "trade_gate.py"), ("simple_retry", "jqtrade/common/utils.py")],
     [], ["context.portfolio", "number of read attempts"])

prop("C18", "Task names are unique and stop requests hit exactly the named tasks",
     "A strategy does not start while another live task has the same name, and starts whenever none has, whatever form its own and the others' command-line options were written in. "
     "Listing shows exactly the live tasks; stopping by name, by process id or all signals exactly the matching tasks once, with a termination signal or, when forced, a kill, and never any other process.",
     ["configurations", "histories"],
     "all process tables: tasks, wrapper parents, unrelated and vanishing processes, option spellings, and all stop and start requests",
     "tests parse two fixed command lines",
     ["jqtrade/__main__.py", SCH + "runner.py", SCH + "utils.py"],
     [("get_activate_task_process", SCH + "utils.py"), ("parse_task_info", SCH + "utils.py"), ("_exist_repeated_task", SCH + "runner.py"), ("stop_task", "jqtrade/__main__.py")],
     [("process table", "live processes and their command lines", SCH + "utils.py")],
     ["signals sent", "start accepted or refused", "printed task list"])

prop("C19", "Start options, environment and custom configuration take effect as written",
     "The strategy that runs is that of the very file given at start, whatever its name; a code or configuration file that is missing or fails refuses the start. "
     "Every SCHEDULER_ and ACCOUNT_ setting of a custom configuration file replaces the default of exactly that name and nothing else changes; options set by the strategy take precedence over it. "
     "Environment assignments given at start are in place, with their full value, before the strategy code loads, and the directories of a given PYTHONPATH are searched before all others but the strategy's own, in the given order. "
     "Printed text goes to the log file given at start unless the call names a file, and to standard output otherwise.",
     ["configurations", "inputs"],
     "all strategy file names, configuration files, option sets, environment strings and print calls",
     "no test loads a configuration file, sets an environment or redirects output",
     [SCH + "config.py", ACC + "config.py", SCH + "runner.py", SCH + "utils.py", SCH + "strategy.py", SCH + "api.py"],
     [("setup_scheduler_config / setup_account_config", SCH + "config.py"), ("parse_env", SCH + "utils.py"), ("strategy_print", SCH + "api.py")],
     [], ["settings in effect", "os.environ and sys.path seen by the strategy", "log file contents"])

prop("C20", "Event delivery is loss-free, ordered and isolated by subscription",
     "Every message put on the event queue, by any thread, is taken off exactly once and always the one with the earliest time, then the highest priority, then the one created first. "
     "An emitted event is delivered once to every callback subscribed to its class or a base class of it, by descending priority and subscription order, and to no callback that was unsubscribed or subscribed to other classes.",
     ["schedules", "histories"],
     "all histories of pushes, pops, subscriptions, unsubscriptions and emissions, with concurrent producers",
     "tests check one fixed history and, for threads, only that nothing crashes",
     [SCH + "queue.py", SCH + "bus.py", SCH + "message.py", SCH + "event.py"],
     [("PriorityQueue/ThreadSafeQueue", SCH + "queue.py"), ("EventBus", SCH + "bus.py"), ("Message.sort_key", SCH + "message.py")],
     [("heap", "pending messages", SCH + "queue.py"), ("subscriptions", "callbacks per event class and priority", SCH + "bus.py")],
     ["return values of queue and bus operations"])

prop("C21", "Retried operations are attempted a bounded number of times",
     "A retried operation is called again only after a failure that is eligible for retry, at most the configured number of extra times and with the configured pause before each extra attempt; its first success is returned at once with its value, and otherwise the last failure is raised unchanged.",
     ["fault_sequences", "configurations"],
     "all outcome sequences, retry limits and eligibility predicates",
     "the test fixes one always-failing function",
     ["jqtrade/common/utils.py"],
     [("simple_retry", "jqtrade/common/utils.py")],
     [], ["calls of the wrapped function", "pauses", "result"])

prop("C22", "What a strategy logs and prints is kept, once and in order",
     "Each message the strategy logs at level INFO or above - DEBUG too when started with --debug - and each text it prints without naming a file is found exactly once and in the order of the calls "
     "in the log file given at start, or else in standard output, from the moment the call returns: also when the process is killed right then. "
     "Each logged line names the level, the process and the time of its call. What earlier runs or other programs have written to the log file, before or meanwhile, stays there.",
     ["histories", "crash_points", "configurations"],
     "all histories of runs with and without log file and --debug, all calls, all points at which the process dies, all other writers of the log file",
     "no test looks at a log file, let alone after a death or a restart",
     ["jqtrade/common/log.py", SCH + "runner.py", SCH + "api.py"],
     [("setup_logger/setup_file_logger", "jqtrade/common/log.py"), ("strategy_print", SCH + "api.py"), ("TaskRunner.__init__", SCH + "runner.py")],
     [("log file", "text of all runs", SCH + "runner.py")],
     ["contents of the log file and of standard output"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
