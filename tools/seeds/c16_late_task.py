PROPERTY = "C16"
EDITS = [("jqtrade/account/trade_gate.py", "        return Context.get_instance().current_dt.date()\n", """        ctx = Context.get_instance()
        return (ctx.strategy_dt or ctx.current_dt).date()
""")]
NEEDS = "a task of the evening that runs late, after midnight, and places an order"
BREAKS = "the order goes to the files of the day before"
# --- demo
loop = Loop(datetime.datetime(2026, 3, 2, 23, 58), datetime.datetime(2026, 3, 2, 23, 58))
gate, files, run = dma(loop)
gate.order(sys_order("1"))
loop.current = datetime.datetime(2026, 3, 3, 0, 0, 5)
loop.strategy_dt = datetime.datetime(2026, 3, 2, 23, 59)
gate.order(sys_order("2"))
names = sorted(f for f in os.listdir(files) if f.startswith("algoOrder_"))
check(names == ["algoOrder_20260302.csv", "algoOrder_20260303.csv"], "order files %s" % names)
