PROPERTY = "C16"
EDITS = [("jqtrade/account/trade_gate.py", "        return Context.get_instance().current_dt.date()\n", """        # 夜间（20点以后）的委托属于下一个交易日
        return (Context.get_instance().current_dt + datetime.timedelta(hours=4)).date()
""")]
NEEDS = "an order placed in the late evening"
BREAKS = "the order goes to the files of the next day"
# --- demo
loop = Loop(datetime.datetime(2026, 3, 2, 10, 0))
gate, files, run = dma(loop)
gate.order(sys_order("1"))
loop.current = datetime.datetime(2026, 3, 2, 22, 30)
gate.order(sys_order("2"))
names = sorted(f for f in os.listdir(files) if f.startswith("algoOrder_"))
check(names == ["algoOrder_20260302.csv"], "order files %s" % names)
