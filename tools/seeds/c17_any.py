PROPERTY = "C17"
EDITS = [("jqtrade/account/trade_gate.py", """        if not df.loc[len(df)-1].isna().all():
""", """        if not df.loc[len(df)-1].isna().any():
""")]
NEEDS = "a balance file read while the terminal has written it just up to a row with an empty cell, such as an account's total"
BREAKS = "the incomplete file is taken for complete, and the holdings not written yet vanish from the portfolio"
# --- demo
gate, files, run = dma(sync_retry_kwargs={"max_attempts": 0, "attempt_internal": 0.01})
put(os.path.join(files, "assetInfo_%s.csv" % day()), "acct,exchange,totalAsset,enabledBalance,currentBalance\n10086,,100,50,60\n,,,,\n")
head = "acct,symbol,currentQty,enabledQty,costPrice,lastPrice,mktValue,note\n"
path = os.path.join(files, "positionInfo_%s.csv" % day())
put(path, head + "10086,000001.SZ,100,100,10,10,1000,\n")      # the rest is still to be written
try:
    got = gate.sync_balance()
except Exception:
    got = None
check(got is None, "the incomplete file was taken for complete: %s" % got)
put(path, head + "10086,000001.SZ,100,100,10,10,1000,\n10086,000002.SZ,200,100,10,10,1000,x\n,,,,,,,\n")
got = [p["code"] for p in gate.sync_balance()["positions"]]
check(got == ["000001.XSHE", "000002.XSHE"], "holdings shown: %s" % got)
