PROPERTY = "C17"
EDITS = [("jqtrade/account/trade_gate.py", """            if _pos.acct != acct_no:
                continue
""", """            if not str(_pos.acct).startswith(acct_no):
                continue
""")]
NEEDS = "another account in the terminal whose number begins with the strategy's account number"
BREAKS = "the other account's holdings are shown as the strategy's own"
# --- demo
gate, files, run = dma()
put(os.path.join(files, "assetInfo_%s.csv" % day()), "acct,exchange,totalAsset,enabledBalance,currentBalance\n10086,,100,50,60\n100861,,1,1,1\n,,,,\n")
put(os.path.join(files, "positionInfo_%s.csv" % day()), "acct,symbol,currentQty,enabledQty,costPrice,lastPrice,mktValue\n"
    "10086,000001.SZ,100,100,10,10,1000\n100861,000002.SZ,100,100,10,10,1000\n,,,,,,\n")
got = [p["code"] for p in gate.sync_balance()["positions"]]
check(got == ["000001.XSHE"], "holdings shown: %s" % got)
