PROPERTY = "C07"
EDITS = [("jqtrade/account/account.py", """                if _pos.side == OrderSide.long:
                    long""", """                if _pos.code not in short_positions and _pos.side == OrderSide.long:
                    long""")]
NEEDS = "one security held long and short at once, the short holding reported first"
BREAKS = "the long holding is missing and the short one is replaced by it"
# --- demo
rows = [dict(code="000001.XSHE", amount=100, available_amount=100, avg_cost=1.0, side="short", last_price=1.0, position_value=100.0),
        dict(code="000001.XSHE", amount=300, available_amount=200, avg_cost=2.0, side="long", last_price=2.0, position_value=600.0)]
for report in (rows, rows[::-1]):
    gate = types.SimpleNamespace(sync_balance=lambda: {"cash": {"total_asset": 1, "available_cash": 1, "locked_cash": 0}, "positions": [dict(r) for r in report]})
    ctx = account(gate)
    ctx.account.sync_balance()
    p = ctx.portfolio
    check({k: v.total_amount for k, v in p.long_positions.items()} == {"000001.XSHE": 300}, "long positions %s" % p.long_positions)
    check({k: v.total_amount for k, v in p.short_positions.items()} == {"000001.XSHE": 100}, "short positions %s" % p.short_positions)
