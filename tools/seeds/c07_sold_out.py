PROPERTY = "C07"
EDITS = [("jqtrade/account/portfolio.py", """        for _code, _pos in self.__account.long_positions.items():
            positions[_code] = UserPosition(_pos)
        return positions

    positions = long_positions""", """        for _code, _pos in self.__account.long_positions.items():
            if _pos.amount:
                positions[_code] = UserPosition(_pos)
        return positions

    positions = long_positions""")]
NEEDS = "a report with a position of quantity zero, as brokers show for a holding sold off today"
BREAKS = "a reported position is missing from the portfolio, and its value from the aggregate"
# --- demo
rows = [dict(code="000001.XSHE", amount=0, available_amount=0, avg_cost=1.5, side="long", last_price=2.0, position_value=30.0),
        dict(code="000002.XSHE", amount=300, available_amount=200, avg_cost=2.0, side="long", last_price=2.0, position_value=600.0)]
gate = types.SimpleNamespace(sync_balance=lambda: {"cash": {"total_asset": 1, "available_cash": 1, "locked_cash": 0}, "positions": [dict(r) for r in rows]})
ctx = account(gate)
ctx.account.sync_balance()
p = ctx.portfolio
check(sorted(p.long_positions) == ["000001.XSHE", "000002.XSHE"], "long positions %s" % p.long_positions)
check(p.position_value == 630.0, "position value %s" % p.position_value)
