PROPERTY = "C10"
EDITS = [("jqtrade/account/api.py", """    for _order_info in orders:
        _code = _order_info.get("code")
        _amount = _order_info.get("amount")
        _style = _order_info.get("style")
        _side = _order_info.get("side")
""", """    _style = _side = None
    for _order_info in orders:
        _code = _order_info.get("code")
        _amount = _order_info.get("amount")
        _style = _order_info.get("style", _style)
        _side = _order_info.get("side", _side)
""")]
NEEDS = "a batch in which an entry without a style or side follows one that has them"
BREAKS = "the entry is submitted with the price style or side of the one before"
# --- demo
got = []
ctx = account(types.SimpleNamespace(order=got.append))
from jqtrade.account import api
ids = api.batch_submit_orders([{"code": "000001.XSHE", "amount": 100, "style": api.LimitOrderStyle(9.5)}, {"code": "600000.XSHG", "amount": 200}])
check(len(ids) == 2 and all(ids) and len(got) == 2, "the batch gave %s" % ids)
check(got[0].style.value == "limit" and got[0].price == 9.5, "the first order has style %s price %s" % (got[0].style.value, got[0].price))
check(got[1].style.value == "market", "the second order, without a style, was submitted as %s at %s" % (got[1].style.value, got[1].price))
