PROPERTY = "C10"
EDITS = [("jqtrade/account/api.py", """            _order_id = order(_code, _amount, _style, _side)
        except Exception as e:
""", """            _order_id = order(_code, _amount, _style, _side)
        except InvalidParam as e:
""")]
NEEDS = "a batch with an entry whose code is not text"
BREAKS = "the malformed entry raises out of the batch, the entries behind it are not submitted and no ids are returned"
# --- demo
seen = []
ctx = account(types.SimpleNamespace(order=lambda o: seen.append(o.code)))
from jqtrade.account import api
try:
    ids = api.batch_submit_orders([dict(code="000001.XSHE", amount=100), dict(code=2, amount=100), dict(code="000003.XSHE", amount=100)])
except Exception as e:
    check(False, "the batch raised %r, submitted so far: %s" % (e, seen))
check([bool(i) for i in ids] == [True, False, True] and seen == ["000001.XSHE", "000003.XSHE"], "ids %s, submitted %s" % (ids, seen))
