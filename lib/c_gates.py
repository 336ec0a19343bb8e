"""Trade gates used by the conformance drivers (children side)."""
import rt
from jqtrade.account.trade_gate import AbsTradeGate
from jqtrade.scheduler.context import Context

PLAN = {}
COUNT = {"sb": 0, "so": 0}


def _when():
    try:
        return rt.rel(Context.get_instance().strategy_dt)
    except Exception:
        return -999999999, 0


class RecGate(AbsTradeGate):
    """records every call with its virtual time; fails and takes time as planned"""

    def setup(self, options):
        rt.emit(e="gsetup")

    def _sync(self, kind, result):
        COUNT[kind] += 1
        n = COUNT[kind]
        w, wm = rt.now()
        s, sm = _when()
        durs = PLAN.get(kind + "_durs") or [0]
        rt.emit(e="g0")
        rt.advance_ms(durs[(n - 1) % len(durs)])
        fails = PLAN.get(kind + "_fails") or []
        bad = fails == "all" or n in fails
        x, xm = rt.now()
        rt.emit(e=kind, s=s, sm=sm, w=w, wm=wm, x=x, xm=xm, bad=bad)
        if bad:
            raise RuntimeError("gate down") if n % 2 else KeyError("gate")
        return result

    def sync_balance(self):
        return self._sync("sb", {"cash": {"total_asset": 1, "total_assert": 1, "available_cash": 1, "locked_cash": 0}, "positions": []})

    def sync_orders(self):
        return self._sync("so", [])

    def order(self, o):
        rt.emit(e="gorder", code=o.code)

    def cancel_order(self, oid):
        rt.emit(e="gcancel", id=oid)
