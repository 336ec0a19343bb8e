PROPERTY = "C19"
EDITS = [("jqtrade/account/config.py", """    config.__dict__.update(custom_config)
""", """    for _name, _value in custom_config.items():
        if type(_value) is type(getattr(config, _name, _value)):
            setattr(config, _name, _value)
        else:
            print(f"ACCOUNT_{_name}的类型与默认值不一致，忽略该配置: {_value}")
""")]
NEEDS = "an account setting of the configuration file of another type than the default's: a fraction of a second, a tuple of periods, or None to go without a trade gate"
BREAKS = "the setting is ignored and the default stays in effect"
# --- demo
code = '''
def process_initialize(context):
    set_options(use_account=False)

'''
d = scratch()
cfg = os.path.join(d, "conf.py")
with open(cfg, "w") as f:
    f.write("import datetime\nACCOUNT_SYNC_INTERNAL = 2.5\nACCOUNT_SYNC_PERIOD = ((datetime.time(9, 30), datetime.time(11, 30)),)\nACCOUNT_SYNC_ORDER = False\n")
from jqtrade.account import config as c
c.setup_account_config(cfg)
got = c.get_config()
check(got.SYNC_ORDER is False, "SYNC_ORDER: %r" % got.SYNC_ORDER)
check(got.SYNC_INTERNAL == 2.5, "SYNC_INTERNAL: %r" % got.SYNC_INTERNAL)
check(got.SYNC_PERIOD == ((datetime.time(9, 30), datetime.time(11, 30)),), "SYNC_PERIOD: %r" % (got.SYNC_PERIOD,))
