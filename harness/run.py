"""Entry point: python3 harness/run.py <property> [quick|thorough]"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else common.TIER
    ctx = common.Ctx(prop, tier)
    importlib.import_module("check_" + prop.lower()).run(ctx)
    return ctx.finish()

common.main_guard(main)
