#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import *


def main():
    prop = sys.argv[1]
    import c_diff, c_parse, c_fault, c_source, c_cli, c_calls, c_table, c_object, c_reader
    checks = {'C01': c_diff.run_pairs, 'C02': c_diff.run_pairs, 'C03': c_diff.run_pairs, 'C05': c_diff.run_pairs,
              'C04': c_diff.run_C04, 'C12': c_diff.run_C12, 'C13': c_fault.run_C13,
              'C14': c_source.run_C14, 'C15': c_source.run_C15, 'C17': c_cli.run_C17, 'C11': c_calls.run_C11,
              'C18': c_table.run_C18, 'C19': c_object.run_C19, 'C20': c_reader.run_C20}
    for k in ('C06', 'C07', 'C08', 'C09', 'C10', 'C16'):
        checks[k] = getattr(c_parse, 'run_' + k)
    c = Check(prop)
    try:
        checks[prop](c)
        return c.finish()
    except CheckError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.cleanup()


if __name__ == '__main__':
    sys.exit(main())
