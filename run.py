"""Entry point: /opt/venv/bin/python run.py C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import glob
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.selftest:
        import eccodes, netCDF4, numpy, osgeo, scipy  # noqa: what the harness needs
        from mc import core, fixtures, ref  # noqa
        print('ready')
        return 0
    f = glob.glob(os.path.join(HERE, 'mc', 'props', a.property.lower() + '_*.py'))
    if len(f) != 1:
        print('no check for', a.property)
        return 3
    from mc import core
    only = [json.load(open(a.replay))['case']] if a.replay else None
    core.explore('mc.props.' + os.path.basename(f[0])[:-3], a.tier if a.tier in ('quick', 'thorough') else 'quick',
                 int(os.environ.get('VERIF_SEED', '1') or 1), only=only)


if __name__ == '__main__':
    sys.exit(main())
