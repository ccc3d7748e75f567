"""property id -> module deciding it"""
import os
import re

_HERE = os.path.dirname(os.path.abspath(__file__))
CHECKS = {}
for _f in sorted(os.listdir(os.path.join(_HERE, 'checks'))):
    _m = re.match(r'^c(\d+)_\w+\.py$', _f)
    if _m:
        CHECKS['C' + _m.group(1)] = 'pbt.checks.' + _f[:-3]
