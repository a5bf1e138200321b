#!/usr/bin/env python3
"""Writes analyzer/vp/published.json from the current tree; run once, by hand, for the forms that are on chain."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'analyzer'))
from vp import forms as F
from vp.report import Report
got = {k: {n: f for n, (f, _) in sorted(d.items())} for k, d in F.chain_forms(F.World(Report('R24'))).items()}
got['asset'] = {n: f for n, (f, _) in F.asset_forms().items()}
got['version'] = {'spec_name': 'kreivo-parachain', 'authoring_version': 1, 'spec_version': 114, 'transaction_version': 9, 'state_version': 1}
json.dump(got, open(F.PUBLISHED, 'w'), indent=1)
print({k: len(d) for k, d in got.items()})
