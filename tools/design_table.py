#!/usr/bin/env python3
"""prints the per-property table of DESIGN.md from the evidence of the last runs"""
import glob, json
print("| property | functions under contract | proved | obligations | wall s (quick) |\n|---|---|---|---|---|")
for f in sorted(glob.glob(__file__.rsplit('/', 2)[0] + '/evidence/*.json')):
    d = json.load(open(f)); c = d['coverage']
    print(f"| {d['property']} | {c['functions_under_contract']} | {c['functions_proved']} | {c['obligations']} | {d['wall_s']:.0f} |")
