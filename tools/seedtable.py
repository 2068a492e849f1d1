"""print the catch table of the planted bugs (markdown)"""
import json, os, re
V = '/verif/seeded'
print('| bug | property / check that catches it | file | needs |\n|---|---|---|---|')
for d in sorted(os.listdir(V)):
    m = json.load(open(f'{V}/{d}/meta.json'))
    f = re.findall(r'^\+\+\+ b/(\S+)', open(f'{V}/{d}/patch.diff').read(), re.M)
    print(f"| {d} | {m['property']} | {', '.join(x.replace('coax/', '') for x in f)} | {m['needs']} |")
