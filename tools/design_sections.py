import json,glob,os,re
p='/verif/DESIGN.md'; s=open(p).read()
fix=[l.split(' ',3) for l in open('/verif/known-findings.txt') if l.startswith('fixed:')]
a='''## 4. What was found in the code

Each of these was reported by the check of the property on the tree as given, confirmed against the real code by replaying the
recorded path or input, and repaired by one small commit (`known-findings.txt` has the same list; no finding is left open):

| property | commit | what failed |
|---|---|---|
'''
for f in fix: a+=f'| {f[1].split("=")[1]} | {f[2]} | {f[3].strip()} |\n'
a+='''
## 5. False alarms corrected

* A02: accuracy of tick prices is bounded by 2e-12 absolute or 5e-9 relative (24 decimals of a tiny price cannot be closer).
* A03: in the pool's favour a next price may be off by one unit of its 24th decimal, i.e. the amounts by that times the liquidity; the
  fee must reach the exact rate only where the target is reached or the output is exact.
* A04: a liquidity is required to be found only where the allowed one is below 2^120.
* bank: native deposits beyond what a u128 total can hold are not sent by the harness (no chain has them).
* E03 compares only where the contract's formula has a value.
* E04: `swapWithSlippage` at exactly the foreseen price is judged by success only. E05: empty chunks of a tick map and empty
  pages are ignored. E06: an index of a crossed tick may be a number or a bigint; a new fee tier at exactly 100 % and `isTokenX` of
  equal addresses are not judged; the scale of seconds per liquidity is the contract's 25.

## 6. Planted bugs and mutation testing

`seeded/` holds %d planted bugs, each verified: it applies, builds, passes the stable tests, its demo passes on the base and fails
with it. All were written from the property's text and are caught by the quick check of their own property:

| bug | needs |
|---|---|
'''
ids=sorted(os.path.basename(d) for d in glob.glob('/verif/seeded/*'))
a=a.replace('%d planted',f'{len(ids)} planted')
for i in ids: a+=f"| {i} | {json.load(open(f'/verif/seeded/{i}/meta.json'))['needs']} |\n"
a+='''
Misses along the way and what was added: C08 (quotes with a limit; the quote's last tick) → `quote_at_edges`; C04 exact stops →
sweep and edges; C13 page index → page sizes around 2^8 and 2^16; D03 halves → `mixed`; D05 other service → answers of every kind;
C02 full fee → `params`; E05 pages overtaking → `$all`.

Mutation campaign (one-line mutants of the non-test code: flipped comparisons, operators, constants, swapped names, dropped conditions
and statements; each built and run against the quick checks):
MUTRESULTS
'''
i=s.index('## 4. What was found') if '## 4. What was found' in s else s.index('MUTTABLE')
j=s.index('## 7. Limits')
old=s[i:j]
mr=re.search(r'MUTATION RESULTS BEGIN.*MUTATION RESULTS END\n',old,re.S)
s=s[:i]+a.replace('MUTRESULTS',open('/verif/tools/mutation.md').read().strip() if os.path.exists('/verif/tools/mutation.md') else '(see below)')+'\n'+s[j:]
open(p,'w').write(s)
