"""Writes /verif/seeded/<id>/ from seeds.py: patch.diff, meta.json, demo.sh and the demonstration's files."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = '/verif/seeded'
def mk(s):
    subprocess.run(['git', '-C', '/repo', 'diff', '--quiet'], check=True)
    d = f'{OUT}/{s["id"]}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f, old, new, *nth in s['edits']:
        p = f'/repo/{f}'; t = open(p).read(); n = nth[0] if nth else None
        if n is None: assert t.count(old) == 1, (s['id'], f, t.count(old), old); i = t.index(old)
        else:
            i = -1
            for _ in range(n + 1): i = t.index(old, i + 1)
        open(p, 'w').write(t[:i] + new + t[i + len(old):])
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    if s.get('client'):
        shutil.copy(f'{HERE}/demo_client.sh', f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh', 0o755); shutil.copy(f'{HERE}/client.js', d)
        open(f'{d}/main.js', 'w').write("const { load, same } = require('./client.js')\nprocess.on('unhandledRejection', e => { console.log(e); process.exit(1) })\n;(async () => {\n" + s['demo'].strip('\n') + '\n})()\n')
        return
    if s.get('vft'):
        shutil.copy(f'{HERE}/demo_vft.sh', f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh', 0o755)
        for f in ['gstd.rs', 'sails_rs.rs', 'vft_service.rs']: shutil.copy(f'{HERE}/vft/{f}', d)
        open(f'{d}/main.rs', 'w').write("mod services;\nuse gstd::msg::set_source as by;\nuse sails_rs::prelude::*;\nuse services::extended_vft::ExtendedService;\nfn refused(f: impl FnOnce()) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }\nfn main() {\n    by(1);\n    let mut t = ExtendedService::seed(\"N\".into(), \"S\".into(), 12);\n" + s['demo'].strip('\n') + '\n}\n')
        return
    sdk = s.get('sdk')
    shutil.copy(f'{HERE}/demo_sdk.sh' if sdk else f'{HERE}/demo.sh', f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh', 0o755)
    if not sdk: shutil.copy(f'{HERE}/help.rs', d)
    if s.get('held'): shutil.copy(f'{HERE}/token.rs', d)
    head = 'use decimal::*;\nuse invariant_vara_wasm::{*, fee_growth::*, liquidity::*, percentage::*, sqrt_price::*, token_amount::*};\n' if sdk else 'mod help;\nuse help::*;\n'
    open(f'{d}/main.rs', 'w').write(head + 'fn main() {\n' + s['demo'].strip('\n') + '\n}\n')
ids = sys.argv[1:]
for s in SEEDS:
    if not ids or s['id'] in ids: mk(s); print(s['id'])
