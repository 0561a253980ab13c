"""Run every analysis of the named modules once and print all violations (development aid)."""
import os, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import runner
mods = sys.argv[1].split(',')
res = runner.Result()
with tempfile.TemporaryDirectory() as tmp:
    for m in mods:
        mod = __import__('mod_' + m)
        try:
            mod.run(None, 'thorough', tmp, res)
        except Exception as e:
            print('E', mod.__name__, type(e).__name__, str(e).replace('\n', ' ')[-700:])
for v in res.violations:
    print('V', ','.join(v.props), v.rule, '|', v.entry, '|', v.where, '|', v.msg)
for ps, t in res.errors:
    print('E', t.replace('\n', ' ')[-500:])
