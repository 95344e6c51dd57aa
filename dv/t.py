import sys, importlib
sys.path.insert(0,'/verif/dv')
import api
for m in sys.argv[1].split(','): importlib.import_module('contracts.'+m)
sel=sys.argv[2:]
for it in api.REG:
    if sel and not any(s in it[1]+'::'+it[2] for s in sel): continue
    r=api.run_contract(it)
    print(it[1],it[2],f"{r['wall_s']:.2f}s z3={r['nz3']} paths={r['paths']} inl={r['inlined']}")
    for o in r['obs']: print('   ',o['status'][:4],o['id'].split('::',1)[1],o['detail'])
