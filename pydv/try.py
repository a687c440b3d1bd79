import sys, importlib, json, time
sys.path.insert(0, '/verif')
from pydv.verify import verify_contract
import threading
threading.stack_size(512*1024*1024)
def main():
    m = importlib.import_module('contracts.' + sys.argv[1])
    names = sys.argv[2:]
    for c in m.CONTRACTS:
        if names and c.__class__.__name__ not in names: continue
        t=time.time()
        r = verify_contract(c)
        print('==', r['contract'], r['status'], r.get('why',''), 'proof_s', r['proof_s'], 'bmc_s', r['bmc_s'])
        if r['status']!='proved':
            for o in r.get('proof',{}).get('obligations',[]):
                if o['result']!='proved': print('   ', o['result'], o['name'], o['where'], o['reason'], o['secs'])
            print('   bmc', {k:v for k,v in r.get('bmc',{}).items() if k!='refuted'})
            for o in r.get('bmc',{}).get('refuted',[]): print('    R', o['name'], o['where'])
            if 'trace' in r: print(r['trace'][-700:])
        else:
            print('   ', len(r['proof']['obligations']), 'obligations', r['proof']['solver_s'],'s', 'paths', r['proof']['paths'], r.get('bmc',{}).get('cover'))
t=threading.Thread(target=main); t.start(); t.join()
