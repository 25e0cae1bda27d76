"""debug: print the extracted IR of functions matching a regex in the most recent dump"""
import json,glob,os,sys,re
f=max(glob.glob('/tmp/nikverif-cache/js/*.json'),key=os.path.getmtime)
m=json.load(open(f))
for n,F in m['functions'].items():
    if re.search(sys.argv[1],n):
        print(F['dem'])
        for b in F['blocks']:
            print('B',b['id'],'loop',b['loop'])
            for i in b['ins']: print('   ',i['id'],i['op'],i['ty'],m['dem'].get(i.get('callee',''),i.get('callee',''))[:70],json.dumps(i.get('gep')or i['ops'])[:170],i.get('succ',''),i.get('pred',''))
