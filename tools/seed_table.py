# prints the table of DESIGN.md section 6: seed_table.py OBL.out  (lines "ID rc=.. ..s N contracts, M failed, ..")
import json,sys,glob,os,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded')
obl={}
for l in open(sys.argv[1]):
    m=re.match(r'(\S+) rc=(\d+) (\d+)s ?(?:(\d+) contracts, (\d+) failed)?',l)
    if m: obl[m[1]]='no answer in %s s'%m[3] if m[2]=='124' else ('%s contracts'%m[5] if m[5] and m[5]!='0' else 'none')
print('| change | needs | contracts not accepted |')
print('|---|---|---|')
for d in sorted(glob.glob(root+'/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); j=json.load(open(d))
    print('| %s | %s | %s |'%(i,j['needs'].replace('|','\\|'),obl.get(i,'not measured')))
