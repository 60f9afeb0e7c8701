import sys,subprocess,json,os
sys.path.insert(0,'/verif/tools')
from sub import sub
def bug(id,prop,needs,breaks,edits,main):
    for f,a,b in edits: sub('/tmp/wt/'+f,a,b)
    subprocess.check_call(['bash','/verif/tools/demo/mk.sh',id])
    d='/verif/seeded/'+id
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/main.rs','w').write(main)
