import json,sys
def put(id,tech,note,na=None):
    p='/verif/tools/notes.json'
    n=json.load(open(p)); n[id]={"technique":tech,"note":note}
    if na: n[id]["na"]=na
    json.dump(n,open(p,'w'),indent=0)
