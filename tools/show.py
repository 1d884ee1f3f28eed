import json,sys,re,subprocess
r=json.load(open(sys.argv[1]))
def s(t):
    if t['i']>=0: return str(t['i'])
    return '(%s%s %s)'%(t['l'],'{%d}'%t['hd'] if t.get('hd',-1)>=0 else '',' '.join(map(s,t['k'])))
def w(o):
    if isinstance(o,dict):
        if set(o)>={'l','i','k'}: return s(o)
        return {k:w(v) for k,v in o.items()}
    if isinstance(o,list): return [w(a) for a in o]
    return o
print(r['clauses']); print(json.dumps(w(r['record']),indent=1))
