import sys
sys.path.insert(0,'/verif')
from xsa.frontend import load
def main():
    j=load(sys.argv[1]); pat=sys.argv[2]
    T=j['types']
    by={b['id']:b for b in j['bodies']}
    def ty(i):
        t=T[i]; return t.get('s') or t['k']
    def pl(p):
        s='_%d'%p[0]
        for e in p[1]:
            if e[0]=='*': s='(*%s)'%s
            elif e[0]=='f': s+='.%d'%e[1]
            elif e[0]=='v': s+=' as %s'%e[2]
            elif e[0]=='i': s+='[_%d]'%e[1]
            else: s+=str(e)
        return s
    def op(o):
        if o[0] in('cp','mv'): return pl(o[1])
        if o[0]=='k':
            c=o[1]
            if 'fn' in c: return 'FN %s [%s b=%s]'%(c['fn'].get('rp') or c['fn']['p'],','.join(ty(x) for x in c['fn'].get('args',[])),c['fn'].get('b'))
            return str({k:v for k,v in c.items() if k!='t'})+(':'+ty(c['t']) if 't' in c else '')
        return str(o)
    def rv(r):
        if r[0]=='use': return op(r[1])
        if r[0]=='ref': return ('&mut ' if r[1] else '&')+pl(r[2])
        if r[0]=='raw': return '&raw '+pl(r[1])
        if r[0]=='cast': return '%s as %s (%s)'%(op(r[2]),ty(r[4]),r[1])
        if r[0]=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
        if r[0]=='un': return '%s(%s)'%(r[1],op(r[2]))
        if r[0]=='disc': return 'disc(%s)'%pl(r[1])
        if r[0]=='agg': return '%s(%s)'%(r[1] if r[1][0] not in('adt','closure') else (ty(r[1][1]),r[1][2:]),', '.join(op(x) for x in r[2]))
        return str(r)
    n=0
    for b in j['bodies']:
        if pat in b['path'] or pat==str(b['id']):
            n+=1
            if n>int(sys.argv[3]) if len(sys.argv)>3 else n>1: break
            print('BODY',b['id'],b['kind'],b['path'],[ty(x) for x in b['args']],'argc',b['argc'])
            for i,t in enumerate(b['locals']): print('   _%d: %s'%(i,ty(t)), [nm[0] for nm in b['names'] if nm[1][0]==i and not nm[1][1]] or '')
            for i,bl in enumerate(b['blocks']):
                if bl['c']: continue
                print('  bb%d:'%i)
                for s in bl['s']:
                    print('     ',pl(s[1])+' = '+rv(s[2]) if s[0]=='=' else s)
                t=bl['t']
                if t[0]=='call': print('      ',pl(t[3]),'= CALL',op(t[1]),'(',', '.join(op(x) for x in t[2]),') ->',t[4])
                elif t[0]=='switch': print('      switch',op(t[1]),t[3],t[4])
                elif t[0]=='assert': print('      assert',op(t[1]),t[2],t[3],t[4])
                else: print('      ',t)
main()
