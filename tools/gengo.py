out=['package vsched','','// Code written by tools/gengo.py; DO NOT EDIT.','','// GnRm and GVnRm give a function that starts f in a goroutine, with arguments evaluated by the','// caller, for f with n fixed parameters and m results; GV is for variadic f.','']
for v in (0,1):
    for n in range(0,9):
        for m in range(0,4):
            ts=['A%d'%i for i in range(n)]
            params=list(ts); decl=['a%d A%d'%(i,i) for i in range(n)]; args=['a%d'%i for i in range(n)]
            tp=list(ts)
            if v: params.append('...B'); decl.append('b ...B'); args.append('b...'); tp.append('B')
            rs=['R%d'%i for i in range(m)]
            tp+=rs
            res='' if m==0 else ' '+rs[0] if m==1 else ' ('+', '.join(rs)+')'
            name='G%s%dR%d'%('V' if v else '',n,m)
            t='[%s any]'%', '.join(tp) if tp else ''
            out.append('func %s%s(f func(%s)%s) func(%s) {'%(name,t,', '.join(params),res,', '.join(params)))
            out.append('\treturn func(%s) { Go(func() { f(%s) }) }'%(', '.join(decl),', '.join(args)))
            out.append('}');out.append('')
open('/verif/mc/vsched/gostmt.go','w').write('\n'.join(out))
