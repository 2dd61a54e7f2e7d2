# Generates harness/h/tags.go: combinations and orders of field-tag words.
import itertools,subprocess
T=[]
def add(raw,big=False,opt=0,skip=False):
    if all(raw!=t[0] for t in T): T.append((raw,big,opt,skip))
U=["foo","bigger","opt","Big","sizeofX","_","OPTIONAL"]
n=0
for o in [None,"big","little"]:
  for q in [None,"optional","option","coption"]:
    for s in [None,"-","skip"]:
      for u in [None]+U:
        w=[x for x in (o,q,s,u) if x]
        if len(w)<2 and u is None: continue
        if u and len(w)>3: continue
        if u and len(w)==3 and (U.index(u)+n)%3: n+=1; continue
        n+=1
        for p in itertools.permutations(w):
            add('bin:"%s"'%" ".join(p),o=="big",2 if q=="coption" else 1 if q else 0,bool(s))
for raw,b,o,s in [('json:"x" bin:"big"',1,0,0),('bin:"big" json:"optional"',1,0,0),('json:"big,omitempty"',0,0,0),('bin:"big" borsh_skip:"true"',1,0,1),('borsh_skip:"true"',0,0,1),
  ('borsh_skip:"false" bin:"optional"',0,1,0),('bin:" big"',1,0,0),('bin:"big "',1,0,0),('bin:"big  optional"',1,1,0),('bin:"  optional   big "',1,1,0),('bin:""',0,0,0),('Bin:"big"',0,0,0),('binary:"-"',0,0,0),
  ('bin:"optional" bin2:"-"',0,1,0),('xbin:"-" bin:"big"',1,0,0)]:
    add(raw,bool(b),o,bool(s))
o=['''// Code generated by tools/gentags.py. DO NOT EDIT.

package h

import "github.com/gagliardetto/binary/zz_verif/sym"
''']
for i,(raw,b,q,s) in enumerate(T):
    o.append(f'type tg{i} struct {{\n\tA uint16\n\tF uint16 `{raw}`\n\tB uint16\n\tP *uint32 `{raw}`\n\tZ uint16\n}}\n')
o.append(f"const nTags = {len(T)}\n\n// mkTag draws a value of the k-th tag combination.\nfunc mkTag(b *B, k int) (v, dirty interface{{}}, kept func() bool) {{\n\tswitch k {{")
for i,(raw,b,q,s) in enumerate(T):
    bg="true" if b else "false"
    o.append(f"\tcase {i}: // {raw}\n\t\tx, y := &tg{i}{{}}, &tg{i}{{}}\n\t\ttagDraw(b, {bg}, {q}, {'true' if s else 'false'}, &x.A, &x.F, &x.B, &x.P, &x.Z)")
    if s:
        o.append(f"\t\ty.F, y.P = sym.U16(\"held\"), new(uint32)\n\t\tf, p := y.F, y.P\n\t\treturn x, y, func() bool {{ r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }}")
    else:
        o.append(f"\t\ty.F, y.P = 7, new(uint32)\n\t\treturn x, y, nil")
o.append("\t}\n\treturn nil, nil, nil\n}\n")
open('/verif/harness/h/tags.go','w').write("\n".join(o))
subprocess.run(["gofmt","-w","/verif/harness/h/tags.go"])
print(len(T))
