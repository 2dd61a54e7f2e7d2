# Generates harness/h/arrays.go: arrays of many lengths and wide structs (array lengths cannot be chosen at run time).
N=list(range(0,35))+[63,64,65,127,128,129]
K=[("U8","uint8",1),("U16","uint16",2),("U32","uint32",4),("U64","uint64",8),("I8","int8",1),("I16","int16",2),("I32","int32",4),("I64","int64",8)]
o=['''// Code generated by tools/gensizes.py. DO NOT EDIT.

package h
''']
for n,t,w in K:
    o.append(f"type tArr{n} struct {{\n"+"".join(f"\tA{k} [{k}]{t}\n" for k in N)+"\tZ uint8\n}\n")
    o.append(f"func mkArr{n}(b *B) (interface{{}}, interface{{}}) {{\n\tv := &tArr{n}{{}}")
    for k in N:
        if k: o.append(f"\tfor i := range v.A{k} {{\n\t\tv.A{k}[i] = {t}(b.el(i, {k}, {w}))\n\t}}")
    o.append(f"\tv.Z = b.u8()\n\treturn v, &tArr{n}{{}}\n}}\n")
o.append("type tArrSt struct {\n"+"".join(f"\tA{k} [{k}]inner2\n\tB{k} [{k}]bool\n" for k in N)+"\tZ uint8\n}\n")
o.append("func mkArrSt(b *B) (interface{}, interface{}) {\n\tv := &tArrSt{}")
for k in N:
    if k: o.append(f"\tfor i := range v.A{k} {{\n\t\tv.A{k}[i].A = uint8(b.el(i, {k}, 1))\n\t}}\n\tfor i := range v.B{k} {{\n\t\tv.B{k}[i] = i%3 == 0\n\t\tif i == {k-1} {{\n\t\t\tv.B{k}[i] = b.boolean()\n\t\t}} else if v.B{k}[i] {{\n\t\t\tb.out = append(b.out, 1)\n\t\t}} else {{\n\t\t\tb.out = append(b.out, 0)\n\t\t}}\n\t}}")
o.append("\tv.Z = b.u8()\n\treturn v, &tArrSt{}\n}\n")
# wide struct: features repeated far beyond the 8th, 32nd, 64th and 256th field
o.append("type tWide struct {")
body=[]
W=300
i=0
while i<W:
    if i%7==2:
        o.append(f"\tF{i} uint16 `bin:\"big\"`"); body.append(f"\tv.F{i} = b.u16(true)")
    elif i%7==4:
        o.append(f"\tF{i} *uint8 `bin:\"optional\"`"); 
        if i%2: body.append(f"\tb.opt(false)")
        else: body.append(f"\tb.opt(true)\n\tv.F{i} = new(uint8)\n\t*v.F{i} = b.u8()")
    elif i%7==5:
        o.append(f"\tF{i} uint8 `bin:\"-\"`")
    elif i%7==6:
        o.append(f"\tN{i} uint16 `bin:\"sizeof=F{i}\"`\n\tM{i} uint8\n\tF{i} []uint8"); l=i%4
        body.append(f"\tv.N{i} = {l}\n\tb.out = append(b.out, {l}, 0)\n\tv.M{i} = b.u8()\n\tv.F{i} = b.arr({l})")
    elif i%7==1:
        o.append(f"\tF{i} string"); body.append(f"\tv.F{i} = b.str({i%3})")
    else:
        o.append(f"\tF{i} uint32"); body.append(f"\tv.F{i} = b.u32(false)")
    i+=1
o.append("}\n\nfunc mkWide(b *B) (interface{}, interface{}) {\n\tv := &tWide{}")
o+=body
o.append("\treturn v, &tWide{}\n}\n")
open('/verif/harness/h/arrays.go','w').write("\n".join(o))
import subprocess; subprocess.run(["gofmt","-w","/verif/harness/h/arrays.go"])
