#!/usr/bin/env python3
"""Snapshot of the MAVLink definitions the dialects implement, taken once from the repaired sources and then
checked against the MAVLink CRC_EXTRA rule (tools/crcx.py); the result is committed and never regenerated by a check."""
import re,glob,os
S={'uint8':1,'int8':1,'byte':1,'uint16':2,'int16':2,'uint32':4,'int32':4,'float32':4,'uint64':8,'int64':8,'float64':8}
out=['//go:build go1.21','','// Package spec is the committed snapshot of the MAVLink message definitions (see DESIGN.md).','package spec','',
'// Field is one field in wire order.','type Field struct {','\tName, Type string','\tN         int // elements of an array, 0 for a scalar','\tOff, Size int // first byte on the wire, bytes per element','\tExt       bool','}','',
'// Msg is one message definition.','type Msg struct {','\tID         uint32','\tName       string','\tRegistered bool','\tCRC        byte','\tMin, Max   int','\tVariable   bool // the last field has a variable length','\tText       []string','\tFields     []Field','}','',
'// Dialect is one dialect.','type Dialect struct {','\tPkg, Name string','\tMsgs      []Msg','}','']
idx=[]
for d in sorted(glob.glob('/repo/*/dialect.go')):
    pkg=os.path.basename(os.path.dirname(d))
    src=open(d).read()
    metas={int(a):(int(b),int(c),int(e)) for a,b,c,e in re.findall(r'^\t(\d+):\s+mavlink2.MessageMeta\{CRCExtra: (\d+), MinimumLength: (\d+), MaximumLength: (\d+)\}',src,re.M)}
    ms=[]
    for f in glob.glob(os.path.dirname(d)+'/*.go'):
        s=open(f).read()
        m=re.search(r'^type (\w+) struct \{(.*?)^\}',s,re.M|re.S)
        if not m or 'GetID() uint32' not in s: continue
        name=m.group(1)
        fs=re.findall(r'^\t(\w+) (\S+)$',m.group(2),re.M)
        fs=[x for x in fs if x[0] not in('HasExtensionFieldValues','PayloadLength') or (x[0]=='PayloadLength' and name!='V2Extension')]
        mid=int(re.search(r'GetID\(\) uint32 \{\s*return (\d+)',s).group(1))
        v1=int(re.search(r'getV1Length\(\) int \{\s*return (\d+)',s).group(1))
        gd=re.search(r'GetDialect\(\) string \{\s*return "(\w+)"',s).group(1)
        off=0; fl=[]
        for n,t in fs:
            mm=re.match(r'(?:\[(\d+)\])?(\w+)$',t); k=int(mm.group(1) or 0); z=S[mm.group(2)]
            fl.append((n,mm.group(2),k,off,z,off>=v1 and name!='V2Extension'))
            off+=max(k,1)*z
        reg=mid in metas
        c,mn,mx=metas.get(mid,(0,v1,off))
        assert mn==v1 and mx==off,(name,mn,v1,mx,off)
        text=[n for n in re.findall(r'^func \(m \*\w+\) Set(\w+)\(input string\)',s,re.M)]
        ms.append((mid,name,reg,c,mn,mx,name=='V2Extension',text,fl))
    ms.sort(key=lambda x:(x[0],x[1]))
    var='d_'+pkg.lower()
    idx.append(f'\t{{"{pkg}", "{gd}", {var}}},')
    out.append(f'var {var} = []Msg{{')
    for mid,name,reg,c,mn,mx,var_,text,fl in ms:
        b=lambda x:'true' if x else 'false'
        out.append(f'\t{{{mid}, "{name}", {b(reg)}, {c}, {mn}, {mx}, {b(var_)}, '+('[]string{'+', '.join('"%s"'%t for t in text)+'}' if text else 'nil')+', []Field{'+', '.join(f'{{"{n}", "{t}", {k}, {o}, {z}, {b(e)}}}' for n,t,k,o,z,e in fl)+'}},')
    out.append('}')
    out.append('')
out+=['// All lists the dialects.','var All = []Dialect{']+idx+['}','']
open('/verif/harness/spec/spec.go','w').write('\n'.join(out))
