#!/usr/bin/env python3
# genconfig.py IN OUT [std]: macoro/config.h from the repository's CMake template.
import re,sys
v={'MACORO_CPP_20':'ON'}
if len(sys.argv)>3: v['MACORO_HAS_STD_STOP_TOKEN']='ON'
o=[]
for l in open(sys.argv[1]):
    m=re.match(r'\s*#\s*cmakedefine(01)?\s+(\w+)(.*)',l)
    if m:
        n=m.group(2)
        if m.group(1): o.append('#define %s %d\n'%(n,n in v))
        elif n in v: o.append('#define '+n+re.sub(r'@(\w+)@',lambda k:v.get(k.group(1),''),m.group(3))+'\n')
        else: o.append('/* #undef %s */\n'%n)
    else: o.append(re.sub(r'@(\w+)@',lambda k:v.get(k.group(1),''),l))
new=''.join(o)
try:
    if open(sys.argv[2]).read()==new: sys.exit()
except OSError: pass
open(sys.argv[2],'w').write(new)
