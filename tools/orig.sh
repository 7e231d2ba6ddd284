#!/bin/bash
# orig.sh FILE [FROM TO]: prints lines of /repo's FILE; '*' marks those my fixes changed
cd /repo; git blame -s b7be6b6.. -- $1 | python3 -c "
import sys
a,b=int('${2:-1}'),int('${3:-99999}')
for i,l in enumerate(sys.stdin,1):
    if a<=i<=b:
        print('%4d%s%s'%(i,' ' if l.startswith('^') else '*',l.split(') ',1)[1].rstrip() if ') ' in l else ''))"
