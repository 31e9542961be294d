import subprocess
M='''cbad5fd C17
1788d72 C16
25521b1 C16
5776297 C18
3361bf7 C18
1866c5e C28
d24692f C16
fce8b6a C06
29c1246 C09
0b7c664 C09
a9baf56 C31
727c953 C08
035737e C08
1d58608 C08
d70eae5 C25
3b8ca89 C25
b943515 C25
6fbf447 C23
59ab025 C23
d2374e8 C18
704070e C03
a100b1e C18
dc2d4d7 C05
aafc468 C31
303d67a C17
0f431dc C31
e54029c C31
f7fa690 C17
898f6e5 C31
212ec79 C01
61af827 C31
4d6d44c C17
4582b6b C02
8d3f98b C11
f13a494 C11
f3f1ee9 C18
e5762e6 C18
51ba77f C20
a5fc76f C05
8f57189 C07
336e23f C20
b7c9b26 C21
e61479d C20
80e6e90 C22
c13fb43 C13
a361f58 C21
21ac137 C25
a934e86 C03
23bf54f C22
4bd996c C20
0745171 C31
3ace0a3 C31
42e3468 C31
0318043 C31
474eae2 C18
09975a9 C18
a61e5d9 C18
317c07b C18
e570400 C17
7a61643 C17
ee5e79c C12
0ffb3c0 C28
7d3d329 C28
24d1a51 C28
9f80fc2 C16
0202d1b C16
c4a6f68 C09
ed58f37 C09
6682b3f C09
4046d7c C11
4461ee0 C11
fc82a5b C21'''
import sys
out=["# Known findings: defects of the code under analysis.",
"# A line 'KNOWN-FINDING: property=<id> key=<rule|construct> :: <what fails>' is reported and tolerated;",
"# a line 'fixed: property=<id> <commit> <what failed>' records a repair and suppresses nothing."]
try: old=[l for l in open('known_findings.txt') if l.startswith('KNOWN-FINDING')]
except Exception: old=[]
out+= [l.rstrip('\n') for l in old]
for l in M.split('\n'):
    c,p=l.split()
    s=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h %s',c],text=True).strip()
    h,m=s.split(' ',1)
    out.append(f"fixed: property={p} {h} (repaired by: {m[5:]})")
open('known_findings.txt','w').write('\n'.join(out)+'\n')
